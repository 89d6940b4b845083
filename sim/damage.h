#pragma once
#include "core.h"
std::string damage(Bytes& b, const std::vector<const Bytes*>& others);   // one tape-chosen corruption; never the identity
