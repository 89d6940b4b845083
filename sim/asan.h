#pragma once
#include <cstdint>
#include <cstddef>
extern bool shadow_on;                                             // libraries of flavour "asan" are in use
void shadow_init(); void shadow_set(const void* p, size_t n, uint8_t v); void shadow_clear_stack();
void shadow_range(uintptr_t a, unsigned n, bool w, void* pc);      // access_hook: block operations
