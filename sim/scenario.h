#pragma once
#include <string>
struct Scenario { virtual ~Scenario() {} virtual void load() = 0; virtual void run() = 0; virtual double cpu_limit() { return 20; } };
Scenario* make_scenario(const std::string& prop);
Scenario* sc_net(const std::string&); Scenario* sc_entropy(const std::string&); Scenario* sc_threads(const std::string&); Scenario* sc_buffers(const std::string&);
Scenario* sc_streams(const std::string&); Scenario* sc_link(const std::string&); Scenario* sc_timing(const std::string&); Scenario* sc_drbg(const std::string&); Scenario* sc_kat(const std::string&); Scenario* sc_xof(const std::string&); Scenario* sc_env(const std::string&);
