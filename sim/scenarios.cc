#include "scenario.h"
Scenario* make_scenario(const std::string& p) {
  int n = p.size() == 3 && p[0] == 'C' ? (p[1] - '0') * 10 + p[2] - '0' : 0;
  if (n >= 1 && n <= 3) return sc_net(p); if (n >= 4 && n <= 7) return sc_entropy(p);
  if (n == 8 || n == 9) return sc_threads(p);
  if (n == 10) return sc_buffers(p);
  if (n == 11 || n == 12) return sc_streams(p);
  if (n == 15) return sc_drbg(p); if (n == 16) return sc_kat(p);
  if (n == 13) return sc_link(p);
  if (n == 14) return sc_timing(p);
  if (n == 18) return sc_env(p);
  if (n == 17 || n == 19 || n == 20) return sc_xof(p);
  return nullptr; }
