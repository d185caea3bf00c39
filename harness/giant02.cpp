// Single blocks of 4 GiB: counts of symbols and pairs that need more than 32 bits.
#include "giant.hpp"
using namespace cli;
PROPERTY(giantBlock, 1, 10) {
  static const unsigned long long e[] = {0, 0, 1, 2, 1000, 0x80000000ULL}; unsigned long long n = 4294967296ULL + (c.thorough ? e[c.s.choice(6)] : 0);
  Bytes p = genPattern(c.s, !c.thorough || c.s.chance(1, 2)); std::string o = strf("-b %u --prepr %s", 6400000u, c.thorough && c.s.chance(1, 3) ? "pp" : "p"); c.describe(strf("preprocess %s, one block of %llu bytes of period %zu", o.c_str(), n, p.size())); c.key(n); c.key(p.size()); c.nontrivial(true);
  stream(c, p, n, "'" + bin("preprocess") + "' " + o, "'" + bin("postprocess") + "'");
}
