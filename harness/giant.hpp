#ifndef GIANT_HPP
#define GIANT_HPP
#include "cli.hpp"
namespace cli {
// More than 2^32 bytes streamed through a program and its inverse: nothing is stored, the result is compared on the fly.
struct Streamed { std::string err1, err2; size_t between; };
inline Streamed stream(pbt::Case& c, const Bytes& pattern, unsigned long long n, const std::string& first, const std::string& second) {
  std::string d = dir(), pat = d + "/pat"; Bytes big; while (big.size() < (1u << 20)) big.insert(big.end(), pattern.begin(), pattern.end()); put(pat, big); std::string q = "'";
  std::string sh = strf("g(){ while cat '%s'; do :; done 2>/dev/null | head -c %llu; }; ", pat.c_str(), n) + "g | " + first + " -i -c -v 1 2>'" + d + "/e1' | tee '" + d + "/fifo' | " + second + " -i -c -v 1 2>'" + d + "/e2' | cmp - <(g) >'" + d + "/cmp' 2>&1; echo ${PIPESTATUS[1]} ${PIPESTATUS[3]} ${PIPESTATUS[4]} >'" + d + "/st'; wait";
  std::string script = d + "/run.sh"; sh = "trap 'kill 0' TERM; mkfifo '" + d + "/fifo'; wc -c <'" + d + "/fifo' >'" + d + "/wc' & " + sh; put(script, Bytes(sh.begin(), sh.end())); unlink((d + "/st").c_str()); unlink((d + "/fifo").c_str());
  int st = system(("timeout -k 5 270 bash '" + script + "' </dev/null").c_str()); unlink((d + "/fifo").c_str()); Bytes b; Streamed r; int a = -1, z = -1, m = -1;
  if (st == -1 || !WIFEXITED(st) || WEXITSTATUS(st) >= 124 || !get(d + "/st", b)) throw pbt::Inconclusive("the pipeline did not finish");
  sscanf(std::string(b.begin(), b.end()).c_str(), "%d %d %d", &a, &z, &m); get(d + "/e1", b); r.err1.assign(b.begin(), b.end()); get(d + "/e2", b); r.err2.assign(b.begin(), b.end()); get(d + "/cmp", b); std::string cm(b.begin(), b.end()); get(d + "/wc", b); r.between = strtoull(std::string(b.begin(), b.end()).c_str(), 0, 10);
  if (a == 137 || z == 137 || r.err1.find("bad_alloc") != std::string::npos || r.err2.find("bad_alloc") != std::string::npos) throw pbt::Inconclusive("out of memory");
  PBT_CHECK(c, m <= 1 && m >= 0, "the comparison failed: %s", cm.c_str());
  PBT_CHECK(c, a == 0 || a == 141, "%s ended with status %d: %s", first.c_str(), a, r.err1.substr(0, 300).c_str()); PBT_CHECK(c, z == 0 || (z == 141 && m == 1), "%s ended with status %d: %s", second.c_str(), z, r.err2.substr(0, 300).c_str());
  PBT_CHECK(c, m == 0 && a == 0, "%s | %s does not restore %llu bytes: %s", first.c_str(), second.c_str(), n, cm.c_str()); return r;
}
inline Bytes genPattern(pbt::Src& s, bool runs) { Bytes b; if (runs || s.chance(1, 3)) { b.push_back((unsigned char)s.choice(256)); return b; } unsigned n = 2 + (unsigned)s.choice(30), al = 1 + (unsigned)s.choice(8); pbt::Rng r(s.choice(1 << 20)); for (unsigned i = 0; i < n; ++i) b.push_back((unsigned char)('a' + r.below(al))); return b; }
}  // namespace cli
#endif
