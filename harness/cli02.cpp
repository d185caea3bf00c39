// preprocess and postprocess as programs.
#include "cli.hpp"
using namespace cli;
static Bytes gIn(pbt::Case& c, std::string& d) {
  switch (c.s.choice(8)) {
    case 0: { size_t n = gen::length(c.s, 5000); return gen::bytes(c.s, n, &d); }
    case 1: { std::vector<size_t> sp; sp.push_back(1024); sp.push_back(10240); sp.push_back(102400); size_t n = gen::length(c.s, 200000, sp); return gen::bytes(c.s, n, &d); }
    case 2: return c.s.chance(1, 3) ? gen::freedFront(c.s, &d) : gen::tightSpecials(c.s, &d);
    default: return gen::pairRich(c.s, c.thorough ? 600000 : 200000, &d);
  }
}
static void rt(pbt::Case& c, const Bytes& in, const std::string& d, unsigned fixed = 0) {
  std::string a = dir() + "/in", z = dir() + "/pre", o = dir() + "/out"; put(a, in);
  static const unsigned bk[] = {1, 0, 2, 10, 50, 100, 150, 1000, 20000}; unsigned b = c.s.chance(1, 5) ? (unsigned)(in.size() / 1024 / (1 + c.s.choice(4)) + c.s.choice(2)) : bk[c.s.choice(9)]; if (fixed) b = std::max(b, 80u);
  std::string line = strf("preprocess -b %u", b); unsigned rounds = fixed ? fixed : (unsigned)c.s.choice(6); if (rounds) line += " --prepr " + std::string(rounds, 'p');
  if (c.s.chance(1, 6)) line += strf(" --escape %d", (int)c.s.choice(2)); if (c.s.chance(1, 6)) line += strf(" -v %d", (int)c.s.choice(4));
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", line.c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); c.key(pbt::hashBytes(line.data(), line.size()));
  size_t bs = (b ? b : 1) * (size_t)1024; if (in.size() > bs) c.label("multi-block"); if (!in.empty() && in.size() % bs == 0) c.label("ends-on-block-boundary");
  c.nontrivial(!in.empty() && rounds > 0);
  Res r = run(cat(args(line), args(a + " " + z))); PBT_CHECK(c, r.ok(), "preprocess failed: %s", r.show().c_str());
  r = run(args("postprocess " + std::string(c.s.chance(1, 6) ? "-v 2 " : "") + z + " " + o)); PBT_CHECK(c, r.ok(), "postprocess failed: %s", r.show().c_str());
  Bytes out; PBT_CHECK(c, get(o, out), "no output file"); PBT_CHECK(c, out == in, "round trip differs: %s", gen::firstDiff(in, out).c_str());
  Bytes pre; get(z, pre); if (pre.size() < in.size()) c.label("shrunk");
}
PROPERTY(tools, 1500, 20000) { std::string d; Bytes in = gIn(c, d); rt(c, in, d); }
PROPERTY(toolsNested, 60, 900) { std::string d; Bytes in = gen::longRules(c.s, 600000, &d); rt(c, in, d, 8 + (unsigned)c.s.choice(18)); }
PROPERTY(toolsTiny, 600, 8000) { std::string d; size_t n = c.s.choice(8); Bytes in = gen::bytes(c.s, n, &d); rt(c, in, d); }
PROPERTY(toolsBlocks, 300, 6000) { size_t k = 1 + c.s.choice(5); long e = (long)c.s.choice(3) - 1; std::string d; Bytes in = gen::bytes(c.s, k * 1024 + e, &d); rt(c, in, d); }
