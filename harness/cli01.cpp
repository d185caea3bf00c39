// Round trips through the programs themselves.
#include "cli.hpp"
using namespace cli;

static Bytes gIn(pbt::Case& c, const Fmt& f, size_t cap, std::string& d) {
  std::vector<size_t> sp; sp.push_back(block(f)); sp.push_back(2 * block(f));
  unsigned k = (unsigned)c.s.choice(8);
  if (k == 7) return gen::pairRich(c.s, std::min<size_t>(cap, 200000), &d);
  if (k == 6) return gen::deepRuns(c.s, std::min<size_t>(cap / 3, 100000), &d);
  size_t n = k < 3 ? gen::length(c.s, std::min<size_t>(cap, 20000)) : gen::length(c.s, cap, sp);
  return gen::bytes(c.s, n, &d);
}
static void rt(pbt::Case& c, const Bytes& in, const Fmt& f, const std::string& d) {
  static const char al[] = {'d', 's', 'a'};
  std::string a = dir() + "/in", z = dir() + "/arc", o = dir() + "/out"; put(a, in);
  std::string line = "compress " + opts(f); if (c.s.chance(2, 3)) line += strf(" --bwt %c", al[c.s.choice(3)]);
  if (c.s.chance(1, 4)) line += strf(" -v %d", (int)c.s.choice(in.size() <= 600 ? 10 : 5));
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", line.c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); c.key(pbt::hashBytes(line.data(), line.size()));
  c.nontrivial(in.size() > 0); c.label(strf("coder-%c", f.enc)); if (!f.prepr.empty()) c.label("precompressed"); if (in.size() > block(f)) c.label("multi-block");
  if (f.mem >= 1000) c.label("huge-memory-limit");
  Res r = run(cat(args(line), args(a + " " + z)));
  PBT_CHECK(c, r.ok(), "compress failed: %s", r.show().c_str());
  r = run(args("uncompress " + (c.s.chance(1, 4) ? strf("-v %d ", (int)c.s.choice(in.size() <= 600 ? 10 : 5)) : std::string()) + z + " " + o));
  PBT_CHECK(c, r.ok(), "uncompress failed: %s", r.show().c_str());
  Bytes out; PBT_CHECK(c, get(o, out), "no output file");
  PBT_CHECK(c, out == in, "round trip differs: %s", gen::firstDiff(in, out).c_str());
}
PROPERTY(programs, 2500, 40000) { Fmt f = genFmt(c.s, true); std::string d; Bytes in = gIn(c, f, f.mem >= 1000 ? 5000 : 500000, d); rt(c, in, f, d); }
PROPERTY(programsSmall, 4000, 60000) { Fmt f = genFmt(c.s); f.mem = 1; std::string d; size_t n = gen::length(c.s, 600); Bytes in = gen::bytes(c.s, n, &d); rt(c, in, f, d); }
