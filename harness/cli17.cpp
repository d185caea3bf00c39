// Resident memory of the programs on short and long inputs.
#include "cli.hpp"
using namespace cli;
static void putCycle(const std::string& f, const Bytes& cyc, size_t total) {
  FILE* p = fopen(f.c_str(), "wb"); if (!p) throw pbt::Inconclusive("cannot create scratch file"); bool ok = true;
  for (size_t at = 0; at < total; at += cyc.size()) { size_t k = std::min(cyc.size(), total - at); ok = ok && fwrite(&cyc[0], 1, k, p) == k; }
  if (fclose(p) || !ok) throw pbt::Inconclusive("cannot write scratch file");
}
static long rss(pbt::Case& c, const std::string& line, const In& in, const Out& out) { Res r = run(args(line), in, out); PBT_CHECK(c, r.ok(), "%s failed: %s", line.c_str(), r.show().c_str()); return r.maxrssKB; }
PROPERTY(programs, 60, 1000) {
  Fmt f = genFmt(c.s); f.mem = 1; if (c.s.chance(1, 2)) f.enc = 'H'; size_t blk = block(f); std::string d; bool noise = c.s.chance(1, 3); Bytes cyc; if (noise) { pbt::Rng r(c.s.choice(1 << 20)); cyc.resize(blk); for (size_t i = 0; i < blk; ++i) cyc[i] = (unsigned char)r.next(); d = "noise"; } else cyc = gen::bytes(c.s, 1 + c.s.choice(60000), &d);
  unsigned few = 6, many = f.prepr.empty() ? 44 : 18; bool pre = c.s.chance(1, 4); unsigned chan = (unsigned)c.s.choice(6); std::string pl = strf("preprocess -b %u", 64) + (c.s.chance(1, 2) ? " --prepr p" : ""); if (pre) { blk = 65536; many = 160; }
  std::string C = pre ? pl : "compress " + opts(f), D = pre ? "postprocess" : "uncompress"; c.describe(strf("%s: %u and %u blocks of %zu bytes, channel %u, shape=%s head=%s", C.c_str(), few, many, blk, chan, d.c_str(), gen::hexHead(cyc).c_str())); c.key(pbt::hashBytes(cyc.data(), cyc.size())); c.key(pbt::hashBytes(C.data(), C.size())); c.key(chan); c.nontrivial(true);
  long m[2][2]; std::string a = dir() + "/in", z = dir() + "/arc", o = dir() + "/out";
  for (int t = 0; t < 2; ++t) {
    putCycle(a, cyc, blk * (t ? many : few)); In si; Out so; std::string l = C; if (chan & 1) { l += " -i"; si = In::fromFile(a); } else l += " " + a; if (chan & 2) { l += " -c"; so = Out::toFile(z); } else if (chan & 4) { l += " -c"; unlink(z.c_str()); so = Out::toFile(z, true); } else l += (chan & 1) ? " --output-file " + z : " " + z; m[0][t] = rss(c, l, si, so);
    l = D; In s2; Out o2; if (chan & 1) { l += " -i"; s2 = In::fromFile(z); } else l += " " + z; if (chan & 2) { l += " -c"; o2 = Out::toFile(o); } else if (chan & 4) { l += " -c"; unlink(o.c_str()); o2 = Out::toFile(o, true); } else l += (chan & 1) ? " --output-file " + o : " " + o; m[1][t] = rss(c, l, s2, o2);
  }
  for (int t = 0; t < 2; ++t) PBT_CHECK(c, m[t][1] <= m[t][0] + 2000, "%s: %ld KB resident for %u blocks, %ld KB for %u blocks", t ? D.c_str() : C.c_str(), m[t][0], few, m[t][1], many);
}
