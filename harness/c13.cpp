// Truncated archives.
#include "cli.hpp"
using namespace cli;
struct Arc { Bytes a; bool pre; };
static Bytes make(const std::string& line, const Bytes& in) {
  std::string a = dir() + "/m_in", z = dir() + "/m_out"; put(a, in); Res r = run(args(line + " " + a + " " + z)); if (!r.ok()) throw pbt::Fail(line + " failed: " + r.show());
  Bytes out; if (!get(z, out)) throw pbt::Fail("no archive"); return out;
}
static Bytes genIn(pbt::Case& c, size_t cap, const Fmt& f, std::string& d) {
  unsigned k = (unsigned)c.s.choice(6); if (k == 0 && cap > 3000) return gen::pairRich(c.s, std::min<size_t>(cap, 80000), &d); if (k == 1 && cap > 3000) return gen::deepRuns(c.s, std::min<size_t>(cap / 3, 20000), &d);
  std::vector<size_t> sp; sp.push_back(block(f)); sp.push_back(2 * block(f)); return gen::bytes(c.s, gen::length(c.s, cap, sp), &d);
}
static Arc genArc(pbt::Case& c, size_t cap) {
  Arc r; Fmt f = genFmt(c.s); if (f.mem > 3) f.mem = 1; std::string d, line; r.pre = c.s.chance(1, 4); Bytes in = genIn(c, cap, f, d);
  if (r.pre) { static const unsigned bk[] = {1, 2, 10, 64, 1000}; line = strf("preprocess -b %u", bk[c.s.choice(5)]); if (c.s.chance(2, 3)) line += " --prepr " + std::string(1 + c.s.choice(3), 'p'); }
  else line = "compress " + opts(f);
  r.a = make(line, in); c.describe(strf("%s, %zu input bytes (%s), archive of %zu bytes", line.c_str(), in.size(), d.c_str(), r.a.size())); c.key(pbt::hashBytes(r.a.data(), r.a.size())); c.key(r.pre);
  c.label(r.pre ? "postprocess" : strf("uncompress coder-%c", f.enc)); return r;
}
static void cut(pbt::Case& c, const Arc& a, size_t k, unsigned chan) {
  Bytes b(a.a.begin(), a.a.begin() + k); std::string z = dir() + "/cut", o = dir() + "/o"; const char* prog = a.pre ? "postprocess" : "uncompress"; In si; Out so; std::string line = prog; Limits l; l.cpu = 40;
  if (chan & 1) { line += " -i"; si = In::pipe(&b, std::vector<size_t>(), false); } else { put(z, b); line += " " + z; }
  if (chan & 2) { line += " -c"; so = Out::toFile(o); } else line += (chan & 1) ? " --output-file " + o : " " + o;
  Res r = run(args(line), si, so, l);
  PBT_CHECK(c, !r.cpuLimit, "%s hangs on the first %zu of %zu bytes", prog, k, a.a.size());
  PBT_CHECK(c, !r.ok(), "%s reported success on the first %zu of %zu bytes of an archive", prog, k, a.a.size());
  PBT_CHECK(c, r.exited(), "%s on the first %zu of %zu bytes of an archive: %s", prog, k, a.a.size(), r.show().c_str());
}
PROPERTY(everyCut, 220, 3000) {
  Arc a = genArc(c, 300); unsigned chan = (unsigned)c.s.choice(4); size_t n = a.a.size(); c.nontrivial(n > 2); c.describe(strf("every cut (channel %u)", chan));
  for (size_t k = 0; k < n && k < 500; ++k) cut(c, a, k, chan);
  for (size_t k = 500; k < n; k += 1 + c.s.choice(20)) cut(c, a, k, chan);
}
PROPERTY(someCuts, 420, 6000) {
  Arc a = genArc(c, 500000); size_t n = a.a.size(); c.nontrivial(n > 300);
  for (unsigned t = 0; t < 12; ++t) {
    size_t k; switch (c.s.choice(4)) { case 0: k = c.s.choice(n); break; case 1: k = n - 1 - c.s.choice(std::min<size_t>(n, 12)); break; case 2: { static const size_t b[] = {0, 1, 2, 5, 8, 9, 14, 65535, 65536, 65537, 131072}; k = b[c.s.choice(11)]; if (k >= n) k = c.s.choice(n); break; } default: k = c.s.choice(std::min<size_t>(n, 600)); }
    cut(c, a, k, (unsigned)c.s.choice(4));
  }
}
// Cuts at and next to block boundaries, which is where a reader could mistake the rest for a whole archive.
PROPERTY(boundaryCuts, 200, 3000) {
  static const char* e = "BHMmbu"; Arc a; a.pre = c.s.chance(1, 3); std::string d, line; size_t blk; unsigned nb = 2 + (unsigned)c.s.choice(4);
  std::string pr = c.s.chance(1, 2) ? " --prepr " + std::string(1 + c.s.choice(2), 'p') : "";
  if (a.pre) { line = "preprocess -b 1" + pr; blk = 1024; } else { line = strf("compress -m 1 -e %c -s %u", e[c.s.choice(6)], 1 + (unsigned)c.s.choice(256)) + pr; blk = pr.empty() ? 185000 : 740000; if (blk > 200000) nb = 2; }
  size_t len = blk * nb - c.s.choice(2) * c.s.choice(blk); size_t one = std::min<size_t>(blk, 20000); Bytes in = gen::bytes(c.s, one, &d); size_t w = in.size(); if (w == 0) in.push_back(7), w = 1; while (in.size() < len) in.push_back(in[in.size() - w]);
  a.a = make(line, in); size_t n = a.a.size(); c.describe(strf("%s, %zu input bytes, archive of %zu bytes, cuts at block boundaries", line.c_str(), in.size(), n)); c.key(pbt::hashBytes(a.a.data(), n)); c.nontrivial(true); c.label(a.pre ? "postprocess" : "uncompress");
  // archives of whole-block prefixes are prefixes of the archive except for the end marker
  for (unsigned t = 1; t < nb; ++t) {
    Bytes part(in.begin(), in.begin() + std::min(in.size(), t * blk)); Bytes p = make(line, part); size_t b = p.size() - 1;
    for (int q = -2; q <= 2; ++q) { size_t k = b + q; if (k < n && part.size() < in.size()) cut(c, a, k, (unsigned)c.s.choice(4)); }
  }
  cut(c, a, n - 1, (unsigned)c.s.choice(4));
}
