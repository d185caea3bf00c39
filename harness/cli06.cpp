// "Compressed size is N" against the file on disk.
#include "cli.hpp"
#include "giant.hpp"
using namespace cli;
static bool num(const std::string& t, const char* after, size_t& v) { size_t p = t.find(after); if (p == std::string::npos) return false; p += strlen(after); while (p < t.size() && t[p] == ' ') ++p; if (p >= t.size() || !isdigit((unsigned char)t[p])) return false; v = strtoull(t.c_str() + p, 0, 10); return true; }
PROPERTY(archive4G, 1, 12) {
  Fmt f = genFmt(c.s); f.prepr = c.thorough && c.s.chance(1, 2) ? "p" : ""; static const unsigned mem[] = {20, 100, 200}; f.mem = mem[c.s.choice(3)]; unsigned long long n = 4294967296ULL + 1 + c.s.choice(150000000); Bytes p = genPattern(c.s, !c.thorough);
  c.describe(strf("compress %s, %llu bytes of period %zu", opts(f).c_str(), n, p.size())); c.key(n); c.nontrivial(true);
  Streamed r = stream(c, p, n, "'" + bin("compress") + "' " + opts(f), "'" + bin("uncompress") + "'"); size_t v; if (num(r.err1, "ompressed size is", v)) { PBT_CHECK(c, v == r.between, "reported compressed size %zu, written %zu", v, r.between); c.label("message-checked"); }
}
PROPERTY(preprocess4G, 2, 16) {
  static const unsigned bk[] = {100000, 300000, 1000000, 5000000}; unsigned b = c.thorough ? bk[c.s.choice(4)] : c.s.chance(1, 2) ? 100000 : 1000000; unsigned long long n = 4294967296ULL + 1 + c.s.choice(150000000), bs = b * 1024ULL; Bytes p = genPattern(c.s, false); unsigned k = (unsigned)c.s.choice(3);
  std::string o = strf("-b %u", b); if (k) o += " --prepr " + std::string(k, 'p'); c.describe(strf("preprocess %s, %llu bytes of period %zu", o.c_str(), n, p.size())); c.key(n); c.nontrivial(true);
  Streamed r = stream(c, p, n, "'" + bin("preprocess") + "' " + o, "'" + bin("postprocess") + "'"); size_t v, want = (n + bs - 1) / bs;
  if (num(r.err1, "Total size:", v)) { PBT_CHECK(c, v == n, "preprocess reports a total size of %zu for %llu bytes", v, n); c.label("total-checked"); } if (num(r.err1, "Read ", v)) PBT_CHECK(c, v == want, "preprocess reports %zu blocks instead of %zu", v, want); if (num(r.err2, "Read ", v)) PBT_CHECK(c, v == want, "postprocess reports %zu blocks instead of %zu", v, want);
}
PROPERTY(programs, 500, 8000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in; unsigned k = (unsigned)c.s.choice(6);
  if (k == 0) in = gen::pairRich(c.s, 150000, &d); else if (k == 1) in = gen::deepRuns(c.s, 40000, &d); else { std::vector<size_t> sp; sp.push_back(block(f)); in = gen::bytes(c.s, k < 4 ? gen::length(c.s, 3000) : gen::length(c.s, 500000, sp), &d); }
  std::string a = dir() + "/in", z = dir() + "/a"; put(a, in); bool so = c.s.chance(1, 2);
  std::string line = "compress -v 1 " + opts(f) + (so ? " -c " + a : " " + a + " " + z);
  c.describe(strf("compress -v 1 %s%s len=%zu shape=%s head=%s", opts(f).c_str(), so ? " -c" : "", in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string q = opts(f); c.key(pbt::hashBytes(q.data(), q.size())); } c.nontrivial(!in.empty());
  Res r = run(args(line)); PBT_CHECK(c, r.ok(), "compress failed: %s", r.show().c_str());
  size_t size; if (so) size = r.out.size(); else { Bytes g; PBT_CHECK(c, get(z, g), "no archive"); size = g.size(); }
  // the reported number: the last integer on a line that mentions the size
  size_t p = r.err.find("ompressed size"); if (p == std::string::npos) { c.label("no-message"); return; }
  size_t v = 0; bool any = false; for (; p < r.err.size() && r.err[p] != '\n'; ++p) if (isdigit((unsigned char)r.err[p])) { v = v * 10 + (r.err[p] - '0'); any = true; } else if (any) break;
  if (!any) { c.label("no-message"); return; }
  PBT_CHECK(c, v == size, "reported compressed size %zu, written %zu", v, size); c.label("message-checked");
}
// What preprocess and postprocess -v 1 say they read, against the input and the blocks it must be cut into.
PROPERTY(preprocess, 500, 8000) {
  static const unsigned bk[] = {1, 2, 10, 64, 1000, 100000}; unsigned b = bk[c.s.choice(6)]; size_t bs = b * (size_t)1024; std::string d; std::vector<size_t> sp; sp.push_back(bs); sp.push_back(2 * bs); sp.push_back(7 * bs);
  Bytes in = c.s.chance(1, 5) ? gen::pairRich(c.s, 60000, &d) : gen::bytes(c.s, gen::length(c.s, c.s.chance(1, 2) ? 5000 : 150000, sp), &d); std::string a = dir() + "/in", z = dir() + "/a", o = dir() + "/o"; put(a, in); std::string p(c.s.choice(4), 'p');
  std::string line = strf("preprocess -v 1 -b %u", b) + (p.empty() ? "" : " --prepr " + p); c.describe(strf("%s len=%zu shape=%s", line.c_str(), in.size(), d.c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(b * 10 + p.size()); c.nontrivial(!in.empty());
  Res r = run(args(line + " " + a + " " + z)); PBT_CHECK(c, r.ok(), "preprocess failed: %s", r.show().c_str()); size_t v, want = (in.size() + bs - 1) / bs;
  if (num(r.err, "Read ", v)) { PBT_CHECK(c, v == want, "preprocess reports %zu blocks, the input has %zu", v, want); c.label("blocks-checked"); }
  if (num(r.err, "Total size:", v)) { PBT_CHECK(c, v == in.size(), "preprocess reports a total size of %zu for %zu bytes", v, in.size()); c.label("total-checked"); }
  r = run(args("postprocess -v 1 " + z + " " + o)); PBT_CHECK(c, r.ok(), "postprocess failed: %s", r.show().c_str());
  if (num(r.err, "Read ", v)) PBT_CHECK(c, v == want, "postprocess reports %zu blocks, the input had %zu", v, want);
}
