// The archive depends on the input and the format options only.
#define MAIN
#include "bw.hpp"
#include <malloc.h>
using namespace bw;
struct Quiet { std::streambuf* a; std::streambuf* b; std::stringstream s; Quiet() : a(std::clog.rdbuf()), b(std::cerr.rdbuf()) { std::clog.rdbuf(s.rdbuf()); std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::clog.rdbuf(a); std::cerr.rdbuf(b); } };

static __attribute__((noinline)) void dirtyStack(unsigned char v) { volatile unsigned char buf[200000]; for (size_t i = 0; i < sizeof buf; ++i) buf[i] = v; }
static Bytes gIn(pbt::Case& c, const Opt& o, size_t cap, std::string& d) {
  size_t b = std::max<size_t>(1, approxBlock(o));
  switch (c.s.choice(6)) {
    case 0: return gen::pairRich(c.s, std::min<size_t>(cap, 120000), &d);
    case 1: return gen::deepRuns(c.s, std::min<size_t>(cap / 2, 40000), &d);
    default: { std::vector<size_t> sp; sp.push_back(b); sp.push_back(2 * b); size_t n = gen::length(c.s, std::min(cap, 6 * b + 2), sp); return gen::bytes(c.s, n, &d); }
  }
}
static void same(pbt::Case& c, const Bytes& in, Opt o, const std::string& d, bool file) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); }
  c.nontrivial(in.size() > 1); if (in.size() > approxBlock(o)) c.label("multi-block"); if (!o.prepr.empty()) c.label("precompressed");
  bwtc::verbosity = 0; mallopt(M_PERTURB, 0); o.algo = 'd';
  Bytes ref = compressMem(in, o);
  unsigned runs = 2 + (unsigned)c.s.choice(3);
  for (unsigned k = 0; k < runs; ++k) {
    static const char al[] = {'s', 'd', 'a'}; o.algo = al[k < 2 ? k : c.s.choice(3)]; int verb = c.s.chance(1, 3) ? (int)c.s.choice(5) : 0;
    unsigned char fill = (unsigned char)(1 + c.s.choice(255)); bool history = c.s.chance(1, 3);
    std::string what = strf("bwt=%c verbosity=%d heap fill=%u%s", o.algo, verb, fill, history ? " after another compression" : "");
    if (history) { Opt q = genOpt(c.s, 64, 60000, 2); if (!q.prepr.empty()) q.mem = std::max<size_t>(q.mem, 600); std::string dd; Bytes other = gen::bytes(c.s, gen::length(c.s, 4000), &dd); compressMem(other, q); c.label("history"); }
    mallopt(M_PERTURB, fill); dirtyStack(fill);
    Bytes got; { Quiet q; bwtc::verbosity = verb; got = file && k == 0 ? compressFile(in, o, pbt::scratchDir()) : compressMem(in, o); bwtc::verbosity = 0; }
    PBT_CHECK(c, got == ref, "archive differs from the one with bwt=d (%s): %s", what.c_str(), gen::firstDiff(ref, got).c_str());
  }
  Bytes out1 = decompressMem(ref), out2; { Quiet q; bwtc::verbosity = 1 + (int)c.s.choice(4); mallopt(M_PERTURB, (int)(1 + c.s.choice(255))); out2 = decompressMem(ref); bwtc::verbosity = 0; }
  PBT_CHECK(c, out1 == out2, "decompression depends on the verbosity: %s", gen::firstDiff(out1, out2).c_str());
}
PROPERTY(small, 3500, 60000) { Opt o = genOpt(c.s, 64, 20000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 600); std::string d; Bytes in = gIn(c, o, 3000, d); capBlocks(o, in.size(), 40); same(c, in, o, d, c.s.chance(1, 4)); }
PROPERTY(medium, 350, 8000) { Opt o = genOpt(c.s, 30000, 1500000, 3); std::string d; Bytes in = gIn(c, o, 150000, d); capBlocks(o, in.size(), 40); same(c, in, o, d, c.s.chance(1, 2)); }
PROPERTY(large, 6, 200) { Opt o = genOpt(c.s, 2000000, 30000000, 2); std::string d; size_t n = c.s.range(200000, c.thorough ? 6000000 : 1500000); Bytes in = gen::bytes(c.s, n, &d); same(c, in, o, d, true); }
// Objects reused for several compressions one after the other.
PROPERTY(interleaved, 400, 8000) {
  Opt o = genOpt(c.s, 200, 40000, 2); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 600); unsigned n = 2 + (unsigned)c.s.choice(3);
  std::vector<Bytes> in(n), want(n); std::string d;
  for (unsigned i = 0; i < n; ++i) in[i] = gen::bytes(c.s, gen::length(c.s, 6000), &d);
  c.describe(strf("%s inputs=%u last=%zu shape=%s", show(o).c_str(), n, in[n - 1].size(), d.c_str())); for (unsigned i = 0; i < n; ++i) c.key(pbt::hashBytes(in[i].data(), in[i].size())); c.nontrivial();
  // a fresh process would compress input i first
  for (unsigned i = n; i-- > 0;) want[i] = compressMem(in[i], o);
  for (unsigned i = 0; i < n; ++i) { Bytes g = compressMem(in[i], o); PBT_CHECK(c, g == want[i], "archive of input %u depends on what was compressed before: %s", i, gen::firstDiff(want[i], g).c_str()); }
}
