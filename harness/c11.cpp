#define MAIN
// Precompression: never longer, sizes exact, nothing outside the block touched.
#include "bw.hpp"
#define COMMA ,
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/PairReplacer.hpp"
#include "PrecompressorBlock.hpp"
using namespace bw;
static const size_t kGuard = 4096;
static unsigned char guardByte(size_t i) { return (unsigned char)(pbt::mix(i) >> 13); }
struct Guarded {   // a block between two guard zones
  Bytes b; size_t n; explicit Guarded(const Bytes& d, size_t room) : b(2 * kGuard + room), n(room) { for (size_t i = 0; i < b.size(); ++i) b[i] = guardByte(i); std::copy(d.begin(), d.end(), b.begin() + kGuard); }
  unsigned char* p() { return &b[kGuard]; }
  void check(pbt::Case& c, const char* what, unsigned round) const { for (size_t i = 0; i < kGuard; ++i) { PBT_CHECK(c, b[i] == guardByte(i), "%s, round %u: the byte %zu before the block was overwritten", what, round, kGuard - i); size_t j = kGuard + n + i; PBT_CHECK(c, b[j] == guardByte(j), "%s, round %u: the byte %zu after the block of %zu was overwritten", what, round, i + 1, n); } }
};
static void rounds(pbt::Case& c, const Bytes& in, unsigned n, const std::string& d) {
  c.describe(strf("rounds=%u len=%zu alphabet=%u shape=%s head=%s", n, in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(n);
  bwtc::Grammar g, g2; Bytes cur = in; bool did = false, grew = false; (void)grew;
  for (unsigned r = 0; r < n && cur.size() > 2; ++r) {
    bwtc::PairReplacer* pr = new bwtc::PairReplacer(g); pr->analyseData(&cur[0], cur.size()); pr->finishAnalysation(); size_t k = pr->decideReplacements(); did = did || k;
    Guarded inPlace(cur, cur.size()), dst(Bytes(), cur.size()); Guarded src(cur, cur.size());
    size_t a = pr->writeReplacedVersion(inPlace.p(), cur.size()); PBT_CHECK(c, a <= cur.size(), "in place, round %u: %zu bytes became %zu", r, cur.size(), a); inPlace.check(c, "in place", r);
    size_t b = pr->writeReplacedVersion(src.p(), cur.size(), dst.p()); PBT_CHECK(c, b <= cur.size(), "two buffers, round %u: %zu bytes became %zu", r, cur.size(), b); dst.check(c, "two buffers (destination)", r); src.check(c, "two buffers (source)", r);
    PBT_CHECK(c, std::equal(cur.begin(), cur.end(), src.b.begin() + kGuard), "round %u: the source buffer was modified", r);
    Bytes x(inPlace.p(), inPlace.p() + a), y(dst.p(), dst.p() + b); PBT_CHECK(c, x == y, "round %u: in place and into a second buffer differ: %s", r, gen::firstDiff(x, y).c_str());
    delete pr; cur = x;
  }
  c.nontrivial(did); if (did) c.label("replaced"); if (g.numberOfSpecialSymbols()) c.label("specials"); if (g.numberOfFreedSymbols() > 40) c.label("over-40-freed");
}
static void whole(pbt::Case& c, const Bytes& in, unsigned n, const std::string& d) {
  c.describe(strf("precompressor rounds=%u len=%zu alphabet=%u shape=%s head=%s", n, in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(n + 1000);
  bwtc::Precompressor pre(std::string(n, 'p')); MemIn mi(&in); size_t ask = in.size() + c.s.choice(3); bwtc::PrecompressorBlock* pb = pre.readBlock(ask, &mi);
  PBT_CHECK(c, pb->originalSize() == in.size(), "original size %zu reported for %zu bytes", pb->originalSize(), in.size()); PBT_CHECK(c, pb->size() <= in.size(), "%zu bytes became %zu", in.size(), pb->size());
  PBT_CHECK(c, (size_t)(pb->end() - pb->begin()) == pb->size(), "data of %zu bytes, size %zu", (size_t)(pb->end() - pb->begin()), pb->size());
  if (n == 0) PBT_CHECK(c, Bytes(pb->begin() COMMA pb->end()) == in, "no rounds requested, but the data changed");
  size_t bs = 1 + c.s.logRange(0, in.size() + 2); if (in.size() / bs > 2000) bs = in.size() / 2000 + 1; pb->sliceIntoBlocks(bs); size_t sum = 0; const bwtc::byte* at = pb->begin();
  for (size_t i = 0; i < pb->slices(); ++i) { bwtc::BWTBlock& s = pb->getSlice((int)i); PBT_CHECK(c, s.begin() == at && s.size() > 0 && s.size() <= bs, "slice %zu is not the next %zu bytes", i, bs); PBT_CHECK(c, i + 1 == pb->slices() || s.size() == bs, "slice %zu of %zu is short", i, pb->slices()); at += s.size(); sum += s.size(); }
  PBT_CHECK(c, sum == pb->size(), "slices hold %zu of %zu bytes", sum, pb->size());
  Bytes ser; MemOut mo(&ser); size_t h = pb->writeBlockHeader(&mo, PRECOMP_COMPRESSED_SIZE); PBT_CHECK(c, h == ser.size(), "header of %zu bytes reported as %zu", ser.size(), h); size_t v = 0; for (unsigned i = 0, sh = 0; i < ser.size(); ++i, sh += 7) { v |= (size_t)(ser[i] & 127) << sh; if (!(ser[i] & 128)) break; } PBT_CHECK(c, v == pb->size(), "stored size %zu, data has %zu", v, pb->size());
  c.nontrivial(pb->grammar().numOfRules() > 0); if (pb->size() < in.size()) c.label("shortened"); delete pb;
}
static void both(pbt::Case& c, const Bytes& in, unsigned n, const std::string& d) { if (c.s.chance(1, 2)) rounds(c, in, n, d); else whole(c, in, n, d); }
PROPERTY(tiny, 6000, 100000) { size_t n = 1 + c.s.choice(12); Bytes in; unsigned a = 1 + (unsigned)c.s.choice(4); for (size_t i = 0; i < n; ++i) in.push_back((unsigned char)(255 * c.s.choice(2) + c.s.choice(a))); both(c, in, (unsigned)c.s.choice(5), "tiny"); c.nontrivial(n > 2); }
PROPERTY(any, 800, 16000) { std::string d; Bytes in = gen::bytes(c.s, 1 + gen::length(c.s, 200000), &d); both(c, in, (unsigned)c.s.choice(5), d); }
PROPERTY(pairs, 1500, 30000) { std::string d; Bytes in = gen::pairRich(c.s, c.thorough ? 600000 : 150000, &d); both(c, in, 1 + (unsigned)c.s.choice(5), d); }
PROPERTY(triples, 60, 1200) { std::string d; Bytes in = gen::tripleRuns(c.s, &d); both(c, in, 1 + (unsigned)c.s.choice(3), d); }
PROPERTY(freedFront, 200, 2500) { std::string d; Bytes in = gen::freedFront(c.s, &d); both(c, in, 1 + (unsigned)c.s.choice(3), d); }
PROPERTY(specials, 800, 12000) { std::string d; Bytes in = gen::tightSpecials(c.s, &d); both(c, in, 1 + (unsigned)c.s.choice(3), d); }
PROPERTY(nested, 80, 1500) { std::string d; Bytes in = gen::longRules(c.s, 500000, &d); both(c, in, 8 + (unsigned)c.s.choice(18), d); }
