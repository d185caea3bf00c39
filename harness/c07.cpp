#define MAIN
// Entropy coders on arbitrary (not only transformed) blocks, arbitrary section partitions and starting points.
#include "bw.hpp"
#include "EntropyCoders.hpp"
#include "HuffmanCoders.hpp"
#include "WaveletCoders.hpp"
using namespace bw;

struct Blk { Bytes data; std::vector<bwtc::uint32> stats, lf; std::string d; bool transform; };

static std::vector<bwtc::uint32> genStats(pbt::Src& s, size_t n) {
  std::vector<bwtc::uint32> st; size_t left = n; unsigned mode = (unsigned)s.choice(5);
  pbt::Rng r(s.choice(1 << 20));
  if (mode == 0) { st.push_back(n); return st; }
  if (mode == 1) {   // sections just at the merging threshold
    while (left && st.size() < 255) { size_t k = std::min<size_t>(left, 9998 + r.below(5)); st.push_back(k); left -= k; }
  } else if (mode == 2) { while (left && st.size() < 255) { size_t k = r.below(left + 1); st.push_back(k); left -= k; } }
  else if (mode == 3) { size_t k0 = 1 + s.logRange(0, n); while (left && st.size() < 255) { size_t k = std::min(left, k0); st.push_back(k); left -= k; if (r.below(3) == 0 && st.size() < 255) st.push_back(0); } }
  else { size_t m = 2 + s.choice(253); while (left && st.size() < m) { size_t k = r.below(2 * left / (m - st.size() + 1) + 2); k = std::min(k, left); st.push_back(k); left -= k; } }
  if (left) st.push_back(left);
  if (s.chance(1, 4)) while (st.size() < 256) st.push_back(0);
  return st;
}
static std::vector<bwtc::uint32> genLF(pbt::Src& s) {
  unsigned n = genStarts(s); std::vector<bwtc::uint32> v; unsigned mode = (unsigned)s.choice(4); pbt::Rng r(s.choice(1 << 20));
  for (unsigned i = 0; i < n; ++i) v.push_back(mode == 0 ? (bwtc::uint32)i : mode == 1 ? (bwtc::uint32)(r.next() & 0x7fffffff) : mode == 2 ? 0x7fffffffu : (bwtc::uint32)(1u << r.below(31)));
  return v;
}
static void encodeOne(bwtc::EntropyEncoder* e, char coder, Blk& b, Bytes& out, MemOut& mo, size_t* ret) {
  *ret = 0;
  if (b.transform) {
    bwtc::BWTManager m(1); m.initialize('d'); m.setStartingPoints((bwtc::uint32)b.lf.size());
    b.data.push_back(0); bwtc::BWTBlock blk(&b.data[0], (bwtc::uint32)(b.data.size() - 1), false);
    *ret = e->transformAndEncode(blk, m, &mo); b.data.pop_back(); b.lf = blk.LFpowers(); return;
  }
  bwtc::BWTBlock blk(&b.data[0], (bwtc::uint32)b.data.size(), true); blk.LFpowers() = b.lf; std::vector<bwtc::uint32> st(b.stats);
  if (coder == 'H') { bwtc::HuffmanEncoder* h = static_cast<bwtc::HuffmanEncoder*>(e); h->writeBlockHeader(blk, st, &mo); h->encodeData(blk.begin(), st, (bwtc::uint32)blk.size(), &mo); h->finishBlock(&mo); }
  else { bwtc::WaveletEncoder* w = static_cast<bwtc::WaveletEncoder*>(e); w->writeBlockHeader(blk, st, &mo); w->encodeData(blk.begin(), st, &mo); w->finishBlock(&mo); }
}
static void sequence(pbt::Case& c, std::vector<Blk>& bs, char coder) {
  std::string d = strf("coder=%c blocks=%zu", coder, bs.size());
  for (size_t i = 0; i < bs.size() && i < 4; ++i) d += strf(" | len=%zu %s sections=%zu lf=%zu%s", bs[i].data.size(), bs[i].d.c_str(), bs[i].stats.size(), bs[i].lf.size(), bs[i].transform ? " (transformed)" : "");
  c.describe(d + " head=" + gen::hexHead(bs[0].data)); c.key(coder); c.label(strf("coder-%c", coder)); if (bs.size() > 1) c.label("coder-reused");
  for (size_t i = 0; i < bs.size(); ++i) { c.key(pbt::hashBytes(bs[i].data.data(), bs[i].data.size())); c.key(pbt::hashBytes(bs[i].stats.data(), bs[i].stats.size() * 4)); if (bs[i].stats.size() > 1 && bs[i].data.size() >= 20000) c.label("several-sections"); }
  size_t total = 0; for (size_t i = 0; i < bs.size(); ++i) total += bs[i].data.size(); c.nontrivial(total > 1);
  Bytes out; MemOut mo(&out); bwtc::EntropyEncoder* e = bwtc::giveEntropyEncoder(coder);
  unsigned sentinel = (unsigned)c.s.choice(256); std::vector<size_t> begin, end;
  { // connects the wavelet coder's bit encoder to the stream, as its first real block would
    Blk w; w.data.assign(1, 'x'); w.lf.assign(1, 0); w.transform = true; size_t r; encodeOne(e, coder, w, out, mo, &r); out.clear(); }
  for (size_t i = 0; i < bs.size(); ++i) {
    begin.push_back(out.size()); size_t ret; Bytes before = bs[i].data; encodeOne(e, coder, bs[i], out, mo, &ret); end.push_back(out.size());
    if (!bs[i].transform) PBT_CHECK(c, bs[i].data == before, "encoding changed the block itself");
    if (bs[i].transform) PBT_CHECK(c, ret == end[i] - begin[i], "encoder returned %zu, wrote %zu bytes", ret, end[i] - begin[i]);
    size_t f = 0; for (int k = 0; k < 6; ++k) f = f << 8 | out[begin[i] + k];
    PBT_CHECK(c, f == end[i] - begin[i] - 6, "length field of block %zu is %zu, %zu bytes follow it", i, f, end[i] - begin[i] - 6);
    out.push_back((unsigned char)(sentinel + i));
  }
  delete e;
  bwtc::EntropyDecoder* dec = bwtc::giveEntropyDecoder(coder); MemIn in(&out);
  for (size_t i = 0; i < bs.size(); ++i) {
    PBT_CHECK(c, in.pos() == begin[i], "decoder is at %zu before block %zu, expected %zu", in.pos(), i, begin[i]);
    Bytes buf(bs[i].data.size() + 64, 0xA5); bwtc::BWTBlock blk(&buf[0], 0, true); dec->decodeBlock(blk, &in);
    PBT_CHECK(c, in.pos() == end[i], "decoder stopped at %zu, block %zu ends at %zu", in.pos(), i, end[i]);
    PBT_CHECK(c, blk.size() == bs[i].data.size(), "block %zu: size %zu, expected %zu", i, blk.size(), bs[i].data.size());
    Bytes got(blk.begin(), blk.end()); PBT_CHECK(c, got == bs[i].data, "block %zu differs: %s", i, gen::firstDiff(bs[i].data, got).c_str());
    PBT_CHECK(c, blk.LFpowers() == bs[i].lf, "block %zu: starting points differ", i);
    for (size_t k = bs[i].data.size(); k < buf.size(); ++k) PBT_CHECK(c, buf[k] == 0xA5, "decoder wrote beyond the block");
    unsigned t = in.readByte(); PBT_CHECK(c, t == ((sentinel + i) & 255), "the byte after block %zu is read as %u, expected %u", i, t, (sentinel + (unsigned)i) & 255);
  }
  delete dec;
}
static Blk genBlk(pbt::Case& c, size_t maxLen) {
  Blk b; unsigned k = (unsigned)c.s.choice(6);
  if (k == 0 && maxLen > 300) b.data = gen::deepRuns(c.s, maxLen / 2, &b.d);
  else if (k == 1) { gen::segment(c.s, b.data, std::max<size_t>(1, gen::length(c.s, maxLen)), 9); b.d = "runs"; }
  else b.data = gen::bytes(c.s, std::max<size_t>(1, gen::length(c.s, maxLen)), &b.d);
  if (b.data.empty()) b.data.push_back(0);
  b.stats = genStats(c.s, b.data.size()); b.lf = genLF(c.s); b.transform = c.s.chance(1, 5);
  return b;
}
static char coderOf(pbt::Case& c) { return c.s.chance(1, 3) ? 'H' : kCoders[c.s.choice(6)]; }
PROPERTY(tiny, 80000, 1200000) {
  std::vector<Blk> bs; unsigned n = 1 + (unsigned)c.s.choice(4); char co = coderOf(c);
  for (unsigned i = 0; i < n; ++i) { Blk b; size_t l = 1 + c.s.choice(16); unsigned a = 1 + (unsigned)c.s.choice(6), base = c.s.chance(1, 3) ? 256 - a : 0; for (size_t k = 0; k < l; ++k) b.data.push_back((unsigned char)(base + c.s.choice(a))); b.d = "tiny"; b.stats = genStats(c.s, l); b.lf = genLF(c.s); b.transform = c.s.chance(1, 5); bs.push_back(b); }
  sequence(c, bs, co);
}
PROPERTY(small, 40000, 600000) { std::vector<Blk> bs; unsigned n = 1 + (unsigned)c.s.choice(5); char co = coderOf(c); for (unsigned i = 0; i < n; ++i) bs.push_back(genBlk(c, 3000)); sequence(c, bs, co); }
PROPERTY(medium, 6000, 100000) { std::vector<Blk> bs; unsigned n = 1 + (unsigned)c.s.choice(3); char co = coderOf(c); for (unsigned i = 0; i < n; ++i) bs.push_back(genBlk(c, 70000)); sequence(c, bs, co); }
// Codes far longer than 16 bits: needs many runs with Fibonacci-like counts.
PROPERTY(deep, 150, 3000) { std::vector<Blk> bs; Blk b; 
#ifdef __SANITIZE_ADDRESS__
  b.data = gen::deepRuns(c.s, 300000, &b.d);
#else
  b.data = gen::deepRuns(c.s, 1500000, &b.d);
#endif
  b.stats.push_back(b.data.size()); b.lf = genLF(c.s); b.transform = false; bs.push_back(b); sequence(c, bs, c.s.chance(3, 4) ? 'H' : kCoders[c.s.choice(6)]); }
// As many sections as the format can express.
PROPERTY(sections, 100, 2000) {
  Blk b; size_t k = 250 + c.s.choice(7); std::string d; size_t sec = 10000 + c.s.choice(3); pbt::Rng r(c.s.choice(1 << 20)); unsigned a = 1 + (unsigned)c.s.choice(256); unsigned rl = 1 + (unsigned)c.s.logRange(0, 3000);
#ifdef __SANITIZE_ADDRESS__
  rl += 300;   // keeps the instrumented run short
#endif
  for (size_t i = 0; i < k; ++i) { size_t n = sec + r.below(3); b.stats.push_back(n); size_t f = 0; while (f < n) { size_t l = std::min<size_t>(n - f, 1 + r.below(rl)); b.data.insert(b.data.end(), l, (unsigned char)(i + r.below(a))); f += l; } }
  b.d = strf("%zu sections of about %zu, runs<=%u", k, sec, rl); b.lf = genLF(c.s); b.transform = false; c.label(strf("sections-%zu", k)); std::vector<Blk> bs(1, b); sequence(c, bs, coderOf(c));
}
// Very long runs: gaps and run lengths with many bits.
PROPERTY(longruns, 150, 3000) {
  Blk b; size_t n = 1 + c.s.logRange(1000, 6000000); unsigned k = 1 + (unsigned)c.s.choice(6); for (unsigned i = 0; i < k; ++i) { size_t l = i + 1 == k ? n - std::min(n, b.data.size()) : c.s.logRange(0, n / 2); b.data.insert(b.data.end(), l, (unsigned char)c.s.choice(256)); }
  if (b.data.empty()) b.data.push_back(1); b.d = "longruns"; b.stats = genStats(c.s, b.data.size()); b.lf = genLF(c.s); b.transform = false; std::vector<Blk> bs(1, b); sequence(c, bs, coderOf(c));
}
// Blocks beyond 2^24 bytes, as the default memory setting allows: a few enormous runs, or one symbol far more frequent than all others.
PROPERTY(huge, 40, 200) {
  Blk b; size_t n = 16700000 + c.s.choice(c.thorough ? 120000000 : 30000000); unsigned k = 1 + (unsigned)c.s.choice(4), base = (unsigned)c.s.choice(256); pbt::Rng r(c.s.choice(1 << 24)); b.data.assign(n, (unsigned char)base);
  for (unsigned i = 1; i < k; ++i) { size_t p = r.below(n), l = 1 + r.below(r.below(2) ? 5 : n - p); std::fill(b.data.begin() + p, b.data.begin() + std::min(n, p + l), (unsigned char)r.below(256)); }
  b.d = strf("huge, %u edits", k - 1); if (c.s.chance(1, 2)) b.stats.assign(1, n); else { b.stats = genStats(c.s, n); } b.lf = genLF(c.s); b.transform = false; std::vector<Blk> bs(1, b); sequence(c, bs, coderOf(c));
}
// Codes of 33 and more bits.
PROPERTY(deeper, 6, 60) {
  bool most = c.s.chance(1, 2); size_t n = most ? 15000000 + c.s.choice(c.thorough ? 90000000 : 30000000) : 10000000 + c.s.choice(c.thorough ? 50000000 : 20000000); std::vector<Blk> bs; Blk b; b.data = gen::deepRuns(c.s, n, &b.d, most); b.stats.push_back(b.data.size()); b.lf = genLF(c.s); b.transform = false; bs.push_back(b);
  sequence(c, bs, c.s.chance(7, 8) ? 'H' : kCoders[c.s.choice(6)]);
}
// Hundreds of different run lengths, each occurring often enough to earn a codeword of its own.
PROPERTY(manyRuns, 60, 1500) {
  Blk b; unsigned distinct = 200 + (unsigned)c.s.choice(500), lo = 1 + (unsigned)c.s.logRange(0, 400), reps = 2 + (unsigned)c.s.logRange(0, 40), syms = 2 + (unsigned)c.s.choice(3), base = (unsigned)c.s.choice(253); pbt::Rng r(c.s.choice(1 << 24));
  std::vector<unsigned> lens; unsigned l = lo, step = 1 + (unsigned)c.s.choice(3); for (unsigned i = 0; i < distinct; ++i) { lens.push_back(l); l += 1 + r.below(step); }
  std::vector<unsigned> runs; bool skew = c.s.chance(1, 2); for (unsigned i = 0; i < distinct; ++i) { unsigned k = skew ? 1 + r.below(2 * reps) : reps; runs.insert(runs.end(), k, lens[i]); }
  for (size_t i = runs.size(); i > 1; --i) std::swap(runs[i - 1], runs[r.below(i)]);
  unsigned y = base; size_t cap = c.thorough ? 20000000 : 6000000;
  for (size_t i = 0; i < runs.size() && b.data.size() < cap; ++i) { unsigned z; do z = base + r.below(syms); while (z == y); y = z; b.data.insert(b.data.end(), runs[i], (unsigned char)y); }
  b.d = strf("%u run lengths from %u, about %u times each, %u symbols", distinct, lo, reps, syms); c.label("many-run-lengths"); b.stats.assign(1, b.data.size()); b.lf = genLF(c.s); b.transform = false; std::vector<Blk> bs(1, b); sequence(c, bs, c.s.chance(1, 4) ? 'H' : kCoders[c.s.choice(6)]);
}
