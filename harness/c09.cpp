#define MAIN
// Integer codes, Huffman code lengths and run statistics against independent references.
#include "bw.hpp"
#define COMMA ,
#include "Utils.hpp"
#include "WaveletTree.hpp"
#include "HuffmanCoders.hpp"
#include "WaveletCoders.hpp"
#include <map>
#include <queue>
#include <set>
using namespace bw;
typedef std::vector<bool> Bits;

struct BitIn {   // a bit vector as an input
  const Bits& b; size_t p; explicit BitIn(const Bits& x) : b(x), p(0) {}
  bool readBit() { if (p >= b.size()) throw pbt::Fail("decoder read more bits than were written"); return b[p++]; }
};
static u64 num(pbt::Src& s, unsigned maxBits) {   // any magnitude, biased to powers of two and of 128
  unsigned k = (unsigned)s.range(0, maxBits); u64 top = k == 0 ? 0 : (k >= 64 ? ~0ULL : (1ULL << k) - 1);
  u64 v; switch (s.choice(4)) { case 0: v = top; break; case 1: v = top ? top - s.choice(std::min<u64>(top, 3) + 1) : 0; break; case 2: v = top == ~0ULL ? top : std::min<u64>(top + s.choice(3), maxBits >= 64 ? ~0ULL : (1ULL << maxBits) - 1); break; default: v = s.choice(top + 1 ? top + 1 : 0); }
  return v;
}
static unsigned bitLen(u64 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }
static unsigned packedLen(u64 v) { unsigned n = bitLen(v); return n == 0 ? 1 : (n + 6) / 7; }

PROPERTY(packed, 900000, 6000000) {
  unsigned k = 1 + (unsigned)c.s.choice(6); std::vector<u64> v; std::string d; for (unsigned i = 0; i < k; ++i) { v.push_back(num(c.s, 56)); d += strf(" %llx", (unsigned long long)v.back()); c.key(v.back()); }
  c.describe("packed integers" + d); c.nontrivial(*std::max_element(v.begin(), v.end()) > 127);
  Bytes viaCoder, viaWavelet, raw; MemOut mo(&viaCoder), mw(&viaWavelet); Bits rev; bwtc::HuffmanEncoder he; bwtc::WaveletEncoder we('u');
  for (unsigned i = 0; i < k; ++i) {
    int n = -1; u64 p = utils::packInteger(v[i], &n);
    PBT_CHECK(c, n == (int)packedLen(v[i]), "%llx is said to need %d bytes, needs %u", (unsigned long long)v[i], n, packedLen(v[i]));
    PBT_CHECK(c, utils::unpackInteger(p) == v[i], "%llx unpacks to %llx", (unsigned long long)v[i], (unsigned long long)utils::unpackInteger(p));
    he.writePackedInteger(p, &mo); we.writePackedInteger(p, &mw);
    unsigned char buf[24]; memset(buf, 0x5a, sizeof buf); utils::writePackedInteger(p, buf);
    for (int j = n; j < 24; ++j) PBT_CHECK(c, buf[j] == 0x5a, "%llx: more than %d bytes written", (unsigned long long)v[i], n);
    raw.insert(raw.end(), buf, buf + n);
    for (int j = 0; j < n; ++j) PBT_CHECK(c, buf[j] == (((v[i] >> 7 * j) & 0x7f) | (j + 1 < n ? 0x80 : 0)), "%llx: byte %d is %02x", (unsigned long long)v[i], j, buf[j]);
    utils::pushBitsRev(rev, p, 8 * n);
    if (v[i]) {
      memset(buf, 0x5a, sizeof buf); unsigned w = utils::packAndWriteInteger(v[i], buf); u64 back = 0; PBT_CHECK(c, w == (unsigned)n && buf[w] == 0x5a, "packAndWriteInteger(%llx) returned %u", (unsigned long long)v[i], w);
      bwtc::uint64 b2 = 0; unsigned r = utils::readAndUnpackInteger(buf, &b2); back = b2; PBT_CHECK(c, r == w && back == v[i], "readAndUnpackInteger(%llx) gave %llx, %u bytes", (unsigned long long)v[i], (unsigned long long)back, r);
    }
  }
  PBT_CHECK(c, viaCoder == raw && viaWavelet == raw, "the coders' writers disagree with the packed form");
  MemIn a(&viaCoder), b(&viaWavelet), e(&raw); bwtc::HuffmanDecoder hd; bwtc::WaveletDecoder wd('u'); BitIn rb(rev);
  for (unsigned i = 0; i < k; ++i) {
    PBT_CHECK(c, utils::unpackInteger(hd.readPackedInteger(&a)) == v[i] && utils::unpackInteger(wd.readPackedInteger(&b)) == v[i], "number %u read back wrongly by a coder", i);
    size_t n = 0, r = utils::readPackedInteger(e, n); PBT_CHECK(c, r == v[i] && n == packedLen(v[i]), "number %u read back as %zx in %zu bytes", i, r, n);
    r = utils::readPackedIntegerRev(rb, n); PBT_CHECK(c, r == v[i] && n == packedLen(v[i]), "number %u (reversed bits) read back as %zx in %zu bytes", i, r, n);
  }
  PBT_CHECK(c, a.pos() == raw.size() && b.pos() == raw.size() && e.pos() == raw.size() && rb.p == rev.size(), "not all bytes consumed");
}
PROPERTY(logs, 150000, 3000000) {
  u64 v = num(c.s, 64); if (!v) v = 1; uint32_t w = (uint32_t)num(c.s, 32); if (!w) w = 1; c.describe(strf("logarithms of %llx and %x", (unsigned long long)v, w)); c.key(v); c.key(w); c.nontrivial(v > 1);
  PBT_CHECK(c, utils::logFloor((unsigned long)v) == bitLen(v) - 1, "logFloor(%llx)=%u", (unsigned long long)v, utils::logFloor((unsigned long)v));
  PBT_CHECK(c, utils::logFloor((unsigned)w) == bitLen(w) - 1, "logFloor(%x)=%u", w, utils::logFloor((unsigned)w));
  size_t q = (size_t)(v >> 34) + 1; PBT_CHECK(c, utils::logCeiling(q) == bitLen(q - 1), "logCeiling(%zx)=%u", q, utils::logCeiling(q));
  PBT_CHECK(c, utils::mostSignificantBit(w) == 1u << (bitLen(w) - 1), "mostSignificantBit(%x)", w);
  uint32_t h = w & 0xffff; if (h) PBT_CHECK(c, utils::mostSignificantBit16(h) == 1u << (bitLen(h) - 1), "mostSignificantBit16(%x)", h);
}
// Codes with a length determined by the value: gamma, fixed, unary, bounded binary.  Several numbers in a row.
PROPERTY(prefixcodes, 300000, 2000000) {
  typedef bwtc::WaveletTree<Bits> WT; unsigned k = 1 + (unsigned)c.s.choice(6); std::string d; Bits bits; std::vector<std::vector<u64> > v; 
  for (unsigned i = 0; i < k; ++i) {
    unsigned kind = (unsigned)c.s.choice(5); std::vector<u64> e(1, kind); size_t at = bits.size();
    if (kind == 0) { u64 n = std::max<u64>(1, num(c.s, 40)); e.push_back(n); WT::gammaCode(bits, n); PBT_CHECK(c, bits.size() - at == 2 * bitLen(n) - 1, "gamma code of %llx has %zu bits", (unsigned long long)n, bits.size() - at); }
    else if (kind == 1) { u64 n = std::max<u64>(1, num(c.s, 31)); unsigned w = (unsigned)c.s.choice(16); e.push_back(n); e.push_back(w); WT::fixedIntegerCode(bits, n, w); unsigned B = bitLen(n - 1 + (1ULL << w)) - 1 - w;
      PBT_CHECK(c, bits.size() - at == 2 * B + w + 1 && WT::lengthOfFixedCode(n, w) == 2 * B + w + 1, "fixed code of %llx, w=%u has %zu bits (%u stated)", (unsigned long long)n, w, bits.size() - at, WT::lengthOfFixedCode(n, w)); }
    else if (kind == 2) { u64 n = 1 + num(c.s, 9); e.push_back(n); utils::unaryCode(bits, n); PBT_CHECK(c, bits.size() - at == n, "unary code of %llu has %zu bits", (unsigned long long)n, bits.size() - at); }
    else if (kind == 3) { u64 lo = num(c.s, 29), len = num(c.s, 30), n = lo + c.s.choice(len + 1); e.push_back(lo); e.push_back(lo + len); e.push_back(n); utils::binaryCode(n, lo, lo + len, bits); unsigned L = bitLen(len);
      PBT_CHECK(c, bits.size() - at <= L && bits.size() - at + 1 >= L, "number in a range of %llx took %zu bits", (unsigned long long)len + 1, bits.size() - at); }
    else { unsigned w = (unsigned)c.s.range(1, 60); u64 n = num(c.s, w); e.push_back(w); e.push_back(n); utils::pushBits(bits, n, (size_t)w); PBT_CHECK(c, bits.size() - at == w, "pushBits wrote %zu bits", bits.size() - at); }
    v.push_back(e); d += " ["; for (size_t j = 0; j < e.size(); ++j) { c.key(e[j]); d += strf("%llx ", (unsigned long long)e[j]); } d += "]";
  }
  c.describe("kind(0 gamma,1 fixed,2 unary,3 bounded,4 plain) values:" + d); c.nontrivial(bits.size() > 4);
  BitIn in(bits);
  for (size_t i = 0; i < v.size(); ++i) {
    u64 got = 0, want = v[i].back();
    switch (v[i][0]) {
      case 0: { unsigned B = 0; while (in.readBit()) ++B; got = 1; while (B--) got = got << 1 | in.readBit(); break; }
      case 1: { unsigned w = (unsigned)v[i][2], B = 0; want = v[i][1]; while (in.readBit()) ++B; u64 y = 0; for (unsigned q = 0; q < w + B; ++q) y = y << 1 | in.readBit(); got = y + 1 + (((1ULL << B) - 1) << w); break; }
      case 2: got = utils::unaryDecode(in); break;
      case 3: { size_t p0 = in.p; got = utils::binaryDecode(in, v[i][1], v[i][2]); size_t used = in.p - p0; BitIn again(bits); again.p = p0; size_t br = 0; u64 g2 = utils::binaryDecode(again, v[i][1], v[i][2], &br); PBT_CHECK(c, g2 == got && br == used && again.p == in.p, "the two bounded decoders disagree (%zu bits counted, %zu read)", br, used); break; }
      default: for (unsigned q = 0; q < v[i][1]; ++q) got = got << 1 | in.readBit();
    }
    PBT_CHECK(c, got == want, "number %zu read back as %llx", i, (unsigned long long)got);
  }
  PBT_CHECK(c, in.p == bits.size(), "%zu of %zu bits consumed", in.p, bits.size());
}
template <class I> static void interp(pbt::Case& c, const std::vector<I>& l, size_t maxV) {
  Bits bits; utils::binaryInterpolativeCode(l, maxV, bits); size_t n = bits.size(); bits.push_back(true); BitIn in(bits); std::vector<I> r; size_t br = utils::binaryInterpolativeDecode(r, in, maxV, l.size());
  PBT_CHECK(c, r == l, "list of %zu numbers up to %zu read back differently", l.size(), maxV); PBT_CHECK(c, br == n && in.p == n, "%zu bits written, %zu counted, %zu read", n, br, in.p);
  size_t w = bitLen(maxV); PBT_CHECK(c, n <= l.size() * std::max<size_t>(w, 1), "code longer than plain binary");
}
PROPERTY(interpolative, 150000, 1200000) {
  bool bytes = c.s.chance(1, 2); size_t maxV = bytes ? (c.s.chance(1, 3) ? 255 : c.s.choice(256)) : num(c.s, 30); pbt::Rng r(c.s.choice(1 << 24)); std::set<size_t> st; size_t lim = std::min<size_t>(maxV + 1, 3000);
  size_t n = 1 + (size_t)c.s.choice(3) * 0; n = c.s.chance(1, 4) ? lim : 1 + (size_t)c.s.choice(lim); bool dense = c.s.chance(1, 2); size_t base = dense ? r.below(maxV + 1) : 0;
  if (n == maxV + 1) for (size_t i = 0; i <= maxV; ++i) st.insert(i);
  else { for (size_t t = 0; st.size() < n && t < 6 * n; ++t) st.insert(dense ? std::min(maxV, base + r.below(n + 2)) : r.below(maxV + 1)); if (c.s.chance(1, 3)) st.insert(maxV); if (c.s.chance(1, 3)) st.insert(0); }
  std::vector<size_t> l(st.begin(), st.end()); c.describe(strf("%zu of 0..%zu, %s", l.size(), maxV, dense ? "dense" : "spread")); c.key(pbt::hashBytes(l.data(), l.size() * sizeof(size_t))); c.key(maxV); c.nontrivial(l.size() > 1 && l.size() <= maxV);
  if (bytes) interp(c, std::vector<unsigned char>(l.begin(), l.end()), maxV); else if (c.s.chance(1, 2)) interp(c, std::vector<bwtc::uint32>(l.begin(), l.end()), maxV); else interp(c, l, maxV);
}
// ---- Huffman ----
static u64 bestCost(const std::vector<u64>& f) {   // minimal sum of frequency x length
  if (f.size() == 1) return f[0];
  std::priority_queue<u64, std::vector<u64>, std::greater<u64> > q(f.begin(), f.end()); u64 cost = 0;
  while (q.size() > 1) { u64 a = q.top(); q.pop(); a += q.top(); q.pop(); cost += a; q.push(a); }
  return cost;
}
static void checkLengths(pbt::Case& c, const std::map<u64, u64>& freq, const std::map<u64, u64>& len, const char* what) {
  std::vector<u64> f; u64 cost = 0; unsigned mx = 0;
  for (std::map<u64, u64>::const_iterator i = freq.begin(); i != freq.end(); ++i) { f.push_back(i->second); std::map<u64, u64>::const_iterator j = len.find(i->first); PBT_CHECK(c, j != len.end() && j->second > 0, "%s: symbol %llu has no code", what, (unsigned long long)i->first); cost += i->second * j->second; mx = std::max(mx, (unsigned)j->second); }
  PBT_CHECK(c, len.size() == freq.size(), "%s: %zu codes for %zu symbols", what, len.size(), freq.size());
  PBT_CHECK(c, cost == bestCost(f), "%s: total length %llu, the minimum is %llu", what, (unsigned long long)cost, (unsigned long long)bestCost(f));
  if (freq.size() > 1) {   // Kraft's equality, exact
    PBT_CHECK(c, mx < 256, "%s: code of %u bits", what, mx); std::vector<u64> n(mx + 1, 0); for (std::map<u64, u64>::const_iterator j = len.begin(); j != len.end(); ++j) ++n[j->second];
    for (unsigned k = mx; k > 0; --k) { PBT_CHECK(c, n[k] % 2 == 0, "%s: Kraft's equality fails", what); n[k - 1] += n[k] / 2; } PBT_CHECK(c, n[0] == 1, "%s: Kraft's equality fails", what);
  } else PBT_CHECK(c, mx == 1, "%s: single symbol has code of %u bits", what, mx);
}
static std::vector<u64> genFreqs(pbt::Src& s, size_t n, std::string* d) {
  std::vector<u64> f; unsigned m = (unsigned)s.choice(7); pbt::Rng r(s.choice(1 << 24)); u64 mx = 1 + s.logRange(0, 1ULL << 40); static const char* nm[] = {"uniform", "equal", "fibonacci", "powers", "few values", "geometric", "ties"}; *d = nm[m]; u64 a = 1, b = 1; u64 few = 1 + s.choice(4); bool noise = s.chance(1, 3);
  for (size_t i = 0; i < n; ++i) { u64 x; switch (m) { case 0: x = 1 + r.below(mx); break; case 1: x = mx; break; case 2: { x = a; if (a < 1ULL << 48) { u64 t = a + b; a = b; b = t; } break; } case 3: x = 1ULL << (i % 48); break; case 4: x = 1 + r.below(few); break; case 5: x = 1 + (mx >> (i % 40)); break; default: x = i % 3 ? a : a * 2; if (i % 5 == 0 && a < 1ULL << 44) a += r.below(3); }
    if (noise && r.below(5) == 0) x += r.below(3); f.push_back(x); }
  if (s.chance(1, 2)) for (size_t i = n; i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
  return f;
}
PROPERTY(huffman, 150000, 1200000) {
  size_t n = c.s.chance(1, 5) ? 256 : 1 + (size_t)c.s.logRange(0, 255); std::string d; std::vector<u64> fr = genFreqs(c.s, n, &d); bool gaps = c.s.chance(2, 3); std::map<u64, u64> freq; pbt::Rng r(c.s.choice(1 << 20));
  std::vector<unsigned> pos; for (unsigned i = 0; i < 256; ++i) pos.push_back(i); if (gaps) for (unsigned i = 256; i > 1; --i) std::swap(pos[i - 1], pos[r.below(i)]);
  bwtc::uint64 a[256] = {0}; for (size_t i = 0; i < n; ++i) { a[pos[i]] = fr[i]; freq[pos[i]] = fr[i]; }
  c.describe(strf("%zu symbols, %s frequencies", n, d.c_str())); c.key(pbt::hashBytes(a, sizeof a)); c.nontrivial(n > 2); c.label(d);
  std::vector<std::pair<bwtc::uint64, bwtc::uint32> > cl; utils::calculateHuffmanLengths(cl, a); std::map<u64, u64> len; bwtc::uint32 clen[256] = {0}, code[256];
  for (size_t i = 0; i < cl.size(); ++i) { len[cl[i].second] = cl[i].first; clen[cl[i].second] = cl[i].first; } PBT_CHECK(c, len.size() == cl.size(), "a symbol has two codes"); checkLengths(c, freq, len, "code lengths");
  utils::computeHuffmanCodes(clen, code);
  std::vector<unsigned> s; for (std::map<u64, u64>::iterator i = freq.begin(); i != freq.end(); ++i) s.push_back((unsigned)i->first);
  for (size_t i = 0; i < s.size(); ++i) { if (clen[s[i]] < 32) PBT_CHECK(c, (code[s[i]] >> clen[s[i]]) == 0, "code of symbol %u is longer than its length", s[i]);
    for (size_t j = 0; j < s.size(); ++j) if (i != j && clen[s[i]] <= clen[s[j]]) { unsigned sh = clen[s[j]] - clen[s[i]]; bwtc::uint32 pre = sh < 32 ? code[s[j]] >> sh : 0; PBT_CHECK(c, pre != code[s[i]], "code of symbol %u is a prefix of that of %u", s[i], s[j]); } }
}
PROPERTY(huffman_integers, 40000, 250000) {   // larger alphabets, names, presorted and allocating variants
  size_t n = 1 + (size_t)c.s.logRange(0, 3000); std::string d; std::vector<u64> fr = genFreqs(c.s, n, &d); std::vector<bwtc::uint32> names; bwtc::uint32 x = 0; pbt::Rng r(c.s.choice(1 << 20)); for (size_t i = 0; i < n; ++i) { x += 1 + (bwtc::uint32)r.below(1000); names.push_back(x); }
  unsigned variant = (unsigned)c.s.choice(3); c.describe(strf("%zu named symbols, %s frequencies, variant %u", n, d.c_str(), variant)); c.key(pbt::hashBytes(fr.data(), n * 8)); c.key(variant); c.nontrivial(n > 2); std::map<u64, u64> freq, len; std::vector<std::pair<bwtc::uint64, bwtc::uint32> > cl;
  if (variant == 0) { if (c.s.chance(1, 2)) for (size_t i = 0; i < n; i += 3) if (n > 1 && i) fr[i] = 0; std::vector<bwtc::uint64> f(fr.begin(), fr.end()); for (size_t i = 0; i < n; ++i) if (fr[i]) freq[names[i]] = fr[i]; utils::calculateHuffmanLengths(cl, &f[0], names); }
  else { for (size_t i = 0; i < n; ++i) { cl.push_back(std::make_pair(fr[i], names[i])); freq[names[i]] = fr[i]; } if (variant == 2) std::sort(cl.begin(), cl.end()); utils::calculateCodeLengths(cl, 0, variant == 2); }
  for (size_t i = 0; i < cl.size(); ++i) len[cl[i].second] = cl[i].first; checkLengths(c, freq, len, "code lengths");
}
// ---- statistics of runs ----
struct Runs { std::map<u64, u64> sym; std::map<bwtc::uint32, bwtc::uint32> lens; std::vector<std::pair<unsigned char, u64> > seq; };
static Runs naive(const Bytes& b) { Runs r; for (size_t i = 0; i < b.size();) { size_t j = i; while (j < b.size() && b[j] == b[i]) ++j; ++r.sym[b[i]]; ++r.lens[j - i]; r.seq.push_back(std::make_pair(b[i], (u64)(j - i))); i = j; } return r; }
static void stats(pbt::Case& c, Bytes b) {
  Runs n = naive(b); Bytes src(b); 
  bwtc::uint64 f1[256] = {0}, f2[256] = {0}, f3[256] = {0}; std::map<bwtc::uint32, bwtc::uint32> runs; std::vector<unsigned char> rs(b.size() + 1, 0xEE); std::vector<bwtc::uint32> rl(b.size() + 1, 0xEEEEEEEE);
  utils::calculateRunFrequencies(f1, &src[0], src.size()); size_t t = utils::calculateRunsAndCharacters(f2, &src[0], src.size(), runs); u64 u = utils::calculateRunFrequenciesAndStoreRuns(f3, &rs[0], &rl[0], &src[0], src.size());
  for (unsigned s = 0; s < 256; ++s) { u64 w = n.sym.count(s) ? n.sym[s] : 0; PBT_CHECK(c, f1[s] == w && f2[s] == w && f3[s] == w, "symbol %u has %llu runs; counted %llu, %llu, %llu", s, (unsigned long long)w, (unsigned long long)f1[s], (unsigned long long)f2[s], (unsigned long long)f3[s]); }
  PBT_CHECK(c, t == n.seq.size() && u == n.seq.size(), "%zu runs counted as %zu and %llu", n.seq.size(), t, (unsigned long long)u);
  PBT_CHECK(c, std::map<u64 COMMA u64>(runs.begin(), runs.end()) == std::map<u64 COMMA u64>(n.lens.begin(), n.lens.end()), "distribution of run lengths differs");
  for (size_t i = 0; i < n.seq.size(); ++i) PBT_CHECK(c, rs[i] == n.seq[i].first && rl[i] == n.seq[i].second, "run %zu stored as %u x %u", i, rs[i], rl[i]);
  PBT_CHECK(c, src == b, "statistics changed the data");
}
// What the coders themselves write: the code lengths in the stream must be optimal for the runs of the section.
static void shape(pbt::Case& c, BitIn& in, bool rev, const Runs& n, const char* what) {
  size_t maxSym = 0, k = 0, q; for (int i = 0; i < 8; ++i) maxSym = maxSym << 1 | in.readBit(); for (int i = 0; i < 8; ++i) k = k << 1 | in.readBit(); if (!k) k = 256;
  size_t maxLen = rev ? utils::readPackedIntegerRev(in, q) : utils::readPackedInteger(in, q); std::vector<unsigned char> al; utils::binaryInterpolativeDecode(al, in, maxSym, k); std::map<u64, u64> len; for (size_t i = 0; i < k; ++i) len[al[i]] = maxLen + 1 - utils::unaryDecode(in); checkLengths(c, n.sym, len, what);
}
static void coders(pbt::Case& c, Bytes b) {
  Runs n = naive(b); { bwtc::WaveletTree<Bits> t(&b[0], b.size()); Bits v; t.treeShape(v); BitIn in(v); shape(c, in, true, n, "wavelet tree shape"); }
  Bytes out; MemOut mo(&out); bwtc::HuffmanEncoder e; bwtc::BWTBlock blk(&b[0], (bwtc::uint32)b.size(), true); blk.LFpowers().assign(1, 7); std::vector<bwtc::uint32> st(1, (bwtc::uint32)b.size()); e.writeBlockHeader(blk, st, &mo); e.encodeData(&b[0], st, (bwtc::uint32)b.size(), &mo); e.finishBlock(&mo);
  MemIn in(&out); in.read48bits(); bwtc::BWTBlock hb; hb.readHeader(&in); bwtc::HuffmanDecoder hd; PBT_CHECK(c, in.readByte() == 1, "one section expected"); PBT_CHECK(c, utils::unpackInteger(hd.readPackedInteger(&in)) == b.size(), "section length differs");
  u64 runs = utils::unpackInteger(hd.readPackedInteger(&in)); PBT_CHECK(c, runs == n.seq.size(), "%llu runs stored, the section has %zu", (unsigned long long)runs, n.seq.size());
  Bits v; for (size_t i = in.pos(); i < out.size(); ++i) for (int j = 7; j >= 0; --j) v.push_back(out[i] >> j & 1); BitIn bi(v); shape(c, bi, false, n, "stored Huffman code lengths");
  // and the coded part has exactly the minimal size
  size_t at = in.pos() + (bi.p + 7) / 8; std::vector<u64> f; for (std::map<u64, u64>::const_iterator i = n.sym.begin(); i != n.sym.end(); ++i) f.push_back(i->second); u64 g = 0; for (size_t i = 0; i < n.seq.size(); ++i) g += 2 * bitLen(n.seq[i].second) - 1;
  PBT_CHECK(c, out.size() - at == (bestCost(f) + 7) / 8 + (g + 7) / 8, "runs take %zu bytes, their codes %llu+%llu bits", out.size() - at, (unsigned long long)bestCost(f), (unsigned long long)g);
}
static void both(pbt::Case& c, const Bytes& b, const std::string& d) { c.describe(strf("%zu bytes, %s head=%s", b.size(), d.c_str(), gen::hexHead(b).c_str())); c.key(pbt::hashBytes(b.data(), b.size())); c.nontrivial(b.size() > 2); stats(c, b); coders(c, b); }
PROPERTY(runs_tiny, 200000, 1200000) { Bytes b; size_t n = 1 + c.s.choice(24); unsigned a = 1 + (unsigned)c.s.choice(4), base = c.s.chance(1, 4) ? 256 - a : 0; for (size_t i = 0; i < n; ++i) b.push_back((unsigned char)(base + c.s.choice(a))); both(c, b, "tiny"); }
PROPERTY(runs, 25000, 160000) { std::string d; Bytes b; if (c.s.chance(1, 3)) b = gen::deepRuns(c.s, 10000, &d); else b = gen::bytes(c.s, 1 + gen::length(c.s, 20000), &d); both(c, b, d); }
PROPERTY(runs_deep, 200, 1500) { std::string d; Bytes b = gen::deepRuns(c.s, 1000000, &d); both(c, b, d); }
