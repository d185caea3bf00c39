#define MAIN
#include "bw.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/BWTransform.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "bwtransforms/MtlSaInverseBWT.hpp"
#include "BWTBlock.hpp"
#include <numeric>
using namespace bw;
typedef bwtc::uint32 u32;

// Reference suffix array by prefix doubling (text with an implicit unique smallest end marker).
static std::vector<int> suffixArray(const Bytes& t) {
  int n = (int)t.size() + 1;
  std::vector<int> sa(n), rk(n), tmp(n);
  for (int i = 0; i < n; ++i) { sa[i] = i; rk[i] = i + 1 < n ? t[i] + 1 : 0; }
  for (int k = 1;; k *= 2) {
    auto cmp = [&](int a, int b) { if (rk[a] != rk[b]) return rk[a] < rk[b]; int x = a + k < n ? rk[a + k] : -1, y = b + k < n ? rk[b + k] : -1; return x < y; };
    std::sort(sa.begin(), sa.end(), cmp);
    tmp[sa[0]] = 0; for (int i = 1; i < n; ++i) tmp[sa[i]] = tmp[sa[i - 1]] + (cmp(sa[i - 1], sa[i]) ? 1 : 0);
    rk = tmp; if (rk[sa[n - 1]] == n - 1) break;
  }
  return sa;
}

// Checks a transformed block against its definition.  t = reversed original; L = transformed bytes
// with the end-of-block row removed the way blocks store it (the last row's byte moved into its place).
static void verifyTransform(pbt::Case& c, const Bytes& t, const Bytes& stored, const std::vector<u32>& lf, const char* who, bool definition) {
  size_t n = t.size(), rows = n + 1;
  PBT_CHECK(c, !lf.empty() && lf[0] < rows && lf[0] > 0, "%s: end-of-block row %u of %zu", who, lf.empty() ? 0u : lf[0], rows);
  u32 eob = lf[0];
  Bytes L(rows); std::copy(stored.begin(), stored.end(), L.begin()); if (eob < n) { L[n] = stored[eob]; } L[eob] = 0;
  // LF walk
  std::vector<u32> cnt(257, 0); cnt[0] = 1;
  for (size_t i = 0; i < rows; ++i) if (i != eob) ++cnt[L[i] + 1];
  std::partial_sum(cnt.begin(), cnt.end(), cnt.begin());
  std::vector<u32> LF(rows); std::vector<u32> next(cnt.begin(), cnt.end() - 1);
  for (size_t i = 0; i < rows; ++i) LF[i] = i == eob ? 0 : next[L[i]]++;
  size_t starts = lf.size(), bs = rows / starts;
  u32 pos = 0;   // row of the end marker; walking LF spells t backwards
  for (size_t k = 0; k < n; ++k) {
    PBT_CHECK(c, pos != eob, "%s: transform is not a single cycle (ends after %zu of %zu)", who, k, n);
    PBT_CHECK(c, L[pos] == t[n - 1 - k], "%s: not the Burrows-Wheeler transform (character %zu from the end)", who, k);
    pos = LF[pos];
  }
  PBT_CHECK(c, pos == eob, "%s: walk does not end at the end-of-block row", who);
  // starting points: row after j*bs steps from the end-of-block row
  std::vector<u32> want(starts); u32 p = eob; size_t j = 0;
  for (size_t k = 0; j < starts && k <= n; ++k) { while (j < starts && j * bs == k) want[j++] = p; p = LF[p]; }
  for (size_t k = 0; k < starts; ++k) PBT_CHECK(c, lf[k] == want[k], "%s: starting point %zu of %zu is %u, should be %u (block %zu)", who, k, starts, lf[k], want[k], n);
  if (definition) {
    std::vector<int> sa = suffixArray(t);
    for (size_t i = 0; i < rows; ++i) {
      if (sa[i] == 0) PBT_CHECK(c, i == eob, "%s: end-of-block row is %u, sorting gives %zu", who, eob, i);
      else PBT_CHECK(c, L[i] == t[sa[i] - 1], "%s: row %zu differs from the sorted order", who, i);
    }
  }
}

static Bytes gIn(pbt::Case& c, size_t max, std::string& d) {
  size_t n = std::max<size_t>(1, gen::length(c.s, max)); return gen::bytes(c.s, n, &d);
}

static void checkBlock(pbt::Case& c, const Bytes& in, unsigned starts, bool definition, bool bothInverse) {
  Bytes t(in.rbegin(), in.rend());
  unsigned char guard = (unsigned char)c.s.choice(256); size_t off = c.s.choice(4);
  Bytes first; std::vector<u32> lf1; int par = in.size() > 100000 ? (int)c.s.choice(2) : 0;
  const char algos[] = {'d', 's'};
  for (int a = 0; a < 2; ++a) for (int withFreq = 0; withFreq < 2; ++withFreq) {
    if (in.size() > 100000 && (withFreq + a + par) % 2) continue;
    Bytes buf(off + in.size() + 1, guard); std::copy(in.begin(), in.end(), buf.begin() + off);
    bwtc::BWTBlock blk(&buf[off], (u32)in.size(), false);
    bwtc::BWTManager m(1); m.initialize(algos[a]); m.setStartingPoints(starts);
    std::vector<u32> fr(256, 0);
    if (withFreq) m.doTransform(blk, &fr[0]); else m.doTransform(blk);
    std::string who = strf("%c%s", algos[a], withFreq ? "+freq" : "");
    PBT_CHECK(c, blk.isTransformed(), "%s: block not marked transformed", who.c_str());
    PBT_CHECK(c, buf[off + in.size()] == guard, "%s: byte after the block changed", who.c_str());
    for (size_t i = 0; i < off; ++i) PBT_CHECK(c, buf[i] == guard, "%s: byte before the block changed", who.c_str());
    size_t want = in.size() <= 256 ? 1 : std::min<unsigned>(std::max(1u, starts), 256);
    PBT_CHECK(c, blk.LFpowers().size() == want, "%s: %zu starting points for %u requested, block %zu", who.c_str(), blk.LFpowers().size(), starts, in.size());
    Bytes st(buf.begin() + off, buf.begin() + off + in.size());
    if (first.empty()) { verifyTransform(c, t, st, blk.LFpowers(), who.c_str(), definition); first = st; lf1 = blk.LFpowers(); }
    else { PBT_CHECK(c, st == first, "%s: transform differs from d: %s", who.c_str(), gen::firstDiff(first, st).c_str()); PBT_CHECK(c, lf1 == blk.LFpowers(), "%s: starting points differ from d", who.c_str()); }
    if (withFreq) {
      std::vector<u32> rf(256, 0); for (size_t i = 0; i < in.size(); ++i) ++rf[in[i]];
      for (int i = 0; i < 256; ++i) PBT_CHECK(c, rf[i] == fr[i], "%s: frequency of %d is %u, should be %u", who.c_str(), i, fr[i], rf[i]);
    }
  }
  for (int k = 0; k < (bothInverse ? 2 : 1); ++k) {
    bwtc::InverseBWTransform* inv = k == 0 ? bwtc::giveInverseTransformer() : new bwtc::FastInverseBWTransform();
    Bytes buf(first); buf.insert(buf.begin(), off, guard); buf.push_back(guard);
    bwtc::BWTBlock blk(&buf[off], (u32)in.size(), true); blk.LFpowers() = lf1;
    inv->doTransform(blk);
    delete inv;
    Bytes out(buf.begin() + off, buf.begin() + off + in.size());
    PBT_CHECK(c, out == in, "inverse %d does not restore the block: %s", k, gen::firstDiff(in, out).c_str());
  }
}
static void info(pbt::Case& c, const Bytes& in, unsigned starts, const std::string& d) {
  c.describe(strf("len=%zu starts=%u alphabet=%u shape=%s head=%s", in.size(), starts, gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); c.key(starts);
  bool rep = false; for (size_t i = 1; i < in.size() && !rep; ++i) rep = in[i] == in[i - 1];
  c.nontrivial(in.size() > 2 && gen::alphabet(in) > 1);
  if (in.size() > 256 && starts > 1) c.label("several-starting-points");
  if (in.size() > 256 && (in.size() + 1) % starts) c.label("starts-do-not-divide");
  (void)rep;
}
PROPERTY(definition, 60000, 900000) { std::string d; Bytes in = gIn(c, 1200, d); unsigned st = genStarts(c.s); info(c, in, st, d); checkBlock(c, in, st, true, true); }
PROPERTY(tiny, 80000, 1500000) {
  size_t n = 1 + c.s.choice(14); unsigned a = 1 + (unsigned)c.s.choice(4); Bytes in; unsigned base = c.s.chance(1, 2) ? 0 : 256 - a;
  for (size_t i = 0; i < n; ++i) in.push_back((unsigned char)(base + c.s.choice(a)));
  unsigned st = genStarts(c.s); info(c, in, st, "tiny"); checkBlock(c, in, st, true, true);
}
PROPERTY(medium, 3000, 50000) { std::string d; Bytes in = gIn(c, 140000, d); unsigned st = genStarts(c.s); info(c, in, st, d); checkBlock(c, in, st, false, c.s.chance(1, 2)); }
PROPERTY(large, 24, 400) { std::string d; Bytes in = gIn(c, c.thorough ? 12000000 : 3000000, d); unsigned st = genStarts(c.s); info(c, in, st, d); checkBlock(c, in, st, false, false); }
// blocks of more than 2^24 bytes, with symbols that occur more than 2^24 times
PROPERTY(huge, 4, 60) {
  size_t n = 16780000 + c.s.choice(3000000), per = c.s.chance(1, 3) ? 1 : 1 + (size_t)c.s.logRange(0, 3000000); pbt::Rng r(c.s.choice(1 << 24)); unsigned a = 1 + (unsigned)c.s.choice(3); Bytes in(n); for (size_t i = 0; i < n; ++i) in[i] = i < per ? (unsigned char)(r.below(40) ? 255 : r.below(a)) : in[i - per]; for (unsigned e = (unsigned)c.s.choice(5); e; --e) in[r.below(n)] = (unsigned char)r.below(256);
  unsigned st = genStarts(c.s); info(c, in, st, strf("huge, period %zu", per)); checkBlock(c, in, st, false, true);
}

// Long common prefixes next to tandem repeats: the repetition detection of the suffix sorter runs out of its work budget
// half-way and hands over partially sorted groups.
static Bytes gAscending(pbt::Src& s, size_t cap, std::string& d) {   // long common parts whose positions are sorted in the order of the text, so that none helps another, then tandem repeats
  unsigned T = 10 + (unsigned)s.choice(80), Y = 5 + (unsigned)s.choice(80), bp = 3 + (unsigned)s.choice(s.chance(1, 8) ? 1000 : 100), bu = 3 + (unsigned)s.choice(100), kmax = 2 + (unsigned)s.choice(9), per = 1 + (unsigned)s.choice(s.chance(1, 3) ? 3 : 1), order = (unsigned)s.choice(3), rare = s.chance(1, 2) ? 1 : 1 + (unsigned)s.choice(12); bool below = s.chance(1, 3); pbt::Rng r(s.choice(1 << 24)); Bytes in, P, u, V; unsigned ub = below ? T + Y + 6 : T + 2, vb = below ? T + 2 : T + 6;
  for (unsigned i = 0; i < T; ++i) { P.push_back((unsigned char)(1 + i)); P.push_back(255); } for (unsigned i = 0; i < per; ++i) { u.push_back((unsigned char)(ub + i)); u.push_back(255); } for (unsigned i = 0; i < Y; ++i) { V.push_back((unsigned char)(vb + i)); V.push_back(255); }
  for (unsigned b = 0; b < bp + bu && in.size() < cap; ++b) { bool tand = order == 0 ? b >= bp : order == 1 ? b < bu : r.below(bp + bu) < bu; if (tand) { for (unsigned k = r.below(rare) ? 1 : 1 + r.below(kmax); k; --k) in.insert(in.end(), u.begin(), u.end()); in.insert(in.end(), V.begin(), V.end()); } else in.insert(in.end(), P.begin(), P.end()); in.push_back((unsigned char)r.below(256)); }
  std::reverse(in.begin(), in.end()); if (in.size() > cap) in.resize(cap); d = strf("ascending: %u x %u, then %u x %u after up to %u repeats of %u%s", bp, T, bu, Y, kmax, per, below ? ", below" : ""); return in;
}
static Bytes gBudget(pbt::Src& s, size_t cap, std::string& d) {
  if (s.chance(2, 3)) return gAscending(s, cap, d);
  unsigned letters = 2 + (unsigned)s.choice(30), per = 1 + (unsigned)s.choice(5), blocks = 3 + (unsigned)(s.chance(1, 2) ? s.choice(100) : s.logRange(0, 300)); size_t L = 10 + (s.chance(1, 3) ? s.logRange(0, 3000) : s.choice(2500)); L = std::min(L, std::max<size_t>(10, cap / blocks / 2)); unsigned kmax = 1 + (unsigned)s.logRange(0, 60); bool seps = s.chance(1, 2), vary = s.chance(1, 3); pbt::Rng r(s.choice(1 << 24));
  Bytes X(L), u(per); for (size_t i = 0; i < L; ++i) X[i] = (unsigned char)('a' + r.below(letters)); for (unsigned i = 0; i < per; ++i) u[i] = (unsigned char)('a' + r.below(letters)); Bytes in;
  for (unsigned b = 0; b < blocks && in.size() < cap; ++b) { for (unsigned k = r.below(kmax + 1); k; --k) in.insert(in.end(), u.begin(), u.end()); size_t from = vary ? r.below(L / 2 + 1) : 0; in.insert(in.end(), X.begin() + from, X.end()); if (seps) in.push_back((unsigned char)(r.below(256))); }
  if (in.size() > cap) in.resize(cap); if (s.chance(1, 2)) std::reverse(in.begin(), in.end()); d = strf("tandem: %u letters, %u blocks of %zu, period %u up to %u times", letters, blocks, L, per, kmax); return in;
}
PROPERTY(budget, 10000, 150000) { std::string d; Bytes in = gBudget(c.s, c.thorough ? 400000 : 60000, d); unsigned st = genStarts(c.s); info(c, in, st, d); checkBlock(c, in, st, in.size() < 3000, false); }
// The transform and its inverse as used directly (LFpowersTest, InverseBwtTest): any number of starting
// points up to the number of rows.
PROPERTY(direct, 30000, 400000) {
  std::string d; Bytes in = gIn(c, 600, d); unsigned mx = (unsigned)std::min<size_t>(256, in.size());
  unsigned st = 1 + (unsigned)c.s.choice(mx); char algo = c.s.chance(1, 2) ? 's' : 'd';
  info(c, in, st, d); c.describe(strf("algo=%c", algo));
  Bytes t(in.rbegin(), in.rend()); Bytes buf(t); buf.push_back(0);
  std::vector<u32> lf(st); bwtc::BWTransform* tr = bwtc::giveTransformer(algo);
  if (c.s.chance(1, 2)) tr->doTransform(&buf[0], (u32)buf.size(), lf);
  else { std::vector<u32> fr(256, 0); tr->doTransform(&buf[0], (u32)buf.size(), lf, &fr[0]); }
  delete tr;
  PBT_CHECK(c, lf[0] <= in.size(), "end-of-block row out of range");
  Bytes st2(buf.begin(), buf.end() - 1); if (lf[0] < in.size()) st2[lf[0]] = buf[in.size()];
  verifyTransform(c, t, st2, lf, "direct", in.size() < 200);
  bwtc::InverseBWTransform* inv = c.s.chance(1, 3) ? (bwtc::InverseBWTransform*)new bwtc::FastInverseBWTransform() : bwtc::giveInverseTransformer();
  inv->doTransform(&buf[0], (u32)buf.size(), lf); delete inv;
  Bytes out(buf.begin(), buf.end() - 1);
  PBT_CHECK(c, out == in, "inverse does not restore the block: %s", gen::firstDiff(in, out).c_str());
}
