#define MAIN
// The binary arithmetic coder and the probability models on their own.
#include "bw.hpp"
#include "BitCoders.hpp"
#include "probmodels/ProbabilityModel.hpp"
using namespace bw;
typedef std::vector<std::pair<bool, unsigned> > Seq;   // bit, probability of one

// Scratch copy of the documented interval arithmetic; it only steers the generator towards the
// intervals that are hardest to code (tiny ones that straddle a byte boundary), it decides nothing.
struct Steer {
  uint32_t lo, hi; Steer() : lo(0), hi(0xffffffffu) {}
  uint32_t split(unsigned p) const { uint64_t r = (uint64_t)hi - lo - 1; return lo + (uint32_t)((r * p + 2048) >> 12); }
  void put(bool b, unsigned p) { uint32_t s = split(p); if (b) hi = s; else lo = s + 1; while (((lo ^ hi) & 0xff000000u) == 0) { lo <<= 8; hi = hi << 8 | 255; } }
};
static Seq genSeq(pbt::Src& s, size_t n, std::string* d) {
  Seq q; unsigned mode = (unsigned)s.choice(8); pbt::Rng r(s.choice(1 << 24)); Steer st; static const unsigned ex[] = {0, 4096, 1, 4095, 2048, 2, 4094};
  static const char* nm[] = {"uniform", "extremes", "impossible", "likely", "straddle", "straddle+extremes", "constant", "literal"}; *d = nm[mode];
  unsigned cp = (unsigned)s.choice(4097), flip = 1 + (unsigned)s.logRange(0, 5000); bool cb = s.chance(1, 2); unsigned p0 = 1 + (unsigned)s.choice(4095);
  for (size_t i = 0; i < n; ++i) {
    bool b; unsigned p;
    switch (mode) {
      case 0: p = (unsigned)r.below(4097); b = r.below(2); break;
      case 1: p = ex[r.below(7)]; b = r.below(2); break;
      case 2: p = r.below(2) ? 0 : 4096; b = r.below(flip) == 0 ? p == 4096 : p == 0; break;    // nearly always the impossible bit
      case 3: p = (unsigned)r.below(4097); b = r.below(4096) < p; break;
      case 4: case 5: {
        p = mode == 5 && r.below(3) == 0 ? ex[r.below(7)] : r.below(4) ? p0 : (unsigned)r.below(4097);
        uint32_t sp = st.split(p); uint32_t B = st.hi & 0xff000000u;   // last byte boundary inside the interval
        b = sp >= B && B > st.lo; if (!(b && sp > B) && r.below(flip) == 0) b = !b; st.put(b, p); break;
      }
      case 6: p = cp; b = r.below(flip) ? cb : !cb; break;
      default: if (i >= 40) return q; p = s.chance(1, 2) ? ex[s.choice(7)] : (unsigned)s.choice(4097); b = s.chance(1, 2);
    }
    q.push_back(std::make_pair(b, p));
  }
  return q;
}
static void coder(pbt::Case& c, size_t maxLen) {
  unsigned k = 1 + (unsigned)c.s.choice(5); std::vector<Seq> qs; std::string desc; size_t tot = 0;
  for (unsigned i = 0; i < k; ++i) { std::string d; size_t n = gen::length(c.s, maxLen); Seq q = genSeq(c.s, n, &d); qs.push_back(q); desc += strf(" | %s %zu bits", d.c_str(), q.size()); tot += q.size(); c.label(d); }
  c.describe(desc); for (size_t i = 0; i < qs.size(); ++i) for (size_t j = 0; j < qs[i].size(); ++j) c.m_key = pbt::mix(c.m_key ^ (qs[i][j].first | qs[i][j].second << 1)); c.nontrivial(tot > 8);
  Bytes out; MemOut mo(&out); dcsbwt::BitEncoder e; e.connect(&mo); std::vector<size_t> ends; unsigned sent = (unsigned)c.s.choice(256); size_t counted = 0; bool reset = c.s.chance(1, 2);
  for (size_t i = 0; i < qs.size(); ++i) {
    size_t at = out.size(); if (reset) { e.resetCounter(); counted = 0; }
    for (size_t j = 0; j < qs[i].size(); ++j) e.encode(qs[i][j].first, (bwtc::Probability)qs[i][j].second);
    e.finish(); ends.push_back(out.size()); counted += out.size() - at;
    PBT_CHECK(c, e.counter() == counted, "sequence %zu: the encoder counted %llu bytes, wrote %zu", i, (unsigned long long)e.counter(), counted);
    PBT_CHECK(c, out.size() - at <= 4 + 4 * qs[i].size(), "sequence %zu: %zu bytes for %zu bits", i, out.size() - at, qs[i].size());
    out.push_back((unsigned char)(sent + i));
  }
  MemIn in(&out); dcsbwt::BitDecoder d; d.connect(&in);
  for (size_t i = 0; i < qs.size(); ++i) {
    d.start();
    for (size_t j = 0; j < qs[i].size(); ++j) { bool b = d.decode((bwtc::Probability)qs[i][j].second); PBT_CHECK(c, b == qs[i][j].first, "sequence %zu: bit %zu of %zu decoded as %d", i, j, qs[i].size(), b); }
    PBT_CHECK(c, in.pos() == ends[i], "sequence %zu: decoder consumed up to %zu, it ends at %zu", i, in.pos(), ends[i]);
    unsigned t = in.readByte(); PBT_CHECK(c, t == ((sent + i) & 255), "the byte after sequence %zu is read wrongly", i);
  }
}
PROPERTY(coder_tiny, 400000, 1500000) { coder(c, 40); }
PROPERTY(coder, 80000, 300000) { coder(c, 3000); }
PROPERTY(coder_long, 3000, 10000) { coder(c, 200000); }

static const char* const kModels[] = {"m", "M", "u", "b", "B", "integers", "gaps"};
static bwtc::ProbabilityModel* make(unsigned m) { return m == 5 ? bwtc::giveModelForIntegerCodes() : m == 6 ? bwtc::giveModelForGaps() : bwtc::giveProbabilityModel(kModels[m][0]); }
struct Op { int k; };   // 0/1 update, 2/3 updateState, 4 reset
static std::vector<int> genHist(pbt::Src& s, size_t n, std::string* d) {
  std::vector<int> h; unsigned mode = (unsigned)s.choice(5); pbt::Rng r(s.choice(1 << 24)); unsigned bias = 1 + (unsigned)s.logRange(0, 3000); unsigned rst = s.chance(1, 2) ? 0 : 1 + (unsigned)s.logRange(1, 4000); bool one = s.chance(1, 2), states = s.chance(1, 2); size_t per = 1 + s.logRange(0, 40);
  static const char* nm[] = {"uniform", "biased", "runs", "periodic", "literal"}; *d = strf("%s%s%s", nm[mode], rst ? "+resets" : "", states ? "+states" : ""); bool cur = one;
  for (size_t i = 0; i < n; ++i) {
    if (rst && r.below(rst) == 0) { h.push_back(4); continue; }
    bool b; if (mode == 0) b = r.below(2); else if (mode == 1) b = r.below(bias) ? one : !one; else if (mode == 2) { if (r.below(bias) == 0) cur = !cur; b = cur; } else if (mode == 3) b = (i % per) * 7 % 3 == 0; else { if (i >= 60) break; h.push_back((int)s.choice(states ? 5 : 2)); continue; }
    h.push_back((states && r.below(4) == 0 ? 2 : 0) + b);
  }
  return h;
}
static void apply(bwtc::ProbabilityModel* m, int op) { if (op < 2) m->update(op); else if (op < 4) m->updateState(op - 2); else m->resetModel(); }
static void models(pbt::Case& c, size_t maxLen) {
  unsigned w = (unsigned)c.s.choice(7); std::string d1, d2; std::vector<int> h = genHist(c.s, gen::length(c.s, maxLen), &d1), t = genHist(c.s, gen::length(c.s, maxLen), &d2);
  c.describe(strf("model %s: history %s (%zu), after reset %s (%zu)", kModels[w], d1.c_str(), h.size(), d2.c_str(), t.size())); c.key(w); c.key(pbt::hashBytes(h.data(), h.size() * sizeof(int))); c.key(pbt::hashBytes(t.data(), t.size() * sizeof(int))); c.label(std::string("model-") + kModels[w]); c.nontrivial(h.size() + t.size() > 8);
  bwtc::ProbabilityModel* a = make(w); bwtc::ProbabilityModel* b = make(w);
  for (size_t i = 0; i < h.size(); ++i) {
    unsigned p = a->probabilityOfOne(), q = b->probabilityOfOne();
    PBT_CHECK(c, p <= bwtc::kProbabilityScale, "illegal probability %u after %zu steps", p, i);
    PBT_CHECK(c, p == q, "two models with the same history predict %u and %u after %zu steps", p, q, i);
    PBT_CHECK(c, a->probabilityOfOne() == p, "asking twice changes the prediction");
    apply(a, h[i]); apply(b, h[i]);
  }
  a->resetModel(); delete b; b = make(w);   // a: reset after history; b: new
  for (size_t i = 0; i <= t.size(); ++i) {
    unsigned p = a->probabilityOfOne(), q = b->probabilityOfOne();
    PBT_CHECK(c, p == q, "after a reset and %zu steps the model predicts %u, a new one %u", i, p, q);
    if (i < t.size()) { apply(a, t[i]); apply(b, t[i]); }
  }
  delete a; delete b;
}
PROPERTY(models_small, 250000, 1000000) { models(c, 100); }
PROPERTY(models, 25000, 100000) { models(c, 20000); }
PROPERTY(models_long, 400, 1500) { models(c, 1000000); }

// Model and coder together, as encoder and decoder use them.
PROPERTY(modelled, 20000, 80000) {
  unsigned w = (unsigned)c.s.choice(7); std::string d; std::vector<int> h = genHist(c.s, gen::length(c.s, 20000), &d);
  c.describe(strf("model %s with the coder: %s (%zu)", kModels[w], d.c_str(), h.size())); c.key(w); c.key(pbt::hashBytes(h.data(), h.size() * sizeof(int))); c.nontrivial(h.size() > 8);
  Bytes out; MemOut mo(&out); dcsbwt::BitEncoder e; e.connect(&mo); bwtc::ProbabilityModel* a = make(w);
  for (size_t i = 0; i < h.size(); ++i) { if (h[i] < 2) e.encode(h[i], a->probabilityOfOne()); else if (h[i] == 4) e.finish(); apply(a, h[i]); }
  e.finish(); delete a;
  MemIn in(&out); dcsbwt::BitDecoder dec; dec.connect(&in); dec.start(); a = make(w);
  for (size_t i = 0; i < h.size(); ++i) {
    if (h[i] < 2) { bool b = dec.decode(a->probabilityOfOne()); PBT_CHECK(c, b == (bool)h[i], "bit %zu decoded as %d", i, b); apply(a, b); }
    else { if (h[i] == 4) dec.start(); apply(a, h[i]); }
  }
  PBT_CHECK(c, in.pos() == out.size(), "decoder consumed %zu of %zu bytes", in.pos(), out.size()); delete a;
}
