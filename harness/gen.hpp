// Structured byte-sequence generators (all choices on the tape).
#ifndef GEN_HPP
#define GEN_HPP
#include "pbt.hpp"
#include <algorithm>
#include <string>
#include <vector>
namespace gen {
using pbt::u64; using pbt::Src; using pbt::Rng;
typedef std::vector<unsigned char> Bytes;
using pbt::strf;

inline const char* const* kindNames() {
  static const char* n[] = {"literal", "uniform", "run", "periodic", "lz", "skewed", "words", "cycle256", "selfsim", "runs", "nearperiodic", "fibfreq"};
  return n;
}
static const unsigned kKinds = 12;

// Appends about n bytes of one structural kind.
inline void segment(Src& s, Bytes& out, size_t n, unsigned kind) {
  size_t base = out.size();
  switch (kind) {
    case 0: {  // literal, every byte on the tape
      size_t k = std::min<size_t>(n, 24);
      unsigned bound = s.chance(1, 2) ? 256 : (unsigned)s.range(1, 4);
      for (size_t i = 0; i < k; ++i) out.push_back((unsigned char)s.choice(bound));
      break;
    }
    case 1: {  // uniform over an alphabet
      static const unsigned al[] = {2, 1, 3, 4, 16, 64, 128, 255, 256};
      unsigned a = s.pick(al); unsigned lo = (unsigned)s.choice(257 - a); Rng r(s.choice(1 << 20));
      for (size_t i = 0; i < n; ++i) out.push_back((unsigned char)(lo + r.below(a)));
      break;
    }
    case 2: {  // one long run
      unsigned char b = (unsigned char)s.choice(256);
      out.insert(out.end(), n, b); break;
    }
    case 3: {  // periodic
      size_t per = 1 + s.logRange(0, 600); unsigned a = 1 + (unsigned)s.logRange(0, 255);
      unsigned lo = (unsigned)s.choice(257 - a); Rng r(s.choice(1 << 20)); Bytes p;
      for (size_t i = 0; i < per; ++i) p.push_back((unsigned char)(lo + r.below(a)));
      for (size_t i = 0; i < n; ++i) out.push_back(p[i % per]);
      break;
    }
    case 4: {  // LZ-like copies with literals
      Rng r(s.choice(1 << 20)); unsigned a = 1 + (unsigned)s.logRange(0, 255); size_t maxCopy = 1 + s.logRange(1, 2000);
      while (out.size() - base < n) {
        if (out.size() == base || r.below(4) == 0) out.push_back((unsigned char)r.below(a));
        else {
          size_t from = base + r.below(out.size() - base), len = 1 + r.below(maxCopy);
          for (size_t i = 0; i < len && out.size() - base < n; ++i) out.push_back(out[from + i]);
        }
      }
      break;
    }
    case 5: {  // geometric symbol distribution
      Rng r(s.choice(1 << 20)); unsigned rot = (unsigned)s.choice(256); unsigned sharp = (unsigned)s.range(1, 6);
      for (size_t i = 0; i < n; ++i) {
        unsigned v = 0; while (v < 255 && r.below(sharp + 1) == 0) ++v;
        out.push_back((unsigned char)(v + rot));
      }
      break;
    }
    case 6: {  // words from a small dictionary
      Rng r(s.choice(1 << 20)); size_t nw = 2 + s.logRange(0, 200); std::vector<Bytes> w(nw);
      for (size_t i = 0; i < nw; ++i) { size_t l = 1 + r.below(9); for (size_t j = 0; j < l; ++j) w[i].push_back((unsigned char)('a' + r.below(26))); w[i].push_back(' '); }
      while (out.size() - base < n) { u64 a = r.below(nw), b = r.below(nw); const Bytes& x = w[std::min(a, b)]; out.insert(out.end(), x.begin(), x.end()); }
      out.resize(base + n);
      break;
    }
    case 7: {  // all 256 values cyclically, with a stride
      unsigned st = 1 + 2 * (unsigned)s.choice(128), v = (unsigned)s.choice(256);
      for (size_t i = 0; i < n; ++i) { out.push_back((unsigned char)v); v += st; if (i % 256 == 255) ++v; }
      break;
    }
    case 8: {  // Fibonacci / Thue-Morse strings
      unsigned char a = (unsigned char)s.choice(256), b = (unsigned char)(a + 1 + s.choice(255));
      if (s.chance(1, 2)) for (size_t i = 0; i < n; ++i) out.push_back(__builtin_popcountll(i) & 1 ? a : b);
      else {
        Bytes x(1, a), y; y.push_back(a); y.push_back(b);
        while (y.size() < n) { Bytes z(y); z.insert(z.end(), x.begin(), x.end()); x.swap(y); y.swap(z); }
        out.insert(out.end(), y.begin(), y.begin() + std::min(n, y.size()));
      }
      break;
    }
    case 9: {  // runs whose lengths come from a chosen distribution
      Rng r(s.choice(1 << 20)); unsigned a = 2 + (unsigned)s.logRange(0, 254); unsigned mode = (unsigned)s.choice(4); size_t mx = 1 + s.logRange(1, 70000);
      unsigned char prev = 0;
      while (out.size() - base < n) {
        size_t l = mode == 0 ? 1 + r.below(3) : mode == 1 ? 1 + r.below(mx) : mode == 2 ? (size_t)1 << r.below(17) : 1 + (r.next() & r.next() & r.next() & 0xff);
        unsigned char b = (unsigned char)r.below(a); if (b == prev) b = (unsigned char)((b + 1) % a); prev = b;
        l = std::min(l, n - (out.size() - base));
        out.insert(out.end(), l, b);
      }
      break;
    }
    case 10: { // periodic with sparse errors
      size_t per = 1 + s.logRange(0, 300); unsigned a = 1 + (unsigned)s.logRange(1, 255); Rng r(s.choice(1 << 20)); Bytes p; size_t gap = 1 + s.logRange(10, 5000);
      for (size_t i = 0; i < per; ++i) p.push_back((unsigned char)r.below(a));
      for (size_t i = 0; i < n; ++i) out.push_back(r.below(gap) == 0 ? (unsigned char)r.below(256) : p[i % per]);
      break;
    }
    default: {  // Fibonacci-like frequencies: forces very long Huffman codes
      unsigned k = (unsigned)s.range(2, 30); unsigned lo = (unsigned)s.choice(257 - k); Rng r(s.choice(1 << 20)); bool shuffle = s.chance(1, 2);
      size_t a = 1, b = 1; Bytes t;
      for (unsigned i = 0; i < k && t.size() < n; ++i) { for (size_t j = 0; j < a && t.size() < n; ++j) t.push_back((unsigned char)(lo + i)); size_t c = a + b; a = b; b = c; }
      while (t.size() < n) t.push_back((unsigned char)(lo + k - 1));
      if (shuffle) for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]);
      out.insert(out.end(), t.begin(), t.end());
    }
  }
}

// A length in [0,max], biased to boundaries.
inline size_t length(Src& s, size_t max, const std::vector<size_t>& special = std::vector<size_t>()) {
  static const size_t b[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4096,
                             9998, 9999, 10000, 10001, 16383, 16384, 20000, 20001, 65534, 65535, 65536, 65537, 131071, 131072, 131073};
  switch (s.choice(4)) {
    case 0: return (size_t)s.logRange(0, max);
    case 1: { size_t v = b[s.choice(sizeof b / sizeof b[0])]; return v <= max ? v : (size_t)s.logRange(0, max); }
    case 2: if (!special.empty()) { size_t v = special[s.choice(special.size())]; u64 d = s.choice(7); long w = (long)v + (d <= 3 ? (long)d : 3 - (long)d); if (w < 0) w = 0; return (size_t)w <= max ? (size_t)w : max; }
      return (size_t)s.logRange(0, max);
    default: return (size_t)s.choice(max + 1);
  }
}

inline Bytes bytes(Src& s, size_t n, std::string* desc = 0) {
  Bytes out; std::string d;
  size_t segs = n < 2 ? 1 : 1 + (size_t)s.choice(s.chance(1, 3) ? 6 : 2);
  for (size_t i = 0; i < segs; ++i) {
    size_t left = n - std::min(n, out.size());
    size_t k = i + 1 == segs ? left : (size_t)s.choice(left + 1);
    unsigned kind = (unsigned)s.choice(kKinds);
    segment(s, out, k, kind);
    d += std::string(i ? "+" : "") + kindNames()[kind];
  }
  if (out.size() > n) out.resize(n);
  if (out.size() < n) {   // top up
    if (out.empty()) out.push_back((unsigned char)s.choice(256));
    size_t base = out.size(); size_t k = 0;
    while (out.size() < n) out.push_back(out[k++ % base]);
  }
  if (n && s.chance(1, 4)) {  // sprinkle point edits
    size_t e = 1 + s.choice(8); for (size_t i = 0; i < e; ++i) { size_t p = s.choice(n); out[p] = (unsigned char)s.choice(256); }
  }
  if (n && s.chance(1, 8)) { out[0] = (unsigned char)s.choice(256); out[n - 1] = s.chance(1, 2) ? 0 : 255; }
  if (desc) *desc = d;
  return out;
}

// Text with many frequent pairs over a (nearly) full alphabet: drives pair
// replacement through free symbols, freed symbols, special symbols and several
// rounds.  Counts are aimed at the profitability threshold on purpose.
inline Bytes pairRich(Src& s, size_t maxLen, std::string* desc = 0) {
  static const unsigned alph[] = {256, 256, 256, 256, 255, 254, 250, 200, 40, 4};
  unsigned a = alph[s.choice(10)]; unsigned rot = (unsigned)s.choice(256);
  Rng r(s.choice(1 << 24));
  // background frequency of each symbol
  unsigned bgMode = (unsigned)s.choice(5); unsigned bgMax = 1 + (unsigned)s.logRange(0, 1500);
  std::vector<size_t> bg(a);
  for (unsigned i = 0; i < a; ++i) bg[i] = bgMode == 0 ? 1 : bgMode == 1 ? 1 + r.below(4) : bgMode == 2 ? 1 + i * bgMax / a : bgMode == 3 ? 1 + r.below(bgMax) : (r.below(3) ? 1 : bgMax);
  unsigned units = 1 + (unsigned)s.logRange(0, 40);
  unsigned wordLen = s.chance(1, 2) ? 2 : (unsigned)s.range(2, 9);
  unsigned few = s.chance(1, 3) ? (unsigned)s.range(1, 12) : a;   // symbols the frequent strings are built from
  long around = (long)s.choice(4);
  std::vector<Bytes> tok; std::vector<size_t> cnt; size_t total = 0;
  for (unsigned i = 0; i < a; ++i) total += bg[i];
  for (unsigned u = 0; u < units; ++u) {
    Bytes w; unsigned char x = (unsigned char)(rot + a - 1 - r.below(std::min(few, a)));
    for (unsigned k = 0; k < wordLen; ++k) { w.push_back(x); if (r.below(6)) x = (unsigned char)(rot + a - 1 - r.below(std::min(few, a))); }
    size_t c = around == 0 ? 1000 + r.below(12) : around == 1 ? 1004 + r.below(300) : around == 2 ? 1100 + r.below(4000) : 500 + r.below(bgMax + 1500);
    if (total + c * w.size() > maxLen) { if (u) break; c = std::max<size_t>(1, (maxLen > total ? maxLen - total : 1) / w.size()); }
    tok.push_back(w); cnt.push_back(c); total += c * w.size();
  }
  for (unsigned i = 0; i < a; ++i) { tok.push_back(Bytes(1, (unsigned char)(rot + i))); cnt.push_back(bg[i]); }
  std::vector<unsigned> order;
  for (unsigned i = 0; i < tok.size(); ++i) order.insert(order.end(), cnt[i], i);
  unsigned lay = (unsigned)s.choice(5);
  if (lay >= 2) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  else if (lay == 1) std::reverse(order.begin(), order.end());
  Bytes out;
  for (size_t i = 0; i < order.size(); ++i) out.insert(out.end(), tok[order[i]].begin(), tok[order[i]].end());
  unsigned edge = (unsigned)s.choice(6);
  if (edge == 1) out.push_back((unsigned char)(rot + s.choice(a)));
  else if (edge == 2) { out.push_back(tok[0][0]); }
  else if (edge == 3) { out.push_back(tok[0][0]); out.push_back(tok[0].size() > 1 ? tok[0][1] : 0); }
  else if (edge == 4) { out.insert(out.begin(), (unsigned char)(rot + s.choice(a))); out.push_back(0); }
  else if (edge == 5) { size_t k = 1 + s.choice(5); unsigned char b = (unsigned char)(rot + s.choice(a)); for (size_t i = 0; i < k; ++i) out.push_back(b); }
  if (desc) *desc = pbt::strf("pairRich(a=%u,bg=%u/%u,words=%zux%u,layout=%u,edge=%u)", a, bgMode, bgMax, tok.size() - a, wordLen, lay, edge);
  return out;
}

// Runs whose symbol counts grow geometrically (Fibonacci-like), arranged so that neighbouring runs
// differ: the Huffman code of the runs gets as deep as the counts allow.
inline Bytes deepRuns(Src& s, size_t maxRuns, std::string* desc = 0, bool deepest = false) {
  unsigned ratio = (unsigned)s.choice(3); Rng r(s.choice(1 << 20)); unsigned rot = (unsigned)s.choice(256);
  unsigned extra = (unsigned)s.logRange(0, 200); unsigned lenMode = (unsigned)s.choice(4); size_t start = 1 + s.choice(3); if (deepest) { ratio = 0; extra = 0; lenMode = 0; start = 1; }
  std::vector<size_t> cnt; size_t a = start, b = start, tot = 0;
  for (unsigned i = 0; i < 200; ++i) {
    size_t f = a; if (tot + f > maxRuns) break; cnt.push_back(f); tot += f;
    size_t c = ratio == 0 ? a + b : ratio == 1 ? a + b + 1 : std::max(a + 1, a + b - b / 8); a = b; b = c;
  }
  for (unsigned i = 0; i < extra && cnt.size() < 256; ++i) { cnt.push_back(1); ++tot; }
  // fill even slots, then odd slots, most frequent first: equal neighbours are impossible below one half
  std::vector<unsigned> ids(cnt.size()); for (unsigned i = 0; i < ids.size(); ++i) ids[i] = i;
  std::sort(ids.begin(), ids.end(), [&](unsigned x, unsigned y) { return cnt[x] != cnt[y] ? cnt[x] > cnt[y] : x < y; });
  std::vector<unsigned> slots(tot); size_t pos = 0;
  for (size_t i = 0; i < ids.size(); ++i) for (size_t k = 0; k < cnt[ids[i]]; ++k) { slots[pos] = ids[i]; pos += 2; if (pos >= tot) pos = 1; }
  size_t sw = s.chance(1, 2) ? tot : 0;
  for (size_t i = 0; i < sw && tot > 4; ++i) {   // swaps that keep neighbours different
    size_t x = r.below(tot), y = r.below(tot); if (x + 1 >= y && y + 1 >= x) continue;
    auto okAt = [&](size_t p, unsigned v) { return (p == 0 || slots[p - 1] != v) && (p + 1 >= tot || slots[p + 1] != v); };
    if (okAt(x, slots[y]) && okAt(y, slots[x])) std::swap(slots[x], slots[y]);
  }
  Bytes out;
  for (size_t i = 0; i < tot; ++i) { size_t l = lenMode == 0 ? 1 : lenMode == 1 ? 1 + r.below(3) : lenMode == 2 ? 1 + (r.below(20) == 0 ? r.below(300) : 0) : 1 + (r.next() & r.next() & 3);
    out.insert(out.end(), l, (unsigned char)(rot + slots[i])); }
  if (out.empty()) out.push_back(0);
  if (desc) *desc = strf("deepRuns(symbols=%zu,runs=%zu,lengths=%u)", cnt.size(), tot, lenMode);
  return out;
}

// Periodic text with runs of three (or another odd number of) equal symbols among 256 symbols of
// high frequency: overlapping pairs outnumber the replaceable ones.
inline Bytes tripleRuns(Src& s, std::string* desc = 0) {
  size_t n3 = 1000 + s.choice(4000); unsigned L = 3 + 2 * (unsigned)s.choice(3); unsigned pre = (unsigned)s.choice(3);
  size_t f = n3 * (L - 1) * (50 + s.choice(60)) / 100; f = f > 1003 ? f - s.choice(1003) : f;
  unsigned rare = 2 + (unsigned)s.choice(3); unsigned runSyms = 1 + (unsigned)s.choice(3); Rng r(s.choice(1 << 20));
  Bytes out; for (unsigned i = 0; i < rare; ++i) out.push_back((unsigned char)i);
  std::vector<unsigned char> bag;
  size_t per = std::min<size_t>(f, 9000);
  for (unsigned x = rare; x < 256 - runSyms; ++x) bag.insert(bag.end(), per, (unsigned char)x);
  for (size_t i = bag.size(); i > 1; --i) std::swap(bag[i - 1], bag[r.below(i)]);
  size_t b = 0;
  for (unsigned t = 0; t < pre; ++t) out.push_back((unsigned char)(rare));
  for (unsigned q = 0; q < runSyms; ++q) for (size_t i = 0; i < n3; ++i) {
    out.insert(out.end(), L, (unsigned char)(255 - q));
    if (b < bag.size()) out.push_back(bag[b++]); else out.push_back((unsigned char)rare);
  }
  out.insert(out.end(), bag.begin() + b, bag.end());
  if (desc) *desc = pbt::strf("tripleRuns(n=%zu,L=%u,f=%zu,rare=%u,syms=%u)", n3, L, per, rare, runSyms);
  return out;
}

// Nearly every symbol must be freed, and all the occurrences that get longer come before all the pairs
// that get shorter: the in-place rewriting needs as much look-ahead as it can ever need.
inline Bytes freedFront(Src& s, std::string* desc = 0) {
  unsigned a = 4 + (unsigned)s.choice(13), b = 4 + (unsigned)s.choice(13); if (s.chance(1, 2)) a = b = 16; size_t F = s.chance(1, 2) ? 1 + s.logRange(0, 4000) : s.range(1500, 6500), P = F + 1000 + s.choice(40); unsigned rot = (unsigned)s.choice(256);
  unsigned rest = 256 - a - b; Rng r(s.choice(1 << 20)); unsigned lay = (unsigned)s.choice(4); bool jitter = s.chance(1, 2); bool ladder = s.chance(3, 4);
  Bytes fr, pr;
  std::vector<unsigned> pairs;
  for (unsigned i = 0; i < a; ++i) for (unsigned j = 0; j < b; ++j) if (pairs.size() < rest) pairs.push_back(i << 8 | j);
  for (unsigned i = 0; i < rest; ++i) fr.insert(fr.end(), jitter ? 1 + r.below(F) : F, (unsigned char)(rot + a + b + i));
  { unsigned char used[256] = {0}; for (size_t k = 0; k < pairs.size(); ++k) used[pairs[k] >> 8] = used[a + (pairs[k] & 255)] = 1;
    for (unsigned i = 0; i < a + b; ++i) if (!used[i]) fr.insert(fr.end(), F, (unsigned char)(rot + i)); }
  if (s.chance(1, 2)) for (size_t i = fr.size(); i > 1; --i) std::swap(fr[i - 1], fr[r.below(i)]);
  std::vector<unsigned> ord; for (unsigned k = 0; k < pairs.size(); ++k) {
    // the first pairs have to pay for the first special symbols: level-th special symbol makes room for 2*level pairs
    unsigned level = 1; while (level * (level + 1) <= k) ++level;
    size_t gain = ladder ? std::max<size_t>(1004, (level == 1 ? 2 * F + 1000 : F + 1000) / (2 * level) + 4) : P - F;
    ord.insert(ord.end(), F + gain + (jitter ? r.below(50) : 0), pairs[k]);
  }
  if (s.chance(1, 2)) for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
  for (size_t i = 0; i < ord.size(); ++i) { pr.push_back((unsigned char)(rot + (ord[i] >> 8))); pr.push_back((unsigned char)(rot + a + (ord[i] & 255))); }
  Bytes out;
  if (lay == 0) { out = pr; out.insert(out.end(), fr.begin(), fr.end()); }
  else if (lay == 1) { size_t h = r.below(pr.size() / 2 + 1) * 2; out.assign(pr.begin(), pr.begin() + h); out.insert(out.end(), fr.begin(), fr.end()); out.insert(out.end(), pr.begin() + h, pr.end()); }
  else { out = fr; out.insert(out.end(), pr.begin(), pr.end()); }
  if (desc) *desc = strf("freedFront(%ux%u pairs of %zu,%u freed of %zu,layout=%u%s)", a, b, P, rest, F, lay, ladder ? ",ladder" : "");
  return out;
}

// All 256 symbols frequent except a few rare ones, and a few pairs just frequent enough to be replaced: the
// cost of symbols that must be freed or made special is as large as the gain from the pairs.
inline Bytes tightSpecials(Src& s, std::string* desc = 0) {
  static const size_t fs[] = {1200, 1003, 1010, 2008, 2100, 3000, 4500, 900}; size_t F = fs[s.choice(8)] + s.choice(30);
  unsigned rare = (unsigned)s.choice(6), rot = (unsigned)s.choice(256), np = 1 + (unsigned)s.choice(9); size_t rf = s.chance(1, 2) ? 1 + s.choice(5) : 1 + s.choice(F), jit = 1 + s.choice(8); long off = (long)s.choice(30) - 4; bool same = s.chance(1, 6);
  Rng r(s.choice(1 << 20)); std::vector<Bytes> tok; std::vector<size_t> cnt; std::vector<size_t> need(256);
  for (unsigned i = 0; i < 256; ++i) need[i] = i < rare ? std::max<size_t>(1, rf - std::min<size_t>(rf - 1, r.below(jit))) : F + r.below(jit);
  for (unsigned p = 0; p < np; ++p) {
    unsigned a = 255 - 2 * p, b = same ? a : 254 - 2 * p; size_t k = (size_t)((long)F + 1003 + off + (long)r.below(jit));
    Bytes w; w.push_back((unsigned char)(rot + a)); w.push_back((unsigned char)(rot + b)); tok.push_back(w); cnt.push_back(k); need[a] = need[b] = 0;
  }
  for (unsigned i = 0; i < 256; ++i) if (need[i]) { tok.push_back(Bytes(1, (unsigned char)(rot + i))); cnt.push_back(need[i]); }
  std::vector<unsigned> order; for (unsigned i = 0; i < tok.size(); ++i) order.insert(order.end(), cnt[i], i);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  Bytes out; for (size_t i = 0; i < order.size(); ++i) out.insert(out.end(), tok[order[i]].begin(), tok[order[i]].end());
  if (desc) *desc = strf("tightSpecials(F=%zu,rare=%ux%zu,pairs=%u%+ld,jitter=%zu%s)", F, rare, rf, np, off, jit, same ? ",same" : "");
  return out;
}

// Symbol counts aimed at the section threshold of the entropy coders, up to all 256 symbols in sections of their own.
inline Bytes sectioned(Src& s, size_t cap, std::string* desc = 0) {
  static const size_t cs[] = {10000, 9999, 10001, 5000, 20000, 3333, 1, 0, 10050};
  static const unsigned ks[] = {256, 255, 254, 128, 2, 1};
  unsigned k = s.chance(1, 2) ? ks[s.choice(6)] : 1 + (unsigned)s.choice(256); bool eq = s.chance(1, 2); size_t one = cs[s.choice(5)];
  Rng r(s.choice(1 << 20)); unsigned lay = (unsigned)s.choice(4); unsigned rot = (unsigned)s.choice(256); std::vector<size_t> f(k); size_t tot = 0;
  for (unsigned i = 0; i < k; ++i) { f[i] = eq ? one : cs[r.below(9)]; tot += f[i]; }
  if (s.chance(1, 4)) { size_t m = 1 + s.choice(30); k = 256 - (s.chance(1, 4) ? (unsigned)s.choice(3) : 0); f.resize(k); tot = 0; for (unsigned i = 0; i < k; ++i) { f[i] = 10000 + r.below(m); tot += f[i]; } }
  while (tot > cap && !f.empty()) { tot -= f.back(); f.pop_back(); }
  if (tot == 0) { f.assign(1, 1); tot = 1; }
  Bytes out; out.reserve(tot);
  if (lay == 0) { size_t mx = *std::max_element(f.begin(), f.end()); for (size_t j = 0; j < mx; ++j) for (size_t i = 0; i < f.size(); ++i) if (j < f[i]) out.push_back((unsigned char)(rot + i)); }
  else { for (size_t i = 0; i < f.size(); ++i) out.insert(out.end(), f[i], (unsigned char)(rot + i));
    if (lay == 1) for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[r.below(i)]);
    else if (lay == 2) for (size_t i = out.size() / 50; i > 0; --i) std::swap(out[r.below(out.size())], out[r.below(out.size())]); }
  if (desc) *desc = strf("sectioned(symbols=%zu,%s%zu,layout=%u)", f.size(), eq ? "each " : "mixed ", eq ? one : 0, lay);
  return out;
}

// A phrase over and over (with rare edits): many rounds of pair replacement nest rules until single symbols stand for long texts.
inline Bytes longRules(Src& s, size_t cap, std::string* desc = 0) {
  size_t per = s.chance(1, 3) ? 1 : 1 + (size_t)s.logRange(0, 600), n = 60000 + (size_t)s.choice(cap - 60000); unsigned a = 1 + (unsigned)s.choice(4), base = (unsigned)s.choice(256); pbt::Rng r(s.choice(1 << 24)); Bytes ph, out; for (size_t i = 0; i < per; ++i) ph.push_back((unsigned char)(base + r.below(a)));
  size_t lead = s.chance(1, 2) ? 0 : (size_t)s.choice(3); for (size_t i = 0; i < lead; ++i) out.push_back((unsigned char)(base + 7)); while (out.size() < n) out.push_back(ph[(out.size() - lead) % per]);
  size_t e = s.chance(1, 2) ? 0 : 1 + (size_t)s.choice(4); for (size_t i = 0; i < e; ++i) out[r.below(out.size())] = (unsigned char)(base + r.below(a + 1));
  if (desc) *desc = strf("longRules(period %zu, %zu edits)", per, e); return out;
}
inline std::string hexHead(const Bytes& b, size_t k = 16) {
  std::string r; for (size_t i = 0; i < b.size() && i < k; ++i) r += pbt::strf("%02x", b[i]);
  if (b.size() > k) r += "..";
  return r;
}
inline unsigned alphabet(const Bytes& b) { bool u[256] = {0}; unsigned n = 0; for (size_t i = 0; i < b.size(); ++i) if (!u[b[i]]) { u[b[i]] = true; ++n; } return n; }
inline std::string firstDiff(const Bytes& a, const Bytes& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  return pbt::strf("lengths %zu and %zu, first difference at %zu", a.size(), b.size(), i);
}
}  // namespace gen
#endif
