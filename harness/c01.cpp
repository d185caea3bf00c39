#define MAIN
#include "bw.hpp"
using namespace bw;

static void roundTrip(pbt::Case& c, const Bytes& in, const Opt& o, bool viaFile, const std::string& d) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s via=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), viaFile ? "file" : "memory", gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); }
  size_t blk = approxBlock(o);
  c.label(strf("coder-%c", o.coder)); if (!o.prepr.empty()) c.label("precompressed"); if (in.size() > blk) c.label("multi-block");
  if (blk && in.size() % blk == 0 && !in.empty()) c.label("ends-on-block-boundary");
  Bytes arc, out;
  if (viaFile) { arc = compressFile(in, o, pbt::scratchDir()); out = decompressFile(arc, pbt::scratchDir()); }
  else { arc = compressMem(in, o); out = decompressMem(arc); }
  PBT_CHECK(c, out == in, "round trip differs: %s", gen::firstDiff(in, out).c_str());
}
// A length of up to maxBlocks blocks, aimed at block boundaries.
static size_t lenFor(pbt::Src& s, const Opt& o, size_t maxBlocks, size_t cap) {
  size_t b = std::max<size_t>(1, approxBlock(o)); std::vector<size_t> sp; sp.push_back(b); sp.push_back(2 * b); sp.push_back((1 + s.choice(maxBlocks)) * b);
  return gen::length(s, std::min(cap, maxBlocks * b + 3), sp);
}
PROPERTY(tiny, 24000, 500000) {
  Opt o = genOpt(c.s, 64, 2000, 3); size_t n = c.s.choice(20); unsigned a = 1 + (unsigned)c.s.choice(5), base = c.s.chance(1, 3) ? 256 - a : c.s.chance(1, 2) ? 0 : 97; Bytes in;
  if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 100);
  for (size_t i = 0; i < n; ++i) in.push_back((unsigned char)(base + c.s.choice(a)));
  c.nontrivial(n > 0); roundTrip(c, in, o, c.s.chance(1, 8), "tiny");
}
PROPERTY(small, 12000, 200000) {
  Opt o = genOpt(c.s, 64, 20000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 600);
  size_t n = lenFor(c.s, o, o.prepr.empty() ? 30 : 4, 3000); std::string d; Bytes in = gen::bytes(c.s, n, &d);
  c.nontrivial(n > 1); roundTrip(c, in, o, c.s.chance(1, 3), d);
}
// sizes around the section threshold, many symbols, deep codes
PROPERTY(medium, 1500, 25000) {
  Opt o = genOpt(c.s, 30000, 1500000, 3); std::string d; Bytes in;
  if (c.s.chance(1, 3)) in = gen::deepRuns(c.s, c.thorough ? 200000 : 60000, &d); else { size_t n = lenFor(c.s, o, 4, 250000); in = gen::bytes(c.s, n, &d); }
  c.nontrivial(in.size() > 256); roundTrip(c, in, o, c.s.chance(1, 3), d);
}
PROPERTY(pairs, 260, 6000) {
  std::string d; Bytes in = c.s.chance(1, 8) ? gen::freedFront(c.s, &d) : c.s.chance(1, 8) ? gen::tightSpecials(c.s, &d) : gen::pairRich(c.s, c.thorough ? 400000 : 120000, &d); Opt o = genOpt(c.s, 300000, 1500000, 0);
  o.prepr = std::string(1 + c.s.choice(5), 'p'); if (c.s.chance(1, 3)) o.mem = 1 + (size_t)(in.size() / 0.74 / (1 + c.s.choice(3)));
  o.mem = std::max<size_t>(o.mem, 2000); if (d[0] == 'f') o.mem = std::max(o.mem, in.size() * 3 / 2);
  c.nontrivial(in.size() > 256); roundTrip(c, in, o, c.s.chance(1, 4), d);
}
PROPERTY(nested, 60, 900) { std::string d; Bytes in = gen::longRules(c.s, 700000, &d); Opt o = genOpt(c.s, 1000000, 15000000, 0); o.prepr = std::string(8 + c.s.choice(18), 'p'); c.nontrivial(true); roundTrip(c, in, o, c.s.chance(1, 2), d); }
// symbol counts around the section threshold, up to the maximal number of sections
PROPERTY(sections, 64, 1500) {
  std::string d; Bytes in = gen::sectioned(c.s, 2700000, &d); Opt o = genOpt(c.s, 14500000, 30000000, 0); if (c.s.chance(1, 6)) o.prepr = "p"; if (c.s.chance(1, 5)) o.mem = 500000 + c.s.choice(3000000);
  c.nontrivial(in.size() > 20000); roundTrip(c, in, o, c.s.chance(1, 3), d);
}
PROPERTY(large, 16, 300) {
  Opt o = genOpt(c.s, 1000000, 60000000, 2); size_t n = c.s.range(300000, c.thorough ? 20000000 : 3000000); std::string d; Bytes in;
  if (c.s.chance(1, 4)) in = gen::deepRuns(c.s, n / 2, &d); else in = gen::bytes(c.s, n, &d);
  c.nontrivial(true); roundTrip(c, in, o, c.s.chance(1, 2), d);
}
// words that occur different numbers of times: the transform has a run of that length for every position in the word, so many run lengths are frequent
PROPERTY(words, 40, 800) {
  unsigned k = 2 + (unsigned)c.s.choice(7), W = 30 + (unsigned)c.s.choice(420), L = 6 + (unsigned)c.s.choice(40), base = (unsigned)c.s.choice(240), kind = (unsigned)c.s.choice(5); size_t cap = 8000000;
  bool sep = false; unsigned off = 1;
  if (kind > 2) { sep = true; kind = 0; k = 20 + (unsigned)c.s.choice(200); base = (unsigned)c.s.choice(256); W = 290 + (unsigned)c.s.choice(60); off = 80 + (unsigned)c.s.choice(100); L = 45 + (unsigned)c.s.choice(14); }  // every second letter the same, so that its section has all the lengths
  pbt::Rng r(c.s.choice(1 << 24)); std::vector<unsigned> order; size_t total = 0;
  for (unsigned i = 0; i < W; ++i) { size_t m = kind == 0 ? i + off : kind == 1 ? 1 + r.below(W) : (size_t)1 << r.below(14); if ((total + m) * L > cap) break; total += m; for (size_t j = 0; j < m; ++j) order.push_back(i); }
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  Bytes words(W * L), in; for (size_t i = 0; i < words.size(); ++i) words[i] = (unsigned char)(sep && i % L % 2 && i % L > 4 && i % L < L - 5 ? base : base + r.below(k)); for (size_t i = 0; i < order.size(); ++i) in.insert(in.end(), words.begin() + order[i] * L, words.begin() + (order[i] + 1) * L);
  Opt o = genOpt(c.s, 20000000, 60000000, 0); if (o.coder == 'H') o.coder = "BbmMu"[c.s.choice(5)];
  c.nontrivial(total > 1); roundTrip(c, in, o, c.s.chance(1, 4), strf("%u words of %u letters from %u", W, L, k));
}
// single very long runs among many short ones
PROPERTY(longRun, 24, 500) {
  size_t n = c.s.choice(200000); std::string d; Bytes in = gen::bytes(c.s, n, &d); unsigned g = 1 + (unsigned)c.s.choice(3);
  for (; g; --g) { size_t len = c.s.chance(1, 2) ? 1000000 + c.s.choice(20000000) : (size_t)c.s.logRange(100000, 6000000), at = c.s.choice(in.size() + 1); in.insert(in.begin() + at, len, (unsigned char)c.s.choice(256)); }
  Opt o = genOpt(c.s, 100000000, 200000000, 1); c.nontrivial(true); roundTrip(c, in, o, c.s.chance(1, 4), "long runs in " + d);
}
// one block of more than 2^24 bytes
PROPERTY(huge, 8, 60) {
  size_t n = 16700000 + c.s.choice(9000000), per = c.s.chance(1, 2) ? 1 : 1 + (size_t)c.s.logRange(0, 2000000); pbt::Rng r(c.s.choice(1 << 24)); unsigned a = 1 + (unsigned)c.s.choice(256); Bytes in(n); for (size_t i = 0; i < n; ++i) in[i] = i < per ? (unsigned char)r.below(a) : in[i - per]; for (unsigned e = (unsigned)c.s.choice(5); e; --e) in[r.below(n)] = (unsigned char)r.below(256);
  Opt o = genOpt(c.s, 150000000, 300000000, 1); c.nontrivial(true); roundTrip(c, in, o, c.s.chance(1, 2), strf("huge, period %zu", per));
}
