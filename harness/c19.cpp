#define MAIN
// Compression is effective: never noticeably worse than the version of record, close to the entropy of
// memoryless data, and repetition is nearly free.
#include "bw.hpp"
#include "ref.hpp"
#include "preprocessors/Precompressor.hpp"
#include "PrecompressorBlock.hpp"
#include <cmath>
using namespace bw;
static void note(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); } c.label(strf("coder-%c", o.coder)); if (!o.prepr.empty()) c.label("precompressed"); c.nontrivial(in.size() > 256);
}
static void versus(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  note(c, in, o, d); size_t old = ref::compress(in, o.coder, o.algo, o.starts, o.mem, o.prepr).size(), now = compressMem(in, o).size(); if (now < old) c.label("smaller"); if (now == old) c.label("same-size");
  PBT_CHECK(c, now <= old + old / 100 + 64, "%zu bytes compress to %zu bytes; the version of record needs %zu", in.size(), now, old);
}
PROPERTY(small, 3000, 50000) { Opt o = genOpt(c.s, 2000, 20000, 3); size_t n = gen::length(c.s, 3000); std::string d; Bytes in = gen::bytes(c.s, n, &d); capBlocks(o, n, 4); versus(c, in, o, d); }
PROPERTY(medium, 900, 15000) { Opt o = genOpt(c.s, 100000, 1500000, 3); std::string d; Bytes in; if (c.s.chance(1, 4)) in = gen::deepRuns(c.s, c.thorough ? 200000 : 60000, &d); else in = gen::bytes(c.s, gen::length(c.s, 250000), &d); capBlocks(o, in.size(), 5); versus(c, in, o, d); }
PROPERTY(large, 60, 900) { Opt o = genOpt(c.s, 100, 200, 2); std::string d; Bytes in = c.s.chance(1, 4) ? gen::deepRuns(c.s, 2000000, &d) : gen::bytes(c.s, 600000 + c.s.logRange(0, c.thorough ? 8000000 : 2400000), &d); o.mem = (size_t)(in.size() / 0.185 / (1 + c.s.choice(2))) + 1000; versus(c, in, o, d); c.nontrivial(in.size() > 500000); }
PROPERTY(pairs, 200, 3000) { std::string d; Bytes in = c.s.chance(1, 6) ? gen::freedFront(c.s, &d) : c.s.chance(1, 6) ? gen::tightSpecials(c.s, &d) : gen::pairRich(c.s, 120000, &d); Opt o = genOpt(c.s, 9000000, 15000000, 0); o.prepr = std::string(1 + c.s.choice(5), 'p'); versus(c, in, o, d); }
PROPERTY(precompressed, 500, 8000) {
  std::string d; Bytes in = c.s.chance(1, 6) ? gen::freedFront(c.s, &d) : c.s.chance(1, 6) ? gen::bytes(c.s, gen::length(c.s, 60000), &d) : gen::pairRich(c.s, 150000, &d); if (in.empty()) in.push_back(1); unsigned n = 1 + (unsigned)c.s.choice(5); std::string p(n, 'p');
  c.describe(strf("precompression, rounds=%u len=%zu shape=%s", n, in.size(), d.c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(n);
  size_t old = ref::preprocess(in, in.size() + 1, p).size(), now; { MemIn mi(&in); bwtc::Precompressor pre(p); Bytes out; MemOut mo(&out); bwtc::PrecompressorBlock* b = pre.readBlock(in.size() + 1, &mi); b->writeBlockHeader(&mo, PRECOMP_COMPRESSED_SIZE); now = out.size() + b->size(); c.nontrivial(b->grammar().numOfRules() > 0); delete b; }
  PBT_CHECK(c, now <= old + old / 100 + 64, "%zu bytes are precompressed to %zu bytes; the version of record needs %zu", in.size(), now, old);
}
// memoryless sources, default coder and its relative
PROPERTY(memoryless, 250, 5000) {
  Opt o = genOpt(c.s, 100, 200, 0); o.coder = c.s.chance(1, 3) ? 'b' : 'B'; o.starts = 1 + (unsigned)c.s.choice(16); size_t n = 2000 + c.s.logRange(0, 300000); unsigned k = 1 + (unsigned)c.s.choice(c.s.chance(1, 2) ? 8 : 256); pbt::Rng r(c.s.choice(1 << 20)); o.mem = (size_t)(n / 0.185) + 1000;
  std::vector<double> cum(k); double t = 0; unsigned shape = (unsigned)c.s.choice(3); for (unsigned i = 0; i < k; ++i) { t += shape == 0 ? 1.0 : shape == 1 ? 1.0 / (i + 1) : 1 + (double)r.below(1000); cum[i] = t; }
  Bytes in; std::vector<double> f(256); for (size_t i = 0; i < n; ++i) { double u = (double)(r.next() >> 11) / 9007199254740992.0 * t; unsigned s = (unsigned)(std::lower_bound(cum.begin(), cum.end(), u) - cum.begin()); if (s >= k) s = k - 1; in.push_back((unsigned char)s); ++f[s]; }
  double h = 0; for (unsigned i = 0; i < 256; ++i) if (f[i] > 0) h += f[i] * std::log2(n / f[i]); h /= 8;
  note(c, in, o, strf("memoryless(%u symbols, kind %u, %.0f bytes of entropy)", k, shape, h)); size_t got = compressMem(in, o).size(); double lim = h * (o.coder == 'B' ? 1.15 : 1.40) + 100 + 4.0 * k + 8.0 * o.starts + 200.0 * (n / 10000 < k ? n / 10000 : k) / 8;
  PBT_CHECK(c, got <= lim, "%zu bytes with an entropy of %.0f bytes compress to %zu bytes (limit %.0f)", n, h, got, lim);
}
PROPERTY(repetition, 300, 6000) {
  Opt o = genOpt(c.s, 100, 200, 0); o.starts = 1; std::string d; size_t n = 1 + gen::length(c.s, 5000); Bytes w = gen::bytes(c.s, n, &d), in; unsigned k = 2 + (unsigned)c.s.logRange(0, 100); while (n * k > 300000) k = k / 2 + 1; for (unsigned i = 0; i < k; ++i) in.insert(in.end(), w.begin(), w.end()); o.mem = (size_t)(in.size() / 0.185) + 100;
  note(c, in, o, strf("%u times ", k) + d); size_t one = compressMem(w, o).size(), many = compressMem(in, o).size(); double lim = o.coder == 'H' ? one * (1 + 0.8 * std::log2(k)) + 250 : one * 1.4 + 60 * std::log2(k) + 250;
  PBT_CHECK(c, many <= lim, "a text that compresses to %zu bytes needs %zu bytes when repeated %u times (limit %.0f)", one, many, k, lim);
}
