// An archive is its header, each block encoded on its own, and the end marker.
#define MAIN
#include "arc.hpp"
#include "EntropyCoders.hpp"
#include "preprocessors/Precompressor.hpp"
#include "PrecompressorBlock.hpp"
#include "bwtransforms/BWTManager.hpp"
using namespace bw;
static void independent(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); } c.label(strf("coder-%c", o.coder));
  Bytes a = compressMem(in, o); arc::Layout l = arc::walk(c, a);
  PBT_CHECK(c, l.end == a.size(), "following the length fields ends at %zu of %zu", l.end, a.size());
  size_t slices = 0; for (size_t i = 0; i < l.blocks.size(); ++i) slices += l.blocks[i].slices.size();
  c.nontrivial(slices > 1); c.label(slices > 20 ? "more-than-20-blocks" : slices > 1 ? "2-to-20-blocks" : "one-block");
  // each block compressed alone, last one first
  std::vector<size_t> off(1, 0); for (size_t i = 0; i < l.blocks.size(); ++i) off.push_back(off.back() + l.blocks[i].original);
  PBT_CHECK(c, off.back() == in.size(), "block headers add up to %zu, input has %zu", off.back(), in.size());
  size_t step = 1 + l.blocks.size() / 12, first = c.s.choice(step);
  for (size_t i = l.blocks.size(); i-- > 0;) {
    if (i % step != first && i + 1 != l.blocks.size() && i > 1) continue;
    Bytes part(in.begin() + off[i], in.begin() + off[i + 1]); Bytes alone = compressMem(part, o);
    Bytes body(a.begin() + l.blocks[i].begin, a.begin() + l.blocks[i].end);
    PBT_CHECK(c, alone.size() >= 2 && alone[0] == a[0] && alone.back() == a.back(), "block %zu alone has another header or end marker", i);
    Bytes got(alone.begin() + 1, alone.end() - 1);
    PBT_CHECK(c, got == body, "block %zu of %zu (%zu bytes) is encoded differently in the archive than on its own: %s", i, l.blocks.size(), part.size(), gen::firstDiff(body, got).c_str());
    // slices: each with its own coder and transformer
    if (l.blocks[i].slices.size() > 1) {
      c.label("slices-checked");
      bwtc::Precompressor pre(o.prepr); MemIn mi(&part); bwtc::PrecompressorBlock* pb = pre.readBlock(part.size(), &mi);
      // slice sizes follow from decoding
      size_t pos = 0;
      for (size_t j = 0; j < l.blocks[i].slices.size(); ++j) {
        const arc::Slice& s = l.blocks[i].slices[j]; Bytes enc(a.begin() + s.at, a.begin() + s.at + 6 + s.len);
        bwtc::EntropyDecoder* dec = bwtc::giveEntropyDecoder(o.coder); Bytes buf(part.size() + 1); bwtc::BWTBlock blk(&buf[0], 0, true); MemIn si(&enc); dec->decodeBlock(blk, &si); delete dec;
        size_t n = blk.size(); PBT_CHECK(c, pos + n <= pb->size(), "slices are longer than the block");
        Bytes sl(pb->begin() + pos, pb->begin() + pos + n); sl.push_back(0); pos += n;
        bwtc::EntropyEncoder* e = bwtc::giveEntropyEncoder(o.coder); bwtc::BWTManager m(1); m.initialize(o.algo); m.setStartingPoints(o.starts); Bytes out; MemOut mo(&out); bwtc::BWTBlock b2(&sl[0], (bwtc::uint32)n, false);
        e->transformAndEncode(b2, m, &mo); delete e;
        PBT_CHECK(c, out == enc, "slice %zu of block %zu is encoded differently on its own: %s", j, i, gen::firstDiff(enc, out).c_str());
      }
      delete pb;
    }
  }
  // decoding is independent as well: blocks put together in another order decode to that order
  if (l.blocks.size() > 1 && l.blocks.size() < 400) {
    std::vector<size_t> ord; for (size_t i = 0; i < l.blocks.size(); ++i) ord.push_back(i);
    pbt::Rng r(c.s.choice(1 << 20)); for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
    Bytes sh(1, a[0]), want; for (size_t i = 0; i < ord.size(); ++i) { const arc::Block& b = l.blocks[ord[i]]; sh.insert(sh.end(), a.begin() + b.begin, a.begin() + b.end); want.insert(want.end(), in.begin() + off[ord[i]], in.begin() + off[ord[i] + 1]); }
    sh.push_back(a.back()); Bytes out = decompressMem(sh);
    PBT_CHECK(c, out == want, "blocks in another order do not decode to that order: %s", gen::firstDiff(want, out).c_str());
  }
}
// Inputs made of blocks of different characters, so that leaking state would show.
static Bytes gIn(pbt::Case& c, const Opt& o, size_t cap, std::string& d) {
  size_t b = std::max<size_t>(1, approxBlock(o)); Bytes in; size_t n = std::min(cap, b * (1 + c.s.choice(10)) + c.s.choice(b + 1)); std::string x; unsigned mode = (unsigned)c.s.choice(3);
  if (mode == 0) return gen::bytes(c.s, n, &d);
  while (in.size() < n) { size_t k = std::min(n - in.size(), b); Bytes p; if (mode == 2 && c.s.chance(1, 2)) p = Bytes(k, (unsigned char)c.s.choice(256)); else p = gen::bytes(c.s, k, &x); in.insert(in.end(), p.begin(), p.end()); if (d.size() < 200) d += x + "|"; if (p.empty()) break; }
  return in;
}
PROPERTY(small, 3000, 60000) { Opt o = genOpt(c.s, 64, 8000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 300); std::string d; Bytes in = gIn(c, o, 4000, d); independent(c, in, o, d); }
PROPERTY(medium, 350, 7000) { Opt o = genOpt(c.s, 20000, 300000, 3); std::string d; Bytes in = gIn(c, o, 300000, d); independent(c, in, o, d); }
PROPERTY(pairs, 60, 1500) {
  std::string d, x; Bytes in; unsigned n = 2 + (unsigned)c.s.choice(3); size_t b = 0; for (unsigned i = 0; i < n; ++i) { Bytes p = gen::pairRich(c.s, 60000, &x); b = std::max(b, p.size()); in.insert(in.end(), p.begin(), p.end()); d += x + "|"; }
  Opt o = genOpt(c.s, 1000, 1001, 0); o.prepr = std::string(1 + c.s.choice(4), 'p'); o.mem = (size_t)(b / 0.74) + c.s.choice(3); independent(c, in, o, d);
}
PROPERTY(large, 4, 100) { Opt o = genOpt(c.s, 1000000, 4000000, 2); std::string d; Bytes in = gIn(c, o, 1500000, d); independent(c, in, o, d); }
