// Reported sizes and length fields.
#define MAIN
#include "arc.hpp"
#include "EntropyCoders.hpp"
using namespace bw;
static void sizes(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d, bool file) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s via=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), file ? "file" : "memory", gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); } c.label(strf("coder-%c", o.coder));
  size_t rep = ~(size_t)0, drep = ~(size_t)0;
  Bytes a = file ? compressFile(in, o, pbt::scratchDir(), &rep) : compressMem(in, o, &rep);
  PBT_CHECK(c, rep == a.size(), "compressor reports %zu bytes, wrote %zu", rep, a.size());
  arc::Layout l = arc::walk(c, a);
  PBT_CHECK(c, l.end == a.size(), "following the length fields ends at %zu of %zu", l.end, a.size());
  size_t total = 0, slices = 0; for (size_t i = 0; i < l.blocks.size(); ++i) { total += l.blocks[i].original; slices += l.blocks[i].slices.size(); if (l.blocks[i].rules) c.label("grammar"); }
  PBT_CHECK(c, total == in.size(), "block headers add up to %zu, input has %zu", total, in.size());
  c.nontrivial(slices > 0); if (l.blocks.size() > 1) c.label("several-blocks"); if (slices > l.blocks.size()) c.label("several-slices");
  // every slice on its own: the decoder needs exactly the bytes the field announces
  size_t tried = 0;
  for (size_t i = 0; i < l.blocks.size() && tried < 12; ++i) for (size_t j = 0; j < l.blocks[i].slices.size() && tried < 12; ++j, ++tried) {
    const arc::Slice& s = l.blocks[i].slices[j]; Bytes part(a.begin() + s.at, a.begin() + s.at + 6 + s.len); MemIn mi(&part);
    bwtc::EntropyDecoder* dec = bwtc::giveEntropyDecoder(o.coder); Bytes buf(l.blocks[i].original + 1); bwtc::BWTBlock blk(&buf[0], 0, true);
    dec->decodeBlock(blk, &mi); delete dec;
    PBT_CHECK(c, mi.pos() == part.size(), "block %zu slice %zu: length field says %zu, decoding takes %zu", i, j, s.len, mi.pos() - 6);
  }
  Bytes out = file ? decompressFile(a, pbt::scratchDir(), &drep) : decompressMem(a, &drep);
  PBT_CHECK(c, drep == out.size(), "decompressor reports %zu bytes, wrote %zu", drep, out.size());
}
static Bytes gIn(pbt::Case& c, const Opt& o, size_t cap, std::string& d) {
  size_t b = std::max<size_t>(1, approxBlock(o));
  switch (c.s.choice(6)) {
    case 0: return gen::pairRich(c.s, std::min<size_t>(cap, 150000), &d);
    case 1: return gen::deepRuns(c.s, std::min<size_t>(cap / 2, 60000), &d);
    default: { std::vector<size_t> sp; sp.push_back(b); sp.push_back(2 * b); size_t n = gen::length(c.s, std::min(cap, 20 * b + 2), sp); return gen::bytes(c.s, n, &d); }
  }
}
PROPERTY(small, 9000, 150000) { Opt o = genOpt(c.s, 64, 20000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 600); std::string d; Bytes in = gIn(c, o, 3000, d); capBlocks(o, in.size(), 40); sizes(c, in, o, d, c.s.chance(1, 4)); }
PROPERTY(medium, 900, 16000) { Opt o = genOpt(c.s, 30000, 1500000, 3); std::string d; Bytes in = gIn(c, o, 250000, d); capBlocks(o, in.size(), 40); sizes(c, in, o, d, c.s.chance(1, 3)); }
PROPERTY(slices, 200, 4000) { Opt o = genOpt(c.s, 2000, 60000, 0); o.prepr = "p"; if (c.s.chance(1, 2)) o.prepr = "ppp"; std::string d; Bytes in = gen::bytes(c.s, gen::length(c.s, 200000), &d); capBlocks(o, in.size(), 40); sizes(c, in, o, d, c.s.chance(1, 3)); }
PROPERTY(large, 10, 200) { Opt o = genOpt(c.s, 2000000, 60000000, 2); std::string d; size_t n = c.s.range(300000, c.thorough ? 10000000 : 2500000); Bytes in = gen::bytes(c.s, n, &d); sizes(c, in, o, d, true); }
// More than 2^32 bytes restored from an archive whose blocks are copies of one block (see C16): the reported size counts them all.
struct CountOut : bwtc::OutStream {
  unsigned long long n, bad; unsigned char x; explicit CountOut(unsigned char v) : n(0), bad(0), x(v) {}
  void writeByte(bwtc::byte b) { ++n; bad += b != x; } void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { n += e - b; if (e > b) { bad += *b != x; bad += memcmp(b, b + 1, e - b - 1) != 0; } } long int getPos() { return (long)n; } void write48bits(bwtc::uint64, long int) {} void flush() {}
};
PROPERTY(giantSize, 2, 20) {
  Opt o = genOpt(c.s, 100, 200, 0); o.prepr = std::string(6 + c.s.choice(5), 'p'); size_t bs = c.s.range(60000000, 160000000); o.mem = (size_t)(bs / 0.185) + 1000000; unsigned char x = (unsigned char)c.s.choice(256); Bytes one(bs, x), a = compressMem(one, o); arc::Layout l = arc::walk(c, a);
  if (l.blocks.size() != 1) throw pbt::Inconclusive("more than one block"); size_t k = (size_t)(4294967296ULL / bs) + 1 + c.s.choice(3); c.describe(strf("%s, archive of %zu blocks of %zu bytes %02x", show(o).c_str(), k, bs, x)); c.key(bs); c.key(k); c.nontrivial(true);
  Bytes big(a.begin(), a.begin() + l.blocks[0].begin); for (size_t i = 0; i < k; ++i) big.insert(big.end(), a.begin() + l.blocks[0].begin, a.begin() + l.blocks[0].end); big.insert(big.end(), a.begin() + l.blocks[0].end, a.end()); Bytes().swap(one);
  unsigned long long n, bad; size_t rep; { CountOut* out = new CountOut(x); bwtc::Decompressor d(new MemIn(&big), out); rep = d.decompress(1); n = out->n; bad = out->bad; }
  PBT_CHECK(c, n == (unsigned long long)k * bs && !bad, "%zu blocks of %zu bytes are restored as %llu bytes (%llu wrong parts)", k, bs, n, bad); PBT_CHECK(c, rep == n, "decompressor reports %zu bytes, wrote %llu", rep, n);
}
