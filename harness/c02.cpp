#define MAIN
#include "bw.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "PrecompressorBlock.hpp"
using namespace bw;
static Bytes gIn(pbt::Case& c, std::string& d) {
  switch (c.s.choice(8)) {
    case 0: { size_t n = gen::length(c.s, 4000); return gen::bytes(c.s, n, &d); }
    case 1: { size_t n = gen::length(c.s, 200000); return gen::bytes(c.s, n, &d); }
    default: return gen::pairRich(c.s, c.thorough ? 600000 : 150000, &d);
  }
}
static void libRT(pbt::Case& c, const Bytes& in, unsigned rounds, const std::string& d) {
  std::string opts(rounds, 'p');
  c.describe(strf("rounds=%u len=%zu alphabet=%u shape=%s head=%s", rounds, in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); c.key(rounds);
  bwtc::Precompressor pre(opts); MemIn mi(&in);
  bwtc::PrecompressorBlock* pb = pre.readBlock(in.size() + 7, &mi);
  const bwtc::Grammar& g = pb->grammar();
  PBT_CHECK(c, pb->originalSize() == in.size(), "original size %zu reported for %zu bytes", pb->originalSize(), in.size());
  Bytes out; MemOut mo(&out);
  size_t sz = 0;
  if (!in.empty()) { bwtc::Postprocessor post(false, g); sz = post.uncompress(pb->begin(), pb->size(), &mo); }
  if (g.numOfRules()) c.label("rules"); if (g.numberOfSpecialSymbols()) c.label("specials"); if (g.numberOfFreedSymbols()) c.label("freed");
  if (g.numOfRules() > 1 && pb->size() * 10 < in.size() * 7) c.label("temp-array");
  c.nontrivial(g.numOfRules() > 0); if (pb->size() * 2000 < in.size()) c.label("shrunk-2000-fold");
  PBT_CHECK(c, out == in, "expansion differs: %s", gen::firstDiff(in, out).c_str());
  PBT_CHECK(c, sz == in.size(), "expansion reports %zu of %zu bytes", sz, in.size());
  if (!in.empty() && in.size() < 20000000) {  // and with the grammar as it is stored
    Bytes ser; MemOut so(&ser); g.writeGrammar(&so); MemIn si(&ser); bwtc::Grammar h; h.readGrammar(&si); PBT_CHECK(c, si.pos() == ser.size(), "stored grammar: %zu of %zu bytes read back", si.pos(), ser.size());
    out.clear(); bwtc::Postprocessor post(false, h); post.uncompress(pb->begin(), pb->size(), &mo); PBT_CHECK(c, out == in, "expansion with the stored grammar differs: %s", gen::firstDiff(in, out).c_str());
  }
  delete pb;
}
PROPERTY(library, 1500, 20000) { std::string d; Bytes in = gIn(c, d); if (in.empty()) in.push_back(0); libRT(c, in, 1 + (unsigned)c.s.choice(6), d); }
PROPERTY(triples, 24, 300) { std::string d; Bytes in = gen::tripleRuns(c.s, &d); libRT(c, in, 1 + (unsigned)c.s.choice(2), d); }
PROPERTY(freedFront, 120, 1500) { std::string d; Bytes in = gen::freedFront(c.s, &d); libRT(c, in, 1 + (unsigned)c.s.choice(2), d); }
PROPERTY(specials, 300, 4000) { std::string d; Bytes in = gen::tightSpecials(c.s, &d); libRT(c, in, 1 + (unsigned)c.s.choice(3), d); }
// any short text: the replacer needs many occurrences, but its edges (first and last bytes, tiny blocks) must be right too
PROPERTY(tiny, 3000, 40000) { size_t n = 1 + c.s.choice(9); Bytes in; unsigned a = 1 + (unsigned)c.s.choice(4); for (size_t i = 0; i < n; ++i) in.push_back((unsigned char)(255 * c.s.choice(2) + c.s.choice(a))); libRT(c, in, 1 + (unsigned)c.s.choice(6), "tiny"); c.nontrivial(n > 1); }
// many rounds over a repeated phrase: rules within rules
PROPERTY(nested, 120, 1500) { std::string d; Bytes in = gen::longRules(c.s, 700000, &d); libRT(c, in, 8 + (unsigned)c.s.choice(18), d); }
// ... until one symbol stands for more than 64 KB; a pair must occur over 1003 times to be replaced, so the block is large
PROPERTY(giant, 2, 12) { size_t per = 1 + c.s.choice(3), n = 70000000 + c.s.choice(70000000); Bytes in(n); unsigned b = (unsigned)c.s.choice(256); for (size_t i = 0; i < n; ++i) in[i] = (unsigned char)(b + i % per); libRT(c, in, 16 + (unsigned)c.s.choice(6), strf("giant period %zu", per)); }
// One block after the other through one Precompressor, as the compressor does.
PROPERTY(sequence, 150, 2500) {
  unsigned rounds = 1 + (unsigned)c.s.choice(4); bwtc::Precompressor pre(std::string(rounds, 'p')); Bytes all; std::string d, dd;
  unsigned n = 2 + (unsigned)c.s.choice(3); size_t bs = 0;
  for (unsigned i = 0; i < n; ++i) { Bytes b = c.s.chance(1, 4) ? gen::bytes(c.s, gen::length(c.s, 20000), &d) : gen::pairRich(c.s, 60000, &d); all.insert(all.end(), b.begin(), b.end()); dd += d + " "; bs = std::max(bs, b.size()); }
  if (all.empty()) all.push_back(1); bs = std::max<size_t>(1, c.s.chance(1, 2) ? bs : all.size() / (1 + c.s.choice(5)));
  c.describe(strf("rounds=%u len=%zu blockSize=%zu shape=%s", rounds, all.size(), bs, dd.c_str())); c.key(pbt::hashBytes(all.data(), all.size())); c.key(bs * 10 + rounds);
  MemIn mi(&all); Bytes out; MemOut mo(&out); size_t guard = 0; bool rules = false;
  while (true) {
    bwtc::PrecompressorBlock* pb = pre.readBlock(bs, &mi); if (pb->originalSize() == 0) { delete pb; break; }
    Bytes ser; MemOut so(&ser); pb->writeBlockHeader(&so, PRECOMP_COMPRESSED_SIZE); so.writeBlock(pb->begin(), pb->end());
    rules = rules || pb->grammar().numOfRules(); delete pb;
    MemIn si(&ser); bwtc::PrecompressorBlock* q = bwtc::PrecompressorBlock::readBlockHeader(&si, PRECOMP_COMPRESSED_SIZE);
    PBT_CHECK(c, si.pos() == ser.size(), "stored block: %zu of %zu bytes read back", si.pos(), ser.size());
    bwtc::Postprocessor post(false, q->grammar()); post.uncompress(q->begin(), q->size(), &mo); delete q;
    PBT_CHECK(c, ++guard <= all.size(), "more blocks than bytes");
  }
  c.nontrivial(rules); PBT_CHECK(c, out == all, "expansion differs: %s", gen::firstDiff(all, out).c_str());
}
