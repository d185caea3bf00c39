#define MAIN
// The tree under test and the version of record read each other's archives.
#include "bw.hpp"
#include "ref.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "PrecompressorBlock.hpp"
using namespace bw;
static void swapArc(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); }
  c.label(strf("coder-%c", o.coder)); if (!o.prepr.empty()) c.label("precompressed"); if (in.size() > approxBlock(o)) c.label("multi-block"); c.nontrivial(in.size() > 1);
  Bytes old = ref::compress(in, o.coder, o.algo, o.starts, o.mem, o.prepr); Bytes out = decompressMem(old);
  PBT_CHECK(c, out == in, "an archive written by the version of record is restored wrongly: %s", gen::firstDiff(in, out).c_str());
  Bytes now = compressMem(in, o); if (now == old) { c.label("identical-archives"); return; }
  Bytes back; PBT_CHECK(c, ref::decompress(now, back), "the version of record cannot read the new archive (%s)", gen::firstDiff(old, now).c_str());
  PBT_CHECK(c, back == in, "the version of record restores the new archive wrongly: %s", gen::firstDiff(in, back).c_str());
}
PROPERTY(tiny, 12000, 200000) { Opt o = genOpt(c.s, 64, 2000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 100); size_t n = c.s.choice(20); unsigned a = 1 + (unsigned)c.s.choice(5), base = c.s.chance(1, 3) ? 256 - a : 97; Bytes in; for (size_t i = 0; i < n; ++i) in.push_back((unsigned char)(base + c.s.choice(a))); swapArc(c, in, o, "tiny"); }
PROPERTY(small, 5000, 80000) { Opt o = genOpt(c.s, 64, 20000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 600); size_t n = gen::length(c.s, 3000); capBlocks(o, n, 30); std::string d; Bytes in = gen::bytes(c.s, n, &d); swapArc(c, in, o, d); }
PROPERTY(medium, 700, 12000) { Opt o = genOpt(c.s, 30000, 1500000, 3); std::string d; Bytes in; if (c.s.chance(1, 3)) in = gen::deepRuns(c.s, c.thorough ? 200000 : 60000, &d); else in = gen::bytes(c.s, gen::length(c.s, 250000), &d); capBlocks(o, in.size(), 8); swapArc(c, in, o, d); }
PROPERTY(pairs, 160, 3000) { std::string d; Bytes in = c.s.chance(1, 6) ? gen::freedFront(c.s, &d) : c.s.chance(1, 6) ? gen::tightSpecials(c.s, &d) : gen::pairRich(c.s, 120000, &d); Opt o = genOpt(c.s, 9000000, 15000000, 0); o.prepr = std::string(1 + c.s.choice(5), 'p'); swapArc(c, in, o, d); }
PROPERTY(sections, 16, 300) { std::string d; Bytes in = gen::sectioned(c.s, 2700000, &d); Opt o = genOpt(c.s, 14500000, 30000000, 0); swapArc(c, in, o, d); }
PROPERTY(nested, 40, 600) { std::string d; Bytes in = gen::longRules(c.s, 500000, &d); Opt o = genOpt(c.s, 1000000, 15000000, 0); o.prepr = std::string(8 + c.s.choice(18), 'p'); swapArc(c, in, o, d); }
static void swapPre(pbt::Case& c, const Bytes& in, size_t bs, unsigned rounds, const std::string& d) {
  std::string p(rounds, 'p'); c.describe(strf("preprocess rounds=%u block=%zu len=%zu shape=%s head=%s", rounds, bs, in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(bs * 10 + rounds); c.nontrivial(in.size() > 1); c.label("preprocess");
  Bytes old = ref::preprocess(in, bs, p), out; { MemIn mi(&old); MemOut mo(&out); while (true) { bwtc::PrecompressorBlock* b = bwtc::PrecompressorBlock::readBlockHeader(&mi, PRECOMP_COMPRESSED_SIZE); if (b->size() == 0) { delete b; break; } bwtc::Postprocessor q(false, b->grammar()); q.uncompress(b->begin(), b->size(), &mo); delete b; } PBT_CHECK(c, mi.pos() == old.size(), "%zu of %zu bytes of a precompressed file read", mi.pos(), old.size()); }
  PBT_CHECK(c, out == in, "a precompressed file written by the version of record is expanded wrongly: %s", gen::firstDiff(in, out).c_str());
  Bytes now; { MemIn mi(&in); MemOut mo(&now); bwtc::Precompressor pre(p); while (true) { bwtc::PrecompressorBlock* b = pre.readBlock(bs, &mi); if (b->originalSize() == 0) { delete b; break; } b->writeBlockHeader(&mo, PRECOMP_COMPRESSED_SIZE); mo.writeBlock(b->begin(), b->end()); delete b; } bwtc::PrecompressorBlock::writeEmptyHeader(&mo); }
  if (now == old) { c.label("identical-files"); return; }
  Bytes back; PBT_CHECK(c, ref::postprocess(now, back), "the version of record cannot read the new precompressed file"); PBT_CHECK(c, back == in, "the version of record expands the new file wrongly: %s", gen::firstDiff(in, back).c_str());
}
PROPERTY(preprocess, 1200, 20000) { std::string d; Bytes in = c.s.chance(1, 3) ? gen::bytes(c.s, gen::length(c.s, 60000), &d) : gen::pairRich(c.s, 100000, &d); size_t bs = 1 + c.s.logRange(0, in.size() + 5); if (in.size() / bs > 100) bs = in.size() / 100 + 1; swapPre(c, in, bs, (unsigned)c.s.choice(6), d); }
