// The programs and the version of record read each other's files.
#include "cli.hpp"
#include "ref.hpp"
using namespace cli;
static Bytes gIn(pbt::Case& c, size_t cap, const Fmt& f, std::string& d) {
  unsigned k = (unsigned)c.s.choice(6); if (k == 0) return gen::pairRich(c.s, std::min<size_t>(cap, 100000), &d); if (k == 1) return gen::deepRuns(c.s, std::min<size_t>(cap / 3, 50000), &d);
  std::vector<size_t> sp; sp.push_back(block(f)); sp.push_back(2 * block(f)); return gen::bytes(c.s, gen::length(c.s, cap, sp), &d);
}
PROPERTY(archives, 1500, 20000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in = gIn(c, c.s.chance(1, 2) ? 20000 : 500000, f, d); std::string a = dir() + "/in", z = dir() + "/arc", o = dir() + "/out"; put(a, in);
  c.describe(strf("compress %s len=%zu shape=%s head=%s", opts(f).c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = opts(f); c.key(pbt::hashBytes(k.data(), k.size())); } c.nontrivial(in.size() > 1); c.label(strf("coder-%c", f.enc));
  Res r = run(args("compress " + opts(f) + " " + a + " " + z)); PBT_CHECK(c, r.ok(), "compress failed: %s", r.show().c_str()); Bytes arc, back, out; PBT_CHECK(c, get(z, arc), "no archive");
  PBT_CHECK(c, ref::decompress(arc, back), "the version of record cannot read the archive"); PBT_CHECK(c, back == in, "the version of record restores the archive wrongly: %s", gen::firstDiff(in, back).c_str());
  Bytes old = ref::compress(in, f.enc, "dsa"[c.s.choice(3)], f.starts, (f.mem ? f.mem : 1) * (size_t)1000000, f.prepr); if (old == arc) c.label("identical-archives"); put(z, old);
  r = run(args("uncompress " + z + " " + o)); PBT_CHECK(c, r.ok(), "uncompress failed on an archive of the version of record: %s", r.show().c_str()); PBT_CHECK(c, get(o, out) && out == in, "an archive of the version of record is restored wrongly: %s", gen::firstDiff(in, out).c_str());
}
PROPERTY(precompressed, 600, 8000) {
  std::string d; Bytes in = c.s.chance(1, 3) ? gen::bytes(c.s, gen::length(c.s, 60000), &d) : gen::pairRich(c.s, 100000, &d); static const unsigned bk[] = {1, 10, 64, 1000, 100000}; unsigned b = bk[c.s.choice(5)]; std::string p(c.s.choice(5), 'p'), a = dir() + "/in", z = dir() + "/arc", o = dir() + "/out"; put(a, in);
  std::string line = strf("preprocess -b %u", b) + (p.empty() ? "" : " --prepr " + p); c.describe(strf("%s len=%zu shape=%s", line.c_str(), in.size(), d.c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(b * 10 + p.size()); c.nontrivial(in.size() > 1);
  Res r = run(args(line + " " + a + " " + z)); PBT_CHECK(c, r.ok(), "preprocess failed: %s", r.show().c_str()); Bytes arc, back, out; PBT_CHECK(c, get(z, arc), "no file");
  PBT_CHECK(c, ref::postprocess(arc, back), "the version of record cannot read the file"); PBT_CHECK(c, back == in, "the version of record expands the file wrongly: %s", gen::firstDiff(in, back).c_str());
  Bytes old = ref::preprocess(in, b * (size_t)1024, p); if (old == arc) c.label("identical-files"); put(z, old);
  r = run(args("postprocess " + z + " " + o)); PBT_CHECK(c, r.ok(), "postprocess failed on a file of the version of record: %s", r.show().c_str()); PBT_CHECK(c, get(o, out) && out == in, "a file of the version of record is expanded wrongly: %s", gen::firstDiff(in, out).c_str());
}
