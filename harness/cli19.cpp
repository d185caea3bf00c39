// What the programs write is never noticeably longer than what the version of record writes.
#include "cli.hpp"
#include "ref.hpp"
using namespace cli;
PROPERTY(programs, 700, 9000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in; unsigned k = (unsigned)c.s.choice(6); if (k == 0) in = gen::pairRich(c.s, 100000, &d); else if (k == 1) in = gen::deepRuns(c.s, 50000, &d); else { std::vector<size_t> sp; sp.push_back(block(f)); in = gen::bytes(c.s, gen::length(c.s, k < 4 ? 30000 : 400000, sp), &d); }
  std::string a = dir() + "/in", z = dir() + "/arc"; put(a, in); c.describe(strf("compress %s len=%zu shape=%s head=%s", opts(f).c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string q = opts(f); c.key(pbt::hashBytes(q.data(), q.size())); } c.nontrivial(in.size() > 256); c.label(strf("coder-%c", f.enc));
  Res r = run(args("compress " + opts(f) + " " + a + " " + z)); PBT_CHECK(c, r.ok(), "compress failed: %s", r.show().c_str()); Bytes arc; PBT_CHECK(c, get(z, arc), "no archive");
  size_t old = ref::compress(in, f.enc, 'd', f.starts, (f.mem ? f.mem : 1) * (size_t)1000000, f.prepr).size(); PBT_CHECK(c, arc.size() <= old + old / 100 + 64, "%zu bytes compress to %zu bytes; the version of record needs %zu", in.size(), arc.size(), old);
}
