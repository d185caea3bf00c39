// The programs under valgrind: reads of uninitialised or unallocated memory that influence anything.
#include "cli.hpp"
using namespace cli;
static std::string verb(pbt::Case& c, const Bytes& in) { return c.s.chance(1, 4) ? strf(" -v %d", (int)c.s.choice(in.size() <= 600 ? 10 : 5)) : std::string(); }
static bool works() { static int w = -1; if (w < 0) w = access("/usr/bin/valgrind", X_OK) == 0 && system("/usr/bin/valgrind -q --error-exitcode=77 /bin/true >/dev/null 2>&1") == 0; return w == 1; }
static Res vg(const std::string& line) { Limits l; l.cpu = 400; l.wrap = args("/usr/bin/valgrind -q --error-exitcode=77 --undef-value-errors=yes --leak-check=no --run-libc-freeres=no"); return run(args(line), In(), Out(), l); }
static void both(pbt::Case& c, const std::string& C, const std::string& D, const Bytes& in, const std::string& d) {
  c.describe(strf("valgrind %s | %s, len=%zu shape=%s head=%s", C.c_str(), D.c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(pbt::hashBytes(C.data(), C.size())); c.nontrivial(in.size() > 1);
  if (!works()) { c.label("no-valgrind"); return; }
  std::string a = dir() + "/in", z = dir() + "/arc", o = dir() + "/out"; put(a, in); Res r = vg(C + " " + a + " " + z); PBT_CHECK(c, r.ok(), "%s under valgrind: %s", C.c_str(), r.show().c_str());
  r = vg(D + " " + z + " " + o); PBT_CHECK(c, r.ok(), "%s under valgrind: %s", D.c_str(), r.show().c_str()); Bytes out; PBT_CHECK(c, get(o, out) && out == in, "round trip differs");
}
static Bytes gIn(pbt::Case& c, size_t cap, std::string& d) { unsigned k = (unsigned)c.s.choice(6); if (k == 0) return gen::pairRich(c.s, cap, &d); if (k == 1) return gen::deepRuns(c.s, cap / 6, &d); return gen::bytes(c.s, gen::length(c.s, cap), &d); }
PROPERTY(archiver, 90, 2000) { Fmt f = genFmt(c.s); f.mem = 1; std::string d; Bytes in = gIn(c, c.s.chance(1, 4) ? 30000 : 3000, d); std::string C = "compress " + opts(f); C += strf(" --bwt %c", "dsa"[c.s.choice(3)]); C += verb(c, in); both(c, C, "uncompress" + verb(c, in), in, d); }
PROPERTY(precompressor, 32, 700) { std::string d; Bytes in = gIn(c, c.s.chance(1, 3) ? 60000 : 3000, d); std::string C = strf("preprocess -b %u --prepr ", (unsigned)(c.s.chance(1, 2) ? 1000 : 1 + c.s.choice(20))) + std::string(1 + c.s.choice(3), 'p'); C += verb(c, in); both(c, C, "postprocess" + verb(c, in), in, d); }
