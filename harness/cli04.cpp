// Archives written by the program under different non-format options, names and environments.
#include "cli.hpp"
using namespace cli;
// A verbosity level; the highest ones trace every bit, so only on little data.
static int verb(pbt::Src& s, const Bytes& in) { return s.chance(1, 8) ? -1 : (int)s.choice(in.size() <= 600 ? 11 : 6); }
PROPERTY(programs, 420, 8000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in; unsigned k = (unsigned)c.s.choice(6);
  if (k == 0) in = gen::pairRich(c.s, 150000, &d); else if (k == 1) in = gen::deepRuns(c.s, 40000, &d); else { std::vector<size_t> sp; sp.push_back(block(f)); in = gen::bytes(c.s, k < 4 ? gen::length(c.s, 3000) : gen::length(c.s, 400000, sp), &d); }
  std::string a = dir() + "/in", z = dir() + "/a"; put(a, in);
  c.describe(strf("%s len=%zu shape=%s head=%s", opts(f).c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string q = opts(f); c.key(pbt::hashBytes(q.data(), q.size())); }
  c.nontrivial(in.size() > 1); if (in.size() > block(f)) c.label("multi-block");
  Res r = run(args("compress " + opts(f) + " --bwt d " + a + " " + z)); PBT_CHECK(c, r.ok(), "compress failed: %s", r.show().c_str());
  Bytes ref, got; PBT_CHECK(c, get(z, ref), "no archive");
  static const char al[] = {'s', 'a', 'd'}; static const char* nm[] = {"b", "some-longer.name.with.dots_and_more", "0", "x.bwtc"};
  for (unsigned t = 0; t < 2; ++t) {
    std::string in2 = dir() + "/" + nm[c.s.choice(4)] + "i", z2 = dir() + "/" + nm[c.s.choice(4)] + "o"; put(in2, in); if (c.s.chance(1, 3)) put(z2, Bytes(c.s.choice(100000), 7));
    std::string line = "compress " + opts(f); if (t == 0 || c.s.chance(1, 2)) line += strf(" --bwt %c", al[t == 0 ? 0 : c.s.choice(3)]); if (c.s.chance(1, 2)) line += strf(" --verb=%d", verb(c.s, in));
    setenv("MALLOC_PERTURB_", strf("%d", (int)c.s.choice(256)).c_str(), 1);
    r = run(args(line + " " + in2 + " " + z2)); unsetenv("MALLOC_PERTURB_");
    PBT_CHECK(c, r.ok(), "compress failed: %s", r.show().c_str()); PBT_CHECK(c, get(z2, got), "no archive");
    PBT_CHECK(c, got == ref, "archive differs (%s): %s", line.c_str(), gen::firstDiff(ref, got).c_str());
    r = run(args(line + strf(" -c %s", in2.c_str()))); PBT_CHECK(c, r.ok(), "compress -c failed: %s", r.show().c_str()); PBT_CHECK(c, r.out == ref, "archive on standard output differs (%s): %s", line.c_str(), gen::firstDiff(ref, r.out).c_str());
    unlink(in2.c_str()); unlink(z2.c_str());
  }
  for (unsigned t = 0; t < 2; ++t) {
    std::string o = dir() + "/out"; r = run(args(strf("uncompress --verb=%d ", t ? verb(c.s, in) : 0) + z + " " + o)); PBT_CHECK(c, r.ok(), "uncompress failed: %s", r.show().c_str());
    Bytes out; get(o, out); PBT_CHECK(c, out == in, "decompression at verbosity %u differs: %s", t, gen::firstDiff(in, out).c_str());
    r = run(args(strf("uncompress -c --verb=%d ", t ? verb(c.s, in) : 0) + z)); PBT_CHECK(c, r.ok() && r.out == in, "decompression to standard output at verbosity %u differs: %s", t, gen::firstDiff(in, r.out).c_str());
  }
}

// One of the accepted spellings of an option.
static void spell(pbt::Src& s, std::vector<std::string>& v, const char* shortName, const char* longName, const std::string& val) {
  switch (s.choice(shortName ? 4 : 2)) {
    case 0: v.push_back(std::string("--") + longName); v.push_back(val); break;
    case 1: v.push_back(std::string("--") + longName + "=" + val); break;
    case 2: v.push_back(std::string("-") + shortName); v.push_back(val); break;
    default: v.push_back(std::string("-") + shortName + val);
  }
}
struct Line { std::vector<std::vector<std::string> > groups; void add(pbt::Src& s, const char* a, const char* b, const std::string& v) { std::vector<std::string> g; spell(s, g, a, b, v); groups.push_back(g); } };
static std::vector<std::string> build(pbt::Src& s, const std::string& prog, Line& l, const std::string& in, const std::string& out) {
  std::vector<std::string> r(1, prog), pos;
  if (s.chance(1, 2)) { std::vector<std::string> g; spell(s, g, 0, "input-file", in); l.groups.push_back(g); g.clear(); spell(s, g, 0, "output-file", out); l.groups.push_back(g); } else { pos.push_back(in); pos.push_back(out); }
  for (size_t i = l.groups.size(); i > 1; --i) std::swap(l.groups[i - 1], l.groups[s.choice(i)]);
  size_t at = 0;
  for (size_t i = 0; i <= l.groups.size(); ++i) { while (at < pos.size() && (i == l.groups.size() || s.chance(1, 4))) r.push_back(pos[at++]); if (i < l.groups.size()) r.insert(r.end(), l.groups[i].begin(), l.groups[i].end()); }
  return r;
}
static std::string join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + v[i]; return r; }
static void spelled(pbt::Case& c, const Bytes& in, const std::string& d, bool allDefault) {
  std::string a = dir() + "/in", z = dir() + "/a", z2 = dir() + "/b", o = dir() + "/out"; put(a, in); c.nontrivial(in.size() > 1); c.key(pbt::hashBytes(in.data(), in.size()));
  bool pre = c.s.chance(1, 4); Line l; std::string canon;
  if (pre) {
    size_t b = allDefault || c.s.chance(1, 2) ? 100000 : 1 + c.s.logRange(0, 300000); if (in.size() / b > 60) b = in.size() / 60 + 1; unsigned n = (unsigned)c.s.choice(4); std::string p(n, 'p');
    canon = strf("preprocess -b %zu", b); if (n) canon += " --prepr " + p;
    if (b != 100000 || !(allDefault || c.s.chance(1, 2))) l.add(c.s, "b", "block", strf("%zu", b)); else c.label("omitted-block");
    if (n) l.add(c.s, 0, "prepr", p);
  } else {
    Fmt f = genFmt(c.s); if (allDefault || c.s.chance(1, 3)) f.enc = 'B'; if (allDefault || c.s.chance(1, 3)) f.starts = 8; if (allDefault || c.s.chance(1, 3)) f.mem = 100; if (allDefault) f.prepr = "";
    canon = "compress " + opts(f) + " --bwt a";
    if (f.enc != 'B' || !(allDefault || c.s.chance(2, 3))) l.add(c.s, "e", "enc", std::string(1, f.enc)); else c.label("omitted-enc");
    if (f.starts != 8 || !(allDefault || c.s.chance(2, 3))) l.add(c.s, "s", "starts", strf("%u", f.starts)); else c.label("omitted-starts");
    if (f.mem != 100 || !(allDefault || c.s.chance(2, 3))) l.add(c.s, "m", "mem", strf("%u", f.mem)); else c.label("omitted-mem");
    if (!f.prepr.empty()) l.add(c.s, 0, "prepr", f.prepr);
    if (c.s.chance(1, 3)) l.add(c.s, 0, "bwt", std::string(1, "das"[c.s.choice(3)]));
  }
  if (c.s.chance(1, 4)) l.add(c.s, "v", "verb", strf("%d", abs(verb(c.s, in))));
  std::vector<std::string> line = build(c.s, pre ? "preprocess" : "compress", l, a, z2);
  c.describe(strf("%s | %s, len=%zu shape=%s", canon.c_str(), join(line).c_str(), in.size(), d.c_str())); { std::string k = join(line); size_t q; while ((q = k.find(dir())) != std::string::npos) k.erase(q, dir().size()); c.key(pbt::hashBytes(k.data(), k.size())); }
  Res r = run(args(canon + " " + a + " " + z)); PBT_CHECK(c, r.ok(), "%s failed: %s", canon.c_str(), r.show().c_str()); Bytes x, y; PBT_CHECK(c, get(z, x), "no output");
  r = run(line); PBT_CHECK(c, r.ok(), "%s failed: %s", join(line).c_str(), r.show().c_str()); PBT_CHECK(c, get(z2, y), "no output");
  PBT_CHECK(c, x == y, "output of '%s' differs from that of '%s': %s", join(line).c_str(), canon.c_str(), gen::firstDiff(x, y).c_str());
  Line m; if (c.s.chance(1, 2)) m.add(c.s, "v", "verb", strf("%d", abs(verb(c.s, in)))); line = build(c.s, pre ? "postprocess" : "uncompress", m, z, o);
  r = run(line); PBT_CHECK(c, r.ok(), "%s failed: %s", join(line).c_str(), r.show().c_str()); PBT_CHECK(c, get(o, y), "no output"); PBT_CHECK(c, y == in, "'%s' does not restore the input: %s", join(line).c_str(), gen::firstDiff(in, y).c_str());
}
PROPERTY(spellings, 700, 12000) { std::string d; Bytes in = c.s.chance(1, 4) ? gen::pairRich(c.s, 250000, &d) : gen::bytes(c.s, c.s.chance(1, 2) ? gen::length(c.s, 3000) : gen::length(c.s, 300000), &d); spelled(c, in, d, c.s.chance(1, 3)); }
// long enough for the default memory limit to matter
PROPERTY(defaults, 6, 60) {
  size_t n = 18500000 + c.s.choice(1500000), p = 1 + c.s.choice(40); Bytes w, in; pbt::Rng r(c.s.choice(1 << 20)); for (size_t i = 0; i < p; ++i) w.push_back((unsigned char)r.below(256)); for (size_t i = 0; i < n; ++i) in.push_back(w[i % p]);
  for (unsigned i = 0; i < 200; ++i) in[r.below(n)] ^= 1; spelled(c, in, strf("period %zu", p), true);
}
