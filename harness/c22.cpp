// Runs that are stopped half-way (killed at a byte of the output or at a system call, or failing there):
// what compress and preprocess leave behind never passes for a complete archive of something else, and what
// uncompress and postprocess leave behind is a beginning of the original.
#include "cli.hpp"
using namespace cli;

struct Job { std::string prog, opt; Bytes in, ref; std::string d; bool writer() const { return prog == "compress" || prog == "preprocess"; } };   // ref: what the program writes when nothing fails

static Bytes ask(const std::string& prog, const std::string& o, const Bytes& in) {
  std::string a = dir() + "/j_in", z = dir() + "/j_out"; put(a, in); unlink(z.c_str());
  Res r = run(args(prog + " " + o + " " + a + " " + z)); if (!r.ok()) throw pbt::Fail(prog + " " + o + " failed without any fault: " + r.show());
  Bytes out; if (!get(z, out)) throw pbt::Fail(prog + " succeeded but wrote no file"); return out;
}
static Job genJob(pbt::Case& c, size_t cap, bool large) {
  Job j; Fmt f = genFmt(c.s); if (f.mem > 3) f.mem = 1; unsigned p = (unsigned)c.s.choice(4); Bytes in; size_t n = gen::length(c.s, cap);
  if (large && c.s.chance(1, 4)) in = gen::pairRich(c.s, std::min<size_t>(cap, 80000), &j.d); else in = gen::bytes(c.s, n, &j.d);
  static const unsigned bk[] = {1, 10, 64, 1000}; std::string po = strf("-b %u", bk[c.s.choice(4)]); if (c.s.chance(2, 3)) po += " --prepr " + std::string(1 + c.s.choice(3), 'p');
  if (p == 0) { j.prog = "compress"; j.opt = opts(f); j.in = in; }
  else if (p == 1) { j.prog = "uncompress"; j.in = ask("compress", opts(f), in); j.d += " archived with " + opts(f); }
  else if (p == 2) { j.prog = "preprocess"; j.opt = po; j.in = in; }
  else { j.prog = "postprocess"; j.in = ask("preprocess", po, in); j.d += " preprocessed with " + po; }
  j.ref = ask(j.prog, j.opt, j.in);
  if (c.s.chance(1, 5)) j.opt += strf(" -v %d", (int)c.s.choice(3));
  c.describe(strf("%s %s, %zu input bytes (%s), %zu output bytes", j.prog.c_str(), j.opt.c_str(), j.in.size(), j.d.c_str(), j.ref.size()));
  c.key(pbt::hashBytes(j.in.data(), j.in.size())); c.key(pbt::hashBytes(j.opt.data(), j.opt.size())); c.key(p); c.label(j.prog);
  return j;
}
static size_t atOne(pbt::Case& c, size_t n) {   // a point in [0, n], biased to both ends and to buffer sizes
  static const size_t b[] = {0, 1, 6, 7, 4095, 4096, 4097, 65535, 65536, 65537, 131072};
  switch (c.s.choice(4)) { case 0: return c.s.choice(n + 1); case 1: return n - c.s.choice(std::min<size_t>(n, 9) + 1); case 2: { size_t v = b[c.s.choice(11)]; return v <= n ? v : n; } default: return c.s.choice(std::min<size_t>(n, 40) + 1); }
}

static std::string beginning(const Bytes& part, const Bytes& whole) { return part.size() > whole.size() || !std::equal(part.begin(), part.end(), whole.begin()) ? gen::firstDiff(whole, part) : std::string(); }
// before: what the output file held before the run (a run that has not touched it yet leaves it as it was)
static void judge(pbt::Case& c, const Job& j, const std::string& z, const std::string& how, const Bytes* before = 0) {
  Bytes left; if (!get(z, left)) { c.label("no-file"); return; }
  if (before && left == *before) { c.label("left-as-before"); return; }
  if (!j.writer()) { std::string e = beginning(left, j.ref); PBT_CHECK(c, e.empty(), "%s, %s: the %zu bytes left behind are not a beginning of the original: %s", j.prog.c_str(), how.c_str(), left.size(), e.c_str()); c.label(left.size() == j.ref.size() ? "complete" : left.empty() ? "left-nothing" : "left-a-beginning"); return; }
  const char* back = j.prog == "compress" ? "uncompress" : "postprocess"; std::string o = dir() + "/back"; unlink(o.c_str()); Limits l; l.cpu = 40; Res r = run(args(std::string(back) + " " + z + " " + o), In(), Out(), l);
  PBT_CHECK(c, !r.cpuLimit, "%s hangs on what %s left behind (%s)", back, j.prog.c_str(), how.c_str());
  Bytes got; get(o, got);
  if (r.ok()) { PBT_CHECK(c, got == j.in, "%s, %s: what is left behind (%zu bytes) is accepted by %s but is not the input: %s", j.prog.c_str(), how.c_str(), left.size(), back, gen::firstDiff(j.in, got).c_str()); c.label("complete"); }
  else { PBT_CHECK(c, r.exited(), "%s on what %s left behind (%s): %s", back, j.prog.c_str(), how.c_str(), r.show().c_str()); std::string e = beginning(got, j.in); PBT_CHECK(c, e.empty(), "%s on what %s left behind (%s): wrote something that is not a beginning of the original: %s", back, j.prog.c_str(), how.c_str(), e.c_str()); c.label(left.empty() ? "left-nothing" : "left-a-part"); }
}
// A complete output of the same program for another input, longer than the one this run writes.
static Bytes older(pbt::Case& c, const Job& j) {
  Bytes in(j.in), out; unsigned how = (unsigned)c.s.choice(3);
  if (!j.writer()) { out = j.ref; if (how == 0) for (size_t i = 0; i < out.size(); ++i) out[i] ^= 0x55; out.resize(out.size() + 1 + c.s.logRange(0, 100000), 0x77); }
  else { if (how == 0) in.resize(in.size() + 1 + c.s.choice(5000), 'q'); else if (how == 1) { Bytes x; gen::segment(c.s, x, 1 + c.s.choice(3000), 1); in.insert(in.end(), x.begin(), x.end()); } else { in.insert(in.begin(), in.begin(), in.begin() + in.size() / 2); in.push_back('e'); } out = ask(j.prog, j.opt, in); }
  c.label("older-output-there"); return out;
}
static void atByte(pbt::Case& c, const Job& j, size_t k, bool kill, bool viaStdout, bool viaStdin, const Bytes* before = 0) {
  std::string a = dir() + "/in", z = dir() + "/out"; unlink(z.c_str()); put(a, j.in); if (before) put(z, *before);
  Limits l; l.fsize = (long)k; l.ignoreXfsz = !kill; std::string line = j.prog + " " + j.opt; In si; Out so;
  if (viaStdin) { line += " -i"; si = In::fromFile(a); } else line += " " + a;
  if (viaStdout) { line += " -c"; so = Out::toFile(z); } else line += viaStdin ? " --output-file " + z : " " + z;
  run(args(line), si, so, l); judge(c, j, z, strf("%s at byte %zu of %zu%s", kill ? "killed" : "write error", k, j.ref.size(), before ? ", over an older output" : ""), before); unlink(z.c_str());
}
PROPERTY(everyByte, 60, 900) {
  Job j = genJob(c, 300, false); bool so = c.s.chance(1, 2), si = c.s.chance(1, 3), kill = c.s.chance(2, 3); size_t n = j.ref.size(), top = std::min<size_t>(n + 1, 300); c.nontrivial(n > 1); c.describe(strf("stopped at every byte up to %zu", top));
  Bytes old; const Bytes* b = 0; if (c.s.chance(1, 2)) { old = older(c, j); b = &old; so = false; }
  for (size_t k = 0; k <= top; ++k) atByte(c, j, k, kill, so, si, b); for (size_t k = 0; k < 8 && k <= n; ++k) atByte(c, j, n - k, kill, so, si, b);
}
PROPERTY(someBytes, 300, 5000) { Job j = genJob(c, 600000, true); c.nontrivial(j.ref.size() > 1); Bytes old; const Bytes* b = 0; if (c.s.chance(1, 3)) { old = older(c, j); b = &old; } for (unsigned t = 0; t < 6; ++t) { size_t k = atOne(c, j.ref.size()); bool kill = c.s.chance(2, 3), so = c.s.chance(1, 2) && !b; atByte(c, j, k, kill, so, c.s.chance(1, 3), b); } }
static bool straceWorks() { static int w = -1; if (w < 0) w = access("/usr/bin/strace", X_OK) == 0 && system("/usr/bin/strace -o /dev/null /bin/true >/dev/null 2>&1") == 0; return w == 1; }
static void atCall(pbt::Case& c, const Job& j, bool all) {
  if (!straceWorks()) { c.label("no-strace"); return; }
  char real[4096]; if (!realpath(dir().c_str(), real)) throw pbt::Inconclusive("realpath");
  std::string a = std::string(real) + "/in", z = std::string(real) + "/out", log = std::string(real) + "/strace.log"; put(a, j.in);
  bool so = c.s.chance(1, 4); Out out; std::string line = j.prog + " " + j.opt + " " + a; if (so) { line += " -c"; out = Out::toFile(z); } else line += " " + z;
  bool kill = c.s.chance(3, 4); bool atInput = c.s.chance(1, 3); static const char* const sg[] = {"TERM", "INT", "HUP", "INT", "HUP", "USR1", "ALRM", "PIPE"}; std::string sig = sg[c.s.choice(8)]; const char* set = atInput ? "openat,read,pread64,lseek,close" : kill ? "openat,write,writev,pwrite64,lseek,ftruncate,close" : "write";
  c.describe(strf("%s at a system call on the %s (%s)", kill ? ("killed with " + sig).c_str() : "error", atInput ? "input" : "output", so ? "stdout" : "file")); if (atInput) c.label("at-a-call-on-the-input"); c.label(kill ? "killed-at-call" : "error-at-call");
  std::vector<std::string> w = args("/usr/bin/strace -qq -o " + log + " -P " + (atInput ? a : z) + " -e trace=" + set + " -e signal=none");
  unlink(z.c_str()); Limits l; l.wrap = w; Res r = run(args(line), In(), out, l); if (!r.ok()) throw pbt::Inconclusive("strace run failed: " + r.show());
  Bytes lg; get(log, lg); size_t calls = std::count(lg.begin(), lg.end(), (unsigned char)'\n'); c.nontrivial(calls > 0);
  // the when= expression counts per system call, so each is chosen on its own
  std::vector<std::string> names; std::map<std::string, size_t> n; std::string tx(lg.begin(), lg.end()); for (size_t p = 0; p < tx.size();) { size_t q = tx.find('(', p), e = tx.find('\n', p); if (e == std::string::npos) e = tx.size(); if (q < e) { std::string s = tx.substr(p, q - p); size_t b = s.find_last_of(' '); if (b != std::string::npos) s = s.substr(b + 1); if (!n[s]++) names.push_back(s); } p = e + 1; }
  std::vector<std::pair<std::string, size_t> > at; for (size_t i = 0; i < names.size(); ++i) { size_t m = n[names[i]]; if (all && m <= 25) for (size_t k = 1; k <= m; ++k) at.push_back(std::make_pair(names[i], k)); else for (unsigned t = 0; t < 4; ++t) at.push_back(std::make_pair(names[i], t == 0 ? m : 1 + c.s.choice(m))); }
  Bytes old; const Bytes* before = 0; if (!so && c.s.chance(1, 3)) { old = older(c, j); before = &old; }
  for (size_t i = 0; i < at.size(); ++i) {
    unlink(z.c_str()); if (before) put(z, old); l.wrap = w; l.wrap.push_back("-e"); l.wrap.push_back(strf("inject=%s:%s:when=%zu%s", at[i].first.c_str(), kill ? ("signal=" + sig).c_str() : atInput ? "error=EIO" : "error=ENOSPC", at[i].second, !kill && c.s.chance(1, 2) ? "+" : ""));
    r = run(args(line), In(), out, l); judge(c, j, z, strf("%s at %s number %zu%s", kill ? "killed" : "error", at[i].first.c_str(), at[i].second, before ? ", over an older output" : ""), before); c.label("stops-injected");
  }
}
PROPERTY(calls, 120, 2000) { Job j = genJob(c, 3000, false); atCall(c, j, true); }
PROPERTY(callsLarge, 120, 2000) { Job j = genJob(c, 700000, true); atCall(c, j, false); }
// Several blocks: a run that is stopped between two of them.
PROPERTY(callsBlocks, 60, 1500) {
  Job j; Fmt f = genFmt(c.s); f.mem = 1; bool pre = c.s.chance(1, 5); if (pre) f.prepr = "p"; else f.prepr.clear(); size_t bs = block(f), n = pre ? bs + 1 + c.s.choice(bs) : bs + 1 + c.s.choice(5 * bs); pbt::Rng r(c.s.choice(1 << 24)); unsigned top = 20 + (unsigned)c.s.choice(2000);
  while (j.in.size() < n) j.in.insert(j.in.end(), 1 + r.below(top), (unsigned char)r.below(256)); j.in.resize(n); bool pp = c.s.chance(1, 5);
  if (pp) { j.prog = "preprocess"; j.opt = strf("-b %u", 20 + (unsigned)c.s.choice(200)); if (c.s.chance(1, 2)) j.opt += " --prepr p"; } else { j.prog = "compress"; j.opt = opts(f); }
  j.ref = ask(j.prog, j.opt, j.in); c.describe(strf("%s %s, %zu input bytes (runs up to %u) in blocks of %zu", j.prog.c_str(), j.opt.c_str(), n, top, bs)); c.key(pbt::hashBytes(j.in.data(), j.in.size())); c.key(pbt::hashBytes(j.opt.data(), j.opt.size())); c.label(j.prog); c.label("several-blocks"); atCall(c, j, false);
}
// Archives cut short: what has been written before the end was noticed is a beginning of the original.
PROPERTY(cutArchive, 300, 5000) {
  Job j = genJob(c, c.s.chance(1, 2) ? 3000 : 900000, true); if (j.writer()) { Job k; k.prog = j.prog == "compress" ? "uncompress" : "postprocess"; k.in = j.ref; k.ref = j.in; j = k; } c.nontrivial(j.ref.size() > 1); std::string a = dir() + "/cut", z = dir() + "/out";
  for (unsigned t = 0; t < 8 && !j.in.empty(); ++t) { size_t k = std::min(atOne(c, j.in.size()), j.in.size() - 1); Bytes b(j.in.begin(), j.in.begin() + k), got; put(a, b); unlink(z.c_str()); Limits l; l.cpu = 40; run(args(j.prog + " " + a + " " + z), In(), Out(), l); get(z, got); std::string e = beginning(got, j.ref); PBT_CHECK(c, e.empty(), "%s on the first %zu of %zu bytes wrote something that is not a beginning of the original: %s", j.prog.c_str(), k, j.in.size(), e.c_str()); if (!got.empty()) c.label("part-restored"); }
}
