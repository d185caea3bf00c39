// Injected faults: whatever stops a program from reading its input or completing its output, its exit
// status must say so; and a rejected command line leaves the output file alone.
#include "cli.hpp"
#include <sys/stat.h>
#include <sys/sysmacros.h>
using namespace cli;

struct Job { std::string prog, opt; Bytes in, ref; std::string d; };   // ref: what the program writes when nothing fails

static Bytes ask(const std::string& prog, const std::string& o, const Bytes& in) {
  std::string a = dir() + "/j_in", z = dir() + "/j_out"; put(a, in); unlink(z.c_str());
  Res r = run(args(prog + " " + o + " " + a + " " + z)); if (!r.ok()) throw pbt::Fail(prog + " " + o + " failed without any fault: " + r.show());
  Bytes out; if (!get(z, out)) throw pbt::Fail(prog + " succeeded but wrote no file"); return out;
}
static Job genJob(pbt::Case& c, size_t cap, bool large) {
  Job j; Fmt f = genFmt(c.s); if (f.mem > 3) f.mem = 1; unsigned p = (unsigned)c.s.choice(4); Bytes in; size_t n = gen::length(c.s, cap);
  if (large && c.s.chance(1, 4)) in = gen::pairRich(c.s, std::min<size_t>(cap, 80000), &j.d); else in = gen::bytes(c.s, n, &j.d);
  static const unsigned bk[] = {1, 10, 64, 1000}; std::string po = strf("-b %u", bk[c.s.choice(4)]); if (c.s.chance(2, 3)) po += " --prepr " + std::string(1 + c.s.choice(3), 'p');
  if (p == 0) { j.prog = "compress"; j.opt = opts(f); j.in = in; }
  else if (p == 1) { j.prog = "uncompress"; j.in = ask("compress", opts(f), in); j.d += " archived with " + opts(f); }
  else if (p == 2) { j.prog = "preprocess"; j.opt = po; j.in = in; }
  else { j.prog = "postprocess"; j.in = ask("preprocess", po, in); j.d += " preprocessed with " + po; }
  j.ref = ask(j.prog, j.opt, j.in);
  if (c.s.chance(1, 5)) j.opt += strf(" -v %d", (int)c.s.choice(3));
  c.describe(strf("%s %s, %zu input bytes (%s), %zu output bytes", j.prog.c_str(), j.opt.c_str(), j.in.size(), j.d.c_str(), j.ref.size()));
  c.key(pbt::hashBytes(j.in.data(), j.in.size())); c.key(pbt::hashBytes(j.opt.data(), j.opt.size())); c.key(p); c.label(j.prog);
  return j;
}
static size_t atOne(pbt::Case& c, size_t n) {   // a point in [0, n], biased to both ends and to buffer sizes
  static const size_t b[] = {0, 1, 6, 7, 4095, 4096, 4097, 65535, 65536, 65537, 131072};
  switch (c.s.choice(4)) { case 0: return c.s.choice(n + 1); case 1: return n - c.s.choice(std::min<size_t>(n, 9) + 1); case 2: { size_t v = b[c.s.choice(11)]; return v <= n ? v : n; } default: return c.s.choice(std::min<size_t>(n, 40) + 1); }
}
// One run with a file size limit of k bytes.
static void limited(pbt::Case& c, const Job& j, size_t k, bool ignore, bool viaStdout, bool viaStdin) {
  std::string a = dir() + "/in", z = dir() + "/out"; unlink(z.c_str()); put(a, j.in);
  Limits l; l.fsize = (long)k; l.ignoreXfsz = ignore; std::string line = j.prog + " " + j.opt; In si; Out so;
  if (viaStdin) { line += " -i"; si = In::fromFile(a); } else line += " " + a;
  if (viaStdout) { line += " -c"; so = Out::toFile(z); } else line += viaStdin ? " --output-file " + z : " " + z;
  Res r = run(args(line), si, so, l);
  if (k < j.ref.size()) PBT_CHECK(c, !r.ok(), "%s reported success although only %zu of %zu bytes could be written (limit on the file size, %s)", j.prog.c_str(), k, j.ref.size(), viaStdout ? "standard output" : "named file");
  else { Bytes got; PBT_CHECK(c, r.ok(), "%s failed although the limit of %zu bytes suffices for %zu: %s", j.prog.c_str(), k, j.ref.size(), r.show().c_str()); PBT_CHECK(c, get(z, got) && got == j.ref, "%s: output differs under a sufficient file size limit", j.prog.c_str()); }
  unlink(z.c_str());
}
// Every possible point, for small outputs.
PROPERTY(sizeLimitAll, 100, 1500) {
  Job j = genJob(c, 400, false); bool so = c.s.chance(1, 2), si = c.s.chance(1, 3), ig = c.s.chance(3, 4);
  size_t n = j.ref.size(), top = std::min<size_t>(n + 1, 600); c.nontrivial(n > 1); c.describe(strf("every file size limit up to %zu", top));
  for (size_t k = 0; k <= top; ++k) limited(c, j, k, ig, so, si);
  for (size_t k = 0; k < 8 && k <= n; ++k) limited(c, j, n - k, ig, so, si);
}
PROPERTY(sizeLimit, 400, 6000) {
  Job j = genJob(c, 400000, true); c.nontrivial(j.ref.size() > 1);
  for (unsigned t = 0; t < 6; ++t) { size_t k = atOne(c, j.ref.size()); bool ig = c.s.chance(3, 4), so = c.s.chance(1, 2); limited(c, j, k, ig, so, c.s.chance(1, 3)); }
}
// Devices and streams that refuse every byte. The full device is only ever named through a symbolic link in the scratch
// directory, so that a program that renames, replaces or removes its output file can reach nothing else.
static bool fullDevice() { static int w = -1; struct stat st; if (w < 0) w = stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 7); return w == 1; }
PROPERTY(refusingOutput, 300, 6000) {
  Job j = genJob(c, c.s.chance(1, 3) ? 300000 : 2000, true); if (j.ref.empty()) return; c.nontrivial(true);
  std::string a = dir() + "/in"; put(a, j.in); unsigned kind = (unsigned)c.s.choice(5); Limits l; Out so; std::string line = j.prog + " " + j.opt; const char* what = "";
  if (kind < 2 && !fullDevice()) { c.label("no full device here"); kind = 2; }
  std::string full = dir() + "/full"; unlink(full.c_str()); if (kind == 0 && symlink("/dev/full", full.c_str())) throw pbt::Inconclusive("cannot create a link");
  switch (kind) {
    case 0: line += " " + a + " " + full; what = "output file /dev/full"; break;
    case 1: line += " -c " + a; so = Out::toFile("/dev/full"); what = "standard output is /dev/full"; break;
    case 2: line += " -c " + a; l.deadReader = true; l.ignorePipe = true; what = "pipe without a reader"; break;
    case 3: line += " -c " + a; l.deadReader = true; what = "pipe without a reader (SIGPIPE)"; break;
    default: line += " -c " + a; l.closeOut = true; so = Out::toFile(dir() + "/unused"); what = "closed standard output"; break;
  }
  c.describe(what); c.label(what); Res r = run(args(line), In(), so, l); unlink(full.c_str());
  PBT_CHECK(c, !r.ok(), "%s reported success: %s, %zu bytes lost", j.prog.c_str(), what, j.ref.size());
}
PROPERTY(badPaths, 300, 4000) {
  Job j = genJob(c, 3000, false); c.nontrivial(true); std::string a = dir() + "/in", z = dir() + "/out", sub = dir() + "/adir"; put(a, j.in); unlink(z.c_str()); mkdir(sub.c_str(), 0700);
  unsigned kind = (unsigned)c.s.choice(8); std::string line = j.prog + " " + j.opt; In si; Limits l; const char* what; 
  switch (kind) {
    case 0: line += " " + dir() + "/missing " + z; what = "missing input file"; break;
    case 1: line += " " + sub + " " + z; what = "input is a directory"; break;
    case 2: line += " -i --output-file " + z; si = In::fromFile(sub); what = "standard input is a directory"; break;
    case 3: line += " -i --output-file " + z; l.closeIn = true; what = "closed standard input"; break;
    case 4: line += " " + a + " " + sub; what = "output is a directory"; break;
    case 5: line += " " + a + " " + sub + "/no/out"; what = "output directory does not exist"; break;
    case 6: line += " " + a + "/x " + z; what = "input path goes through a file"; break;
    default: line += " " + a + " " + dir() + "/" + std::string(300, 'n'); what = "output name too long";
  }
  c.describe(what); c.label(what); Res r = run(args(line), si, Out(), l);
  PBT_CHECK(c, !r.ok(), "%s reported success with: %s", j.prog.c_str(), what); PBT_CHECK(c, r.exited(), "%s with %s: %s", j.prog.c_str(), what, r.show().c_str());
  rmdir(sub.c_str());
}
// Command lines that must be rejected; the output file stays as it was.
static unsigned badChar(pbt::Src& s) { static const char l[] = " \tPqQb0,+\n.x"; return s.chance(1, 2) ? (unsigned char)l[s.choice(12)] : 1 + (unsigned)s.choice(255); }
PROPERTY(rejected, 8000, 60000) {
  std::string prog = kProgs[c.s.choice(4)]; std::string a = dir() + "/in", z = dir() + "/out"; Bytes in(1 + c.s.choice(50), 'x'); put(a, in);
  bool existing = c.s.chance(2, 3); Bytes old(c.s.choice(300), 'o'); unlink(z.c_str()); if (existing) put(z, old);
  std::vector<std::string> bad;
  if (prog == "compress") {
    unsigned k = (unsigned)c.s.choice(6);
    if (k == 0) { std::string e; unsigned v; do v = badChar(c.s); while (strchr("HmMubB-", (int)v)); bad.push_back("-e"); bad.push_back(std::string(1, (char)v)); }
    else if (k == 1) { bad.push_back("-e"); bad.push_back(std::string(2 + c.s.choice(3), "HB"[c.s.choice(2)])); }
    else if (k == 2) { unsigned v; do v = badChar(c.s); while (strchr("dsa-", (int)v)); bad.push_back("--bwt"); bad.push_back(std::string(1, (char)v)); }
    else if (k == 3) { static const char* s[] = {"0", "257", "258", "512", "1000", "65536", "65537", "4294967295", "x", "8x", "1.5", "99999999999999"}; bad.push_back("-s"); bad.push_back(c.s.chance(1, 2) ? s[c.s.choice(12)] : strf("%u", 257 + (unsigned)c.s.logRange(0, 4000000000u))); }
    else if (k == 4) { static const char* s[] = {"x", "1x", "1.5", "", "abc"}; bad.push_back("-m"); bad.push_back(s[c.s.choice(5)]); }
    else { std::string p(c.s.choice(4), 'p'); unsigned v; do v = badChar(c.s); while (v == 'p' || v == '-'); p.insert(p.begin() + c.s.choice(p.size() + 1), (char)v); if (p[0] == '-') p = "q"; bad.push_back("--prepr"); bad.push_back(p); }
  } else if (prog == "preprocess") {
    unsigned k = (unsigned)c.s.choice(3);
    if (k == 0) { std::string p(c.s.choice(4), 'p'); unsigned v; do v = badChar(c.s); while (v == 'p' || v == '-'); p.insert(p.begin() + c.s.choice(p.size() + 1), (char)v); bad.push_back("--prepr"); bad.push_back(p); }
    else if (k == 1) { static const char* s[] = {"x", "1x", "1.5", "abc"}; bad.push_back("-b"); bad.push_back(s[c.s.choice(4)]); }
    else { bad.push_back("--escape"); bad.push_back("maybe"); }
  }
  unsigned g = (unsigned)c.s.choice(bad.empty() ? 4 : 12);
  if (g == 0) bad.assign(1, "--nosuchoption"); else if (g == 1) bad.assign(1, "-Z"); else if (g == 2) { bad.assign(1, "-v"); bad.push_back("loud"); } else if (g == 3) { bad.clear(); bad.push_back(a); }   // g == 3: a third positional argument
  std::vector<std::string> ar(1, prog); std::string line = prog;
  bool first = c.s.chance(1, 2) && g != 3; if (first) ar.insert(ar.end(), bad.begin(), bad.end()); ar.push_back(a); ar.push_back(z); if (!first) ar.insert(ar.end(), bad.begin(), bad.end());
  for (size_t i = 1; i < ar.size(); ++i) line += " " + (ar[i] == a ? std::string("IN") : ar[i] == z ? std::string("OUT") : ar[i]);
  c.describe(line + (existing ? " (OUT exists)" : " (no OUT)")); c.key(pbt::hashBytes(line.data(), line.size())); c.key(existing); c.nontrivial(true); c.label(prog);
  Res r = run(ar); PBT_CHECK(c, !r.ok(), "%s accepted: %s", prog.c_str(), line.c_str()); PBT_CHECK(c, r.exited(), "%s: %s", line.c_str(), r.show().c_str());
  Bytes now; bool there = get(z, now); PBT_CHECK(c, there == existing, "the rejected command %s %s the output file", line.c_str(), there ? "created" : "removed"); if (existing) PBT_CHECK(c, now == old, "the rejected command changed the existing output file: %s", line.c_str());
}
// A read, write or close that fails at the k-th call, for every k (injected with strace).
static bool straceWorks() {
  static int w = -1; if (w < 0) w = access("/usr/bin/strace", X_OK) == 0 && system("/usr/bin/strace -o /dev/null /bin/true >/dev/null 2>&1") == 0; return w == 1;
}
static void syscalls(pbt::Case& c, const Job& j, bool all) {
  if (!straceWorks()) { c.label("no-strace"); return; }
  char real[4096]; if (!realpath(dir().c_str(), real)) throw pbt::Inconclusive("realpath");
  std::string a = std::string(real) + "/in", z = std::string(real) + "/out", log = std::string(real) + "/strace.log"; put(a, j.in);
  bool si = c.s.chance(1, 3), so = c.s.chance(1, 3); In in; Out out; std::string line = j.prog + " " + j.opt;
  if (si) { line += " -i"; in = In::fromFile(a); } else line += " " + a;
  if (so) { line += " -c"; out = Out::toFile(z); } else line += si ? " --output-file " + z : " " + z;
  static const char* names[] = {"write", "read", "close"}; static const char* errs[] = {"EIO", "ENOSPC"};
  unsigned which = (unsigned)c.s.choice(so ? 2 : 3); const char* sc = names[which]; const std::string& path = which == 1 ? a : z;
  c.describe(strf("%s fails, %s -> %s", sc, si ? "stdin" : "file", so ? "stdout" : "file")); c.label(std::string("inject-") + sc);
  std::vector<std::string> w = args("/usr/bin/strace -qq -o " + log + " -P " + path + " -e trace=" + std::string(sc) + " -e signal=none");
  unlink(z.c_str()); Limits l; l.wrap = w; Res r = run(args(line), in, out, l); if (!r.ok()) throw pbt::Inconclusive("strace run failed: " + r.show());
  Bytes lg; get(log, lg); size_t calls = 0; std::string tx(lg.begin(), lg.end()); for (size_t p = 0; (p = tx.find(std::string(sc) + "(", p)) != std::string::npos; ++p) if (p == 0 || tx[p - 1] == '\n' || tx[p - 1] == ' ') ++calls;
  c.nontrivial(calls > 0);
  std::vector<size_t> ks; if (all && calls <= 40) for (size_t k = 1; k <= calls; ++k) ks.push_back(k); else if (calls) for (unsigned t = 0; t < 5; ++t) ks.push_back(t == 0 ? 1 : t == 1 ? calls : 1 + c.s.choice(calls));
  for (size_t i = 0; i < ks.size(); ++i) {
    unlink(z.c_str()); l.wrap = w; l.wrap.push_back("-e"); l.wrap.push_back(strf("inject=%s:error=%s:when=%zu+", sc, errs[which == 0 ? 1 : 0], ks[i]));
    r = run(args(line), in, out, l);
    Bytes l2; get(log, l2); std::string t2(l2.begin(), l2.end()); if (t2.find("INJECTED") == std::string::npos) { c.label("not-reached"); continue; }
    PBT_CHECK(c, !r.ok(), "%s reported success although %s number %zu (of %zu) on its %s failed", j.prog.c_str(), sc, ks[i], calls, which == 1 ? "input" : "output");
    c.label("faults-injected");
  }
}
PROPERTY(callFails, 400, 5000) { Job j = genJob(c, 3000, false); syscalls(c, j, true); }
PROPERTY(callFailsLarge, 120, 3000) { Job j = genJob(c, 400000, true); syscalls(c, j, false); }
