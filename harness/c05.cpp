// The same bytes whatever the channel.
#include "cli.hpp"
using namespace cli;
static std::vector<size_t> genChunks(pbt::Src& s, size_t total) {
  std::vector<size_t> v; static const size_t k[] = {1, 2, 3, 5, 6, 7, 100, 511, 512, 4095, 4096, 4097, 65535, 65536, 65537, 200000};
  unsigned n = 1 + (unsigned)s.choice(6); for (unsigned i = 0; i < n; ++i) v.push_back(s.chance(1, 4) ? 1 + s.choice(70000) : k[s.choice(16)]);
  size_t sum = 0; for (size_t i = 0; i < v.size(); ++i) sum += v[i];
  if (total / (sum / v.size() + 1) > 4000) v.push_back(total / 50 + 1);   // keeps the number of pieces bounded
  return v;
}
// Copies one file to another (one of them a named pipe) beside the program.
struct Cat {
  pid_t pid; std::string ff; Cat() : pid(-1) {}
  void start(const std::string& from, const std::string& to, const std::string& fifo) {
    ff = fifo; unlink(ff.c_str()); if (mkfifo(ff.c_str(), 0600) != 0) throw pbt::Inconclusive("cannot make a named pipe");
    if ((pid = fork()) < 0) throw pbt::Inconclusive("fork failed");
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL); int i = open(from.c_str(), O_RDONLY), o = open(to.c_str(), O_WRONLY | (to == fifo ? 0 : O_CREAT | O_TRUNC), 0600); static char b[65536]; ssize_t k;
      if (i < 0 || o < 0) _exit(1);
      while ((k = read(i, b, sizeof b)) > 0) for (ssize_t d = 0; d < k;) { ssize_t w = write(o, b + d, k - d); if (w < 0) _exit(1); d += w; }
      _exit(k < 0);
    }
  }
  bool done() { for (int i = 0; i < 60000; ++i) { int st; pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) { pid = -1; return WIFEXITED(st) && WEXITSTATUS(st) == 0; } usleep(i < 100 ? 100 : 1000); } return false; }
  ~Cat() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, 0, 0); } if (!ff.empty()) unlink(ff.c_str()); }
};
// Runs prog with the given options over every combination drawn, and compares with file-to-file.
static Bytes channels(pbt::Case& c, const std::string& prog, const std::string& o, const Bytes& in, unsigned tries) {
  std::string a = dir() + "/cin", z = dir() + "/cout"; put(a, in); unlink(z.c_str());
  Res r = run(args(prog + " " + o + " " + a + " " + z)); PBT_CHECK(c, r.ok(), "%s on files failed: %s", prog.c_str(), r.show().c_str());
  Bytes ref; PBT_CHECK(c, get(z, ref), "no output file"); PBT_CHECK(c, r.out.empty(), "%s wrote %zu bytes to standard output while writing a file", prog.c_str(), r.out.size());
  for (unsigned t = 0; t < tries; ++t) {
    unsigned ik = (unsigned)c.s.choice(8), ok = (unsigned)c.s.choice(8); Bytes got; std::string line = prog + " " + o; In si; Out so; std::string out = dir() + "/o2", fi = dir() + "/ffi", fo = dir() + "/ffo";
    Bytes prefix, tail; unlink(out.c_str()); unlink(fi.c_str()); unlink(fo.c_str());
    std::string how, inName, outName;
    switch (ik) {
      case 0: how = "file"; inName = a; break;
      case 1: how = "redirected"; si = In::fromFile(a); break;
      case 2: how = "pipe"; si = In::pipe(&in, std::vector<size_t>(), false); break;
      case 3: how = "chunked pipe"; si = In::pipe(&in, genChunks(c.s, in.size()), false); break;
      case 4: how = "chunked drained pipe"; si = In::pipe(&in, genChunks(c.s, in.size()), true); break;
      case 5: { how = "redirected, positioned"; Bytes x(1 + c.s.choice(c.s.chance(1, 3) ? 140000 : 300), 0x21); size_t k = x.size(); x.insert(x.end(), in.begin(), in.end()); put(dir() + "/cin2", x); si = In::fromFile(dir() + "/cin2", k); break; }
      case 6: how = "socket"; si = In::pipe(&in, genChunks(c.s, in.size()), false); si.sock = true; break;
      default: how = "named pipe"; inName = fi;
    }
    switch (ok) {
      case 0: how += " -> file"; outName = out; break;
      case 1: how += " -> redirected"; so = Out::toFile(out); break;
      case 2: how += " -> pipe"; break;
      case 3: how += " -> slow pipe"; so.maxRead = 1 + c.s.choice(300); break;
      case 4: { how += " -> appended"; prefix = Bytes(c.s.choice(70000), 0x5a); put(out, prefix); so = Out::toFile(out, true); break; }
      case 5: { how += " -> positioned"; prefix = Bytes(1 + c.s.choice(70000), 0x5a); tail = Bytes(c.s.choice(300), 0x5b); Bytes x(prefix); x.insert(x.end(), tail.begin(), tail.end()); put(out, x); so = Out::into(out, prefix.size()); break; }
      case 6: how += " -> socket"; so.sock = true; break;
      default: how += " -> named pipe"; outName = fo;
    }
    if (c.s.chance(1, 3)) { line += strf(" -v %u", (unsigned)c.s.choice(5)); how += " (-v)"; }   // messages go to standard error, never into the data
    // With neither file named, standard input and output are used, asked for with -i and -c or not; with only
    // the input named the output goes to standard output.
    bool flags = c.s.chance(3, 4); if (inName.empty() && (flags || !outName.empty())) line += " -i"; if (outName.empty() && flags) line += " -c";
    if (!flags && outName.empty()) how += " (by default)";
    if (!inName.empty()) line += " " + inName; if (!outName.empty()) line += inName.empty() ? " --output-file " + outName : " " + outName;   // with -i the only positional argument would be the input
    Cat ci, co; if (ik == 7) ci.start(a, fi, fi); if (ok == 7) co.start(fo, out, fo);
    c.label(prog + " " + how); r = run(args(line), si, so); PBT_CHECK(c, r.ok(), "%s (%s) failed: %s", prog.c_str(), how.c_str(), r.show().c_str());
    if (ok == 7) PBT_CHECK(c, co.done(), "%s (%s) never completed its output", prog.c_str(), how.c_str());
    if (ok == 2 || ok == 3 || ok == 6) got = r.out; else PBT_CHECK(c, get(out, got), "%s (%s): no output", prog.c_str(), how.c_str());
    Bytes want(prefix); want.insert(want.end(), ref.begin(), ref.end()); if (tail.size() > ref.size()) want.insert(want.end(), tail.begin() + ref.size(), tail.end());
    PBT_CHECK(c, got == want, "%s (%s) differs from file to file: %s", prog.c_str(), how.c_str(), gen::firstDiff(want, got).c_str());
  }
  return ref;
}
static Bytes gIn(pbt::Case& c, const Fmt& f, std::string& d) {
  unsigned k = (unsigned)c.s.choice(8); std::vector<size_t> sp; sp.push_back(block(f)); sp.push_back(65536); sp.push_back(131072);
  if (k == 0) return gen::pairRich(c.s, 150000, &d); if (k == 1) return gen::deepRuns(c.s, 40000, &d);
  return gen::bytes(c.s, k < 5 ? gen::length(c.s, 5000) : gen::length(c.s, 600000, sp), &d);
}
PROPERTY(archiver, 700, 12000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in = gIn(c, f, d);
  c.describe(strf("compress %s len=%zu shape=%s head=%s", opts(f).c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string q = opts(f); c.key(pbt::hashBytes(q.data(), q.size())); } c.nontrivial(!in.empty());
  Bytes arc = channels(c, "compress", opts(f), in, 3); Bytes out = channels(c, "uncompress", "", arc, 3);
  PBT_CHECK(c, out == in, "round trip differs: %s", gen::firstDiff(in, out).c_str());
}
PROPERTY(precompressor, 350, 6000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in = gIn(c, f, d); static const unsigned bk[] = {1, 10, 64, 100, 1000}; std::string o = strf("-b %u", bk[c.s.choice(5)]); if (c.s.chance(2, 3)) o += " --prepr " + std::string(1 + c.s.choice(3), 'p');
  c.describe(strf("preprocess %s len=%zu shape=%s head=%s", o.c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); c.key(pbt::hashBytes(o.data(), o.size())); c.nontrivial(!in.empty());
  Bytes pre = channels(c, "preprocess", o, in, 2); Bytes out = channels(c, "postprocess", "", pre, 2);
  PBT_CHECK(c, out == in, "round trip differs: %s", gen::firstDiff(in, out).c_str());
}
// A real shell pipeline: compress -c | uncompress -i
PROPERTY(pipeline, 350, 6000) {
  Fmt f = genFmt(c.s); std::string d; Bytes in = gIn(c, f, d); std::string a = dir() + "/pin", o = dir() + "/pout"; put(a, in); unlink(o.c_str());
  c.describe(strf("compress %s | uncompress, len=%zu shape=%s head=%s", opts(f).c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string q = opts(f); c.key(pbt::hashBytes(q.data(), q.size())); } c.nontrivial(!in.empty());
  unsigned kind = (unsigned)c.s.choice(3); std::string cmd;
  std::string C = "'" + bin("compress") + "' " + opts(f), U = "'" + bin("uncompress") + "'";
  if (kind == 0) cmd = "set -o pipefail; cat '" + a + "' | " + C + " -i -c | " + U + " -i -c > '" + o + "'";
  else if (kind == 1) cmd = "set -o pipefail; " + C + " -c '" + a + "' | " + U + " -i -c | cat > '" + o + "'";
  else cmd = "set -o pipefail; { printf x; cat '" + a + "'; } | { dd bs=1 count=1 of=/dev/null 2>/dev/null; " + C + " -i -c; } | " + U + " -i --output-file '" + o + "'";
  std::string w = "timeout 300 bash -c \"" + cmd + "\" 2>'" + dir() + "/perr'"; int st = system(w.c_str());
  if (st == -1 || (WIFEXITED(st) && WEXITSTATUS(st) >= 124 && WEXITSTATUS(st) <= 127)) throw pbt::Inconclusive("cannot run a shell pipeline");
  Bytes out, err; get(dir() + "/perr", err); PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "pipeline %u failed with status %d: %s", kind, st, std::string(err.begin(), err.end()).substr(0, 500).c_str());
  PBT_CHECK(c, get(o, out) && out == in, "pipeline %u does not restore the input: %s", kind, gen::firstDiff(in, out).c_str());
}
