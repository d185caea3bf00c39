// Running the project's programs as a user would: argv, standard streams, files, limits.
#ifndef CLI_HPP
#define CLI_HPP
#include "gen.hpp"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace cli {
using gen::Bytes; using pbt::u64; using pbt::strf;

inline std::string bin(const std::string& prog) {
  const char* d = getenv("BWTC_BIN"); if (!d) throw pbt::Inconclusive("BWTC_BIN is not set");
  return std::string(d) + "/" + prog;
}
inline void put(const std::string& f, const Bytes& b) {
  FILE* p = fopen(f.c_str(), "wb"); if (!p) throw pbt::Inconclusive("cannot create scratch file " + f);
  bool ok = b.empty() || fwrite(&b[0], 1, b.size(), p) == b.size();
  if (fclose(p) != 0 || !ok) throw pbt::Inconclusive("cannot write scratch file");
}
inline bool get(const std::string& f, Bytes& b) {
  FILE* p = fopen(f.c_str(), "rb"); b.clear(); if (!p) return false;
  unsigned char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, p)) > 0) b.insert(b.end(), buf, buf + k);
  fclose(p); return true;
}

struct In {   // standard input of the program
  enum Kind { Null, File, Pipe, Closed } kind; std::string file; const Bytes* data; std::vector<size_t> chunks; bool drain, sock; size_t at;
  In() : kind(Null), data(0), drain(false), sock(false), at(0) {}
  static In fromFile(const std::string& f, size_t at = 0) { In i; i.kind = File; i.file = f; i.at = at; return i; }   // at: position of the descriptor
  // Delivers the bytes in pieces of the given sizes (cycled); with drain, each piece only after the
  // reader took the one before.
  static In pipe(const Bytes* d, const std::vector<size_t>& c, bool drain) { In i; i.kind = Pipe; i.data = d; i.chunks = c; i.drain = drain; return i; }
};
struct Out {  // standard output of the program
  enum Kind { Capture, File, Append, At } kind; std::string file; size_t maxRead; bool hangUpAfter, sock; size_t slow, at;
  Out() : kind(Capture), maxRead(65536), hangUpAfter(false), sock(false), slow(0), at(0) {}
  static Out into(const std::string& f, size_t at) { Out o; o.kind = At; o.file = f; o.at = at; return o; }   // an existing file, from the given position on
  static Out toFile(const std::string& f, bool append = false) { Out o; o.kind = append ? Append : File; o.file = f; return o; }
};
struct Res {
  int status; Bytes out; std::string err; bool cpuLimit; long maxrssKB;
  // a sanitizer report counts as a crash, whatever the exit status
  bool sanitizer() const { return err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos; }
  bool exited() const { return WIFEXITED(status) && !sanitizer(); }
  int code() const { return WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status); }
  bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0 && !sanitizer(); }
  std::string show() const {
    std::string e = err.size() > 700 ? err.substr(0, 700) : err;
    if (cpuLimit) return "still running after the CPU limit; stderr: " + e;
    return WIFEXITED(status) ? strf("exit status %d; stderr: %s", WEXITSTATUS(status), e.c_str()) : strf("killed by signal %d; stderr: %s", WTERMSIG(status), e.c_str());
  }
};
struct Limits {
  int cpu; long fsize; bool ignoreXfsz, ignorePipe, closeIn, closeOut, deadReader; std::vector<std::string> wrap;   // wrap: command put in front (strace ...)
  Limits() : cpu(120), fsize(-1), ignoreXfsz(false), ignorePipe(false), closeIn(false), closeOut(false), deadReader(false) {}
};

inline Res run(const std::vector<std::string>& args, const In& in = In(), const Out& out = Out(), const Limits& lim = Limits()) {
  int pi[2] = {-1, -1}, po[2] = {-1, -1}, pe[2];
  if (pipe2(pe, O_CLOEXEC) || (in.kind == In::Pipe && (in.sock ? socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, pi) : pipe2(pi, O_CLOEXEC))) || (out.kind == Out::Capture && (out.sock ? socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, po) : pipe2(po, O_CLOEXEC)))) throw pbt::Inconclusive("pipe failed");
  std::string prog = bin(args[0]);
  std::vector<char*> av; std::vector<std::string> keep(args); keep[0] = prog; keep.insert(keep.begin(), lim.wrap.begin(), lim.wrap.end());
  for (size_t i = 0; i < keep.size(); ++i) av.push_back(const_cast<char*>(keep[i].c_str()));
  av.push_back(0);
  if (lim.deadReader) { close(po[0]); po[0] = -1; }   // before the program starts
  pid_t pid = fork();
  if (pid < 0) throw pbt::Inconclusive("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, lim.ignorePipe ? SIG_IGN : SIG_DFL);
    int fi = in.kind == In::Pipe ? pi[0] : in.kind == In::File ? open(in.file.c_str(), O_RDONLY) : open("/dev/null", O_RDONLY);
    int fo = out.kind == Out::Capture ? po[1] : open(out.file.c_str(), out.kind == Out::Append ? O_WRONLY | O_CREAT | O_APPEND : out.kind == Out::At ? O_WRONLY : O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fi < 0 || fo < 0) _exit(124);
    if (in.at && lseek(fi, in.at, SEEK_SET) < 0) _exit(124);
    if (out.at && lseek(fo, out.at, SEEK_SET) < 0) _exit(124);
    dup2(fi, 0); dup2(fo, 1); dup2(pe[1], 2);
    struct rlimit r; r.rlim_cur = lim.cpu; r.rlim_max = lim.cpu + 1; setrlimit(RLIMIT_CPU, &r);
    if (lim.fsize >= 0) { r.rlim_cur = r.rlim_max = lim.fsize; setrlimit(RLIMIT_FSIZE, &r); if (lim.ignoreXfsz) signal(SIGXFSZ, SIG_IGN); }
    if (lim.closeIn) close(0);
    if (lim.closeOut) close(1);
    execv(av[0], &av[0]);
    _exit(125);
  }
  close(pe[1]); if (pi[0] >= 0) close(pi[0]); if (po[1] >= 0) close(po[1]);
  int wi = pi[1], ro = po[0], re = pe[0];
  if (wi >= 0) fcntl(wi, F_SETFL, O_NONBLOCK);
  Res r; r.cpuLimit = false; size_t sent = 0, ci = 0; static unsigned char buf[1 << 16];
  if (wi >= 0 && in.data->empty()) { close(wi); wi = -1; }
  while (ro >= 0 || re >= 0 || wi >= 0) {
    struct pollfd pf[3]; int n = 0, ii = -1, io = -1, ie = -1;
    bool waitDrain = false;
    if (wi >= 0 && in.drain) { int left = 0; if (ioctl(wi, FIONREAD, &left) == 0 && left > 0) waitDrain = true; }
    if (wi >= 0) { ii = n; pf[n].fd = wi; pf[n].events = waitDrain ? 0 : POLLOUT; pf[n++].revents = 0; }
    if (ro >= 0) { io = n; pf[n].fd = ro; pf[n].events = POLLIN; pf[n++].revents = 0; }
    if (re >= 0) { ie = n; pf[n].fd = re; pf[n].events = POLLIN; pf[n++].revents = 0; }
    if (poll(pf, n, waitDrain ? 0 : -1) < 0 && errno != EINTR) break;
    if (waitDrain) sched_yield();
    if (ii >= 0 && (pf[ii].revents & (POLLERR | POLLHUP))) { close(wi); wi = -1; }
    else if (ii >= 0 && !waitDrain && (pf[ii].revents & POLLOUT)) {
      size_t k = in.chunks.empty() ? 65536 : in.chunks[ci++ % in.chunks.size()]; if (k == 0) k = 1;
      k = std::min(k, in.data->size() - sent);
      ssize_t w = write(wi, &(*in.data)[sent], k);
      if (w > 0) sent += w; else if (w < 0 && errno != EAGAIN && errno != EINTR) { close(wi); wi = -1; }
      if (wi >= 0 && sent == in.data->size()) { close(wi); wi = -1; }
    }
    if (io >= 0 && pf[io].revents) {
      ssize_t k = read(ro, buf, std::min(out.maxRead, sizeof buf));
      if (k > 0) r.out.insert(r.out.end(), buf, buf + k); else if (k == 0 || errno != EINTR) { close(ro); ro = -1; }
    }
    if (ie >= 0 && pf[ie].revents) {
      ssize_t k = read(re, buf, sizeof buf);
      if (k > 0) { if (r.err.size() < 1000000) r.err.append((char*)buf, k); } else if (k == 0 || errno != EINTR) { close(re); re = -1; }
    }
  }
  struct rusage ru; memset(&ru, 0, sizeof ru); while (wait4(pid, &r.status, 0, &ru) < 0 && errno == EINTR) {}
  r.maxrssKB = ru.ru_maxrss;
  if (WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGXCPU)) r.cpuLimit = true;
  if (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGKILL) {
    throw pbt::Inconclusive("program was killed (SIGKILL)");
  }
  if (WIFEXITED(r.status) && (WEXITSTATUS(r.status) == 124 || WEXITSTATUS(r.status) == 125)) throw pbt::Inconclusive("cannot start " + prog);
  return r;
}
inline std::vector<std::string> args(const std::string& line) {
  std::vector<std::string> v; std::string w; for (size_t i = 0; i <= line.size(); ++i) if (i == line.size() || line[i] == ' ') { if (!w.empty()) v.push_back(w); w.clear(); } else w += line[i];
  return v;
}
inline std::string dir() { return pbt::scratchDir(); }

static const char* const kProgs[] = {"compress", "uncompress", "preprocess", "postprocess"};

// Options of compress that determine the archive.
struct Fmt { char enc; unsigned starts, mem; std::string prepr; };
inline Fmt genFmt(pbt::Src& s, bool bigMem = false) {
  static const char e[] = {'B', 'H', 'M', 'm', 'b', 'u'};
  static const unsigned st[] = {8, 1, 2, 3, 7, 16, 64, 255, 256}; static const unsigned mm[] = {1, 1, 1, 2, 3, 100, 0};
  Fmt f; f.enc = e[s.choice(6)]; f.starts = s.chance(1, 4) ? (unsigned)s.range(1, 256) : st[s.choice(9)]; f.mem = mm[s.choice(7)];
  if (bigMem && s.chance(1, 10)) { static const unsigned b[] = {1000, 5000, 11600, 11607, 11608, 11609, 12000, 20000}; f.mem = b[s.choice(8)]; }
  if (f.mem < 1000 && s.chance(2, 5)) f.prepr = std::string(1 + s.choice(4), 'p');
  return f;
}
inline std::string opts(const Fmt& f) {
  std::string o = strf("-e %c -s %u -m %u", f.enc, f.starts, f.mem); if (!f.prepr.empty()) o += " --prepr " + f.prepr; return o;
}
inline size_t block(const Fmt& f) { size_t m = (f.mem ? f.mem : 1) * (size_t)1000000; return f.prepr.empty() ? (size_t)(m * 0.185) : (size_t)(m * 0.74); }
inline std::vector<std::string> cat(std::vector<std::string> a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
}  // namespace cli
#endif
