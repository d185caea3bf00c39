#define MAIN
// Work (basic blocks executed, counted by the compiler's instrumentation, and bytes moved, 16 a unit) per input byte.
#include "bw.hpp"
#include "ref.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "PrecompressorBlock.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace bw;
static unsigned long long g_work, g_limit = ~0ULL;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
  if (++g_work > g_limit) { g_limit = ~0ULL; static const char m[] = "work limit exceeded\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
}
extern "C" {
void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
__attribute__((no_sanitize_coverage)) void* __wrap_memmove(void* a, const void* b, size_t n) { g_work += n / 16; return __real_memmove(a, b, n); }
__attribute__((no_sanitize_coverage)) void* __wrap_memcpy(void* a, const void* b, size_t n) { g_work += n / 16; return __real_memcpy(a, b, n); }
__attribute__((no_sanitize_coverage)) void* __wrap_memset(void* a, int v, size_t n) { g_work += n / 16; return __real_memset(a, v, n); }
__attribute__((no_sanitize_coverage)) int __wrap_memcmp(const void* a, const void* b, size_t n) { g_work += n / 16; return __real_memcmp(a, b, n); }
}
// Beyond a fixed cost per block and round the work is proportional to the length ...
static const unsigned long long kPerByte = 1500, kPerBlock = 60000000, kPerRound = 150000000;
static unsigned long long limit(size_t n, size_t blocks, size_t rounds) { return kPerByte * n + blocks * (kPerBlock + rounds * kPerRound); }
template <class F> static double measured(unsigned long long lim, F f) { unsigned long long at = g_work; g_limit = at + lim; f(); g_limit = ~0ULL; return (double)(g_work - at); }
static void note(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  c.describe(strf("%s len=%zu alphabet=%u shape=%s head=%s", show(o).c_str(), in.size(), gen::alphabet(in), d.c_str(), gen::hexHead(in).c_str()));
  c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); } c.label(strf("coder-%c", o.coder)); if (!o.prepr.empty()) c.label("precompressed"); c.nontrivial(in.size() > 20000);
}
// ... and never more than a small multiple of what the version of record needs.
static const double kFactor = 4, kSlack = 2000000;
static void work(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  note(c, in, o, d); size_t blk = std::max<size_t>(1, (size_t)(o.mem * 0.185)), blocks = in.size() / blk + 2; Bytes arc, out;
  unsigned long long lim = limit(in.size(), blocks, o.prepr.size()), r0 = ref::work(); Bytes ra = ref::compress(in, o.coder, o.algo, o.starts, o.mem, o.prepr); unsigned long long r1 = ref::work(); ref::decompress(ra, out); unsigned long long r2 = ref::work();
  double rc = (double)(r1 - r0), rd = (double)(r2 - r1), w = measured(lim, [&] { arc = compressMem(in, o); }), v = measured(lim, [&] { out = decompressMem(arc); });
  c.label(strf("work-per-byte-below-%u", w + v < 200.0 * in.size() ? 200 : w + v < 1000.0 * in.size() ? 1000 : 100000)); if (w > 1.2 * rc || v > 1.2 * rd) c.label("more-than-120-percent");
  PBT_CHECK(c, w <= kFactor * rc + kSlack, "compressing %zu bytes takes %.0f units of work; the version of record takes %.0f", in.size(), w, rc);
  PBT_CHECK(c, v <= kFactor * rd + kSlack, "decompressing %zu bytes takes %.0f units of work; the version of record takes %.0f", in.size(), v, rd);
}
// the texts that are hard for suffix sorting: repetitive at every scale
static Bytes hard(pbt::Src& s, size_t n, std::string* d) {
  static const unsigned k[] = {2, 3, 8, 10, 7, 9, 4, 6}; unsigned kind = k[s.choice(8)]; Bytes b; gen::segment(s, b, n, kind); if (b.size() > n) b.resize(n); *d = std::string("hard-") + gen::kindNames()[kind];
  unsigned fin = (unsigned)s.choice(4); if (b.empty()) b.push_back(1); if (fin == 1) b[s.choice(b.size())] ^= 1; else if (fin == 2) { Bytes t(b); b.insert(b.end(), t.begin(), t.end()); *d += " twice"; } else if (fin == 3) { Bytes t(b.rbegin(), b.rend()); b.insert(b.end(), t.begin(), t.end()); *d += " mirrored"; }
  return b;
}
PROPERTY(hardTexts, 180, 4000) { std::string d; size_t n = 100000 + c.s.logRange(0, c.thorough ? 3000000 : 900000); Bytes in = hard(c.s, n, &d); Opt o = genOpt(c.s, 100, 200, 0); o.mem = (size_t)(in.size() / 0.185) + 1000; if (c.s.chance(1, 4)) o.mem /= 3; work(c, in, o, d); }
PROPERTY(anyTexts, 160, 3000) { std::string d; Bytes in = c.s.chance(1, 4) ? gen::deepRuns(c.s, 100000, &d) : gen::bytes(c.s, 100000 + c.s.choice(400000), &d); Opt o = genOpt(c.s, 100, 200, 2); o.mem = (size_t)(in.size() / 0.185) + 1000; work(c, in, o, d); }
PROPERTY(pairTexts, 60, 1000) { std::string d; Bytes in = c.s.chance(1, 3) ? gen::freedFront(c.s, &d) : c.s.chance(1, 3) ? gen::tightSpecials(c.s, &d) : gen::pairRich(c.s, 300000, &d); Opt o = genOpt(c.s, 100, 200, 0); o.prepr = std::string(1 + c.s.choice(3), 'p'); o.mem = (size_t)(in.size() / 0.185) + 1000; work(c, in, o, d); }
// many small blocks: the cost per block must not grow with their number
PROPERTY(manyBlocks, 60, 1000) {
  std::string d; Opt o = genOpt(c.s, 3000, 20000, 0); if (o.coder == 'M' || o.coder == 'm') o.coder = 'B'; size_t n = 100000 + c.s.choice(300000); Bytes in = gen::bytes(c.s, n, &d); note(c, in, o, d); size_t half = in.size() / 2; Bytes a(in.begin(), in.begin() + half), arc, out, arc2, out2;
  double w1 = measured(~0ULL >> 1, [&] { arc = compressMem(a, o); out = decompressMem(arc); }), w2 = measured(~0ULL >> 1, [&] { arc2 = compressMem(in, o); out2 = decompressMem(arc2); });
  PBT_CHECK(c, w2 <= 1500.0 * in.size() + 3 * w1 + 1e7, "work %.0f for %zu bytes, but %.0f for the first half", w2, in.size(), w1);
}
// the usual sizes and options, where a cost that depends on the options shows
PROPERTY(options, 200, 5000) { std::string d; Opt o = genOpt(c.s, 20000, 2000000, 2); size_t n = 20000 + c.s.choice(150000); Bytes in = gen::bytes(c.s, n, &d); capBlocks(o, in.size(), 20); work(c, in, o, d); }
// The same work when the data passes through the project's own streams: files, and pipes or appended files that cannot be rewound.
enum Way { FILES, PIPE, APPEND };
static const char* const wname[] = {"files", "stdin/stdout pipes", "stdin and appended stdout"};
static double systemCalls() {   // reads and writes of this process (0 where /proc has no such counters)
  FILE* f = fopen("/proc/self/io", "r"); if (!f) return 0; char l[200]; double n = 0; unsigned long long v; while (fgets(l, sizeof l, f)) if (sscanf(l, "syscr: %llu", &v) == 1 || sscanf(l, "syscw: %llu", &v) == 1) n += (double)v; fclose(f); return n;
}
template <class F> static double through(Way w, const Bytes& in, unsigned long long lim, Bytes& out, const std::string& dir, double& calls, F f) {
  std::string a = dir + "/win", b = dir + "/wout"; writeFile(a, in); unlink(b.c_str()); int pr[2], pi[2] = {-1, -1}, po[2] = {-1, -1}; pid_t feeder = -1, drain = -1; if (pipe(pr)) throw pbt::Inconclusive("pipe");
  if (w == PIPE) {
    if (pipe(pi) || pipe(po)) throw pbt::Inconclusive("pipe"); feeder = fork(); if (feeder < 0) throw pbt::Inconclusive("fork");
    if (feeder == 0) { signal(SIGPIPE, SIG_IGN); close(pi[0]); close(po[0]); close(po[1]); close(pr[0]); close(pr[1]); size_t p = 0; while (p < in.size()) { ssize_t x = write(pi[1], &in[p], in.size() - p); if (x <= 0) break; p += x; } _exit(0); }
    close(pi[1]); drain = fork(); if (drain < 0) throw pbt::Inconclusive("fork");
    if (drain == 0) { close(pi[0]); close(po[1]); close(pr[0]); close(pr[1]); int o = open(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); static char buf[65536]; ssize_t k; while ((k = read(po[0], buf, sizeof buf)) > 0) if (write(o, buf, k) != k) _exit(1); _exit(0); }
    close(po[0]);
  }
  fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) throw pbt::Inconclusive("fork");
  if (pid == 0) {
    if (w != FILES) { int i = w == PIPE ? pi[0] : open(a.c_str(), O_RDONLY), o = w == PIPE ? po[1] : open(b.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600); dup2(i, 0); dup2(o, 1); close(i); close(o); }
    g_limit = ~0ULL; double y = systemCalls(), x = measured(lim, [&] { if (w == FILES) f(a, b); else { f(std::string(), std::string()); fflush(stdout); } }); double r[2] = {x, systemCalls() - y}; ssize_t n = write(pr[1], r, sizeof r); (void)n; _exit(0);
  }
  if (w == PIPE) { close(pi[0]); close(po[1]); } close(pr[1]); double x[2] = {-1, 0}; ssize_t n = read(pr[0], x, sizeof x); close(pr[0]); int st, s2; while (waitpid(pid, &st, 0) < 0) {} if (feeder > 0) waitpid(feeder, &s2, 0); if (drain > 0) waitpid(drain, &s2, 0);
  if (n != (ssize_t)sizeof x || !WIFEXITED(st) || WEXITSTATUS(st)) throw pbt::Fail(strf("the run through %s ended with status %d (or exceeded %llu units of work)", wname[w], st, lim)); if (!readFile(b, out)) throw pbt::Fail("no output"); unlink(a.c_str()); unlink(b.c_str()); calls = x[1]; return x[0];
}
PROPERTY(streams, 60, 800) {
  std::string d; Way w = (Way)c.s.choice(3); Opt o = genOpt(c.s, 100, 200, 1); bool noise = c.s.chance(1, 2); size_t n = 100000 + c.s.logRange(0, c.thorough ? 4000000 : 900000); Bytes in; if (noise) { gen::segment(c.s, in, n, 1); d = "uniform"; } else in = gen::bytes(c.s, n, &d); if (o.coder == 'M' || o.coder == 'm') o.coder = 'H';
  unsigned parts = 1 + (unsigned)c.s.choice(4); o.mem = (size_t)(in.size() / 0.185 / parts) + 1000; note(c, in, o, d + " through " + wname[w]); c.label(wname[w]); Bytes arc, out, tmp; std::string dir = pbt::scratchDir();
  unsigned long long lim = limit(in.size(), parts + 2, o.prepr.size()), r0 = ref::work(); Bytes ra = ref::compress(in, o.coder, o.algo, o.starts, o.mem, o.prepr); unsigned long long r1 = ref::work(); ref::decompress(ra, tmp); unsigned long long r2 = ref::work(); double rc = (double)(r1 - r0), rd = (double)(r2 - r1), io = 60.0 * (in.size() + ra.size());   // io: moving every byte through the buffers
  double cx, cy, x = through(w, in, lim, arc, dir, cx, [&](const std::string& a, const std::string& b) { bwtc::Compressor k(a, b, o.prepr, o.mem, o.coder); k.initializeBwtAlgorithm(o.algo, o.starts); k.compress(1); });
  double y = through(w, arc, lim, out, dir, cy, [&](const std::string& a, const std::string& b) { bwtc::Decompressor k(a, b); k.decompress(1); });
  c.label(strf("io-share-%s", x + y < rc + rd + 5.0 * in.size() ? "below-5" : x + y < rc + rd + 20.0 * in.size() ? "below-20" : "above-20"));
  PBT_CHECK(c, out == in, "the round trip through %s lost data", wname[w]); PBT_CHECK(c, x <= kFactor * rc + kSlack + io, "compressing %zu bytes through %s takes %.0f units of work; the version of record takes %.0f in memory", in.size(), wname[w], x, rc); PBT_CHECK(c, y <= kFactor * rd + kSlack + io, "decompressing %zu bytes through %s takes %.0f units of work; the version of record takes %.0f in memory", in.size(), wname[w], y, rd);
  double most = 500 + 40.0 * parts + (in.size() + arc.size()) / 200.0; PBT_CHECK(c, cx <= most && cy <= most, "%.0f and %.0f reads and writes to pass %zu and %zu bytes", cx, cy, in.size(), arc.size()); c.label(strf("calls-%s", cx + cy > most / 4 ? "above-quarter" : "below-quarter"));
}
// Large blocks, where a step that is quadratic with a small constant shows.
PROPERTY(bulk, 24, 200) {
  std::string d; Opt o = genOpt(c.s, 100, 200, 0); o.coder = c.s.chance(1, 2) ? 'H' : 'B'; o.prepr = std::string(c.s.choice(5), 'p'); size_t n = c.s.range(8000000, c.thorough ? 60000000 : 20000000); if (o.prepr.empty()) n /= 2;
  Bytes base, in; gen::segment(c.s, base, 1 + c.s.logRange(0, 200000), 1 + (unsigned)c.s.choice(5)); if (base.empty()) base.push_back('a'); in.reserve(n); while (in.size() < n) in.insert(in.end(), base.begin(), base.begin() + std::min(base.size(), n - in.size())); d = strf("period %zu", base.size());
  o.mem = (size_t)(in.size() / 0.185) + 1000; if (c.s.chance(1, 4)) o.mem /= 3; work(c, in, o, d);
}
