// Raw streams against an in-memory model, over generated histories of operations.
#define MAIN
#include "bw.hpp"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace bw;

static void fillBytes(Bytes& b, size_t n, u64 seed) { pbt::Rng r(seed); b.resize(n); for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)r.next(); }
static size_t pieceLen(pbt::Src& s, size_t sofar) {   // lengths aimed at the 64 KB buffer boundaries, seen from the current position
  static const size_t b[] = {0, 1, 2, 5, 6, 7, 8, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073};
  switch (s.choice(5)) {
    case 0: return s.choice(20);
    case 1: return b[s.choice(16)];
    case 2: { size_t to = (sofar / 65536 + 1) * 65536; return to - sofar; }
    case 3: { size_t to = (sofar / 65536 + 1) * 65536 - sofar; size_t d = s.choice(8); return s.chance(1, 2) ? to + d : (to > d ? to - d : 0); }
    default: return s.logRange(0, 100000);
  }
}
enum Target { NAMED, STDOUT_FILE, STDOUT_OFFSET, STDOUT_APPEND, STDOUT_PIPE };
static const char* const tname[] = {"named file", "stdout to file", "stdout at an offset", "stdout appending", "stdout to pipe"};
struct Op { unsigned kind; size_t n; u64 v; size_t ref; };   // 0 byte, 1 block, 2 getPos, 3 patch, 4 flush

// Plans a history and the bytes it must produce; patches only address positions obtained before.
static void plan(pbt::Src& s, bool lastOnly, unsigned maxOps, std::vector<Op>& ops, Bytes& model) {
  unsigned n = 1 + (unsigned)s.choice(maxOps); std::vector<size_t> pos; bool open = false; size_t sinceFlush = 0;
  for (unsigned i = 0; i < n && model.size() < 700000; ++i) {
    Op o; o.n = 0; o.v = 0; o.ref = 0; unsigned k = (unsigned)s.choice(10);
    if (k < 3) { o.kind = 0; o.n = s.chance(1, 4) ? pieceLen(s, sinceFlush) : 1 + s.choice(10); }
    else if (k < 6) { o.kind = 1; o.n = pieceLen(s, sinceFlush); }
    else if (k < 8) { o.kind = 2; }
    else if (k < 9) { o.kind = 3; }
    else o.kind = 4;
    if (o.kind == 3) {   // pick an addressable position
      std::vector<size_t> ok; if (lastOnly) { if (open && !pos.empty() && pos.back() + 6 <= model.size()) ok.push_back(pos.size() - 1); } else for (size_t q = 0; q < pos.size(); ++q) if (pos[q] + 6 <= model.size()) ok.push_back(q);
      if (ok.empty()) o.kind = s.chance(1, 2) ? 2 : 4;
      else { o.ref = ok[s.choice(ok.size())]; unsigned bits = (unsigned)s.choice(49); o.v = s.choice(0) & ((1ULL << bits) - 1); for (int q = 0; q < 6; ++q) model[pos[o.ref] + q] = (unsigned char)(o.v >> (8 * (5 - q))); open = false; sinceFlush = 0; }
    }
    if (o.kind == 2) { pos.push_back(model.size()); open = true; sinceFlush = 0; }
    if (o.kind == 4) sinceFlush = 0;
    if (o.kind < 2) { o.v = s.choice(1 << 20); Bytes b; fillBytes(b, o.n, o.v); model.insert(model.end(), b.begin(), b.end()); sinceFlush += o.n; if (o.kind == 1 && sinceFlush >= 65536) sinceFlush = 0; }
    ops.push_back(o);
  }
}
// Performs the history; returns a message on the first wrong position, else "".
static std::string perform(const std::string& name, const std::vector<Op>& ops, bool absolute) {
  std::string bad; bwtc::RawOutStream* out = new bwtc::RawOutStream(name); size_t written = 0; std::vector<long> pos; std::vector<size_t> at;
  for (size_t i = 0; i < ops.size(); ++i) {
    const Op& o = ops[i]; Bytes b;
    if (o.kind < 2) { fillBytes(b, o.n, o.v); written += o.n; }
    if (o.kind == 0) for (size_t k = 0; k < o.n; ++k) out->writeByte(b[k]);
    else if (o.kind == 1) { static unsigned char none; const unsigned char* p = b.empty() ? &none : &b[0]; out->writeBlock(p, p + o.n); }
    else if (o.kind == 2) {
      long p = out->getPos(); if (absolute && p != (long)written && bad.empty()) bad = strf("operation %zu: position is %ld after %zu bytes", i, p, written);
      if (!pos.empty() && p - pos[0] != (long)(written - at[0]) && bad.empty()) bad = strf("operation %zu: position advanced by %ld over %zu bytes", i, p - pos[0], written - at[0]);
      pos.push_back(p); at.push_back(written);
    }
    else if (o.kind == 3) out->write48bits(o.v, pos[o.ref]); else out->flush();
  }
  delete out; return bad;
}
static std::string showOps(const std::vector<Op>& ops) {
  static const char* n[] = {"byte", "block", "pos", "patch", "flush"}; std::string r; for (size_t i = 0; i < ops.size() && i < 25; ++i) r += (i ? " " : "") + std::string(n[ops[i].kind]) + (ops[i].kind < 2 ? strf("x%zu", ops[i].n) : ops[i].kind == 3 ? strf("@%zu", ops[i].ref) : ""); if (ops.size() > 25) r += " ..."; return r;
}
static void writing(pbt::Case& c, Target t, unsigned maxOps) {
  std::vector<Op> ops; Bytes model; bool lastOnly = t == STDOUT_APPEND || t == STDOUT_PIPE; plan(c.s, lastOnly, maxOps, ops, model);
  c.describe(strf("write history to %s: %s (%zu bytes)", tname[t], showOps(ops).c_str(), model.size())); c.key(pbt::hashBytes(model.data(), model.size())); c.key(t); c.label(tname[t]);
  unsigned kinds = 0; for (size_t i = 0; i < ops.size(); ++i) kinds |= 1u << ops[i].kind; c.nontrivial(__builtin_popcount(kinds) >= 2 && model.size() > 6); if (kinds & 8) c.label("back-patch"); if (model.size() >= 65536) c.label("over-64K");
  std::string f = pbt::scratchDir() + "/raw"; unlink(f.c_str()); Bytes got, prefix; unsigned long long far = 0;
  if (t == NAMED) { std::string m = perform(f, ops, true); PBT_CHECK(c, m.empty(), "%s", m.c_str()); PBT_CHECK(c, readFile(f, got), "no file"); }
  else {
    if (t == STDOUT_OFFSET && c.s.chance(1, 8)) { static const unsigned long long o[] = {0x7ffffff0ULL, 0x80000005ULL, 0xfffffff8ULL, 0xffff0003ULL, 0x100000007ULL, 0x123456789ULL}; far = o[c.s.choice(6)]; c.label("offset-beyond-31-bits"); }   // a sparse file: nothing is stored before the offset
    else if (t == STDOUT_OFFSET || t == STDOUT_APPEND) { prefix.assign(1 + c.s.choice(9000), 0x5a); writeFile(f, prefix); }
    int po[2] = {-1, -1}, pr[2]; if (pipe(pr) || (t == STDOUT_PIPE && pipe(po))) throw pbt::Inconclusive("pipe");
    fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) throw pbt::Inconclusive("fork");
    if (pid == 0) {
      int fd = t == STDOUT_PIPE ? po[1] : open(f.c_str(), O_RDWR | O_CREAT | (t == STDOUT_APPEND ? O_APPEND : 0), 0600); if (fd < 0) _exit(99);
      if (t == STDOUT_OFFSET) if (lseek(fd, far ? (off_t)far : (off_t)prefix.size(), SEEK_SET) < 0 || (far && (pwrite(fd, "", 0, far) < 0 || ftruncate(fd, far)))) _exit(99);
      dup2(fd, 1); if (fd != 1) close(fd); if (po[0] >= 0) close(po[0]);
      std::string m = perform("", ops, false); fflush(stdout); if (!m.empty()) { ssize_t w = write(pr[1], m.data(), m.size()); (void)w; } _exit(m.empty() ? 0 : 98);
    }
    close(pr[1]); char buf[65536]; ssize_t k;
    if (t == STDOUT_PIPE) { close(po[1]); while ((k = read(po[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) got.insert(got.end(), buf, buf + k); close(po[0]); }
    std::string m; while ((k = read(pr[0], buf, sizeof buf)) > 0) m.append(buf, k); close(pr[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) throw pbt::Inconclusive("cannot redirect");
    PBT_CHECK(c, m.empty(), "%s", m.c_str()); PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the writing process ended with status %d", st);
    if (far) {
      struct stat sb; PBT_CHECK(c, stat(f.c_str(), &sb) == 0, "no file"); PBT_CHECK(c, (unsigned long long)sb.st_size == far + model.size(), "the file has %lld bytes instead of %llu", (long long)sb.st_size, far + model.size()); PBT_CHECK(c, (unsigned long long)sb.st_blocks * 512 < 64u << 20, "data was stored before the offset the stream started at");
      int fd = open(f.c_str(), O_RDONLY); got.resize(model.size()); size_t p = 0; while (p < got.size()) { ssize_t x = pread(fd, &got[p], got.size() - p, far + p); if (x <= 0) break; p += x; } got.resize(p); unsigned char head[4096]; ssize_t h = pread(fd, head, sizeof head, 0); close(fd);
      for (ssize_t q = 0; q < h; ++q) PBT_CHECK(c, head[q] == 0, "byte %zd, before the offset the stream started at, was overwritten", q);
    } else if (t != STDOUT_PIPE) PBT_CHECK(c, readFile(f, got), "no file");
  }
  Bytes want(prefix); want.insert(want.end(), model.begin(), model.end()); PBT_CHECK(c, got == want, "%s does not hold the bytes of the history: %s", tname[t], gen::firstDiff(want, got).c_str()); unlink(f.c_str());
}
PROPERTY(writeNamed, 40000, 600000) { writing(c, NAMED, 40); }
PROPERTY(writeStdout, 20000, 300000) { writing(c, (Target)(1 + c.s.choice(4)), 40); }

// Reading: values and end-of-data against the file's bytes.
static std::string reading(pbt::Src& s, bwtc::InStream* in, const Bytes& f, unsigned maxOps, std::string& hist, unsigned& kinds) {
  size_t pos = 0; unsigned bits = 0; Bytes buf; unsigned n = 1 + (unsigned)s.choice(maxOps);   // pos: bytes fetched, bits: unread bits of the last one
  for (unsigned i = 0; i < n; ++i) {
    unsigned k = (unsigned)s.choice(12); size_t left = f.size() - pos;
    if (k < 3) {   // aligned blocks
      if (bits) { in->flushBuffer(); bits = 0; hist += " align"; }
      size_t m = pieceLen(s, pos); if (s.chance(1, 8)) m = left + s.choice(3); buf.assign(m + 1, 0xEE); size_t g = in->readBlock(&buf[0], m), want = std::min(m, left); hist += strf(" block%zu", m); kinds |= 1;
      if (g != want) return strf("block read of %zu with %zu bytes left returned %zu", m, left, g); if (!std::equal(buf.begin(), buf.begin() + g, f.begin() + pos)) return strf("block read at %zu returned wrong bytes", pos); if (buf[m] != 0xEE) return "block read wrote past the buffer"; pos += g;
    } else if (k < 6) {   // bits
      unsigned m = 1 + (unsigned)s.choice(20); hist += strf(" bits%u", m); kinds |= 2;
      for (unsigned q = 0; q < m; ++q) { if (bits == 0) { if (pos == f.size()) break; ++pos; bits = 8; } bool b = in->readBit(); --bits; if (b != (((f[pos - 1] >> bits) & 1) != 0)) return strf("bit %u of byte %zu is wrong", bits, pos - 1); }
    } else if (k < 9) {   // bytes, aligned or not
      unsigned m = 1 + (unsigned)s.choice(5); if (s.chance(1, 10)) m = (unsigned)std::min<size_t>(pieceLen(s, pos), 140000); hist += strf(" bytes%u", m); kinds |= 4;
      for (unsigned q = 0; q < m && pos < f.size(); ++q) { unsigned w = (bits ? f[pos - 1] << 8 : 0) | f[pos]; ++pos; unsigned b = in->readByte(); if (b != ((w >> bits) & 0xff)) return strf("byte read at %zu (%u bits pending) returned %02x instead of %02x", pos - 1, bits, b, (w >> bits) & 0xff); }
    } else if (k == 9) {
      if (bits) { in->flushBuffer(); bits = 0; } if (left < 6) continue; u64 v = 0; for (int q = 0; q < 6; ++q) v = v << 8 | f[pos + q]; u64 g = in->read48bits(); hist += " 48"; kinds |= 8; if (g != v) return strf("48-bit read at %zu returned %llx instead of %llx", pos, (unsigned long long)g, (unsigned long long)v); pos += 6;
    } else if (k == 10) { in->flushBuffer(); bits = 0; hist += " align"; }
    else { bool e = in->compressedDataEnding(); hist += " ending?"; kinds |= 16; if (left >= 2 && e) return strf("end of data reported with %zu bytes left", left); if (left == 0 && !e) return "end of data not reported at the end"; }
  }
  if (s.chance(1, 2)) { if (bits) { in->flushBuffer(); bits = 0; } size_t left = f.size() - pos; buf.assign(left + 10, 0); size_t g = in->readBlock(&buf[0], left + 10); hist += " rest"; if (g != left) return strf("reading the rest returned %zu of %zu bytes", g, left); if (!std::equal(buf.begin(), buf.begin() + g, f.begin() + pos)) return "the rest has wrong bytes"; if (!in->compressedDataEnding()) return "end of data not reported after reading everything"; if (in->readBlock(&buf[0], 5) != 0) return "data after the end"; }
  return "";
}
static Bytes genFile(pbt::Src& s) {
  static const size_t b[] = {0, 1, 2, 6, 7, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 131073, 196608}; size_t n = s.chance(1, 2) ? b[s.choice(14)] : s.logRange(0, 200000); Bytes f; fillBytes(f, n, s.choice(1 << 20)); return f;
}
static void readCase(pbt::Case& c, int kind) {
  Bytes f = genFile(c.s); std::string name = pbt::scratchDir() + "/rin", hist, m; unsigned kinds = 0; Bytes pre; const char* w[] = {"file", "stdin from a file", "stdin from a pipe"};
  c.describe(strf("read history over %s of %zu bytes", w[kind], f.size())); c.key(pbt::hashBytes(f.data(), f.size())); c.label(w[kind]);
  if (kind == 0) { writeFile(name, f); bwtc::RawInStream in(name); m = reading(c.s, &in, f, 60, hist, kinds); }
  else {   // standard input belongs to the process: the history runs in a child (the tape is shared memory)
    if (kind == 1) { pre.assign(c.s.choice(5000), 0x33); Bytes all(pre); all.insert(all.end(), f.begin(), f.end()); writeFile(name, all); }
    int fd[2] = {-1, -1}, pr[2]; pid_t wr = -1; if (pipe(pr)) throw pbt::Inconclusive("pipe");
    if (kind == 1) { fd[0] = open(name.c_str(), O_RDONLY); if (fd[0] < 0) throw pbt::Inconclusive("open"); lseek(fd[0], pre.size(), SEEK_SET); }
    else {
      if (pipe(fd)) throw pbt::Inconclusive("pipe"); std::vector<size_t> ch; unsigned nc = 1 + (unsigned)c.s.choice(4); for (unsigned i = 0; i < nc; ++i) ch.push_back(1 + c.s.logRange(f.size() / 500, 70000)); wr = fork(); if (wr < 0) throw pbt::Inconclusive("fork");
      if (wr == 0) { signal(SIGPIPE, SIG_IGN); close(fd[0]); close(pr[0]); close(pr[1]); size_t p = 0, i = 0; while (p < f.size()) { size_t k = std::min(ch[i++ % nc], f.size() - p); ssize_t x = write(fd[1], &f[p], k); if (x <= 0) _exit(0); p += x; } _exit(0); }
      close(fd[1]);
    }
    pid_t pid = fork(); if (pid < 0) throw pbt::Inconclusive("fork");
    if (pid == 0) {
      close(pr[0]); dup2(fd[0], 0); if (fd[0] != 0) close(fd[0]); { bwtc::RawInStream in(""); m = reading(c.s, &in, f, 60, hist, kinds); }
      std::string all = strf("%c", (char)('A' + kinds)) + m + "\n" + hist; ssize_t x = write(pr[1], all.data(), std::min<size_t>(all.size(), 4000)); (void)x; _exit(0);
    }
    close(pr[1]); close(fd[0]); char buf[8192]; std::string all; ssize_t k; while ((k = read(pr[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) all.append(buf, k); close(pr[0]);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (wr > 0) { int s2; while (waitpid(wr, &s2, 0) < 0 && errno == EINTR) {} }
    PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0 && !all.empty(), "the reading process ended with status %d", st);
    kinds = all[0] - 'A'; size_t nl = all.find('\n'); m = all.substr(1, nl - 1); hist = nl == std::string::npos ? "" : all.substr(nl + 1);
  }
  c.describe(hist.substr(0, 300)); c.key(pbt::hashBytes(hist.data(), hist.size())); c.nontrivial(__builtin_popcount(kinds) >= 2 && f.size() > 2);
  PBT_CHECK(c, m.empty(), "%s (%s)", m.c_str(), w[kind]); unlink(name.c_str());
}
PROPERTY(readNamed, 40000, 600000) { readCase(c, 0); }
PROPERTY(readStdin, 15000, 200000) { readCase(c, 1 + (int)c.s.choice(2)); }

// Beyond 32 bits: pieces and totals of more than 4 GiB, through a pipe (nothing is stored) and from a sparse file.
static void* zeros(size_t n) { void* p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw pbt::Inconclusive("mmap"); return p; }
static const u64 kEdges[] = {0x7fffffffULL, 0x80000000ULL, 0xfffffffeULL, 0xffffffffULL, 0x100000000ULL};
PROPERTY(writeFar, 2, 12) {
  u64 head = kEdges[2 + c.s.choice(3)] + c.s.choice(5) - (c.s.chance(1, 2) ? c.s.choice(100000) : 0); bool one = c.s.chance(1, 2); size_t piece = one ? head : 1 + c.s.logRange(100000, 50000000); Bytes a, b; fillBytes(a, c.s.choice(70000), 1); fillBytes(b, 6 + c.s.choice(200000), 2); u64 v = c.s.choice(1 << 30);
  c.describe(strf("%llu zero bytes in %s, then %zu bytes, position, %zu bytes, back-patch; to a pipe", (unsigned long long)head, one ? "one block" : strf("blocks of %zu", piece).c_str(), a.size(), b.size())); c.key(head); c.key(piece); c.key(a.size()); c.key(b.size()); c.nontrivial(true); c.label(one ? "one-block-over-4G" : "many-blocks-over-4G");
  int po[2], pr[2]; if (pipe(pr) || pipe(po)) throw pbt::Inconclusive("pipe"); const unsigned char* z = (const unsigned char*)zeros(head + 1); fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) throw pbt::Inconclusive("fork");
  if (pid == 0) {
    dup2(po[1], 1); close(po[0]); close(pr[0]); long p0, p1, p2; {
      bwtc::RawOutStream out(""); p0 = out.getPos(); for (unsigned i = 0; i < 6; ++i) out.writeByte(0); out.write48bits(v, p0); for (u64 d = 0; d < head; d += piece) out.writeBlock(z, z + std::min<u64>(piece, head - d)); static unsigned char none; const unsigned char* x = a.empty() ? &none : &a[0]; out.writeBlock(x, x + a.size()); p1 = out.getPos(); out.writeBlock(&b[0], &b[0] + b.size()); out.write48bits(v, p1); p2 = out.getPos(); }
    fflush(stdout); long q[3] = {p0, p1, p2}; ssize_t w = write(pr[1], q, sizeof q); (void)w; _exit(0);
  }
  close(po[1]); close(pr[1]); u64 total = 0; Bytes ends; static unsigned char buf[1 << 20]; static const unsigned char zero[1 << 20] = {0}; std::string bad; ssize_t k; u64 tail = 6 + head; long q[3] = {0, 0, 0};
  while ((k = read(po[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) for (ssize_t i = 0; i < k;) { if (total >= 6 && total < tail) { size_t m = std::min<u64>(k - i, tail - total); if (bad.empty() && memcmp(buf + i, zero, m)) bad = strf("a byte between %llu and %llu is wrong", (unsigned long long)total, (unsigned long long)(total + m)); total += m; i += m; } else { ends.push_back(buf[i++]); ++total; if (ends.size() > 1000000) { close(po[0]); PBT_CHECK(c, false, "more data than was written"); } } }
  close(po[0]); k = read(pr[0], q, sizeof q); close(pr[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} munmap((void*)z, head + 1);
  PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0 && k == (ssize_t)sizeof q, "the writing process ended with status %d", st); PBT_CHECK(c, bad.empty(), "%s", bad.c_str());
  PBT_CHECK(c, total == tail + a.size() + b.size(), "%llu bytes came out, %llu were written", (unsigned long long)total, (unsigned long long)(tail + a.size() + b.size())); PBT_CHECK(c, (u64)(q[1] - q[0]) == tail + a.size() && (u64)(q[2] - q[1]) == b.size(), "positions %ld, %ld, %ld", q[0], q[1], q[2]);
  Bytes want(6), vb(6); for (int i = 0; i < 6; ++i) want[i] = vb[i] = (unsigned char)(v >> 8 * (5 - i)); std::copy(vb.begin(), vb.end(), b.begin()); want.insert(want.end(), a.begin(), a.end()); want.insert(want.end(), b.begin(), b.end()); PBT_CHECK(c, ends == want, "the data around the zeros is wrong: %s", gen::firstDiff(want, ends).c_str());
}
#ifndef __SANITIZE_ADDRESS__   // too slow there
PROPERTY(readFar, 2, 12) {
  u64 head = kEdges[2 + c.s.choice(3)] + c.s.choice(5) - (c.s.chance(1, 2) ? c.s.choice(100000) : 0); size_t piece = 60000000 + c.s.choice(20000000); Bytes f; fillBytes(f, 100 + c.s.choice(100000), 3); c.describe(strf("a sparse file of %llu zero bytes and %zu others, read in blocks of %zu", (unsigned long long)head, f.size(), piece)); c.key(head); c.key(piece); c.key(f.size()); c.nontrivial(true); c.label("file-over-4G");
  std::string name = pbt::scratchDir() + "/sparse"; int fd = open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, head) || pwrite(fd, &f[0], f.size(), head) != (ssize_t)f.size()) { unlink(name.c_str()); throw pbt::Inconclusive("no sparse files here"); } close(fd); struct Rm { std::string n; ~Rm() { unlink(n.c_str()); } } rm = {name};
  bwtc::RawInStream in(name); std::vector<unsigned char> buf(piece); for (u64 d = 0; d < head;) { size_t want = std::min<u64>(piece, head - d), g = in.readBlock(&buf[0], want); PBT_CHECK(c, g == want, "block read of %zu at %llu returned %zu", want, (unsigned long long)d, g); PBT_CHECK(c, buf[0] == 0 && memcmp(&buf[0], &buf[1], want - 1) == 0, "wrong bytes after %llu", (unsigned long long)d); d += g; }
  bwtc::uint64 v = in.read48bits(), w = 0; for (int i = 0; i < 6; ++i) w = w << 8 | f[i]; PBT_CHECK(c, v == w, "48-bit read past 4 GiB returned %llx", (unsigned long long)v); PBT_CHECK(c, !in.compressedDataEnding(), "end of data reported early");
  for (size_t i = 6; i < 60; ++i) { unsigned b = in.readByte(); PBT_CHECK(c, b == f[i], "byte %zu past 4 GiB is %02x", i, b); } buf.assign(f.size() + 10, 0); size_t g = in.readBlock(&buf[0], f.size() + 10); PBT_CHECK(c, g == f.size() - 60 && std::equal(f.begin() + 60, f.end(), buf.begin()), "the rest is wrong (%zu bytes)", g);
}
#endif
// The room offered to a block read may be larger than 4 GiB, whatever the file holds.
PROPERTY(readRoom, 300, 3000) {
  Bytes f = genFile(c.s); u64 room = kEdges[c.s.choice(5)] + c.s.choice(70000); c.describe(strf("block read with room for %llu bytes from a file of %zu", (unsigned long long)room, f.size())); c.key(room); c.key(pbt::hashBytes(f.data(), f.size())); c.nontrivial(f.size() > 0); std::string name = pbt::scratchDir() + "/room"; writeFile(name, f);
  unsigned char* p = (unsigned char*)mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw pbt::Inconclusive("mmap"); size_t g; { bwtc::RawInStream in(name); g = in.readBlock(p, room); } bool same = g == f.size() && std::equal(f.begin(), f.end(), p); munmap(p, room); unlink(name.c_str()); PBT_CHECK(c, same, "returned %zu bytes of %zu, or wrong ones", g, f.size());
}
