// Memory over many blocks.  The allocator is wrapped, so every byte the library holds is counted exactly.
#define MAIN
#include "bw.hpp"
#include "ref.hpp"
#include <malloc.h>
#include <errno.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static long gLive = 0, gPeak = 0;
static inline void add(void* p) { if (p) { gLive += (long)malloc_usable_size(p); if (gLive > gPeak) gPeak = gLive; } }
static inline void sub(void* p) { if (p) gLive -= (long)malloc_usable_size(p); }
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p); return p; }
void free(void* p) { sub(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); add(p); return p; }
void* realloc(void* q, size_t n) { sub(q); void* p = __libc_realloc(q, n); if (p) add(p); else if (n) add(q); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); add(p); return p; }
void* aligned_alloc(size_t a, size_t n) { void* p = __libc_memalign(a, n); add(p); return p; }
int posix_memalign(void** r, size_t a, size_t n) { void* p = __libc_memalign(a, n); if (!p) return ENOMEM; add(p); *r = p; return 0; }
}
using namespace bw;

struct Mark { long live, peak; };
// Delivers a cycle of blocks over and over without holding more than the cycle, and takes the heap's
// measure whenever a new cycle begins.
class CycleIn : public bwtc::InStream {
 public:
  CycleIn(const Bytes* data, size_t total, size_t blk, std::vector<Mark>* marks, std::vector<size_t>* offs, const size_t* outPos) : m_d(data), m_total(total), m_pos(0), m_blk(blk), m_marks(marks), m_offs(offs), m_out(outPos) {}
  size_t readBlock(bwtc::byte* to, size_t n) {
    if (m_pos % m_d->size() == 0) { Mark m = {gLive, gPeak}; if (m_marks->size() < m_marks->capacity()) m_marks->push_back(m); if (m_offs->size() < m_offs->capacity()) m_offs->push_back(*m_out); gPeak = gLive; }
    size_t k = std::min(n, m_total - m_pos); for (size_t i = 0; i < k; ++i) to[i] = (*m_d)[(m_pos + i) % m_d->size()]; m_pos += k; return k;
  }
  bool readBit() { throw pbt::Fail("bit read from raw input"); } bwtc::byte readByte() { throw pbt::Fail("byte read from raw input"); } void flushBuffer() {} bwtc::uint64 read48bits() { throw pbt::Fail("48-bit read from raw input"); } bool compressedDataEnding() { return m_pos >= m_total; }
 private: const Bytes* m_d; size_t m_total, m_pos, m_blk; std::vector<Mark>* m_marks; std::vector<size_t>* m_offs; const size_t* m_out;
};
class FixedOut : public bwtc::OutStream {   // writes into memory reserved beforehand
 public:
  FixedOut(Bytes* b, size_t* pos) : m_b(b), m_pos(pos) {}
  void writeByte(bwtc::byte b) { put(&b, 1); } void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { put(b, e - b); } long int getPos() { return (long)*m_pos; } void flush() {}
  void write48bits(bwtc::uint64 v, long int pos) { for (int i = 5; i >= 0; --i, ++pos) if ((size_t)pos < m_b->size()) (*m_b)[pos] = (v >> (8 * i)) & 0xff; }
 private:
  void put(const bwtc::byte* b, size_t n) { if (*m_pos + n > m_b->size()) throw pbt::Inconclusive("archive larger than reserved"); std::copy(b, b + n, m_b->begin() + *m_pos); *m_pos += n; }
  Bytes* m_b; size_t* m_pos;
};
class CountOut : public bwtc::OutStream {   // checks the decompressed bytes and keeps nothing
 public:
  CountOut(const Bytes* cyc, size_t* n, bool* ok) : m_c(cyc), m_n(n), m_ok(ok) {}
  void writeByte(bwtc::byte b) { if (b != (*m_c)[*m_n % m_c->size()]) *m_ok = false; ++*m_n; } void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { for (; b != e; ++b) writeByte(*b); } long int getPos() { return (long)*m_n; } void flush() {} void write48bits(bwtc::uint64, long int) {}
 private: const Bytes* m_c; size_t* m_n; bool* m_ok;
};
class MarkIn : public bwtc::InStream {
 public:
  MarkIn(const Bytes* b, size_t end, const std::vector<size_t>* offs, std::vector<Mark>* marks) : m_b(b), m_end(end), m_pos(0), m_next(0), m_offs(offs), m_marks(marks), m_buf(0), m_bits(0) {}
  size_t readBlock(bwtc::byte* to, size_t n) { size_t k = 0; while (k < n && m_pos < m_end) to[k++] = fetch(); return k; }
  bool readBit() { if (m_bits == 0) { m_buf = fetch(); m_bits = 8; } return (m_buf >> --m_bits) & 1; }
  bwtc::byte readByte() { unsigned n = fetch(); m_buf = ((m_buf << 8) | n) & 0xffff; return (m_buf >> m_bits) & 0xff; }
  void flushBuffer() { m_bits = 0; } bwtc::uint64 read48bits() { bwtc::uint64 r = 0; for (int i = 0; i < 6; ++i) r = (r << 8) | fetch(); return r; } bool compressedDataEnding() { return m_pos >= m_end; }
 private:
  unsigned fetch() {
    if (m_pos >= m_end) throw OverRead();
    if (m_next < m_offs->size() && m_pos == (*m_offs)[m_next]) { Mark m = {gLive, gPeak}; if (m_marks->size() < m_marks->capacity()) m_marks->push_back(m); gPeak = gLive; ++m_next; }
    return (*m_b)[m_pos++];
  }
  const Bytes* m_b; size_t m_end, m_pos, m_next; const std::vector<size_t>* m_offs; std::vector<Mark>* m_marks; unsigned m_buf, m_bits;
};
static void judge(pbt::Case& c, const char* what, const std::vector<Mark>& m) {
  size_t n = m.size(); PBT_CHECK(c, n >= 4, "%s: only %zu cycle boundaries seen", what, n);
  // identical cycles: anything kept from one cycle shows up again with the next, so growth over both
  // halves of the run is growth with the input
  size_t a = 2, b = (n + 1) / 2, z = n - 1; if (b <= a || z <= b) { a = 1; b = 2; z = 3; }
  PBT_CHECK(c, !(m[b].live > m[a].live && m[z].live > m[b].live), "%s: memory held between blocks grows with the input: %ld bytes after %zu cycles, %ld after %zu, %ld after %zu", what, m[a].live, a, m[b].live, b, m[z].live, z);
  PBT_CHECK(c, m[z].peak <= m[a].peak + m[a].peak / 50 + 8192, "%s: peak memory grows with the input: %ld bytes in cycle %zu, %ld in cycle %zu", what, m[a].peak, a, m[z].peak, z);
}
static void cycles(pbt::Case& c, const Opt& o, Bytes cyc, size_t blk, unsigned reps, size_t tail, const std::string& d) {
  c.describe(strf("%s cycle of %zu blocks of %zu bytes, %u times + %zu bytes, shape=%s head=%s", show(o).c_str(), cyc.size() / blk, blk, reps, tail, d.c_str(), gen::hexHead(cyc).c_str()));
  c.key(pbt::hashBytes(cyc.data(), cyc.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); } c.label(strf("coder-%c", o.coder)); c.nontrivial(cyc.size() > blk || blk > 256);
  std::vector<Mark> mc, md; std::vector<size_t> offs; mc.reserve(reps + 4); md.reserve(reps + 4); offs.reserve(reps + 4);
  size_t total = cyc.size() * reps + std::min(tail, cyc.size()), pos = 0; Bytes arc(total * 3 + 5000 * (total / blk + 2)); long before = gLive;
  gPeak = gLive; auto comp = [&]() { bwtc::Compressor k(new CycleIn(&cyc, total, blk, &mc, &offs, &pos), new FixedOut(&arc, &pos), o.prepr, o.mem, o.coder); k.initializeBwtAlgorithm(o.algo, o.starts); k.compress(1); };
  comp(); if (gLive > before) { before = gLive; pos = 0; mc.clear(); offs.clear(); comp(); }   // the first use may set up process-wide tables
  if (offs.size() > reps) offs.resize(reps);
  judge(c, "compression", mc);
  PBT_CHECK(c, gLive <= before, "compression: %ld bytes are still held after the compressor was destroyed", gLive - before);
  size_t n = 0; bool ok = true; before = gLive; gPeak = gLive; auto dec = [&]() { bwtc::Decompressor k(new MarkIn(&arc, pos, &offs, &md), new CountOut(&cyc, &n, &ok)); k.decompress(1); };
  dec(); if (gLive > before) { before = gLive; md.clear(); n = 0; dec(); }
  PBT_CHECK(c, ok && n == total, "decompression of the archive gives other data (%zu of %zu bytes)", n, total);
  judge(c, "decompression", md);
  PBT_CHECK(c, gLive <= before, "decompression: %ld bytes are still held after the decompressor was destroyed", gLive - before);
}
// Input bytes per block, found by asking the compressor (not recomputed from the options).
class ProbeIn : public bwtc::InStream { public: explicit ProbeIn(size_t* n) : m_n(n) {} size_t readBlock(bwtc::byte*, size_t n) { if (*m_n == 0) *m_n = n; return 0; } bool readBit() { return 0; } bwtc::byte readByte() { return 0; } void flushBuffer() {} bwtc::uint64 read48bits() { return 0; } bool compressedDataEnding() { return true; } private: size_t* m_n; };
static size_t blockOf(const Opt& o) { size_t n = 0; Bytes out; { bwtc::Compressor k(new ProbeIn(&n), new MemOut(&out), o.prepr, o.mem, o.coder); k.initializeBwtAlgorithm(o.algo, o.starts); k.compress(1); } return n; }

PROPERTY(smallBlocks, 2500, 50000) {
  Opt o = genOpt(c.s, 200, 12000, 3); if (!o.prepr.empty()) o.mem = std::max<size_t>(o.mem, 700); size_t blk = blockOf(o); if (blk == 0 || blk > 100000) { c.label("skipped"); return; }
  unsigned k = 1 + (unsigned)c.s.choice(3); Bytes cyc; std::string d; for (unsigned i = 0; i < k; ++i) { std::string e; Bytes b = gen::bytes(c.s, blk, &e); cyc.insert(cyc.end(), b.begin(), b.end()); d += (i ? " | " : "") + e; }
  cycles(c, o, cyc, blk, 10, c.s.choice(blk + 1), d);
}
PROPERTY(mediumBlocks, 160, 3000) {
  Opt o = genOpt(c.s, 60000, 400000, 3); size_t blk = blockOf(o); if (blk == 0 || blk > 400000) { c.label("skipped"); return; } unsigned k = 1 + (unsigned)c.s.choice(2); Bytes cyc; std::string d;
  for (unsigned i = 0; i < k; ++i) { std::string e; Bytes b = c.s.chance(1, 3) ? gen::pairRich(c.s, blk, &e) : c.s.chance(1, 4) ? gen::deepRuns(c.s, blk / 3 + 1, &e) : gen::bytes(c.s, blk, &e); if (b.empty()) b.push_back(1); size_t w = b.size(); while (b.size() < blk) b.push_back(b[b.size() - w]); b.resize(blk); cyc.insert(cyc.end(), b.begin(), b.end()); d += (i ? " | " : "") + e; }
  cycles(c, o, cyc, blk, 6, c.s.choice(blk + 1), d);
}

// Peak memory of one run: no noticeably more than the version of record needs.
static void peaks(pbt::Case& c, const Bytes& in, const Opt& o, const std::string& d) {
  c.describe(strf("%s len=%zu shape=%s head=%s", show(o).c_str(), in.size(), d.c_str(), gen::hexHead(in).c_str())); c.key(pbt::hashBytes(in.data(), in.size())); { std::string k = show(o); c.key(pbt::hashBytes(k.data(), k.size())); } c.label(strf("coder-%c", o.coder)); c.nontrivial(in.size() > 1000);
  Bytes arc, out; long r[2], m[2], at;
  at = gPeak = gLive; Bytes ra = ref::compress(in, o.coder, o.algo, o.starts, o.mem, o.prepr); r[0] = gPeak - at; at = gPeak = gLive; ref::decompress(ra, out); r[1] = gPeak - at; Bytes().swap(out);
  at = gPeak = gLive; arc = compressMem(in, o); m[0] = gPeak - at; at = gPeak = gLive; out = decompressMem(arc); m[1] = gPeak - at;
  for (int i = 0; i < 2; ++i) PBT_CHECK(c, m[i] <= r[i] + r[i] / 4 + 200000, "peak memory of %s is %ld bytes; the version of record needs %ld", i ? "decompression" : "compression", m[i], r[i]);
}
PROPERTY(peak, 300, 5000) { std::string d; Bytes in = c.s.chance(1, 5) ? gen::pairRich(c.s, 300000, &d) : c.s.chance(1, 6) ? gen::deepRuns(c.s, 100000, &d) : gen::bytes(c.s, gen::length(c.s, 600000), &d); Opt o = genOpt(c.s, 100000, 4000000, 2); capBlocks(o, in.size(), 30); peaks(c, in, o, d); }
// ... with inputs of several blocks and limits of some megabytes, where the share of the limit that each block takes shows
PROPERTY(limits, 40, 600) {
  Opt o = genOpt(c.s, 4000000, 9000000, 2); std::string d; size_t n = o.mem / 2 + c.s.choice(o.mem); Bytes in; unsigned kind = (unsigned)c.s.choice(3);
  if (kind == 0) { pbt::Rng r(c.s.choice(1 << 20)); unsigned a = 2 + (unsigned)c.s.choice(255); in.resize(n); for (size_t i = 0; i < n; ++i) in[i] = (unsigned char)r.below(a); d = strf("noise of %u symbols", a); }
  else if (kind == 1) { in = gen::pairRich(c.s, 400000, &d); size_t w = in.size(); while (!in.empty() && in.size() < n) in.push_back(in[in.size() - w] ^ (unsigned char)(in.size() % w == 0)); }
  else in = gen::bytes(c.s, n, &d);
  peaks(c, in, o, d); }
