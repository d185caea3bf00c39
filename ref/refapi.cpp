// The version of record (src/, a frozen copy of the sources) behind a C interface, built as a shared
// object with hidden symbols so that it can live in one process with the tree under test.
#define MAIN
#include "globaldefs.hpp"
#include "Streams.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include "PrecompressorBlock.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include <algorithm>
#include <cstring>
#include <vector>
typedef std::vector<unsigned char> Bytes;
namespace {
struct Bad {};
class MemOut : public bwtc::OutStream {
 public:
  explicit MemOut(Bytes* to) : m_to(to) {}
  void writeByte(bwtc::byte b) { if (m_to->size() > ((size_t)1 << 31)) throw Bad(); m_to->push_back(b); }
  void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { m_to->insert(m_to->end(), b, e); }
  long int getPos() { return (long)m_to->size(); }
  void write48bits(bwtc::uint64 v, long int pos) { for (int i = 5; i >= 0; --i) (*m_to)[pos++] = (v >> (8 * i)) & 0xff; }
  void flush() {}
 private: Bytes* m_to;
};
class MemIn : public bwtc::InStream {
 public:
  MemIn(const unsigned char* b, size_t n) : m_b(b), m_n(n), m_pos(0), m_buf(0), m_bits(0) {}
  size_t readBlock(bwtc::byte* to, size_t n) { size_t k = std::min(n, m_n - m_pos); std::copy(m_b + m_pos, m_b + m_pos + k, to); m_pos += k; return k; }
  bool readBit() { if (m_bits == 0) { m_buf = fetch(); m_bits = 8; } return (m_buf >> --m_bits) & 1; }
  bwtc::byte readByte() { unsigned n = fetch(); m_buf = ((m_buf << 8) | n) & 0xffff; return (m_buf >> m_bits) & 0xff; }
  void flushBuffer() { m_bits = 0; }
  bwtc::uint64 read48bits() { bwtc::uint64 r = 0; for (int i = 0; i < 6; ++i) r = (r << 8) | fetch(); return r; }
  bool compressedDataEnding() { return m_pos >= m_n; }
 private:
  unsigned fetch() { if (m_pos >= m_n) throw Bad(); return m_b[m_pos++]; }
  const unsigned char* m_b; size_t m_n, m_pos; unsigned m_buf, m_bits;
};
unsigned char* give(const Bytes& b, size_t* n) { *n = b.size(); unsigned char* p = (unsigned char*)malloc(b.size() + 1); std::copy(b.begin(), b.end(), p); return p; }
}
#define API extern "C" __attribute__((visibility("default")))
// All return a malloc'ed buffer, or 0 if the data could not be decoded.
API unsigned char* ref_compress(const unsigned char* in, size_t n, char coder, char algo, unsigned starts, size_t mem, const char* prepr, size_t* m) {
  try { Bytes out; { bwtc::Compressor c(new MemIn(in, n), new MemOut(&out), prepr, mem, coder); c.initializeBwtAlgorithm(algo, starts); c.compress(1); } return give(out, m); } catch (...) { return 0; }
}
API unsigned char* ref_decompress(const unsigned char* in, size_t n, size_t* m) {
  try { Bytes out; { bwtc::Decompressor d(new MemIn(in, n), new MemOut(&out)); d.decompress(1); } return give(out, m); } catch (...) { return 0; }
}
API unsigned char* ref_preprocess(const unsigned char* in, size_t n, size_t block, const char* prepr, size_t* m) {
  try {
    Bytes o; MemOut out(&o); MemIn mi(in, n); bwtc::Precompressor p(prepr);
    while (true) {
      bwtc::PrecompressorBlock* b = p.readBlock(block, &mi); if (b->originalSize() == 0) { delete b; break; }
      b->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); out.writeBlock(b->begin(), b->end()); delete b;
    }
    bwtc::PrecompressorBlock::writeEmptyHeader(&out); return give(o, m);
  } catch (...) { return 0; }
}
API unsigned char* ref_postprocess(const unsigned char* in, size_t n, size_t* m) {
  try {
    Bytes o; MemOut out(&o); MemIn mi(in, n);
    while (true) {
      bwtc::PrecompressorBlock* b = bwtc::PrecompressorBlock::readBlockHeader(&mi, PRECOMP_COMPRESSED_SIZE); if (b->size() == 0) { delete b; break; }
      bwtc::Postprocessor p(false, b->grammar()); p.uncompress(b->begin(), b->size(), &out); delete b;
    }
    return give(o, m);
  } catch (...) { return 0; }
}
#ifdef REF_COV
// Work done since the library was loaded, counted as in harness/c20.cpp.
static unsigned long long g_work;
extern "C" {
void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++g_work; }
__attribute__((no_sanitize_coverage)) void* __wrap_memmove(void* a, const void* b, size_t n) { g_work += n / 16; return __real_memmove(a, b, n); }
__attribute__((no_sanitize_coverage)) void* __wrap_memcpy(void* a, const void* b, size_t n) { g_work += n / 16; return __real_memcpy(a, b, n); }
__attribute__((no_sanitize_coverage)) void* __wrap_memset(void* a, int v, size_t n) { g_work += n / 16; return __real_memset(a, v, n); }
__attribute__((no_sanitize_coverage)) int __wrap_memcmp(const void* a, const void* b, size_t n) { g_work += n / 16; return __real_memcmp(a, b, n); }
}
API unsigned long long ref_work() { return g_work; }
#endif
