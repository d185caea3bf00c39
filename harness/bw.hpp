// Glue between the harness and the code under test (library level).
#ifndef BW_HPP
#define BW_HPP
#include "gen.hpp"
#include "Streams.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include <sstream>
#include <unistd.h>
namespace bw {
using gen::Bytes; using pbt::u64; using pbt::strf;

// In-memory streams: an independent, obviously simple model of the stream contract.
class MemOut : public bwtc::OutStream {
 public:
  explicit MemOut(Bytes* to) : m_to(to) {}
  void writeByte(bwtc::byte b) { m_to->push_back(b); }
  void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { m_to->insert(m_to->end(), b, e); }
  long int getPos() { return (long)m_to->size(); }
  void write48bits(bwtc::uint64 v, long int pos) {
    if (pos < 0 || (size_t)pos + 6 > m_to->size()) throw pbt::Fail("48-bit back-patch outside the data written so far");
    for (int i = 5; i >= 0; --i) (*m_to)[pos++] = (v >> (8 * i)) & 0xff;
  }
  void flush() {}
 private: Bytes* m_to;
};
struct OverRead : pbt::Fail { OverRead() : pbt::Fail("decoder read past the end of the data that was written") {} };
class MemIn : public bwtc::InStream {
 public:
  explicit MemIn(const Bytes* b, size_t* posOut = 0) : m_b(b), m_pos(0), m_buf(0), m_bits(0), m_out(posOut) {}
  size_t readBlock(bwtc::byte* to, size_t n) { size_t k = std::min(n, m_b->size() - m_pos); std::copy(m_b->begin() + m_pos, m_b->begin() + m_pos + k, to); m_pos += k; up(); return k; }
  bool readBit() { if (m_bits == 0) { m_buf = fetch(); m_bits = 8; } return (m_buf >> --m_bits) & 1; }
  bwtc::byte readByte() { unsigned n = fetch(); m_buf = ((m_buf << 8) | n) & 0xffff; return (m_buf >> m_bits) & 0xff; }
  void flushBuffer() { m_bits = 0; }
  bwtc::uint64 read48bits() { bwtc::uint64 r = 0; for (int i = 0; i < 6; ++i) r = (r << 8) | fetch(); return r; }
  bool compressedDataEnding() { return m_pos >= m_b->size(); }
  size_t pos() const { return m_pos; }
  unsigned bitsBuffered() const { return m_bits; }
 private:
  unsigned fetch() { if (m_pos >= m_b->size()) throw OverRead(); unsigned v = (*m_b)[m_pos++]; up(); return v; }
  void up() { if (m_out) *m_out = m_pos; }
  const Bytes* m_b; size_t m_pos; unsigned m_buf; unsigned m_bits; size_t* m_out;
};

struct Opt { char coder; char algo; unsigned starts; size_t mem; std::string prepr; };
inline std::string show(const Opt& o) { return strf("coder=%c bwt=%c starts=%u mem=%zu prepr=%s", o.coder, o.algo, o.starts, o.mem, o.prepr.empty() ? "-" : o.prepr.c_str()); }
static const char kCoders[] = {'B', 'H', 'M', 'm', 'b', 'u'};
static const char kAlgos[] = {'d', 's', 'a'};

inline unsigned genStarts(pbt::Src& s) {
  static const unsigned b[] = {8, 1, 2, 3, 4, 7, 16, 17, 64, 127, 128, 255, 256};
  return s.chance(1, 3) ? (unsigned)s.range(1, 256) : b[s.choice(13)];
}
inline Opt genOpt(pbt::Src& s, size_t minMem, size_t maxMem, unsigned maxRounds) {
  Opt o; o.coder = kCoders[s.choice(6)]; o.algo = kAlgos[s.choice(3)]; o.starts = genStarts(s);
  o.mem = s.logRange(minMem, maxMem);
  if (maxRounds && s.chance(2, 5)) o.prepr = std::string(1 + s.choice(maxRounds), 'p');
  return o;
}
// Input bytes per block as documented by the options (only used to aim sizes at block boundaries).
inline size_t approxBlock(const Opt& o) { return o.prepr.empty() ? (size_t)(o.mem * 0.185) : (size_t)(o.mem * 0.74); }

// Raises the memory limit until the input has at most n blocks (cost control).
inline void capBlocks(Opt& o, size_t len, size_t n) { while (len / std::max<size_t>(1, approxBlock(o)) > n) o.mem = o.mem * 3 / 2 + 10; }
inline Bytes compressMem(const Bytes& in, const Opt& o, size_t* reported = 0) {
  Bytes out;
  bwtc::Compressor c(new MemIn(&in), new MemOut(&out), o.prepr, o.mem, o.coder);
  c.initializeBwtAlgorithm(o.algo, o.starts);
  size_t r = c.compress(1);
  if (reported) *reported = r;
  return out;
}
inline Bytes decompressMem(const Bytes& in, size_t* reported = 0, size_t* consumed = 0) {
  Bytes out; size_t pos = 0;
  { bwtc::Decompressor d(new MemIn(&in, &pos), new MemOut(&out)); size_t r = d.decompress(1); if (reported) *reported = r; }
  if (consumed) *consumed = pos;
  return out;
}
inline void writeFile(const std::string& f, const Bytes& b) {
  FILE* p = fopen(f.c_str(), "wb"); if (!p) throw pbt::Inconclusive("cannot create scratch file");
  bool ok = b.empty() || fwrite(&b[0], 1, b.size(), p) == b.size();
  if (fclose(p) != 0 || !ok) throw pbt::Inconclusive("cannot write scratch file");
}
inline bool readFile(const std::string& f, Bytes& b) {
  FILE* p = fopen(f.c_str(), "rb"); if (!p) return false;
  b.clear(); unsigned char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, p)) > 0) b.insert(b.end(), buf, buf + k);
  fclose(p); return true;
}
inline Bytes compressFile(const Bytes& in, const Opt& o, const std::string& dir, size_t* reported = 0) {
  std::string a = dir + "/in", b = dir + "/arc"; writeFile(a, in);
  { bwtc::Compressor c(a, b, o.prepr, o.mem, o.coder); c.initializeBwtAlgorithm(o.algo, o.starts); size_t r = c.compress(1); if (reported) *reported = r; }
  Bytes out; if (!readFile(b, out)) throw pbt::Fail("no archive was written");
  unlink(a.c_str()); unlink(b.c_str());
  return out;
}
inline Bytes decompressFile(const Bytes& in, const std::string& dir, size_t* reported = 0) {
  std::string a = dir + "/arc2", b = dir + "/out"; writeFile(a, in);
  { bwtc::Decompressor d(a, b); size_t r = d.decompress(1); if (reported) *reported = r; }
  Bytes out; if (!readFile(b, out)) throw pbt::Fail("no output was written");
  unlink(a.c_str()); unlink(b.c_str());
  return out;
}
}  // namespace bw
#endif
