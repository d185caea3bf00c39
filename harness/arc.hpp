// Walking an archive by its documented layout: coder byte; per precompressor block its original size,
// number of slices and grammar, then per slice a 48-bit length and that many bytes; a zero byte ends it.
#ifndef ARC_HPP
#define ARC_HPP
#include "bw.hpp"
#include "preprocessors/Grammar.hpp"
namespace arc {
using bw::Bytes;
struct Slice { size_t at, len; };            // at = offset of the 48-bit field, len = its value
struct Block { size_t begin, end; size_t original; std::vector<Slice> slices; size_t rules; };
struct Layout { std::vector<Block> blocks; size_t end; };
inline size_t packed(pbt::Case& c, const Bytes& a, size_t& p) {
  size_t v = 0; unsigned sh = 0;
  while (true) { PBT_CHECK(c, p < a.size(), "archive ends inside a packed integer"); unsigned char b = a[p++]; v |= (size_t)(b & 0x7f) << sh; sh += 7; if (!(b & 0x80)) return v; PBT_CHECK(c, sh < 63, "packed integer too long at %zu", p); }
}
inline Layout walk(pbt::Case& c, const Bytes& a) {
  Layout l; size_t p = 1; PBT_CHECK(c, !a.empty(), "empty archive");
  while (true) {
    Block b; b.begin = p; b.original = packed(c, a, p); if (b.original == 0) { l.end = p; return l; }
    size_t n = packed(c, a, p);
    PBT_CHECK(c, n >= 1 && n <= b.original, "block of %zu bytes has %zu slices", b.original, n);
    { Bytes rest(a.begin() + p, a.begin() + std::min(a.size(), p + 20000)); bw::MemIn in(&rest); bwtc::Grammar g; g.readGrammar(&in); b.rules = g.numOfRules(); p += in.pos(); }
    for (size_t i = 0; i < n; ++i) {
      PBT_CHECK(c, p + 6 <= a.size(), "archive ends before a length field (following the lengths leads astray)");
      Slice s; s.at = p; s.len = 0; for (int k = 0; k < 6; ++k) s.len = s.len << 8 | a[p++];
      PBT_CHECK(c, s.len <= a.size() - p, "length field at %zu says %zu, only %zu bytes follow", s.at, s.len, a.size() - p);
      p += s.len; b.slices.push_back(s);
    }
    b.end = p; l.blocks.push_back(b);
  }
}
}
#endif
