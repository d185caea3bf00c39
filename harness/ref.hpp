// The version of record, loaded from the shared object named by BWTC_REF.
#ifndef REF_HPP
#define REF_HPP
#include "gen.hpp"
#include <dlfcn.h>
#include <stdlib.h>
namespace ref {
using gen::Bytes;
inline void* sym(const char* n) {
  static void* h = 0; if (!h) { const char* f = getenv("BWTC_REF"); if (!f) throw pbt::Inconclusive("BWTC_REF is not set"); h = dlopen(f, RTLD_NOW | RTLD_LOCAL); if (!h) throw pbt::Inconclusive(std::string("cannot load the version of record: ") + dlerror()); }
  void* p = dlsym(h, n); if (!p) throw pbt::Inconclusive(std::string("no ") + n); return p;
}
inline bool take(unsigned char* p, const size_t& n, Bytes& out) { if (!p) return false; out.assign(p, p + n); free(p); return true; }
inline const unsigned char* data(const Bytes& b) { static unsigned char z; return b.empty() ? &z : &b[0]; }
inline Bytes compress(const Bytes& in, char coder, char algo, unsigned starts, size_t mem, const std::string& prepr) {
  typedef unsigned char* (*F)(const unsigned char*, size_t, char, char, unsigned, size_t, const char*, size_t*); size_t m = 0; Bytes o;
  if (!take(((F)sym("ref_compress"))(data(in), in.size(), coder, algo, starts, mem, prepr.c_str(), &m), m, o)) throw pbt::Inconclusive("the version of record cannot compress this"); return o;
}
inline Bytes preprocess(const Bytes& in, size_t block, const std::string& prepr) {
  typedef unsigned char* (*F)(const unsigned char*, size_t, size_t, const char*, size_t*); size_t m = 0; Bytes o;
  if (!take(((F)sym("ref_preprocess"))(data(in), in.size(), block, prepr.c_str(), &m), m, o)) throw pbt::Inconclusive("the version of record cannot preprocess this"); return o;
}
inline unsigned long long work() { return ((unsigned long long (*)())sym("ref_work"))(); }
typedef unsigned char* (*Dec)(const unsigned char*, size_t, size_t*);
inline bool decompress(const Bytes& in, Bytes& out) { size_t m = 0; return take(((Dec)sym("ref_decompress"))(data(in), in.size(), &m), m, out); }
inline bool postprocess(const Bytes& in, Bytes& out) { size_t m = 0; return take(((Dec)sym("ref_postprocess"))(data(in), in.size(), &m), m, out); }
}
#endif
