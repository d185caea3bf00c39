// A small property-based testing engine.
//
// Every random choice a property makes goes through Src::choice, which records
// it on a "tape".  A case is a pure function of its tape: generation derives
// the tape from (seed, property, case index); replay and shrinking feed a tape
// back.  Cases run in forked workers, so aborts, sanitizer reports, exit() calls
// and hangs of the code under test are failures of that case and nothing more.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

typedef uint64_t u64;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline u64 hashBytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ULL) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ULL;
  return mix(h ^ n);
}

struct Rng {  // xorshift-style generator, expanded from one tape value
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x1234567)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
               z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
};

struct Fail : std::runtime_error { explicit Fail(const std::string& s) : std::runtime_error(s) {} };
// The harness itself could not do its work (no disk, fork failed ...): never a violation.
struct Inconclusive : std::runtime_error { explicit Inconclusive(const std::string& s) : std::runtime_error(s) {} };

inline std::string strf(const char* f, ...) {
  char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

static const size_t kMaxTape = 1 << 16;
struct Tape { size_t n; u64 v[kMaxTape]; };

class Src {
 public:
  Src(Tape* rec, u64 seed) : m_rec(rec), m_rng(seed), m_in(0), m_pos(0) { rec->n = 0; }
  Src(Tape* rec, const std::vector<u64>& in) : m_rec(rec), m_rng(0), m_in(&in), m_pos(0) { rec->n = 0; }
  // Uniform in [0, bound); bound 0 means the whole 64-bit range.
  u64 choice(u64 bound) {
    u64 v;
    if (m_in) { v = m_pos < m_in->size() ? (*m_in)[m_pos] : 0; if (bound && v >= bound) v %= bound; }
    else v = bound ? m_rng.next() % bound : m_rng.next();
    ++m_pos;
    if (m_rec->n < kMaxTape) m_rec->v[m_rec->n++] = v;
    return v;
  }
  u64 range(u64 lo, u64 hi) { return lo + choice(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return choice(den) >= den - num; }  // shrinks to false
  template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[choice(N)]; }
  template <class T> const T& pickv(const std::vector<T>& a) { return a[choice(a.size())]; }
  // log-uniform-ish in [lo,hi]
  u64 logRange(u64 lo, u64 hi) {
    if (hi <= lo) return lo;
    unsigned bits = 0; while (((hi - lo) >> bits) != 0) ++bits;
    unsigned b = (unsigned)choice(bits + 1);
    u64 top = b >= 64 ? ~0ULL : ((1ULL << b) - 1);
    if (top > hi - lo) top = hi - lo;
    return lo + choice(top + 1);
  }
  size_t used() const { return m_pos; }
 private:
  Tape* m_rec; Rng m_rng; const std::vector<u64>* m_in; size_t m_pos;
};

class Case {
 public:
  Src& s;
  bool thorough;
  explicit Case(Src& src, bool t) : s(src), thorough(t), m_shared(0), m_sharedSize(0), m_nontrivial(false), m_key(0) {}
  void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
  void label(const std::string& l) { ++m_labels[l]; }
  void key(u64 h) { m_key = mix(m_key ^ h); }
  void describe(const std::string& d) { if (!m_desc.empty()) m_desc += "; "; m_desc += d;
    if (m_shared) snprintf(m_shared, m_sharedSize, "%s", m_desc.c_str()); }
  void fail(const std::string& m) { throw Fail(m); }
  char* m_shared; size_t m_sharedSize;
  bool m_nontrivial; u64 m_key; std::string m_desc; std::map<std::string, u64> m_labels;
};

#define PBT_CHECK(c, cond, ...) do { if (!(cond)) (c).fail(::pbt::strf(__VA_ARGS__)); } while (0)

struct Prop {
  std::string name;
  void (*fn)(Case&);
  u64 quickCases, thoroughCases;   // per flavour-share, before scaling
  int cpuLimit;                    // seconds of user CPU per case before it counts as a hang
};
std::vector<Prop>& registry();
struct Reg { Reg(const char* n, void (*f)(Case&), u64 q, u64 t, int cpu = 60) {
  Prop p; p.name = n; p.fn = f; p.quickCases = q; p.thoroughCases = t; p.cpuLimit = cpu; registry().push_back(p); } };
#define PROPERTY(name, q, t) static void prop_##name(::pbt::Case& c); \
  static ::pbt::Reg reg_##name(#name, prop_##name, q, t); static void prop_##name(::pbt::Case& c)

int pbtMain(int argc, char** argv);
std::string scratchDir();   // per-process scratch directory, removed by the parent

}  // namespace pbt
#endif
