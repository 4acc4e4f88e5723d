/* Common part of the conformance drivers: reads an operation script, executes each operation on the real
   code, and records one event per operation (arguments, results, projected state) as a line of JSON. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

typedef long long ll;
typedef std::vector<ll> VI;

struct Op {
  std::string name;
  VI a;                    // integer arguments
  std::vector<VI> d;       // data arguments (byte strings, lists)
  ll A(size_t i) const { return i < a.size() ? a[i] : 0; }
  std::string str(size_t i) const {
    std::string s;
    if (i < d.size()) for (ll x : d[i]) s.push_back((char) (x & 0xFF));
    return s;
  }
  bool is(const char* n) const { return name == n; }
};

struct Ev {
  VI r;                    // returned values
  std::vector<VI> s;       // projected state / output data
  void R(ll x) { r.push_back(x); }
  void S(const VI& v) { s.push_back(v); }
  void S(const void* p, size_t n) {
    VI v; const uint8_t* b = (const uint8_t*) p;
    for (size_t i = 0; i < n; i++) v.push_back(b[i]);
    s.push_back(v);
  }
};

/* Exactly sized heap copy of some bytes, so that the sanitizer sees any access beyond it. */
struct Exact {
  uint8_t* p; size_t n;
  explicit Exact(const std::string& s) : n(s.size()) { p = (uint8_t*) malloc(n ? n : 1); if (n) memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  private: Exact(const Exact&); void operator=(const Exact&);
};
struct ExactZ {
  char* p; size_t n;
  explicit ExactZ(const std::string& s) : n(s.size()) { p = (char*) malloc(n + 1); if (n) memcpy(p, s.data(), n); p[n] = 0; }
  ~ExactZ() { free(p); }
  private: ExactZ(const ExactZ&); void operator=(const ExactZ&);
};

/* 64-bit values travel as four 16-bit limbs, low first: TLC integers are 32-bit. */
inline uint64_t limbs64(const VI& v, size_t at = 0) {
  uint64_t x = 0;
  for (int i = 3; i >= 0; i--) { x <<= 16; if (at + i < v.size()) x |= (uint64_t) (v[at + i] & 0xFFFF); }
  return x;
}
inline VI to_limbs(uint64_t x, int n = 4) {
  VI v; for (int i = 0; i < n; i++) { v.push_back((ll) (x & 0xFFFF)); x >>= 16; } return v;
}

/* Simulated platform */
extern uint64_t sim_us;
extern uint64_t sim_rand;
extern uint64_t sim_rand_count;
extern bool sim_rand_counts;

/* Bytes presently allocated on the heap. */
#if defined(__SANITIZE_ADDRESS__)
extern ll vh_overhead;     // heap held by the driver for the present operation
extern "C" size_t __sanitizer_get_current_allocated_bytes();
inline ll heap_now() { return (ll) __sanitizer_get_current_allocated_bytes() - vh_overhead; }
#else
inline ll heap_now() { return 0; }
#endif

/* Supplied by each driver. */
void vh_exec(const Op&, Ev&);

#endif
