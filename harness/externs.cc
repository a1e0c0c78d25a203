// Extern library for models: one function of every signature of up to five int or double
// parameters, named f_<return><parameters>, and where(), which tells the directory d<number>
// that this copy of the library has been loaded from.
#include <dlfcn.h>

#include <cmath>
#include <cstdlib>
#include <cstring>

using i = int;
using d = double;

namespace {
template <class... T>
double weigh(T... args) {
  double weight = 1, sum = 0.25;
  ((sum += weight * args, weight *= 7), ...);
  return sum;
}
}  // namespace

#define P0(R) F0(R)
#define F0(R) \
  extern "C" R f_##R() { return static_cast<R>(weigh()); }
#define F1(R, A) \
  extern "C" R f_##R##A(A a) { return static_cast<R>(weigh(a)); }
#define F2(R, A, B) \
  extern "C" R f_##R##A##B(A a, B b) { return static_cast<R>(weigh(a, b)); }
#define F3(R, A, B, C) \
  extern "C" R f_##R##A##B##C(A a, B b, C c) { return static_cast<R>(weigh(a, b, c)); }
#define F4(R, A, B, C, D) \
  extern "C" R f_##R##A##B##C##D(A a, B b, C c, D e) { return static_cast<R>(weigh(a, b, c, e)); }
#define F5(R, A, B, C, D, E)                              \
  extern "C" R f_##R##A##B##C##D##E(A a, B b, C c, D e, E f) { \
    return static_cast<R>(weigh(a, b, c, e, f));          \
  }
#define G5(R, A, B, C, D) F5(R, A, B, C, D, i) F5(R, A, B, C, D, d)
#define G4(R, A, B, C) F4(R, A, B, C, i) F4(R, A, B, C, d) G5(R, A, B, C, i) G5(R, A, B, C, d)
#define G3(R, A, B) F3(R, A, B, i) F3(R, A, B, d) G4(R, A, B, i) G4(R, A, B, d)
#define G2(R, A) F2(R, A, i) F2(R, A, d) G3(R, A, i) G3(R, A, d)
#define G1(R) F0(R) F1(R, i) F1(R, d) G2(R, i) G2(R, d)
G1(i)
G1(d)

extern "C" double where() {
  Dl_info info;
  if (!dladdr(reinterpret_cast<void*>(&weigh<>), &info) || !info.dli_fname) return -1;
  static char real[4096];
  if (!realpath(info.dli_fname, real)) return -3;
  const char* at = nullptr;
  for (const char* p = real; (p = std::strstr(p, "/d")); ++p)
    if (p[2] >= '0' && p[2] <= '9') at = p + 2;
  return at ? std::atoi(at) : -2;
}
