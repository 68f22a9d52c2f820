// Deterministic random source and 2->2 kinematics for the workloads.
#ifndef KIN_HPP
#define KIN_HPP
#include <cmath>
#include <cstdint>
#include <cstdlib>
typedef long double LD;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  LD u() { return (LD)(next() >> 11) / 9007199254740992.0L; }
  LD uni(LD a, LD b) { return a + (b - a) * u(); }
  LD logu(LD a, LD b) { return std::exp(uni(std::log(a), std::log(b))); }
  int n(int k) { return (int)(next() % (uint64_t)k); }
  bool p(LD pr) { return u() < pr; }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x2545F4914F6CDD1DULL)); return r.next(); }

namespace kin {
struct Rot { LD m[3][3]; };
inline Rot rot_random(Rng &r) {
  LD a = r.uni(0, 2 * M_PIl), b = std::acos(r.uni(-1, 1)), c = r.uni(0, 2 * M_PIl);
  LD ca = cosl(a), sa = sinl(a), cb = cosl(b), sb = sinl(b), cc = cosl(c), sc = sinl(c);
  Rot R = {{{ca * cb * cc - sa * sc, -ca * cb * sc - sa * cc, ca * sb},
            {sa * cb * cc + ca * sc, -sa * cb * sc + ca * cc, sa * sb},
            {-sb * cc, sb * sc, cb}}};
  return R;
}
// one of the 24 exact axis rotations: directions stay exactly on/in the coordinate axes/planes
inline Rot rot_axis(Rng &r) {
  int perm[3] = {0, 1, 2};
  for (int i = 2; i > 0; i--) { int j = r.n(i + 1); int t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  int sg[3]; for (int i = 0; i < 3; i++) sg[i] = r.n(2) ? 1 : -1;
  int par = (perm[0] == 0 && perm[1] == 1) || (perm[0] == 1 && perm[1] == 2) || (perm[0] == 2 && perm[1] == 0) ? 1 : -1;
  if (par * sg[0] * sg[1] * sg[2] < 0) sg[2] = -sg[2];
  Rot R;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R.m[i][j] = perm[i] == j ? sg[i] : 0;
  return R;
}
inline void apply(const Rot &R, LD p[4]) {
  LD q[3];
  for (int i = 0; i < 3; i++) q[i] = R.m[i][0] * p[1] + R.m[i][1] * p[2] + R.m[i][2] * p[3];
  for (int i = 0; i < 3; i++) p[i + 1] = q[i];
}
inline void boost(const LD b[3], LD p[4]) {
  LD b2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2];
  if (b2 == 0) return;
  LD g = 1 / sqrtl(1 - b2), bp = b[0] * p[1] + b[1] * p[2] + b[2] * p[3];
  LD f = (g - 1) * bp / b2 + g * p[0], E = g * (p[0] + bp);
  for (int i = 0; i < 3; i++) p[i + 1] += f * b[i];
  p[0] = E;
}
inline void onshell(LD p[4], LD m) { p[0] = sqrtl(p[1] * p[1] + p[2] * p[2] + p[3] * p[3] + m * m); }
// centre-of-mass 2->2 in the xz plane; false if below threshold
inline bool cm(const LD m[4], LD pin, LD ct, LD p[4][4]) {
  LD E1 = sqrtl(pin * pin + m[0] * m[0]), E2 = sqrtl(pin * pin + m[1] * m[1]), rs = E1 + E2;
  if (rs <= m[2] + m[3]) return false;
  LD a = m[2] * m[2], b = m[3] * m[3], s = rs * rs;
  LD l = (rs - m[2] - m[3]) * (rs + m[2] + m[3]) * (rs - m[2] + m[3]) * (rs + m[2] - m[3]);
  (void)a; (void)b;
  LD po = sqrtl(l) / (2 * rs), st = sqrtl((1 - ct) * (1 + ct)); (void)s;
  LD q[4][4] = {{0, 0, 0, pin}, {0, 0, 0, -pin}, {0, po * st, 0, po * ct}, {0, -po * st, 0, -po * ct}};
  for (int i = 0; i < 4; i++) { for (int j = 1; j < 4; j++) p[i][j] = q[i][j]; onshell(p[i], m[i]); }
  return true;
}
}  // namespace kin
#endif
