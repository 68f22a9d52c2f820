// Random physical points for the process monitors, comparison with the tree-level reference,
// and adjudication of disagreements in quadruple precision.
#ifndef SMCASE_HPP
#define SMCASE_HPP
#include "procs.hpp"
#include "report.hpp"
#include <algorithm>
#include <memory>

namespace smc {
using namespace procs;
using namespace refsm;
typedef __float128 Q;

struct Point {
  const Info *I;
  PL P;
  Leg L[4];
  LD m[4], p[4][4];
  int ps, ks, fs;
  std::string str() const {
    std::string s = fmt("%s: %s %s -> %s %s e=%.12Lg gs=%.12Lg sw=%.12Lg MW=%.12Lg mh=%.12Lg wh=%.6Lg wW=%.6Lg wZ=%.6Lg", I->name, I->legs[0],
                        I->legs[1], I->legs[2], I->legs[3], (LD)P.e, (LD)P.gs, (LD)P.sw, (LD)P.MW, (LD)P.mh, (LD)P.wh, (LD)P.WW, (LD)P.WZ);
    for (int i = 0; i < 4; i++) s += fmt(" m%d=%.12Lg p%d=(%.15Lg,%.15Lg,%.15Lg,%.15Lg)", i + 1, m[i], i + 1, p[i][0], p[i][1], p[i][2], p[i][3]);
    return s;
  }
  uint64_t hash() const {
    uint64_t h = hstr(I->name);
    auto add = [&](LD x) { h = mix(h, (uint64_t)(int64_t)(x * 1048576.0L)); };
    add(P.e); add(P.MW); add(P.mh);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) add(p[i][j]);
    return h;
  }
};
inline bool has(const Info &I, const char *a) {
  for (auto &c : I.cargs) if (c == a) return true;
  return false;
}
inline void gen_par(Rng &r, const Info &I, int ps, PL &P) {
  P.e = r.uni(.1L, .9L); P.gs = r.uni(.3L, 1.5L); P.sw = r.uni(.25L, .9L);
  if (ps == 1) { P.e = .31345L; P.gs = 1.2177L; P.sw = .4717L; }
  P.qed = I.qed;
  P.wh = P.WW = P.WZ = 0;
  if (ps == 0) {  // comparable masses
    P.MW = r.uni(30, 120); P.mh = r.uni(30, 250);
    for (auto &m : P.mf) m = r.uni(1, 150);
  } else if (ps == 1) {  // close to the physical masses
    const LD sm[NFIELD] = {0, 0, 0, 0, 0, 0, .0075L, 1.23L, 173, .0042L, .095L, 4.2L, .000511L, .1057L, 1.777L, 0, 0, 0};
    P.MW = 80.4L * r.uni(.9L, 1.1L); P.mh = 125 * r.uni(.9L, 1.1L);
    for (int i = 0; i < NFIELD; i++) P.mf[i] = (sm[i] ? sm[i] : 1) * r.uni(.8L, 1.2L);
  } else if (ps == 2) {  // arbitrary hierarchies
    P.MW = r.logu(5, 200); P.mh = r.logu(5, 500);
    for (auto &m : P.mf) m = r.logu(.01L, 400);
  } else {  // everything nearly or exactly degenerate
    LD M = r.uni(20, 100);
    P.MW = M; P.mh = r.n(2) ? M : 1.5L * M;
    for (auto &m : P.mf) m = r.n(3) ? M : M / 2;
    if (!r.n(3)) {  // equal only in the leading digits
      LD d = r.logu(1e-12L, 1e-2L);
      P.mh *= 1 + d * r.uni(-1, 1);
      for (auto &m : P.mf) m *= 1 + d * r.uni(-1, 1);
    }
  }
  if (ps != 1 && !r.n(12)) {  // weak or strong couplings, extreme mixing
    P.e = r.logu(.005L, 3); P.gs = r.logu(.005L, 3);
    P.sw = r.n(2) ? r.logu(.03L, .25L) : 1 - r.logu(.01L, .1L);
  }
  P.cw = sqrtl(1 - (LD)P.sw * P.sw); P.MZ = P.MW / P.cw;
  if (ps == 3 && !r.n(4)) {  // some equal to the Z instead, or half of it
    LD d = r.n(2) ? 0 : r.logu(1e-12L, 1e-2L);
    if (!r.n(3)) P.mh = P.MZ * (1 + d * r.uni(-1, 1)) * (1 + r.n(2));
    for (auto &m : P.mf) if (!r.n(3)) m = P.MZ * (1 + d * r.uni(-1, 1)) / (1 + r.n(2));
  }
}
// whole numbers and simple fractions
inline void roundpar(Rng &r, PL &P) {
  const LD e[4] = {.3L, .5L, 1, 2}, sw[4] = {.5L, .6L, .8L, .48L};
  P.e = e[r.n(4)]; P.gs = e[r.n(4)]; P.sw = sw[r.n(4)];
  P.MW = std::max((LD)1, roundl(P.MW)); P.mh = std::max((LD)1, roundl(P.mh));
  for (auto &m : P.mf) m = std::max((LD)1, roundl(m));
  P.cw = sqrtl(1 - (LD)P.sw * P.sw); P.MZ = P.MW / P.cw;
}
inline void legs(const Info &I, Leg L[4]) { for (int i = 0; i < 4; i++) parse_leg(I.legs[i], L[i]); }
// incoming momentum in the centre-of-mass frame for a given invariant mass (0 if unreachable)
inline LD pin_for(LD m1, LD m2, LD rs) {
  if (rs <= m1 + m2) return 0;
  LD l = (rs - m1 - m2) * (rs + m1 + m2) * (rs - m1 + m2) * (rs + m1 - m2);
  return sqrtl(l) / (2 * rs);
}
inline LD gen_ct(Rng &r, bool exact = false) {
  int k = r.n(10);
  if (k == 0) return !exact || r.n(2) ? (r.n(3) ? 0 : (r.n(2) ? 1 : -1) * r.logu(1e-12L, 1e-2L)) : (r.n(2) ? 1 : -1) * (r.n(2) ? 1 : 1 - r.logu(1e-14L, 1e-4L));
  if (k == 1) return (r.n(2) ? 1 : -1) * (1 - r.logu(1e-3L, .05L));
  if (k == 2) return r.n(2) ? .5L : -.5L;
  return r.uni(-.97L, .97L);
}
inline LD gen_pin(Rng &r, const LD m[4], int ks) {
  LD sc = 1, mn = 1e30L;
  for (int i = 0; i < 4; i++) { sc = std::max(sc, m[i]); if (m[i] > 0) mn = std::min(mn, m[i]); }
  LD thr = m[2] + m[3], in = m[0] + m[1], pin;
  if (ks == 1) {  // close to threshold
    bool soft = (thr >= in && !(m[2] > 0 && m[3] > 0)) || (in >= thr && !(m[0] > 0 && m[1] > 0));  // massless legs would lose their digits
    LD rs = std::max(thr, in) * (1 + (soft || r.n(4) ? r.logu(1e-3L, .1L) : r.logu(1e-10L, 1e-3L)));
    pin = pin_for(m[0], m[1], rs);
    if (!(pin > 0)) pin = r.logu(.1L, 1) * sc;
  } else if (ks == 2) pin = r.uni(10, 100) * std::min(sc, (LD)30);
  else pin = r.logu(.2L, 6) * sc;
  return std::min(pin, (LD)2000);
}
inline void conserve(Point &c) { for (int i = 0; i < 4; i++) kin::onshell(c.p[i], c.m[i]); }
inline bool rests(const LD p[4]) { return p[1] == 0 && p[2] == 0 && p[3] == 0; }
inline LD emax(const Point &c) { LD e = 0; for (auto &q : c.p) e = std::max(e, q[0]); return e; }
// E/M of vector bosons so large that the cancellations leave few digits
inline bool fastboson(const Point &c, LD k) {
  for (int i = 0; i < 4; i++) if ((c.L[i].f == FZ || c.L[i].f == FWp || c.L[i].f == FWm) && c.p[i][0] > k * c.m[i]) return true;
  return false;
}
// Puts a centre-of-mass point into frame style fs.
inline void frame(Rng &r, Point &c, int fs) {
  c.fs = 0;
  Point o = c;
  c.fs = fs;
  if (fs == 1) { auto R = kin::rot_axis(r); for (auto &q : c.p) kin::apply(R, q); }
  if (fs >= 2) { auto R = kin::rot_random(r); for (auto &q : c.p) kin::apply(R, q); }
  if (fs == 3 || fs == 6) {
    LD b[3], bm = fs == 3 ? r.uni(0, .9L) : 1 - r.logu(.003L, .1L), n = 0;
    for (auto &x : b) { x = r.uni(-1, 1); n += x * x; }
    for (auto &x : b) x *= bm / sqrtl(n);
    for (auto &q : c.p) kin::boost(b, q);
  }
  if (fs == 4) {  // exact rest frame of one massive leg
    int k = r.n(4), t = 0;
    while (t < 4 && !(c.m[k] > 0.02L * c.p[k][0])) { k = (k + 1) % 4; t++; }
    if (t < 4) {
      LD b[3] = {-c.p[k][1] / c.p[k][0], -c.p[k][2] / c.p[k][0], -c.p[k][3] / c.p[k][0]};
      for (int i = 0; i < 4; i++) if (i != k) kin::boost(b, c.p[i]);
      c.p[k][1] = c.p[k][2] = c.p[k][3] = 0;
      // restore exact conservation on the partner
      int q = k ^ 1, s = k < 2 ? 2 : 0;
      for (int j = 1; j < 4; j++) c.p[q][j] = c.p[s][j] + c.p[s + 1][j];
    }
  }
  if (fs == 5) {  // collinear boost of the beam axis, then an exact axis rotation
    c = o; c.fs = fs;
    LD b[3] = {0, 0, (r.n(2) ? 1 : -1) * r.uni(.05L, .9L)};
    for (auto &q : c.p) kin::boost(b, q);
    auto R = kin::rot_axis(r);
    for (auto &q : c.p) kin::apply(R, q);
  }
  for (auto &q : c.p) if (rests(q)) q[1] = q[2] = q[3] = 0;  // no negative zeros: they would choose another spin axis
  conserve(c);
  if (emax(c) > 6000 || (fastboson(c, 400) && !fastboson(o, 400))) c = o;
}
inline bool nearpole(const PL &P, const LD p[4][4], LD tol) {
  LD s = 0, M[3] = {(LD)P.MZ, (LD)P.MW, (LD)P.mh};
  for (int j = 0; j < 4; j++) { LD x = p[0][j] + p[1][j]; s += j ? -x * x : x * x; }
  for (LD m : M) if (fabsl(s / (m * m) - 1) < tol) return true;
  return false;
}
// forward or backward: keep away from the poles of exchanged particles
inline bool nearexchange(const PL &P, const LD p[4][4]) {
  LD t = 0, u = 0, s = 0;
  for (int j = 0; j < 4; j++) {
    LD a = p[0][j] - p[2][j], b = p[0][j] - p[3][j], x = p[0][j] + p[1][j];
    t += j ? -a * a : a * a; u += j ? -b * b : b * b; s += j ? -x * x : x * x;
  }
  auto near = [&](LD m) { return fabsl(t - m * m) < 1e-3L * s || fabsl(u - m * m) < 1e-3L * s; };
  for (LD m : P.mf) if (near(m)) return true;
  return near(0) || near(P.MZ) || near(P.MW) || near(P.mh);
}
inline bool bad_ct(const PL &P, LD ct, const LD p[4][4]) { return fabsl(ct) > .9995L && nearexchange(P, p); }
inline void anyangle(Rng &r, Point &d, LD pin) {
  for (;; pin *= 1.3L) {
    LD ct = gen_ct(r, true);
    if (kin::cm(d.m, pin, ct, d.p) && !bad_ct(d.P, ct, d.p)) return;
  }
}
// the same point in larger units of energy
inline void units(Point &c, LD k) {
  c.P.MW *= k; c.P.mh *= k; c.P.MZ = c.P.MW / c.P.cw;
  for (auto &m : c.P.mf) m *= k;
  for (int i = 0; i < 4; i++) { c.m[i] = c.P.mass(c.L[i].f); for (auto &x : c.p[i]) x *= k; }
  conserve(c);
}
// exactly at threshold: both incoming or both outgoing particles at rest
inline bool threshold(Rng &r, const LD m[4], LD p[4][4]) {
  int w = r.n(2) * 2, o = 2 - w;  // the pair at rest, the other pair
  if (!(m[w] > 0 && m[w + 1] > 0)) return false;
  LD k = pin_for(m[o], m[o + 1], m[w] + m[w + 1]), ct = w ? 1 : gen_ct(r), st = sqrtl((1 - ct) * (1 + ct));
  if (!(k > .05L * (m[w] + m[w + 1]))) return false;
  LD n[3] = {st, 0, ct};
  for (int j = 0; j < 3; j++) { p[w][j + 1] = p[w + 1][j + 1] = 0; p[o][j + 1] = k * n[j]; p[o + 1][j + 1] = -k * n[j]; }
  for (int i = 0; i < 4; i++) kin::onshell(p[i], m[i]);
  return true;
}
inline void gen(Rng &r, const Info &I, Point &c, int ps = -1, int ks = -1, int fs = -1) {
  c.I = &I;
  legs(I, c.L);
  for (int tries = 0;; tries++) {
    c.ps = ps >= 0 ? ps : (r.n(10) < 5 ? 0 : 1 + r.n(3));
    gen_par(r, I, c.ps, c.P);
    if (ps < 0 && !r.n(10)) roundpar(r, c.P);
    for (int i = 0; i < 4; i++) c.m[i] = c.P.mass(c.L[i].f);
    c.ks = ks >= 0 ? ks : (r.n(10) < 6 ? 0 : 1 + r.n(2));
    LD pin = gen_pin(r, c.m, c.ks);
    int t = 0;
    LD ct = gen_ct(r, true);
    while (!kin::cm(c.m, pin, ct, c.p) && t++ < 60) pin *= 1.3L;
    if (t >= 60 || pin > 3000) continue;
    if (tries < 200 && nearpole(c.P, c.p, 1e-3L)) continue;
    if (bad_ct(c.P, ct, c.p)) continue;
    if (ps < 0 && ks < 0 && !r.n(16)) {
      LD q[4][4];
      if (threshold(r, c.m, q) && !nearexchange(c.P, q) && !nearpole(c.P, q, 1e-3L)) memcpy(c.p, q, sizeof q);
    }
    if (tries < 200 && fastboson(c, 200)) continue;
    break;
  }
  if (ps < 0 && !r.n(8)) units(c, r.n(4) ? r.logu(1e-3L, .3L) : std::min((LD)r.logu(1.5L, 10), 5000 / emax(c)));
  frame(r, c, fs >= 0 ? fs : r.n(7));
}
inline Par<Q> toQ(const PL &P) {
  Par<Q> r;
  r.e = P.e; r.gs = P.gs; r.sw = P.sw; r.MW = P.MW; r.mh = P.mh; r.wh = P.wh; r.WW = P.WW; r.WZ = P.WZ; r.qed = P.qed;
  for (int i = 0; i < NFIELD; i++) r.mf[i] = P.mf[i];
  r.cw = sqrtq(1 - r.sw * r.sw); r.MZ = r.MW / r.cw;
  return r;
}
inline void momQ(const Point &c, Q q[4][4]) {
  int d = c.p[3][1] == 0 && c.p[3][2] == 0 && c.p[3][3] == 0 ? 2 : 3;  // follows from the others; a leg at rest stays at rest
  for (int j = 1; j < 4; j++) {
    for (int i = 0; i < 4; i++) if (i != d) q[i][j] = c.p[i][j];
    q[d][j] = q[0][j] + q[1][j] - q[5 - d][j];
  }
  for (int i = 0; i < 4; i++) { Q m = c.m[i]; q[i][0] = sqrtq(q[i][1] * q[i][1] + q[i][2] * q[i][2] + q[i][3] * q[i][3] + m * m); }
}
// moves the spatial momenta by a few units in the last place
inline void jitter(Rng &r, Point &c) {
  for (auto &q : c.p) {
    LD rest = rests(q) ? q[0] : 0;
    for (int j = 1; j < 4; j++) q[j] += (q[j] + rest) * (LD)(r.n(2) ? 1 + r.n(4) : -1 - r.n(4)) * 1.1e-19L;
  }
  conserve(c);
  // the energies of slow legs round independently of their momenta
  for (auto &q : c.p) if (q[1] * q[1] + q[2] * q[2] + q[3] * q[3] < 1e-4L * q[0] * q[0]) q[0] = nextafterl(q[0], r.n(2) ? 0 : 2 * q[0]);
}
// Relative spread of f among points a few units in the last place away, without the extremes: what the value
// is worth at the working precision. The value at the point itself is left out: a jump there is not rounding.
inline LD spread(std::vector<LD> v) {
  std::sort(v.begin(), v.end());
  size_t cut = v.size() / 4;
  return v.empty() ? 0 : v[v.size() - 1 - cut] - v[cut];
}
inline LD noise(const Point &o, const std::function<LD(const Point &)> &f, LD scale) {
  std::vector<LD> v;
  Rng r(12345);
  for (int k = 0; k < 9; k++) {
    Point c = o;
    jitter(r, c);
    LD b = f(c);
    if (b == b) v.push_back(b);
  }
  return spread(v) / scale;
}
// sets the momenta in the precision of the build
inline void setmom(Proc &x, const LD p[4][4]) {
  ldouble q[4][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) q[i][j] = p[i][j];
  x.momenta(q);
}
inline LD impl_amp2(const Point &c) {
  std::unique_ptr<Proc> x(c.I->make(c.P));
  setmom(*x, c.p);
  return x->amp2();
}
// squared amplitudes are of the order of the couplings to the fourth power; this far below, only rounding is left
inline LD nothing(const PL &P) { LD g = P.gs > P.e ? P.e : P.gs; return 1e-27L * g * g * g * g; }
enum Verdict { HELD, BROKEN, UNDECIDED };
// a: observed, f: reference in working precision, fq: reference in quadruple precision (called on demand),
// fi: observed value at another point (for the noise), floor: absolute scale below which relative errors mean nothing
inline Verdict judge(const Point &c, LD a, LD f, LD floor_, const std::function<LD()> &fq, const std::function<LD(const Point &)> &fi, LD tol,
                     LD &err) {
  floor_ = std::max(floor_, nothing(c.P));
  LD sc = std::max(fabsl(f), floor_);
  err = a == f ? 0 : fabsl(a - f) / sc;
  LD soft = c.p[0][0];  // a soft leg is known only to the absolute precision of the others
  for (auto &q : c.p) soft = std::min(soft, q[0]);
  const LD fine = tol <= 1e-9L ? 1e-3L * tol + 1e-18L * emax(c) / soft : tol;
  if (err <= fine) return HELD;
  LD g = fq ? fq() : f;
  sc = std::max(fabsl(g), floor_);
  err = fabsl(a - g) / sc;
  if (err <= fine) return HELD;
  if (err <= tol && fabsl(g) <= floor_) return HELD;
  LD nz = noise(c, fi, sc);
  if (nz != nz) nz = 0;
  if (err <= tol) return err <= fine + 1e5L * nz ? HELD : BROKEN;  // more digits are lost than the point explains
  if (err <= tol + 1e4L * nz) return UNDECIDED;
  return BROKEN;
}
}  // namespace smc
#endif
