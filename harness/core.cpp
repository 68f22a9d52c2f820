// Monitors for the library types (C01-C15), each against a small independent model.
#include "report.hpp"
#include "spinas.h"
#include <algorithm>
#include <array>
#include <complex>
#include <iostream>
#include <limits>
#include <locale>
#include <memory>
#include <sstream>
using namespace spinas;
typedef std::complex<LD> C;
static const C I_(0, 1);

// ------------------------------------------------------------------ model algebra
struct V2 { C a[2]; };
struct M2 { C a[2][2]; };
static C z(const cdouble &x) { return C(x.real(), x.imag()); }
static V2 vec(const cvector &v) { return V2{{z(v.get(0)), z(v.get(1))}}; }
static M2 mat(const cmatrix &m) { return M2{{{z(m.get(0, 0)), z(m.get(0, 1))}, {z(m.get(1, 0)), z(m.get(1, 1))}}}; }
static M2 mul(const M2 &x, const M2 &y) {
  M2 r;
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = x.a[i][0] * y.a[0][j] + x.a[i][1] * y.a[1][j];
  return r;
}
static M2 add(const M2 &x, const M2 &y, C s = 1) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = x.a[i][j] + s * y.a[i][j]; return r; }
static M2 scl(const M2 &x, C s) { M2 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.a[i][j] = s * x.a[i][j]; return r; }
static M2 tra(const M2 &x) { return M2{{{x.a[0][0], x.a[1][0]}, {x.a[0][1], x.a[1][1]}}}; }
static V2 mv(const M2 &m, const V2 &v) { return V2{{m.a[0][0] * v.a[0] + m.a[0][1] * v.a[1], m.a[1][0] * v.a[0] + m.a[1][1] * v.a[1]}}; }
static V2 vm(const V2 &v, const M2 &m) { return V2{{v.a[0] * m.a[0][0] + v.a[1] * m.a[1][0], v.a[0] * m.a[0][1] + v.a[1] * m.a[1][1]}}; }
static C vv(const V2 &a, const V2 &b) { return a.a[0] * b.a[0] + a.a[1] * b.a[1]; }
static V2 sv(C s, const V2 &v) { return V2{{s * v.a[0], s * v.a[1]}}; }
static V2 cj(const V2 &v) { return V2{{std::conj(v.a[0]), std::conj(v.a[1])}}; }
static V2 eps(const V2 &v) { return V2{{v.a[1], -v.a[0]}}; }
static M2 out(const V2 &a, const V2 &b) { return M2{{{a.a[0] * b.a[0], a.a[0] * b.a[1]}, {a.a[1] * b.a[0], a.a[1] * b.a[1]}}}; }
static const M2 ID = {{{1, 0}, {0, 1}}};
static M2 up(const LD p[4]) { return M2{{{p[0] - p[3], C(-p[1], p[2])}, {C(-p[1], -p[2]), p[0] + p[3]}}}; }
static M2 lo(const LD p[4]) { return M2{{{p[0] + p[3], C(p[1], -p[2])}, {C(p[1], p[2]), p[0] - p[3]}}}; }
static LD dist(const M2 &x, const M2 &y) { LD d = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { LD e = std::abs(x.a[i][j] - y.a[i][j]); if (!(e <= d)) d = e; } return d; }
static LD dist(const V2 &x, const V2 &y) { LD d = 0; for (int i = 0; i < 2; i++) { LD e = std::abs(x.a[i] - y.a[i]); if (!(e <= d)) d = e; } return d; }
static LD dist(C x, C y) { return std::abs(x - y); }
static LD nrm(const M2 &x) { return std::abs(x.a[0][0]) + std::abs(x.a[0][1]) + std::abs(x.a[1][0]) + std::abs(x.a[1][1]); }
static LD nrm(const V2 &x) { return std::abs(x.a[0]) + std::abs(x.a[1]); }
static LD mdot(const LD a[4], const LD b[4]) { return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]; }
static std::string ps(const LD p[4], LD m) { return fmt("m=%.18Lg p=(%.20Lg,%.20Lg,%.20Lg,%.20Lg)", m, p[0], p[1], p[2], p[3]); }
// How much rounding may be amplified for the momenta of the current case: half angles near the poles and the length of
// small momenta may be computed in different, equally valid ways. Multiplies every non-zero tolerance.
static LD KF = 1;
// a momentum, directions exactly on axes and planes included
struct Mom { LD p[4], m; int style; };
static void direction(Rng &r, LD n[3], int &style) {
  style = r.n(8);
  n[0] = n[1] = n[2] = 0;
  if (style < 2) n[r.n(3)] = r.n(2) ? 1 : -1;
  else if (style == 2) { int k = r.n(3); LD a = r.uni(0, 2 * M_PIl); n[(k + 1) % 3] = cosl(a); n[(k + 2) % 3] = sinl(a); }
  else if (style == 3 && r.n(3) == 0) {  // just off the x or y axis
    int k = r.n(2);
    n[k] = r.n(2) ? 1 : -1;
    n[1 - k] = r.uni(-1, 1) * r.logu(1e-15L, 1e-3L);
    n[2] = r.uni(-1, 1) * r.logu(1e-15L, 1e-3L);
    LD s = sqrtl(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    for (int i = 0; i < 3; i++) n[i] /= s;
  }
  else if (style == 3) { n[0] = r.uni(-1, 1) * 1e-7L; n[1] = r.uni(-1, 1) * 1e-7L; n[2] = r.n(2) ? 1 : -1; LD s = sqrtl(n[0] * n[0] + n[1] * n[1] + 1); for (int i = 0; i < 3; i++) n[i] /= s; }
  else { LD c = r.uni(-1, 1), s = sqrtl(1 - c * c), a = r.uni(0, 2 * M_PIl); n[0] = s * cosl(a); n[1] = s * sinl(a); n[2] = c; }
}
static Mom gen(Rng &r, int massive /*0 no 1 yes 2 any*/, LD pmin = 1e-3L, LD pmax = 3000, LD mmin = 1e-4L, LD mmax = 1000) {
  Mom k;
  LD n[3];
  direction(r, n, k.style);
  LD pm = r.n(3) ? r.uni(pmin, std::min(pmax, (LD)50)) : r.logu(pmin, pmax);
  bool ms = massive == 2 ? r.n(2) : massive;
  k.m = ms ? (r.n(3) ? r.uni(std::max(mmin, (LD).1L), std::min(mmax, (LD)50)) : r.logu(mmin, mmax)) : 0;
  bool round = r.n(10) == 0;  // small whole numbers
  if (ms && (round || r.n(10) == 0)) k.m = 1 + r.n(4);
  if (ms && r.n(8) == 0) { pm = 0; k.style = 9; }
  else if (round) { do for (int i = 0; i < 3; i++) n[i] = r.n(9) - 4; while (n[0] == 0 && n[1] == 0 && n[2] == 0); pm = 1; k.style = 8; }
  for (int i = 0; i < 3; i++) k.p[i + 1] = pm * n[i] + (LD)0;  // no negative zeros: at rest they would pick the spin axis
  kin::onshell(k.p, k.m);
  LD pt = sqrtl(k.p[1] * k.p[1] + k.p[2] * k.p[2]), pp = sqrtl(pt * pt + k.p[3] * k.p[3]), kf = 3;
  if (pt > 0 && pt < .1L * pp) kf += 4 * pp / pt;
  if (pp > 0 && pp < .1L * k.p[0]) kf += k.p[0] / pp;
  KF = std::max(KF, std::min(kf, (LD)1e8L));
  return k;
}
static uint64_t hm(const Mom &k) { uint64_t h = hstr(fmt("%.12Lg", k.m)); for (LD x : k.p) h = mix(h, (uint64_t)(int64_t)(x * 1e9L)); return h; }

static Report *RP;
static const char *WHAT;
#define NEAR(x, y, tol, what, ctx)                                                                                   \
  do {                                                                                                               \
    RP->eval();                                                                                                      \
    LD d_ = dist(x, y), t_ = KF * (tol);                                                                             \
    if (!(d_ <= t_)) RP->bad(std::string(WHAT) + ":" + (what), fmt("%s: off by %.3Le, allowed %.3Le, at ", std::string(what).c_str(), d_, t_) + (ctx)); \
  } while (0)
#define TRUE(cond, what, ctx)                                                              \
  do {                                                                                     \
    RP->eval();                                                                            \
    if (!(cond)) RP->bad(std::string(WHAT) + ":" + (what), std::string(what) + " at " + (ctx)); \
  } while (0)

// ------------------------------------------------------------------ C01
static void c01(Rng &r) {
  Mom a = gen(r, 2), b = gen(r, 2);
  RP->stat(fmt("direction style %d", a.style));
  RP->nontrivial(hm(a));
  particle A(a.p, a.m), B;
  B.set_mass(b.m);
  B.set_momentum(b.p);
  std::string cx = ps(a.p, a.m);
  RP->sample(fmt("%d%d", a.style, a.m > 0), cx);
  LD E = a.p[0], F = b.p[0];
  NEAR(mat(A.umat()), up(a.p), 2e-18L * E, "upper matrix", cx);
  NEAR(mat(A.lmat()), lo(a.p), 2e-18L * E, "lower matrix", cx);
  NEAR(mat(cmatrix(a.p, true)), up(a.p), 0, "upper matrix from components", cx);
  NEAR(mat(cmatrix(a.p, false)), lo(a.p), 0, "lower matrix from components", cx);
  NEAR(mul(mat(A.umat()), mat(A.lmat())), scl(ID, a.m * a.m), 2e-17L * E * E, "upper times lower", cx);
  NEAR(mul(mat(A.lmat()), mat(A.umat())), scl(ID, a.m * a.m), 2e-17L * E * E, "lower times upper", cx);
  NEAR(C(A.umat().get_det()), C(a.m * a.m), 2e-17L * E * E, "determinant of the upper matrix", cx);
  NEAR(C(det(A.lmat())), C(a.m * a.m), 2e-17L * E * E, "determinant of the lower matrix", cx);
  M2 t = mul(mat(A.umat()), mat(B.lmat()));
  NEAR(t.a[0][0] + t.a[1][1], C(2 * mdot(a.p, b.p)), 4e-17L * E * F, "trace", cx + " and " + ps(b.p, b.m));
  NEAR(C(A.dot(B)), C(mdot(a.p, b.p)), 1e-17L * E * F, "four-product", cx + " and " + ps(b.p, b.m));
  NEAR(C(B.dot(A)), C(mdot(a.p, b.p)), 1e-17L * E * F, "four-product reversed", cx + " and " + ps(b.p, b.m));
  NEAR(C(A.dot(A)), C(a.m * a.m), 1e-17L * E * E, "squared mass", cx);
  for (int i = 0; i < 4; i++) { NEAR(C(A.get_momentum(i)), C(a.p[i]), 0, "stored component", cx); NEAR(C(B.get_momentum(i)), C(b.p[i]), 0, "set component", ps(b.p, b.m)); }
  NEAR(C(A.mass()), C(a.m), 0, "mass", cx);
  NEAR(C(B.get_mass()), C(b.m), 0, "set mass", ps(b.p, b.m));
  if (E < 30 && a.style != 3) TRUE(A.test_angles(), "own angle check", cx);
}
// ------------------------------------------------------------------ C02
static void c02(Rng &r) {
  Mom a = gen(r, 0), b = gen(r, 0);
  if (r.n(6) == 0) for (int i = 1; i < 4; i++) { b.p[i] = a.p[i] * (1 + r.uni(-1, 1) * 1e-4L); }  // nearly collinear
  if (r.n(6) == 0) for (int i = 1; i < 4; i++) b.p[i] = -a.p[i] * .5L;                             // back to back
  kin::onshell(b.p, 0);
  RP->stat(fmt("direction style %d", a.style));
  RP->nontrivial(mix(hm(a), hm(b)));
  particle A(a.p, 0), B(b.p, 0);
  std::string cx = ps(a.p, 0), cy = cx + " and " + ps(b.p, 0);
  RP->sample(fmt("%d", a.style), cy);
  LD E = a.p[0], s = sqrtl(E), S = sqrtl(E * b.p[0]);
  V2 ra = vec(A.rangle()), la = vec(A.langle()), rs = vec(A.rsquare()), ls = vec(A.lsquare());
  V2 zero = {{0, 0}};
  NEAR(mv(up(a.p), ra), zero, 2e-17L * E * s, "Weyl equation |p>", cx);
  NEAR(mv(lo(a.p), rs), zero, 2e-17L * E * s, "Weyl equation |p]", cx);
  NEAR(vm(la, lo(a.p)), zero, 2e-17L * E * s, "Weyl equation <p|", cx);
  NEAR(vm(ls, up(a.p)), zero, 2e-17L * E * s, "Weyl equation [p|", cx);
  NEAR(out(ra, ls), lo(a.p), 1e-17L * E, "outer product |p>[p|", cx);
  NEAR(out(rs, la), up(a.p), 1e-17L * E, "outer product |p]<p|", cx);
  NEAR(mat(outer(A.rangle(), A.lsquare())), mat(A.lmat()), 1e-17L * E, "library outer product", cx);
  NEAR(la, eps(ra), 1e-17L * s, "left and right angle", cx);
  NEAR(rs, eps(ls), 1e-17L * s, "left and right square", cx);
  NEAR(ls, cj(ra), 1e-17L * s, "conjugate of |p>", cx);
  NEAR(rs, cj(la), 1e-17L * s, "conjugate of <p|", cx);
  C ab = z(A.langle() * B.rangle()), ba = z(B.langle() * A.rangle()), sab = z(A.lsquare() * B.rsquare()), sba = z(B.lsquare() * A.rsquare());
  NEAR(ab, -ba, 1e-17L * S, "antisymmetry of <pq>", cy);
  NEAR(sab, -sba, 1e-17L * S, "antisymmetry of [pq]", cy);
  NEAR(ab * sba, C(2 * mdot(a.p, b.p)), 5e-17L * S * S, "<pq>[qp]", cy);
  NEAR(sba, std::conj(ab), 1e-17L * S, "conjugation of <pq>", cy);
  NEAR(C(std::norm(ab)), C(2 * mdot(a.p, b.p)), 5e-17L * S * S, "|<pq>|^2", cy);
}
// ------------------------------------------------------------------ C03
struct SpinSet { V2 r[2][2], l[2][2], ls[2][2], rs[2][2]; };  // [upper][spin>0]
static SpinSet spinset(particle &A) {
  SpinSet q;
  for (int u = 0; u < 2; u++)
    for (int k = 0; k < 2; k++) {
      int s = k ? 1 : -1;
      bool U = u;
      q.r[u][k] = vec(A.rangle(s, U)); q.l[u][k] = vec(A.langle(s, U)); q.ls[u][k] = vec(A.lsquare(s, U)); q.rs[u][k] = vec(A.rsquare(s, U));
    }
  return q;
}
static void c03(Rng &r) {
  Mom a = gen(r, 1, 1e-3L, 3000, r.n(3) ? 1e-4L : 1e-8L);
  RP->stat(fmt("direction style %d", a.style));
  RP->nontrivial(hm(a));
  particle A(a.p, a.m);
  std::string cx = ps(a.p, a.m);
  RP->sample(fmt("%d", a.style), cx);
  LD E = a.p[0], s = sqrtl(E), m = a.m;
  LD pm = sqrtl(a.p[1] * a.p[1] + a.p[2] * a.p[2] + a.p[3] * a.p[3]);
  SpinSet q = spinset(A);
  LD t1 = 2e-17L * s, t2 = 2e-17L * E, t3 = 4e-17L * E * s;
  M2 U = up(a.p), L = lo(a.p);
  for (int k = 0; k < 2; k++) {
    int sp = k ? 1 : -1;
    NEAR(vec(A.rangle(sp)), q.r[1][k], t1, "default index |p>", cx);
    NEAR(vec(A.langle(sp)), q.l[1][k], t1, "default index <p|", cx);
    NEAR(vec(A.lsquare(sp)), q.ls[1][k], t1, "default index [p|", cx);
    NEAR(vec(A.rsquare(sp)), q.rs[1][k], t1, "default index |p]", cx);
    for (int u = 0; u < 2; u++) {
      const char *w = u ? "upper" : "lower";
      NEAR(mv(U, q.r[u][k]), sv(-m, q.rs[u][k]), t3, fmt("Dirac equation |p> %s", w), cx);
      NEAR(mv(L, q.rs[u][k]), sv(-m, q.r[u][k]), t3, fmt("Dirac equation |p] %s", w), cx);
      NEAR(vm(q.l[u][k], L), sv(m, q.ls[u][k]), t3, fmt("Dirac equation <p| %s", w), cx);
      NEAR(vm(q.ls[u][k], U), sv(m, q.l[u][k]), t3, fmt("Dirac equation [p| %s", w), cx);
      NEAR(q.l[u][k], eps(q.r[u][k]), t1, fmt("left and right angle %s", w), cx);
      NEAR(q.rs[u][k], eps(q.ls[u][k]), t1, fmt("left and right square %s", w), cx);
    }
    // lowering: X_- = X^+, X_+ = -X^-
    LD sg = k ? -1 : 1;
    NEAR(q.r[0][k], sv(sg, q.r[1][1 - k]), t1, "lowered index |p>", cx);
    NEAR(q.l[0][k], sv(sg, q.l[1][1 - k]), t1, "lowered index <p|", cx);
    NEAR(q.ls[0][k], sv(sg, q.ls[1][1 - k]), t1, "lowered index [p|", cx);
    NEAR(q.rs[0][k], sv(sg, q.rs[1][1 - k]), t1, "lowered index |p]", cx);
    // the two chiralities of opposite spin are conjugates of each other
    NEAR(q.ls[1][k], sv(k ? 1 : -1, cj(q.r[1][1 - k])), t1, "conjugate spinor", cx);
    // helicity: (n.sigma)|p>^I = -+ |p>^I along the momentum, or along z at rest
    LD n[4] = {0, 0, 0, 1};
    if (pm > 0) for (int i = 1; i < 4; i++) n[i] = a.p[i] / pm;
    NEAR(mv(lo(n), q.r[1][k]), sv(k ? -1 : 1, q.r[1][k]), t1, "helicity of |p>", cx);
    NEAR(mv(up(n), q.rs[1][k]), sv(k ? 1 : -1, q.rs[1][k]), t1, "helicity of |p]", cx);
    NEAR(C(nrm(q.r[1][k]) > 0), C(1), 0, "spinor does not vanish", cx);
    // exact size: |p>^- has norm E+p, |p>^+ has norm m^2/(E+p)
    LD N2 = std::norm(q.r[1][k].a[0]) + std::norm(q.r[1][k].a[1]), want = k ? m * m / (E + pm) : E + pm;
    NEAR(C(N2), C(want), 1e-15L * want, "norm of |p>", cx);
    LD M2_ = std::norm(q.ls[1][k].a[0]) + std::norm(q.ls[1][k].a[1]), wan2 = k ? E + pm : m * m / (E + pm);
    NEAR(C(M2_), C(wan2), 1e-15L * wan2, "norm of [p|", cx);
  }
  auto ssum = [&](const V2 x[2], const V2 y[2]) { return add(out(x[0], y[0]), out(x[1], y[1])); };
  NEAR(ssum(q.r[1], q.ls[0]), L, t2, "spin sum |p>[p|", cx);
  NEAR(ssum(q.rs[1], q.l[0]), scl(U, -1), t2, "spin sum |p]<p|", cx);
  NEAR(ssum(q.r[0], q.ls[1]), scl(L, -1), t2, "lower spin sum |p>[p|", cx);
  NEAR(ssum(q.rs[0], q.l[1]), U, t2, "lower spin sum |p]<p|", cx);
  LD tm = 2e-17L * E;
  NEAR(ssum(q.r[1], q.l[0]), scl(ID, m), tm, "spin sum |p><p|", cx);
  NEAR(ssum(q.rs[1], q.ls[0]), scl(ID, -m), tm, "spin sum |p][p|", cx);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) {
      NEAR(vv(q.l[1][i], q.r[1][j]), C(i == j ? 0 : i ? m : -m), tm, "<p^I p^J>", cx);
      NEAR(vv(q.ls[1][i], q.rs[1][j]), C(i == j ? 0 : i ? -m : m), tm, "[p^I p^J]", cx);
    }
  for (int u = 0; u < 2; u++) {
    bool b = u;
    auto cols = [&](const V2 x[2]) { return M2{{{x[0].a[0], x[1].a[0]}, {x[0].a[1], x[1].a[1]}}}; };
    NEAR(mat(A.rangle_matrix(b)), cols(q.r[u]), t1, "matrix form |p>", cx);
    NEAR(mat(A.langle_matrix(b)), cols(q.l[u]), t1, "matrix form <p|", cx);
    NEAR(mat(A.lsquare_matrix(b)), cols(q.ls[u]), t1, "matrix form [p|", cx);
    NEAR(mat(A.rsquare_matrix(b)), cols(q.rs[u]), t1, "matrix form |p]", cx);
    if (u) {
      NEAR(mat(A.rangle_matrix()), cols(q.r[u]), t1, "default matrix form |p>", cx);
      NEAR(mat(A.langle_matrix()), cols(q.l[u]), t1, "default matrix form <p|", cx);
      NEAR(mat(A.lsquare_matrix()), cols(q.ls[u]), t1, "default matrix form [p|", cx);
      NEAR(mat(A.rsquare_matrix()), cols(q.rs[u]), t1, "default matrix form |p]", cx);
    }
  }
  // massless limit: same three-momentum, tiny mass
  if (pm > 0) {
    LD p0[4] = {0, a.p[1], a.p[2], a.p[3]}, p1[4] = {0, a.p[1], a.p[2], a.p[3]}, tiny = 1e-6L * std::min(pm, (LD)1);
    kin::onshell(p0, 0); kin::onshell(p1, tiny);
    particle Z(p0, 0), T(p1, tiny);
    LD t = 1e-11L * sqrtl(pm);
    NEAR(vec(T.rangle(-1)), vec(Z.rangle()), t, "massless limit |p>", cx);
    NEAR(vec(T.langle(-1)), vec(Z.langle()), t, "massless limit <p|", cx);
    NEAR(vec(T.lsquare(1)), vec(Z.lsquare()), t, "massless limit [p|", cx);
    NEAR(vec(T.rsquare(1)), vec(Z.rsquare()), t, "massless limit |p]", cx);
  }
}
// ------------------------------------------------------------------ C04
static void c04(Rng &r) {
  bool massive = r.n(4);
  Mom a = gen(r, massive, .1L, 300, .3L, 300);
  RP->stat(fmt("direction style %d", a.style));
  RP->nontrivial(hm(a));
  particle P(a.p, a.m);
  std::string cx = ps(a.p, a.m);
  RP->sample(fmt("%d%d", a.style, massive), cx);
  M2 L[4][3] = {{mat(P.lorentz_j3_lu()), mat(P.lorentz_jp_lu()), mat(P.lorentz_jm_lu())}, {mat(P.lorentz_j3_ul()), mat(P.lorentz_jp_ul()), mat(P.lorentz_jm_ul())},
                {mat(P.lorentz_j3_lu_dot()), mat(P.lorentz_jp_lu_dot()), mat(P.lorentz_jm_lu_dot())}, {mat(P.lorentz_j3_ul_dot()), mat(P.lorentz_jp_ul_dot()), mat(P.lorentz_jm_ul_dot())}};
  M2 S[2][3] = {{mat(P.spin_j3_lu()), mat(P.spin_jp_lu()), mat(P.spin_jm_lu())}, {mat(P.spin_j3_ul()), mat(P.spin_jp_ul()), mat(P.spin_jm_ul())}};
  auto com = [](const M2 &x, const M2 &y) { return add(mul(x, y), mul(y, x), -1); };
  for (int s = 0; s < 2; s++) {
    NEAR(com(S[s][1], S[s][2]), scl(S[s][0], 2), 1e-17L, "spin algebra [J+,J-]", cx);
    NEAR(com(S[s][0], S[s][1]), S[s][1], 1e-17L, "spin algebra [J3,J+]", cx);
    NEAR(com(S[s][0], S[s][2]), scl(S[s][2], -1), 1e-17L, "spin algebra [J3,J-]", cx);
    NEAR(add(mul(S[s][0], S[s][0]), scl(add(mul(S[s][1], S[s][2]), mul(S[s][2], S[s][1])), .5L)), scl(ID, .75L), 1e-17L, "total spin", cx);
  }
  static const char *LN[4] = {"undotted lower-upper", "undotted upper-lower", "dotted lower-upper", "dotted upper-lower"}, *JN[3] = {"J3", "J+", "J-"};
  if (massive) {
    LD g = a.p[0] / a.m, rt = 1e-17L * g * g * 100;
    for (int l = 0; l < 4; l++) {
      NEAR(com(L[l][1], L[l][2]), scl(L[l][0], 2), rt, fmt("%s algebra [J+,J-]", LN[l]), cx);
      NEAR(com(L[l][0], L[l][1]), L[l][1], rt * (1 + nrm(L[l][1])), fmt("%s algebra [J3,J+]", LN[l]), cx);
      NEAR(com(L[l][0], L[l][2]), scl(L[l][2], -1), rt * (1 + nrm(L[l][2])), fmt("%s algebra [J3,J-]", LN[l]), cx);
    }
    for (int u = 0; u < 2; u++) {
      bool b = u;
      // right angle with lower-upper, left angle with upper-lower, left square and right square dotted
      M2 X[4] = {mat(P.rangle_matrix(b)), mat(P.langle_matrix(b)), mat(P.lsquare_matrix(b)), mat(P.rsquare_matrix(b))};
      for (int l = 0; l < 4; l++)
        for (int k = 0; k < 3; k++) {
          M2 lhs = mul(L[l][k], X[l]);
          LD t = rt * (nrm(L[l][k]) * nrm(X[l]) + nrm(X[l]));
          if (u) {
            NEAR(lhs, mul(X[l], S[0][k]), t, fmt("%s %s on an upper spinor", LN[l], JN[k]), cx);
            NEAR(lhs, scl(mul(X[l], tra(S[1][k])), -1), t, fmt("%s %s on an upper spinor, transposed", LN[l], JN[k]), cx);
          } else {
            NEAR(lhs, mul(X[l], S[1][k]), t, fmt("%s %s on a lower spinor", LN[l], JN[k]), cx);
            NEAR(lhs, scl(mul(X[l], tra(S[0][k])), -1), t, fmt("%s %s on a lower spinor, transposed", LN[l], JN[k]), cx);
          }
        }
    }
  } else {
    V2 X[4] = {vec(P.rangle()), vec(P.langle()), vec(P.lsquare()), vec(P.rsquare())};
    for (int l = 0; l < 4; l++) {
      LD t = 1e-16L * nrm(X[l]);
      NEAR(mv(L[l][0], X[l]), sv(l < 2 ? -.5L : .5L, X[l]), t, fmt("%s helicity", LN[l]), cx);
      NEAR(mv(L[l][1], X[l]), (V2{{0, 0}}), t, fmt("%s J+ on a helicity spinor", LN[l]), cx);
      NEAR(mv(L[l][2], X[l]), (V2{{0, 0}}), t, fmt("%s J- on a helicity spinor", LN[l]), cx);
      NEAR(com(L[l][0], L[l][1]), L[l][1], 1e-17L, fmt("%s algebra [J3,J+]", LN[l]), cx);
      NEAR(com(L[l][0], L[l][2]), scl(L[l][2], -1), 1e-17L, fmt("%s algebra [J3,J-]", LN[l]), cx);
    }
  }
}
// ------------------------------------------------------------------ C05
// All constructor forms: flags 0 none, 1 left, 2 right, 3 both
template <class... A> static sproduct *mk(int form, bool as, particle *l, bool lu, particle *rr, bool ru, A... in) {
  if (form == 0) return new sproduct(as, l, in..., rr);
  if (form == 1) return new sproduct(as, l, lu, in..., rr);
  if (form == 2) return new sproduct(as, l, in..., rr, ru);
  return new sproduct(as, l, lu, in..., rr, ru);
}
static sproduct *make(int N, int form, bool as, particle *l, bool lu, particle *rr, bool ru, particle **q) {
  switch (N) {
    case 0: return mk(form, as, l, lu, rr, ru);
    case 1: return mk(form, as, l, lu, rr, ru, q[0]);
    case 2: return mk(form, as, l, lu, rr, ru, q[0], q[1]);
    case 3: return mk(form, as, l, lu, rr, ru, q[0], q[1], q[2]);
    case 4: return mk(form, as, l, lu, rr, ru, q[0], q[1], q[2], q[3]);
    case 5: return mk(form, as, l, lu, rr, ru, q[0], q[1], q[2], q[3], q[4]);
    default: return mk(form, as, l, lu, rr, ru, q[0], q[1], q[2], q[3], q[4], q[5]);
  }
}
static V2 endL(const Mom &k, bool angle, int spin, bool u) {
  particle P(k.p, k.m);
  if (k.m == 0) return vec(angle ? P.langle() : P.lsquare());
  return vec(angle ? P.langle(spin, u) : P.lsquare(spin, u));
}
static V2 endR(const Mom &k, bool angle, int spin, bool u) {
  particle P(k.p, k.m);
  if (k.m == 0) return vec(angle ? P.rangle() : P.rsquare());
  return vec(angle ? P.rangle(spin, u) : P.rsquare(spin, u));
}
static C chain(bool as, const Mom &l, int sl, bool lu, const std::vector<Mom> &q, const Mom &rr, int sr, bool ru) {
  V2 v = endL(l, as, sl, lu);
  bool ang = as;
  for (auto &k : q) { v = vm(v, ang ? lo(k.p) : up(k.p)); ang = !ang; }
  return vv(v, endR(rr, ang, sr, ru));
}
static C value(sproduct &s, const Mom &l, int sl, const Mom &rr, int sr) {
  if (l.m == 0 && rr.m == 0) return z(s.v());
  if (l.m == 0) return z(s.v(sr));
  if (rr.m == 0) return z(s.v(sl));
  return z(s.v(sl, sr));
}
static void c05(Rng &r) {
  int N = r.n(7), form = r.n(4);
  bool as = r.n(2);
  std::vector<Mom> ks;
  std::vector<std::unique_ptr<particle>> parts;
  int np = 2 + r.n(5);
  LD scale = 1;
  for (int i = 0; i < np; i++) { ks.push_back(gen(r, 2, .01L, 300, .01L, 300)); parts.emplace_back(new particle(ks[i].p, ks[i].m)); }
  int il = r.n(np), ir = r.n(np);
  std::vector<Mom> q;
  std::vector<particle *> qp;
  std::string cx = fmt("%s chain with %d inner momenta, constructor form %d, left ", as ? "angle" : "square", N, form) + ps(ks[il].p, ks[il].m) + " right " + ps(ks[ir].p, ks[ir].m);
  for (int i = 0; i < N; i++) { int k = r.n(np); q.push_back(ks[k]); qp.push_back(parts[k].get()); scale *= 2 * ks[k].p[0]; cx += " inner " + ps(ks[k].p, ks[k].m); }
  scale *= 2 * sqrtl(ks[il].p[0] * ks[ir].p[0]);
  bool lu = (form & 1) ? (ks[il].m == 0 ? true : r.n(2)) : true, ru = (form & 2) ? (ks[ir].m == 0 ? true : r.n(2)) : true;
  std::unique_ptr<sproduct> s(make(N, form, as, parts[il].get(), lu, parts[ir].get(), ru, qp.data()));
  RP->stat(fmt("inner momenta %d", N)); RP->stat(fmt("constructor form %d", form));
  RP->nontrivial(hstr(cx));
  RP->sample(fmt("%d", N), cx);
  // the reversed chain starts with the bracket type the chain ends with
  bool as2 = (N % 2) ? !as : as;
  std::vector<particle *> qr(qp.rbegin(), qp.rend());
  std::unique_ptr<sproduct> rev(make(N, 3, as2, parts[ir].get(), ru, parts[il].get(), lu, qr.data()));
  LD sign = (N % 2) ? 1 : -1;
  std::vector<std::pair<int, int>> spins;
  for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2) spins.push_back({a, b});
  for (size_t k = spins.size(); k > 1; k--) std::swap(spins[k - 1], spins[r.n(k)]);
  for (int pass = 0; pass < 2; pass++)
    for (auto &sp : spins) {
      std::string w = fmt("N=%d", N);
      C got = value(*s, ks[il], sp.first, ks[ir], sp.second), want = chain(as, ks[il], sp.first, lu, q, ks[ir], sp.second, ru);
      NEAR(got, want, 1e-16L * scale, "chain " + w, fmt("spins %d %d ", sp.first, sp.second) + cx);
      C back = value(*rev, ks[ir], sp.second, ks[il], sp.first);
      NEAR(got, sign * back, 1e-16L * scale, "reversed chain " + w, fmt("spins %d %d ", sp.first, sp.second) + cx);
    }
}
// ------------------------------------------------------------------ C06
static std::vector<C> observe(particle &P, Rng *order) {
  std::vector<std::function<std::vector<C>()>> f;
  auto V = [](const cvector &v) { return std::vector<C>{z(v.get(0)), z(v.get(1))}; };
  auto M = [](const cmatrix &m) { return std::vector<C>{z(m.get(0, 0)), z(m.get(0, 1)), z(m.get(1, 0)), z(m.get(1, 1))}; };
  for (int i = 0; i < 4; i++) f.push_back([&, i] { return std::vector<C>{C(P.get_momentum(i))}; });
  f.push_back([&] { return std::vector<C>{C(P.mass())}; });
  f.push_back([&] { return M(P.umat()); });
  f.push_back([&] { return M(P.lmat()); });
  f.push_back([&] { return M(P.lorentz_j3_lu()); });
  f.push_back([&] { return M(P.lorentz_jp_lu()); });
  f.push_back([&] { return M(P.spin_jp_ul()); });
  f.push_back([&] { return std::vector<C>{C(P.dot(P))}; });
  if (P.mass() == 0) {
    f.push_back([&] { return V(P.rangle()); });
    f.push_back([&] { return V(P.langle()); });
    f.push_back([&] { return V(P.rsquare()); });
    f.push_back([&] { return V(P.lsquare()); });
  } else
    for (int s = -1; s <= 1; s += 2)
      for (int u = 0; u < 2; u++) {
        bool b = u;
        f.push_back([&, s, b] { return V(P.rangle(s, b)); });
        f.push_back([&, s, b] { return V(P.langle(s, b)); });
        f.push_back([&, s, b] { return V(P.rsquare(s, b)); });
        f.push_back([&, s, b] { return V(P.lsquare(s, b)); });
        if (s > 0) { f.push_back([&, b] { return M(P.rangle_matrix(b)); }); f.push_back([&, b] { return M(P.langle_matrix(b)); }); f.push_back([&, b] { return M(P.rsquare_matrix(b)); }); f.push_back([&, b] { return M(P.lsquare_matrix(b)); }); }
      }
  std::vector<int> idx(f.size());
  for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
  if (order) for (size_t k = idx.size(); k > 1; k--) std::swap(idx[k - 1], idx[order->n(k)]);
  std::vector<std::vector<C>> o(f.size());
  for (int i : idx) o[i] = f[i]();
  std::vector<C> flat;
  for (auto &x : o) for (auto &y : x) flat.push_back(y);
  return flat;
}
static void peek(particle &P, Rng &r) {  // a few reads, to fill some caches
  for (int k = r.n(6); k > 0; k--) {
    int w = r.n(10), s = r.n(2) ? 1 : -1;
    bool u = r.n(2);
    if (w == 0) P.umat();
    else if (w == 1) P.lmat();
    else if (P.mass() == 0) { if (w < 4) P.rangle(); else if (w < 6) P.langle(); else if (w < 8) P.lsquare(); else P.rsquare(); }
    else { if (w < 4) P.rangle(s, u); else if (w < 6) P.langle(s, u); else if (w < 8) P.lsquare(s, u); else P.rsquare(s, u); }
  }
}
// a momentum that shares something with the last one
static Mom near_by(Rng &r, const Mom &k) {
  Mom m = k;
  int w = r.n(6), j = 1 + r.n(3);
  if (w == 0) m.p[j] *= 1 + r.logu(1e-12L, 1e-3L);
  else if (w == 1) m.p[j] = -m.p[j];
  else if (w == 2) std::swap(m.p[j], m.p[1 + j % 3]);
  else if (w == 3) m.p[j] += r.uni(-1, 1) * (1 + m.p[0]);
  else if (w == 4) for (int i = 1; i < 4; i++) m.p[i] *= 1 + r.logu(1e-12L, 1e-3L);
  else for (int i = 1; i < 4; i++) m.p[i] = -m.p[i];
  return m;
}
static void cmpP(particle &P, const Mom &k, Rng &r, const std::string &log, const char *what) {
  particle F(k.p, k.m);
  auto a = observe(P, &r), b = observe(F, 0);
  LD t = 1e-15L * (1 + k.p[0]);
  LD worst = 0;
  for (size_t i = 0; i < a.size() && i < b.size(); i++) { LD e = std::abs(a[i] - b[i]); if (!(e <= worst)) worst = e; }
  TRUE(a.size() == b.size(), what, log);
  NEAR(C(worst), C(0), t, what, log + " expected " + ps(k.p, k.m));
}
static void c06(Rng &r) {
  int np = 2 + r.n(3);
  std::vector<std::unique_ptr<particle>> P;
  std::vector<Mom> k;
  std::string log;
  for (int i = 0; i < np; i++) {
    Mom m = gen(r, 2, .01L, 100, .05L, 100);
    int how = r.n(4);
    if (how == 0) P.emplace_back(new particle(m.p, m.m));
    else if (how == 1) { P.emplace_back(new particle(m.m)); LD q[4] = {m.m, 0, 0, 0}; for (int j = 0; j < 4; j++) m.p[j] = q[j]; }
    else if (how == 2) { P.emplace_back(new particle()); P[i]->set_mass(m.m); P[i]->set_momentum(m.p); }
    else { P.emplace_back(new particle(m.m)); if (r.n(2)) peek(*P[i], r); P[i]->set_momentum(m.p); }
    k.push_back(m);
    log += fmt(" new(%d)", how);
    if (how == 1) { cmpP(*P[i], k[i], r, log, "particle built without momentum"); }
  }
  if (r.n(10) == 0) {
    particle D;
    Mom zero; zero.m = 0; for (auto &x : zero.p) x = 0;
    RP->eval();
    for (int i = 0; i < 4; i++) TRUE(D.get_momentum(i) == 0, "default particle momentum", log);
    TRUE(D.mass() == 0, "default particle mass", log);
    cmpP(D, zero, r, log, "default particle");
  }
  // products over these particles
  struct Pr { std::unique_ptr<sproduct> s; bool as, lu, ru; int l, rr, N; std::vector<int> q; };
  std::vector<Pr> pr;
  auto newprod = [&]() {
    Pr x;
    x.as = r.n(2); x.l = r.n(np); x.rr = r.n(np); x.N = r.n(4);
    x.lu = k[x.l].m == 0 || r.n(2); x.ru = k[x.rr].m == 0 || r.n(2);
    std::vector<particle *> q;
    for (int i = 0; i < x.N; i++) { x.q.push_back(r.n(np)); q.push_back(P[x.q[i]].get()); }
    x.s.reset(make(x.N, 3, x.as, P[x.l].get(), x.lu, P[x.rr].get(), x.ru, q.data()));
    pr.push_back(std::move(x));
  };
  for (int i = 0; i < 2; i++) newprod();
  auto cmpS = [&](Pr &x, const char *what) {
    std::vector<std::unique_ptr<particle>> F;
    for (auto &m : k) F.emplace_back(new particle(m.p, m.m));
    std::vector<particle *> q;
    LD sc = 2 * sqrtl((1 + k[x.l].p[0]) * (1 + k[x.rr].p[0]));
    for (int i : x.q) { q.push_back(F[i].get()); sc *= 2 * (1 + k[i].p[0]); }
    std::unique_ptr<sproduct> f(make(x.N, 3, x.as, F[x.l].get(), x.lu, F[x.rr].get(), x.ru, q.data()));
    for (int n = 0; n < 4; n++) {
      int a = r.n(2) ? 1 : -1, b = r.n(2) ? 1 : -1;
      NEAR(value(*x.s, k[x.l], a, k[x.rr], b), value(*f, k[x.l], a, k[x.rr], b), 1e-16L * sc, what, fmt("spins %d %d after", a, b) + log);
    }
  };
  int nops = 6 + r.n(14);
  for (int n = 0; n < nops; n++) {
    int i = r.n(np), op = r.n(11);
    if (op <= 1) {  // new momentum, same mass
      Mom m = gen(r, k[i].m > 0, .01L, 100);
      m.m = k[i].m;
      if (r.n(3) == 0) m = near_by(r, k[i]);
      kin::onshell(m.p, m.m);
      P[i]->set_momentum(m.p);
      k[i] = m;
      log += fmt(" momentum(%d)", i);
    } else if (op == 2) {  // new mass and momentum; an end with a lower index must stay massive
      bool low = false;
      for (auto &x : pr) low |= (x.l == i && !x.lu) || (x.rr == i && !x.ru);
      Mom m = gen(r, low ? 1 : 2, .01L, 100, .05L, 100);
      if (r.n(3) == 0 && k[i].m > 0) { m = k[i]; m.m *= 1 + (r.n(2) ? 1 : -1) * r.logu(1e-12L, 1e-3L); kin::onshell(m.p, m.m); }
      P[i]->set_mass(m.m);
      if (r.n(3) == 0) {  // a rejected attempt in between
        LD q[4] = {m.p[0] + 1 + r.u(), m.p[1], m.p[2], m.p[3]};
        try { P[i]->set_momentum(q); TRUE(false, "off-shell momentum accepted", log); } catch (const std::runtime_error &) {}
      }
      P[i]->set_momentum(m.p);
      k[i] = m;
      log += fmt(" mass+momentum(%d)", i);
    } else if (op == 3) {
      LD q[4] = {k[i].p[0], k[i].p[1], k[i].p[2], k[i].p[3]};
      q[r.n(4)] += r.uni(.5L, 3) * (1 + k[i].p[0]);
      try { P[i]->set_momentum(q); TRUE(false, "off-shell momentum accepted", log); } catch (const std::runtime_error &) { RP->stat("rejected momenta"); }
      log += fmt(" rejected(%d)", i);
      cmpP(*P[i], k[i], r, log, "particle after a rejected momentum");
    } else if (op == 4) { peek(*P[i], r); log += fmt(" read(%d)", i); }
    else if (op == 5) { P[i]->update(); log += fmt(" update(%d)", i); }
    else if (op == 6) { cmpP(*P[i], k[i], r, log, "particle after a history"); }
    else if (op == 7) { Pr &x = pr[r.n(pr.size())]; x.s->update(); log += " product update"; cmpS(x, "product after a history"); }
    else if (op == 8) { if (pr.size() == 4) pr.erase(pr.begin()); newprod(); log += " new product"; cmpS(pr.back(), "new product"); }
    else if (op == 9) {  // a copy lives on its own
      particle cp(*P[i]), as2;
      as2 = *P[i];
      Mom m = gen(r, k[i].m > 0, .01L, 100);
      m.m = k[i].m;
      kin::onshell(m.p, m.m);
      bool orig = r.n(2);
      (orig ? *P[i] : cp).set_momentum(m.p);
      log += fmt(" copied(%d)", i);
      cmpP(cp, orig ? k[i] : m, r, log, "copied particle");
      cmpP(as2, k[i], r, log, "assigned particle");
      if (orig) k[i] = m;
      cmpP(*P[i], k[i], r, log, "particle after being copied");
    } else {
      Pr &x = pr[r.n(pr.size())];
      if (r.n(2)) x.s->update();
      std::unique_ptr<sproduct> cp(new sproduct(*x.s));
      if (r.n(2)) { cp.reset(new sproduct()); *cp = *x.s; }
      std::swap(cp, x.s);  // the copy takes over
      cp.reset();
      x.s->update();
      log += " product copied";
      cmpS(x, "copied product");
    }
    RP->stat("operations");
  }
  for (int i = 0; i < np; i++) cmpP(*P[i], k[i], r, log, "particle after a history");
  for (auto &x : pr) { x.s->update(); cmpS(x, "product after a history"); }
  RP->nontrivial(hstr(log) ^ hm(k[0]));
  RP->sample(fmt("%d", np), log);
}
// ------------------------------------------------------------------ C07
template <class F> static bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
static void c07(Rng &r) {
  Mom a = gen(r, 2, .01L, 300, .01L, 300), b = gen(r, 2, .01L, 300, .01L, 300);
  particle A(a.p, a.m), B(b.p, b.m);
  std::string cx = ps(a.p, a.m);
  RP->nontrivial(hm(a));
  RP->sample(fmt("%d", a.m > 0), cx);
  auto bad = [&](const char *what, std::function<void()> f) { TRUE(throws(f), std::string("not rejected: ") + what, cx); RP->stat("invalid requests"); };
  auto good = [&](const char *what, std::function<void()> f) { TRUE(!throws(f), std::string("wrongly rejected: ") + what, cx); RP->stat("valid requests"); };
  auto spinbad = [&](int s) {
    for (int u = 0; u < 2; u++) {
      bool U = u;
      bad("|p> with such a spin", [&] { A.rangle(s, U); });
      bad("<p| with such a spin", [&] { A.langle(s, U); });
      bad("[p| with such a spin", [&] { A.lsquare(s, U); });
      bad("|p] with such a spin", [&] { A.rsquare(s, U); });
    }
    bad("|p> with such a spin, default index", [&] { A.rangle(s); });
    bad("<p| with such a spin, default index", [&] { A.langle(s); });
    bad("[p| with such a spin, default index", [&] { A.lsquare(s); });
    bad("|p] with such a spin, default index", [&] { A.rsquare(s); });
  };
  static const int wrong[] = {0, 2, -2, 3, -3, 7};
  for (int pass = 0; pass < 2; pass++) {
    if (a.m > 0) {
      bad("helicity |p> of a massive particle", [&] { A.rangle(); });
      bad("helicity <p| of a massive particle", [&] { A.langle(); });
      bad("helicity [p| of a massive particle", [&] { A.lsquare(); });
      bad("helicity |p] of a massive particle", [&] { A.rsquare(); });
      spinbad(wrong[r.n(6)]);
      for (int s = -1; s <= 1; s += 2)
        for (int u = 0; u < 2; u++) { bool U = u; good("|p>", [&] { A.rangle(s, U); }); good("<p|", [&] { A.langle(s, U); }); good("[p|", [&] { A.lsquare(s, U); }); good("|p]", [&] { A.rsquare(s, U); }); }
    } else {
      spinbad(r.n(2) ? 1 : -1);
      for (int u = 0; u < 2; u++) { bool U = u; bad("matrix form of a massless particle", [&] { A.rangle_matrix(U); }); bad("matrix form of a massless particle", [&] { A.lsquare_matrix(U); }); bad("matrix form of a massless particle", [&] { A.langle_matrix(U); }); bad("matrix form of a massless particle", [&] { A.rsquare_matrix(U); }); }
      good("|p>", [&] { A.rangle(); }); good("<p|", [&] { A.langle(); }); good("[p|", [&] { A.lsquare(); }); good("|p]", [&] { A.rsquare(); });
    }
  }
  // momenta
  LD E = 1 + a.p[0], NaN = std::numeric_limits<LD>::quiet_NaN(), Inf = std::numeric_limits<LD>::infinity();
  for (int n = 0; n < 4; n++) {
    LD q[4] = {a.p[0], a.p[1], a.p[2], a.p[3]};
    int w = r.n(4);
    int kind = r.n(4);
    if (kind == 0) q[w] = r.n(2) ? NaN : r.n(2) ? Inf : -Inf;
    else if (kind == 1) q[0] += r.logu(1e-5L, 1) * E;
    else if (kind == 2) q[0] -= r.logu(1e-5L, .5L) * a.p[0];
    else q[w] += (r.n(2) ? 1 : -1) * r.uni(2, 5) * E + (w == 0 && q[0] < 0 ? 1 : 0);
    LD mis = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3] - a.m * a.m;
    if (!(fabsl(mis) < 1e-6L)) {
      bad("momentum that does not match the mass", [&] { A.set_momentum(q); });
      bad("momentum that does not match the mass, at construction", [&] { particle X(q, a.m); });
    }
  }
  good("its own momentum", [&] { A.set_momentum(a.p); });
  for (int n = 0; n < 2; n++) { Mom c = gen(r, a.m > 0, .01L, 2000); c.m = a.m; kin::onshell(c.p, c.m); cx = ps(c.p, c.m); good("an on-shell momentum", [&] { A.set_momentum(c.p); }); good("construction on shell", [&] { particle X(c.p, c.m); }); a = c; }
  // products
  for (int n = 0; n < 3; n++) {
    int N = r.n(4);
    particle *q[4] = {&A, &B, &A, &B};
    bool as = r.n(2), lu = r.n(2), ru = r.n(2);
    bool illegal = (!lu && a.m == 0) || (!ru && b.m == 0);
    cx = fmt("%s product with %d inner momenta, indices %d %d, left ", as ? "angle" : "square", N, lu, ru) + ps(a.p, a.m) + " right " + ps(b.p, b.m);
    std::unique_ptr<sproduct> s;
    auto mkit = [&] { s.reset(make(N, 3, as, &A, lu, &B, ru, q)); };
    if (illegal) { bad("lower index of a massless end", mkit); continue; }
    good("product", mkit);
    for (int pass = 0; pass < 2; pass++) {
      int nm = (a.m > 0) + (b.m > 0), w = wrong[r.n(6)], sp = r.n(2) ? 1 : -1;
      if (nm != 0) bad("product value without spins", [&] { s->v(); }); else good("product value without spins", [&] { s->v(); });
      if (nm != 1) bad("product value with one spin", [&] { s->v(sp); }); else { good("product value with one spin", [&] { s->v(1); s->v(-1); }); bad("product value with such a spin", [&] { s->v(w); }); }
      if (nm != 2) bad("product value with two spins", [&] { s->v(sp, -sp); });
      else {
        good("product value with two spins", [&] { for (int x = -1; x <= 1; x += 2) for (int y = -1; y <= 1; y += 2) s->v(x, y); });
        bad("product value with such a left spin", [&] { s->v(w, sp); });
        bad("product value with such a right spin", [&] { s->v(sp, w); });
      }
    }
  }
  // element indices and the bare process
  int i = r.n(2) ? 2 + r.n(3) : -1 - r.n(3), j = r.n(2);
  cx = fmt("indices %d %d", i, j);
  cmatrix M(a.p, true);
  cvector V(cdouble(1, 2), cdouble(3, 4));
  bad("matrix element", [&] { M.get(i, j); });
  bad("matrix element", [&] { M.get(j, i); });
  bad("vector element", [&] { V.get(i); });
  good("elements", [&] { M.get(j, 1 - j); V.get(j); });
  process pc;
  bad("momenta of a bare process", [&] { pc.set_momenta(a.p, b.p, a.p, b.p); });
  cmatrix cm(cdouble(1, 0), cdouble(0, 0), cdouble(0, 0), cdouble(r.uni(-1, 1), (r.n(2) ? 1 : -1) * r.logu(1e-9L, 10)));
  bad("real determinant of a matrix with a complex one", [&] { cm.get_det(); });
}
// ------------------------------------------------------------------ C08
static LD num(Rng &r) { int k = r.n(8); return k == 0 ? 0 : k == 1 ? (r.n(2) ? 1 : -1) : k == 2 ? (r.n(2) ? 1 : -1) * r.logu(1e-6L, 1e6L) : r.uni(-10, 10); }
static C cnum(Rng &r) { C c(num(r), num(r)); return c; }
static void c08(Rng &r) {
  M2 a, b;
  V2 u, v;
  for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { a.a[i][j] = cnum(r); b.a[i][j] = cnum(r); } u.a[i] = cnum(r); v.a[i] = cnum(r); }
  C s = cnum(r);
  LD x = num(r);
  int n = r.n(19) - 9;
  auto mm = [](const M2 &m) { return cmatrix(m.a[0][0], m.a[0][1], m.a[1][0], m.a[1][1]); };
  auto mvv = [](const V2 &w) { return cvector(w.a[0], w.a[1]); };
  const cmatrix A0 = mm(a), B0 = mm(b);
  const cvector U0 = mvv(u), V0 = mvv(v);
  cmatrix A = A0, B = B0;
  cdouble S(s);
  std::string cx = fmt("A={%Lg+%Lgi,%Lg+%Lgi;%Lg+%Lgi,%Lg+%Lgi} ", a.a[0][0].real(), a.a[0][0].imag(), a.a[0][1].real(), a.a[0][1].imag(), a.a[1][0].real(), a.a[1][0].imag(), a.a[1][1].real(), a.a[1][1].imag()) +
                   fmt("s=%Lg+%Lgi x=%Lg n=%d u=(%Lg+%Lgi,%Lg+%Lgi)", s.real(), s.imag(), x, n, u.a[0].real(), u.a[0].imag(), u.a[1].real(), u.a[1].imag());
  RP->nontrivial(hstr(cx));
  RP->sample("a", cx);
  LD na = nrm(a), nb = nrm(b), nu = nrm(u), nv = nrm(v), e = 4e-19L;
  NEAR(mat(A0), a, 0, "elements", cx);
  NEAR(vec(U0), u, 0, "vector elements", cx);
  NEAR(mat(cmatrix()), (M2{{{0, 0}, {0, 0}}}), 0, "default matrix", cx);
  NEAR(vec(cvector()), (V2{{0, 0}}), 0, "default vector", cx);
  cdouble arr[2] = {u.a[0], u.a[1]};
  NEAR(vec(cvector(arr)), u, 0, "vector from array", cx);
  NEAR(mat(A0 + B0), add(a, b), e * (na + nb), "sum", cx);
  NEAR(mat(A0 - B0), add(a, b, -1), e * (na + nb), "difference", cx);
  NEAR(mat(-A0), scl(a, -1), 0, "negative", cx);
  NEAR(mat(A * B0), mul(a, b), 4 * e * na * nb, "product", cx);
  NEAR(mat(A0 * S), scl(a, s), 4 * e * na * std::abs(s), "times complex", cx);
  NEAR(mat(S * A0), scl(a, s), 4 * e * na * std::abs(s), "complex times", cx);
  NEAR(mat(A0 * x), scl(a, x), e * na * fabsl(x), "times real", cx);
  NEAR(mat(x * A0), scl(a, x), e * na * fabsl(x), "real times", cx);
  NEAR(mat(A0 * n), scl(a, n), e * na * abs(n), "times integer", cx);
  NEAR(mat(n * A0), scl(a, n), e * na * abs(n), "integer times", cx);
  if (std::abs(s) > 0) NEAR(mat(A0 / S), scl(a, C(1) / s), 20 * e * na / std::abs(s), "divided by complex", cx);
  if (x != 0) NEAR(mat(A0 / x), scl(a, 1 / x), 4 * e * na / fabsl(x), "divided by real", cx);
  if (n != 0) NEAR(mat(A0 / n), scl(a, C(1) / C(n)), 4 * e * na / abs(n), "divided by integer", cx);
  auto asg = [&](const char *what, std::function<void(cmatrix &)> f, const M2 &want, LD tol) {
    cmatrix t = A0;
    f(t);
    NEAR(mat(t), want, tol, std::string("compound ") + what, cx);
  };
  asg("+=", [&](cmatrix &t) { t += B0; }, add(a, b), e * (na + nb));
  asg("-=", [&](cmatrix &t) { t -= B0; }, add(a, b, -1), e * (na + nb));
  asg("*=", [&](cmatrix &t) { t *= B0; }, mul(a, b), 4 * e * na * nb);
  asg("*= complex", [&](cmatrix &t) { t *= S; }, scl(a, s), 4 * e * na * std::abs(s));
  asg("*= real", [&](cmatrix &t) { t *= x; }, scl(a, x), e * na * fabsl(x));
  asg("*= integer", [&](cmatrix &t) { t *= n; }, scl(a, n), e * na * abs(n));
  if (std::abs(s) > 0) asg("/= complex", [&](cmatrix &t) { t /= S; }, scl(a, C(1) / s), 20 * e * na / std::abs(s));
  if (x != 0) asg("/= real", [&](cmatrix &t) { t /= x; }, scl(a, 1 / x), 4 * e * na / fabsl(x));
  if (n != 0) asg("/= integer", [&](cmatrix &t) { t /= n; }, scl(a, C(1) / C(n)), 4 * e * na / abs(n));
  asg("+= itself", [&](cmatrix &t) { t += t; }, add(a, a), 2 * e * na);
  asg("-= itself", [&](cmatrix &t) { t -= t; }, add(a, a, -1), 0);
  asg("*= itself", [&](cmatrix &t) { t *= t; }, mul(a, a), 4 * e * na * na);
  asg("= itself", [&](cmatrix &t) { cmatrix &q = t; t = q; }, a, 0);
  asg("chained", [&](cmatrix &t) { ((t += B0) -= A0) *= 2; }, scl(b, 2), 8 * e * (na + nb));
  NEAR(mat(A), a, 0, "left operand untouched", cx);
  NEAR(mat(B), b, 0, "right operand untouched", cx);
  // vectors
  NEAR(z(U0 * V0), vv(u, v), 4 * e * nu * nv, "vector product", cx);
  NEAR(vec(U0 * A0), vm(u, a), 4 * e * nu * na, "vector times matrix", cx);
  NEAR(vec(A0 * U0), mv(a, u), 4 * e * nu * na, "matrix times vector", cx);
  NEAR(vec(U0 * S), sv(s, u), 4 * e * nu * std::abs(s), "vector times complex", cx);
  NEAR(vec(S * U0), sv(s, u), 4 * e * nu * std::abs(s), "complex times vector", cx);
  NEAR(vec(U0 * x), sv(x, u), e * nu * fabsl(x), "vector times real", cx);
  NEAR(vec(x * U0), sv(x, u), e * nu * fabsl(x), "real times vector", cx);
  NEAR(vec(U0 * n), sv(n, u), e * nu * abs(n), "vector times integer", cx);
  NEAR(vec(n * U0), sv(n, u), e * nu * abs(n), "integer times vector", cx);
  NEAR(vec(-U0), sv(-1, u), 0, "negative vector", cx);
  NEAR(vec(U0.get_conjugate()), cj(u), 0, "conjugate", cx);
  NEAR(mat(outer(U0, V0)), out(u, v), 4 * e * nu * nv, "outer product", cx);
  NEAR(vec(U0), u, 0, "vector operand untouched", cx);
  // determinant of a hermitian matrix and of a real matrix
  M2 h = {{{C(a.a[0][0].real()), a.a[0][1]}, {std::conj(a.a[0][1]), C(a.a[1][1].real())}}};
  LD d = h.a[0][0].real() * h.a[1][1].real() - std::norm(a.a[0][1]);
  NEAR(C(mm(h).get_det()), C(d), 8 * e * nrm(h) * nrm(h), "determinant", cx);
  M2 q = {{{C(a.a[0][0].real()), C(a.a[0][1].real())}, {C(a.a[1][0].real()), C(a.a[1][1].real())}}};
  LD dq = a.a[0][0].real() * a.a[1][1].real() - a.a[0][1].real() * a.a[1][0].real();
  NEAR(C(det(mm(q))), C(dq), 8 * e * nrm(q) * nrm(q), "determinant of a real matrix", cx);
  // comparison: equal within rounding, different when any element differs visibly
  TRUE(A0 == A && !(A0 != A) && U0 == mvv(u) && !(U0 != mvv(u)), "equality", cx);
  int i = r.n(2), j = r.n(2);
  C dl = (r.n(2) ? C(1) : I_) * (LD)(r.n(2) ? 1 : -1) * r.logu(1e-9L, 10);
  M2 a2 = a;
  a2.a[i][j] += dl;
  V2 u2 = u;
  u2.a[i] += dl;
  TRUE(!(A0 == mm(a2)) && A0 != mm(a2) && mm(a2) != A0, "inequality of matrices", cx + fmt(" element %d %d", i, j));
  TRUE(!(U0 == mvv(u2)) && U0 != mvv(u2) && mvv(u2) != U0, "inequality of vectors", cx + fmt(" element %d", i));
  a2 = a; u2 = u;
  a2.a[i][j] += dl * 1e-17L / std::abs(dl);
  u2.a[i] += dl * 1e-17L / std::abs(dl);
  TRUE(A0 == mm(a2) && !(A0 != mm(a2)), "equality within rounding", cx);
  TRUE(U0 == mvv(u2) && !(U0 != mvv(u2)), "vector equality within rounding", cx);
}
// ------------------------------------------------------------------ C09
static void c09(Rng &r) {
  LD m = r.n(5) ? r.logu(1e-3L, 1e3L) : 0, w = r.n(4) ? m * r.uni(0, .5L) : 0;
  std::unique_ptr<propagator> P;
  int how = r.n(3);
  if (how == 0) P.reset(new propagator(m, w));
  else if (how == 1) { P.reset(new propagator()); P->set_mass(m); P->set_width(w); }
  else { P.reset(new propagator(m + 1 + r.u(), w + r.u())); P->set_width(w); P->set_mass(m); }
  std::string cx;
  for (int n = 0; n < 6; n++) {
    int op = r.n(5);
    if (n > 0) {
      if (op == 0) P->set_mass(m = r.n(5) ? r.logu(1e-3L, 1e3L) : 0);
      if (op == 1) P->set_width(w = r.n(4) ? r.uni(0, 50) : 0);
    }
    LD p[4], q[4], sc = 0;
    int kind = r.n(4);
    for (auto &x : p) x = r.n(6) ? r.uni(-300, 300) : 0;
    if (kind == 0) kin::onshell(p, m);
    if (kind == 1) { p[1] = p[2] = p[3] = 0; p[0] = m; }
    for (int i = 0; i < 4; i++) { q[i] = p[i]; sc += p[i] * p[i]; }
    cx = fmt("M=%.15Lg width=%.15Lg p=(%.15Lg,%.15Lg,%.15Lg,%.15Lg)", m, w, p[0], p[1], p[2], p[3]);
    RP->nontrivial(hstr(cx));
    RP->sample(fmt("%d", kind), cx);
    C want(mdot(p, p) - m * m, -m * w);
    NEAR(z(P->denominator(p)), want, 4e-19L * (sc + m * m + m * w), how == 0 ? "denominator" : "denominator after changes", cx);
    for (int i = 0; i < 4; i++) TRUE(p[i] == q[i], "momentum untouched", cx);
  }
  propagator D, F, G;
  LD p[4] = {r.uni(-5, 5), 1, 2, 3};
  NEAR(z(D.denominator(p)), C(mdot(p, p)), 1e-17L * 40, "default propagator", fmt("p0=%Lg", p[0]));
  LD M = r.uni(.1L, 5), W = r.uni(.1L, 5);
  F.set_mass(M);
  NEAR(z(F.denominator(p)), C(mdot(p, p) - M * M), 1e-17L * 60, "default propagator given a mass", fmt("p0=%Lg M=%Lg", p[0], M));
  G.set_width(W);
  NEAR(z(G.denominator(p)), C(mdot(p, p)), 1e-17L * 60, "default propagator given a width", fmt("p0=%Lg width=%Lg", p[0], W));
}
// ------------------------------------------------------------------ C10
static void c10(Rng &r) {
  Mom a = gen(r, 2, .01L, 300, .01L, 300), b = gen(r, 2, .01L, 300, .01L, 300);
  if (r.n(6) == 0) for (auto &x : a.p) x = r.uni(-10, 10);  // any four-vector
  LD u[3];
  int st;
  direction(r, u, st);
  int k = r.n(8);
  LD th = k == 0 ? 0 : k == 1 ? (r.n(9) - 4) * M_PIl / 2 : k == 2 ? r.uni(-50, 50) : k == 3 ? r.logu(1e-9L, 1e-2L) : r.uni(-2 * M_PIl, 2 * M_PIl);
  std::string cx = ps(a.p, a.m) + fmt(" axis=(%.12Lg,%.12Lg,%.12Lg) angle=%.15Lg", u[0], u[1], u[2], th);
  RP->nontrivial(hstr(cx));
  RP->sample(fmt("r%d", k), cx);
  LD nu = sqrtl(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
  for (auto &x : u) x /= nu;
  LD sc = fabsl(a.p[0]) + fabsl(a.p[1]) + fabsl(a.p[2]) + fabsl(a.p[3]), q[4], w[4];
  LD c = cosl(th), s = sinl(th), d = u[0] * a.p[1] + u[1] * a.p[2] + u[2] * a.p[3];
  LD cr[3] = {u[1] * a.p[3] - u[2] * a.p[2], u[2] * a.p[1] - u[0] * a.p[3], u[0] * a.p[2] - u[1] * a.p[1]};
  w[0] = a.p[0];
  for (int i = 0; i < 3; i++) w[i + 1] = a.p[i + 1] * c + cr[i] * s + u[i] * d * (1 - c);
  for (int i = 0; i < 4; i++) q[i] = a.p[i];
  rotate_momentum(q, u, th);
  for (int i = 0; i < 4; i++) NEAR(C(q[i]), C(w[i]), 1e-17L * sc, i ? "rotated component" : "energy under rotation", cx);
  LD l0 = a.p[1] * a.p[1] + a.p[2] * a.p[2] + a.p[3] * a.p[3], l1 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
  NEAR(C(l1), C(l0), 1e-16L * sc * sc, "length under rotation", cx);
  if (th == 0) for (int i = 0; i < 4; i++) NEAR(C(q[i]), C(a.p[i]), 1e-18L * sc, "rotation by zero", cx);
  rotate_momentum(q, u, -th);
  for (int i = 0; i < 4; i++) NEAR(C(q[i]), C(a.p[i]), 2e-17L * sc, "rotation undone", cx);
  // boosts
  LD n[3], v[3], vmag;
  direction(r, n, st);
  k = r.n(7);
  vmag = k == 0 ? 0 : k == 1 ? r.logu(1e-12L, 1e-3L) : k == 2 ? 1 - r.logu(1e-4L, .1L) : r.uni(0, .95L);
  for (int i = 0; i < 3; i++) v[i] = vmag * n[i];
  LD v2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2], g = 1 / sqrtl(1 - v2);
  cx = ps(a.p, a.m) + fmt(" velocity=(%.15Lg,%.15Lg,%.15Lg)", v[0], v[1], v[2]);
  RP->sample(fmt("b%d", k), cx);
  LD vp = v[0] * a.p[1] + v[1] * a.p[2] + v[2] * a.p[3];
  w[0] = g * (a.p[0] - vp);
  for (int i = 0; i < 3; i++) w[i + 1] = a.p[i + 1] + v[i] * (g * g / (1 + g) * vp - g * a.p[0]);
  for (int i = 0; i < 4; i++) q[i] = a.p[i];
  boost_momentum(q, v);
  LD t = 1e-17L * g * g * g * sc;
  for (int i = 0; i < 4; i++) NEAR(C(q[i]), C(w[i]), t, i ? "boosted component" : "boosted energy", cx);
  if (vmag == 0) for (int i = 0; i < 4; i++) NEAR(C(q[i]), C(a.p[i]), 0, "boost by zero", cx);
  LD q2[4] = {b.p[0], b.p[1], b.p[2], b.p[3]}, sb = 3 * b.p[0];
  boost_momentum(q2, v);
  NEAR(C(mdot(q, q2)), C(mdot(a.p, b.p)), 2e-17L * g * g * g * g * sc * sb, "four-product under boost", cx);
  NEAR(C(mdot(q, q)), C(mdot(a.p, a.p)), 2e-17L * g * g * g * g * sc * sc, "invariant mass under boost", cx);
  LD mv_[3] = {-v[0], -v[1], -v[2]};
  boost_momentum(q, mv_);
  for (int i = 0; i < 4; i++) NEAR(C(q[i]), C(a.p[i]), 4e-17L * g * g * g * g * sc, "boost undone", cx);
  // an observer moving with the particle sees it at rest
  if (b.m > 0 && b.p[0] < 20 * b.m) {
    LD bv[3] = {b.p[1] / b.p[0], b.p[2] / b.p[0], b.p[3] / b.p[0]}, x[4] = {b.p[0], b.p[1], b.p[2], b.p[3]}, gg = b.p[0] / b.m;
    boost_momentum(x, bv);
    NEAR(C(x[0]), C(b.m), 1e-16L * gg * gg * gg * b.p[0], "energy in the rest frame", ps(b.p, b.m));
    for (int i = 1; i < 4; i++) NEAR(C(x[i]), C(0), 1e-16L * gg * gg * gg * b.p[0], "momentum in the rest frame", ps(b.p, b.m));
  }
}
// ------------------------------------------------------------------ C11 (exhaustive)
static int nloops(process &P, const std::vector<int> &d) {
  switch (d.size()) {
    case 1: return P.get_num_spin_loops(d[0]);
    case 2: return P.get_num_spin_loops(d[0], d[1]);
    case 3: return P.get_num_spin_loops(d[0], d[1], d[2]);
    case 4: return P.get_num_spin_loops(d[0], d[1], d[2], d[3]);
    case 5: return P.get_num_spin_loops(d[0], d[1], d[2], d[3], d[4]);
    default: return P.get_num_spin_loops(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
static LD norms(process &P, const std::vector<int> &d) {
  switch (d.size()) {
    case 1: return P.get_spin_normalization(d[0]);
    case 2: return P.get_spin_normalization(d[0], d[1]);
    case 3: return P.get_spin_normalization(d[0], d[1], d[2]);
    case 4: return P.get_spin_normalization(d[0], d[1], d[2], d[3]);
    case 5: return P.get_spin_normalization(d[0], d[1], d[2], d[3], d[4]);
    default: return P.get_spin_normalization(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
static void pairs(process &P, const std::vector<int> &d, int a[], int b[], int it) {
  switch (d.size()) {
    case 1: P.get_spinor_spins(d[0], a[0], b[0], it); break;
    case 2: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], it); break;
    case 3: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], it); break;
    case 4: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], d[3], a[3], b[3], it); break;
    case 5: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], d[3], a[3], b[3], d[4], a[4], b[4], it); break;
    default: P.get_spinor_spins(d[0], a[0], b[0], d[1], a[1], b[1], d[2], a[2], b[2], d[3], a[3], b[3], d[4], a[4], b[4], d[5], a[5], b[5], it);
  }
}
static void c11(const std::vector<int> &d, bool listOnly) {
  process P;
  int len = d.size(), zeros = 0;
  std::string cx = "labels";
  for (int x : d) { zeros += x == 0; cx += fmt(" %d", x); }
  RP->nontrivial(hstr(cx));
  RP->sample(fmt("%d", len), cx);
  RP->stat(fmt("length %d", len));
  int n = P.get_num_spin_loops(d.data(), len);
  TRUE(n == (1 << zeros), "number of terms", cx + fmt(": %d", n));
  LD N = P.get_spin_normalization(d.data(), len);
  NEAR(C(N), C(powl(sqrtl(.5L), zeros)), 1e-14L, "normalisation", cx);
  if (!listOnly) {
    TRUE(nloops(P, d) == n, "number of terms, fixed form", cx);
    NEAR(C(norms(P, d)), C(N), 1e-15L, "normalisation, fixed form", cx);
  }
  std::set<std::vector<int>> seen;
  for (int it = 0; it < n; it++) {
    std::vector<int> a(len, 99), b(len, 99), a2(len, 98), b2(len, 98);
    std::vector<const int *> dp(len);
    std::vector<int *> ap(len), bp(len);
    for (int i = 0; i < len; i++) { dp[i] = &d[i]; ap[i] = &a[i]; bp[i] = &b[i]; }
    P.get_spinor_spins(dp.data(), ap.data(), bp.data(), len, it);
    for (int i = 0; i < len; i++) {
      bool ok = d[i] == 0 ? (abs(a[i]) == 1 && b[i] == -a[i]) : (a[i] == (d[i] > 0 ? 1 : -1) && b[i] == a[i]);
      TRUE(ok, "spin pair", cx + fmt(" iteration %d position %d: %d %d", it, i, a[i], b[i]));
    }
    if (!listOnly) { pairs(P, d, a2.data(), b2.data(), it); TRUE(a == a2 && b == b2, "spin pairs, fixed form", cx + fmt(" iteration %d", it)); }
    seen.insert(a);
  }
  TRUE((int)seen.size() == (1 << zeros), "each combination once", cx);
}
// ------------------------------------------------------------------ C12
struct Mock : process {
  LD p[4][4];
  std::vector<std::array<std::array<LD, 4>, 4>> log;
  void set_momenta(const ldouble a[4], const ldouble b[4], const ldouble c[4], const ldouble d[4]) {
    std::array<std::array<LD, 4>, 4> e;
    for (int i = 0; i < 4; i++) { p[0][i] = a[i]; p[1][i] = b[i]; p[2][i] = c[i]; p[3][i] = d[i]; }
    for (int k = 0; k < 4; k++) for (int i = 0; i < 4; i++) e[k][i] = p[k][i];
    log.push_back(e);
  }
};
static std::string printed(const std::function<void()> &f) {
  fflush(stdout);
  std::cout.flush();
  int old = dup(1), fd = memfd_create("out", 0);
  if (old < 0 || fd < 0) { perror("memfd"); _exit(3); }
  dup2(fd, 1);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(old, 1);
  close(old);
  std::string t(lseek(fd, 0, SEEK_END), 0);
  if (!t.empty() && pread(fd, &t[0], t.size(), 0) != (ssize_t)t.size()) _exit(3);
  close(fd);
  return t;
}
static void c12(Rng &r) {
  LD m[4], in[4][4];
  for (auto &x : m) x = r.n(3) ? r.uni(.1L, 100) : 0;
  LD pin = r.logu(1, 300);
  while (!kin::cm(m, pin, .3L, in)) pin *= 1.5L;
  bool zero = !r.n(10);  // a table of zeros, as for processes that vanish
  LD sz = zero ? 0 : (r.n(4) ? 1 : -1) * (r.n(2) ? 1 : r.logu(1e-6L, 1e6L)), c0 = sz * r.uni(.5L, 2), c1 = sz * r.uni(-.3L, .3L), c2 = sz * r.uni(.1L, 1);
  LD s = 0;
  { LD E = in[0][0] + in[1][0]; s = E * E; }
  auto shape = [&](LD ss, LD t) { return c0 + c1 * t / ss + c2 * t * t / (ss * ss); };
  LD data[20];
  for (int j = 0; j < 20; j++) {
    LD q[4][4];
    kin::cm(m, pin, .95L - .1L * j, q);
    LD t = 0;
    for (int i = 0; i < 4; i++) { LD d = q[0][i] - q[2][i]; t += i ? -d * d : d * d; }
    data[j] = shape(s, t);
  }
  int which = r.n(5);  // four frames, score
  static const char *FN[] = {"fixed", "rotated", "boosted", "rotated and boosted", "score"};
  Mock P;
  int total = which == 0 || which == 4 ? 20 : 200;
  // deviations
  std::map<int, LD> dev;
  int nd = r.n(4), expect = 0, mode = r.n(3);
  std::vector<int> kinds;
  for (int k = 0; k < nd; k++) {
    int at = r.n(total), kind = r.n(7);
    if (dev.count(at)) continue;
    LD f = 1;
    bool wrong = true;
    if (kind == 0) f = std::numeric_limits<LD>::quiet_NaN();
    else if (kind == 1) f = r.n(2) ? std::numeric_limits<LD>::infinity() : -std::numeric_limits<LD>::infinity();
    else if (kind == 2) f = -1;
    else if (kind == 3) f = 0;
    else if (kind <= 5) f = 1 + (r.n(2) ? 1 : -1) * r.logu(which == 2 || which == 3 ? 1e-7L : 1e-8L, .9L);
    else { f = 1 + (r.n(2) ? 1 : -1) * r.logu(1e-14L, 1e-10L); wrong = false; }
    if (which == 4 && kind <= 2) f = 2;  // the score of NaN is not specified, that of a reversed sign is arbitrarily large
    if (zero && kind > 1) f = wrong ? f == 0 ? 1 : f : 0;
    dev[at] = f;
    expect += wrong;
  }
  (void)mode;
  int calls = 0;
  LD params[10];
  for (auto &x : params) x = r.uni(-1, 1);
  bool paramsOk = true;
  auto val = [&]() -> LD {
    LD E[4], t = 0, ss = 0;
    (void)E;
    for (int i = 0; i < 4; i++) { LD d = P.p[0][i] - P.p[2][i], a = P.p[0][i] + P.p[1][i]; t += i ? -d * d : d * d; ss += i ? -a * a : a * a; }
    LD v = shape(ss, t);
    auto it = dev.find(calls++);
    return it == dev.end() ? v : zero ? it->second : v * it->second;
  };
  std::string cx = fmt("%s frames, %s table, masses %.9Lg %.9Lg %.9Lg %.9Lg, pin=%.9Lg, %zu injected deviations of which %d wrong", FN[which], zero ? "zero" : sz < 0 ? "negative" : "positive", m[0], m[1], m[2], m[3], pin, dev.size(), expect);
  for (auto &d : dev) cx += fmt(" [%d: *%.6Lg]", d.first, d.second);
  RP->nontrivial(hstr(cx));
  RP->sample(FN[which], cx);
  RP->stat(FN[which]);
  if (which < 4) {
    int got = 0;
    auto run = [&] {
      got = which == 0 ? P.test_2to2_amp2(val, m[0], m[1], m[2], m[3], pin, data)
          : which == 1 ? P.test_2to2_amp2_rotations(val, m[0], m[1], m[2], m[3], pin, data)
          : which == 2 ? P.test_2to2_amp2_boosts(val, m[0], m[1], m[2], m[3], pin, data)
                       : P.test_2to2_amp2_boosts_and_rotations(val, m[0], m[1], m[2], m[3], pin, data);
    };
    std::string said = printed(run);
    TRUE(said.empty() == !expect, "failures are shown, agreement is silent", cx + ": printed " + (said.empty() ? "nothing" : said.substr(0, 200)));
    TRUE(got == expect, "number of failures", cx + fmt(": counted %d", got));
  } else {
    auto f = [&](const ldouble *q) { for (int i = 0; i < 10; i++) if (q[i] != params[i]) paramsOk = false; return val(); };
    LD sc = P.score_2to2_amp2(f, m[0], m[1], m[2], m[3], pin, data, params);
    TRUE(paramsOk, "parameters passed on", cx);
    TRUE(expect ? sc > 0 : sc == 0, "score zero exactly on agreement", cx + fmt(": score %.12Lg", sc));
    if (expect && !zero) {  // a larger deviation at one point gives a larger score
      auto big = dev;
      for (auto &d : big) if (d.second > 1 + 1e-7L) { d.second = 1 + 3 * (d.second - 1); break; }
      bool larger = false;
      for (auto &d : big) larger |= d.second != dev[d.first];
      if (larger) {
        dev = big; calls = 0;
        LD s2 = P.score_2to2_amp2(f, m[0], m[1], m[2], m[3], pin, data, params);
        TRUE(s2 > sc, "score grows with the deviation", cx + fmt(": %.12Lg then %.12Lg", sc, s2));
        P.log.resize(20);
      }
    }
  }
  TRUE((int)P.log.size() == total, "number of evaluations", cx + fmt(": %zu", P.log.size()));
  // kinematics of the evaluations
  bool anyRot = false, anyBoost = false;
  for (size_t k = 0; k < P.log.size(); k++) {
    auto &q = P.log[k];
    LD tot[4], E = 0;
    for (int i = 0; i < 4; i++) { tot[i] = q[0][i] + q[1][i]; E = std::max(E, fabsl(tot[i])); NEAR(C(tot[i]), C(q[2][i] + q[3][i]), 1e-15L * (q[0][0] + q[1][0]), fmt("momentum conservation, %s", FN[which]), cx); }
    for (int n = 0; n < 4; n++) {
      LD w = q[n][0] * q[n][0] - q[n][1] * q[n][1] - q[n][2] * q[n][2] - q[n][3] * q[n][3];
      NEAR(C(w), C(m[n] * m[n]), 1e-14L * E * E, fmt("mass of leg %d, %s", n + 1, FN[which]), cx);
    }
    LD t = 0, ss = 0;
    for (int i = 0; i < 4; i++) { LD d = q[0][i] - q[2][i]; t += i ? -d * d : d * d; ss += i ? -tot[i] * tot[i] : tot[i] * tot[i]; }
    NEAR(C(ss), C(s), 1e-14L * E * E, fmt("collision energy, %s", FN[which]), cx);
    LD w[4][4];
    int j = total == 20 ? k : k / 10;
    kin::cm(m, pin, .95L - .1L * j, w);
    LD tw = 0;
    for (int i = 0; i < 4; i++) { LD d = w[0][i] - w[2][i]; tw += i ? -d * d : d * d; }
    NEAR(C(t), C(tw), 1e-14L * E * E, fmt("scattering angle, %s", FN[which]), cx + fmt(" evaluation %zu", k));
    LD axis = fabsl(q[0][1]) + fabsl(q[0][2]), net = fabsl(tot[1]) + fabsl(tot[2]) + fabsl(tot[3]);
    if (which == 0 || which == 4) {
      TRUE(axis <= 1e-15L * E && q[0][3] > 0, "beam along z", cx);
      NEAR(C(net), C(0), 1e-15L * E, "centre-of-mass frame", cx);
    }
    if (which == 1) NEAR(C(net), C(0), 1e-14L * E, "centre-of-mass frame under rotation", cx);
    anyRot |= axis > 1e-6L * E;
    anyBoost |= net > 1e-6L * E;
  }
  if (which == 1) TRUE(anyRot, "rotations vary the direction", cx);
  if (which == 2 || which == 3) TRUE(anyBoost, "boosts move the centre of mass", cx);
}
// ------------------------------------------------------------------ C13
static void c13(Rng &r) {
  int b = r.n(40) - 20, e = b + (r.n(4) ? r.n(12) : r.n(400));
  std::string cx = fmt("integers %d to %d", b, e);
  RP->nontrivial(hstr(cx) ^ r.s);
  std::set<int> seen;
  for (int i = 0; i < 60 * (e - b + 1); i++) { int x = choose_random_int(b, e); TRUE(x >= b && x <= e, "integer in range", cx + fmt(": %d", x)); seen.insert(x); }
  TRUE((int)seen.size() == e - b + 1, "all integers reached", cx);
  {
    int lo = -2000000000 + r.n(1000000000), hi = 2000000000 - r.n(1000000000), mn = hi, mx = lo;
    for (int i = 0; i < 800; i++) { int x = choose_random_int(lo, hi); mn = std::min(mn, x); mx = std::max(mx, x); }
    TRUE(mn >= lo && mx <= hi && mn < lo + .05L * ((LD)hi - lo) && mx > hi - .05L * ((LD)hi - lo), "wide integers", fmt("integers %d to %d: %d to %d", lo, hi, mn, mx));
  }
  LD lo_ = r.uni(-100, 50), hi = lo_ + r.logu(1e-3L, 200);
  cx = fmt("reals %.12Lg to %.12Lg", lo_, hi);
  RP->sample("r", cx);
  auto stats = [&](const char *what, std::vector<LD> x, LD a, LD z_) {
    LD mn = 1e30L, mx = -1e30L, mean = 0;
    for (LD v : x) { mn = std::min(mn, v); mx = std::max(mx, v); mean += v / x.size(); }
    TRUE(mn >= a && mx <= z_, std::string(what) + " in range", cx + fmt(": %.18Lg to %.18Lg", mn, mx));
    TRUE(mn <= a + .05L * (z_ - a) && mx >= z_ - .05L * (z_ - a), std::string(what) + " covers the range", cx + fmt(": %.12Lg to %.12Lg", mn, mx));
    LD sig = (z_ - a) / sqrtl(12.L * x.size());
    TRUE(fabsl(mean - (a + z_) / 2) < 8 * sig, std::string(what) + " is centred", cx + fmt(": mean %.12Lg", mean));
    std::sort(x.begin(), x.end());
    TRUE(std::unique(x.begin(), x.end()) - x.begin() > (long)x.size() * 9 / 10, std::string(what) + " varies", cx);
  };
  int n = 1200;
  std::vector<LD> x, re, im;
  LD cor = 0;
  for (int i = 0; i < n; i++) {
    x.push_back(choose_random_ldouble(lo_, hi));
    cdouble c = choose_random_cdouble(lo_, hi);
    re.push_back(c.real()); im.push_back(c.imag());
    cor += (c.real() - (lo_ + hi) / 2) * (c.imag() - (lo_ + hi) / 2);
  }
  stats("real", x, lo_, hi); stats("real part", re, lo_, hi); stats("imaginary part", im, lo_, hi);
  TRUE(fabsl(cor / n) < 8 * (hi - lo_) * (hi - lo_) / 12 / sqrtl(n), "parts are independent", cx);
  LD top = r.logu(.1L, 500), bot = r.n(2) ? -top : r.uni(-1, 1) * top;
  cx = fmt("momenta %.12Lg to %.12Lg", bot, top);
  RP->sample("m", cx);
  std::vector<LD> comp[3], comp0[3], ms;
  for (int i = 0; i < n; i++) {
    const LD none = std::numeric_limits<LD>::quiet_NaN();
    ldouble p[4] = {none, none, none, none};
    LD m = choose_random_momentum(p, bot, top);
    ms.push_back(m);
    LD d = (LD)p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3];
    NEAR(C(d), C(m * m), 1e-18L * p[0] * p[0], "massive momentum on shell", cx);
    TRUE(p[0] >= 0, "energy not negative", cx);
    for (int j = 0; j < 3; j++) comp[j].push_back(p[j + 1]);
    for (auto &x : p) x = none;
    choose_random_massless_momentum(p, bot, top);
    d = (LD)p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3];
    NEAR(C(d), C(0), 1e-18L * p[0] * p[0], "massless momentum on shell", cx);
    TRUE(p[0] >= 0, "energy not negative", cx);
    for (int j = 0; j < 3; j++) comp0[j].push_back(p[j + 1]);
  }
  stats("mass", ms, 0, top);
  for (int j = 0; j < 3; j++) { stats(fmt("component %d", j + 1).c_str(), comp[j], bot, top); stats(fmt("massless component %d", j + 1).c_str(), comp0[j], bot, top); }
}
// ------------------------------------------------------------------ C14
// Evaluates the small part of the Mathematica language the library writes: lists, sums, products (* or juxtaposition),
// powers, signs, decimal numbers without C exponents, and I.
struct Mma {
  const char *s;
  bool ok = true;
  void ws() { while (*s == ' ') s++; }
  C number() {
    char b[200];
    int n = 0;
    while ((*s >= '0' && *s <= '9') || *s == '.') { if (n < 190) b[n++] = *s; s++; }
    b[n] = 0;
    if (!n) ok = false;
    if ((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z')) ok = false;  // 1e-5 is 1*e-5 for Mathematica
    return C(strtold(b, 0));
  }
  C primary() {
    ws();
    if (*s == '(') { s++; C v = expr(); ws(); if (*s == ')') s++; else ok = false; return v; }
    if (*s == 'I' && !isalnum(s[1])) { s++; return I_; }
    if ((*s >= '0' && *s <= '9') || *s == '.') return number();
    ok = false;
    return 0;
  }
  C power() {
    C b = primary();
    ws();
    if (*s == '^') { s++; C e = unary(); LD k = e.real(); return C(powl(b.real(), k)); }
    return b;
  }
  C unary() { ws(); if (*s == '-') { s++; return -unary(); } if (*s == '+') { s++; return unary(); } return power(); }
  C term() {
    C v = unary();
    for (;;) {
      ws();
      if (*s == '*') { s++; v *= unary(); }
      else if ((*s >= '0' && *s <= '9') || *s == 'I' || *s == '(') v *= power();
      else return v;
    }
  }
  C expr() {
    C v = term();
    for (;;) { ws(); if (*s == '+') { s++; v += term(); } else if (*s == '-') { s++; v -= term(); } else return v; }
  }
  void list(std::vector<C> &o, std::string &shape) {
    ws();
    if (*s == '{') {
      s++; shape += '{';
      for (;;) { list(o, shape); ws(); if (*s == ',') { s++; continue; } break; }
      if (*s == '}') { s++; shape += '}'; } else ok = false;
    } else { o.push_back(expr()); shape += 'x'; }
  }
  static bool parse(const std::string &t, std::vector<C> &o, std::string &shape) {
    Mma m;
    m.s = t.c_str();
    o.clear(); shape.clear();
    m.list(o, shape);
    m.ws();
    return m.ok && *m.s == 0;
  }
};
static LD tnum(Rng &r) {
  int k = r.n(9);
  if (k == 0) return 0;
  if (k == 1) return r.n(2001) - 1000;
  LD x = k <= 3 ? r.uni(-10, 10) : (r.n(2) ? 1 : -1) * r.logu(k <= 5 ? 1e-30L : 1e-3L, k <= 5 ? 1e30L : 1e8L);
  return k == 8 ? (LD)(double)(x * 1e10) : x;
}
static std::vector<LD> numbers(const std::string &t) {
  std::vector<LD> o;
  const char *p = t.c_str();
  while (*p) {
    bool st = (*p >= '0' && *p <= '9') || (*p == '-' && p[1] >= '0' && p[1] <= '9');
    if (st) { char *e; o.push_back(strtold(p, &e)); p = e; } else p++;
  }
  return o;
}
static void c14(Rng &r) {
  const LD T = sizeof(ldouble) > 8 ? 1e-18L : 1e-15L;
  LD x = tnum(r);
  std::vector<C> o;
  // a program may write 1.234,5 elsewhere
  struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
  static const std::locale comma(std::locale::classic(), new Comma);
  struct Global { bool on; explicit Global(bool b) : on(b) { if (on) std::locale::global(comma); } ~Global() { end(); } void end() { if (on) std::locale::global(std::locale::classic()); on = false; } } global(!r.n(4));
  if (global.on) RP->stat("comma locale");
  std::string sh, t = double_to_Mathematica_string(x), cx = fmt("%.21Lg written as ", x) + t;
  RP->nontrivial(hstr(cx));
  RP->sample("n", cx);
  bool ok = Mma::parse(t, o, sh);
  TRUE(ok && sh == "x", "syntax of a number", cx);
  if (ok && !o.empty()) NEAR(o[0], C(x), T * fabsl(x), "value of a number", cx);
  C a[4];
  for (auto &q : a) q = C(tnum(r), tnum(r));
  cvector v(a[0], a[1]);
  t = v.to_Mathematica_string(); cx = "vector written as " + t;
  RP->sample("v", cx);
  ok = Mma::parse(t, o, sh);
  TRUE(ok && sh == "{xx}", "syntax of a vector", cx);
  if (ok && o.size() == 2) for (int i = 0; i < 2; i++) { NEAR(C(o[i].real()), C(a[i].real()), T * fabsl(a[i].real()), "real part in a vector", cx); NEAR(C(o[i].imag()), C(a[i].imag()), T * fabsl(a[i].imag()), "imaginary part in a vector", cx); }
  cmatrix m(a[0], a[1], a[2], a[3]);
  t = m.to_Mathematica_string(); cx = "matrix written as " + t;
  RP->sample("m", cx);
  ok = Mma::parse(t, o, sh);
  TRUE(ok && sh == "{{xx}{xx}}", "syntax of a matrix", cx);
  if (ok && o.size() == 4) for (int i = 0; i < 4; i++) { NEAR(C(o[i].real()), C(a[i].real()), T * fabsl(a[i].real()), "real part in a matrix", cx); NEAR(C(o[i].imag()), C(a[i].imag()), T * fabsl(a[i].imag()), "imaginary part in a matrix", cx); }
  global.end();
  // plain text: six digits or more, in order
  auto plain = [&](const char *what, const std::string &txt, const std::vector<LD> &want) {
    std::vector<LD> n = numbers(txt);
    TRUE(n.size() == want.size(), std::string("components in ") + what, txt);
    for (size_t i = 0; i < n.size() && i < want.size(); i++) NEAR(C(n[i]), C(want[i]), 1e-5L * fabsl(want[i]), std::string("component in ") + what, txt);
  };
  std::vector<LD> w;
  for (int i = 0; i < 4; i++) { w.push_back(a[i].real()); w.push_back(a[i].imag()); }
  plain("matrix text", m.to_string(), w);
  std::ostringstream om, ov;
  om << m; ov << v;
  plain("matrix output", om.str(), w);
  w.resize(4);
  plain("vector text", v.to_string(), w);
  plain("vector output", ov.str(), w);
  plain("cartesian vector text", v.to_string(1), w);
  std::vector<LD> pol;
  for (int i = 0; i < 2; i++) { pol.push_back(std::abs(a[i])); pol.push_back(std::arg(a[i])); }
  plain("polar vector text", v.to_string(2), pol);
}

// ------------------------------------------------------------------ C15
static LD det4(const LD p[4][4]) {
  LD d = 0;
  int q[4] = {0, 1, 2, 3};
  do {
    int sg = 1;
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) if (q[i] > q[j]) sg = -sg;
    d += sg * p[0][q[0]] * p[1][q[1]] * p[2][q[2]] * p[3][q[3]];
  } while (std::next_permutation(q, q + 4));
  return d;
}
static void c15(Rng &r) {
  Mock P;
  // energies and outgoing momentum
  ldouble m[4], in[4][4];
  for (auto &x : m) x = r.n(3) ? r.logu(1e-3L, 300) : 0;
  if (r.n(4) == 0) { m[2] = m[0]; m[3] = m[1]; }
  if (r.n(8) == 0) m[3] = m[2] = m[1] = m[0];
  ldouble pin = r.logu(.01L, 3000);
  while (!kin::cm(m, pin, .3L, in)) pin *= 1.3L;
  std::string cx = fmt("masses %.15Lg %.15Lg %.15Lg %.15Lg, pin=%.15Lg", m[0], m[1], m[2], m[3], pin);
  RP->nontrivial(hstr(cx));
  RP->sample("k", cx);
  ldouble E1 = -1, E2 = -1, po = -1, E3 = -1, E4 = -1;
  P.set_test_initializations(m[0], m[1], m[2], m[3], pin, E1, E2, po, E3, E4);
  LD rs = in[0][0] + in[1][0], thr = m[2] + m[3], po_ = sqrtl((rs - thr) * (rs + thr) * (rs - m[2] + m[3]) * (rs + m[2] - m[3])) / (2 * rs);
  LD amp = 1 + rs / (rs - thr);  // the difference to the threshold loses digits
  NEAR(C(E1), C(in[0][0]), 1e-17L * rs, "energy of the first particle", cx);
  NEAR(C(E2), C(in[1][0]), 1e-17L * rs, "energy of the second particle", cx);
  NEAR(C(po), C(po_), 1e-17L * amp * po_, "outgoing momentum", cx);
  NEAR(C(E3 + E4), C(rs), 2e-17L * amp * rs, "energy conservation", cx);
  NEAR(C(E3 * E3 - po * po), C(m[2] * m[2]), 2e-17L * rs * rs, "energy of the third particle", cx);
  NEAR(C(E4 * E4 - po * po), C(m[3] * m[3]), 2e-17L * rs * rs, "energy of the fourth particle", cx);
  int k = r.n(6);
  LD ct = k == 0 ? 1 : k == 1 ? -1 : k == 2 ? 0 : r.uni(-1, 1);
  ldouble p[4][4], q[4][4];
  for (auto &v : p) for (auto &x : v) x = 77;
  P.set_test_momenta(p[0], p[1], p[2], p[3], E1, E2, pin, E3, E4, po, ct);
  cx += fmt(", cosine %.15Lg", ct);
  const LD en[4] = {E1, E2, E3, E4};
  for (int n = 0; n < 4; n++) NEAR(C(p[n][0]), C(en[n]), 0, fmt("energy component of leg %d", n + 1), cx);
  for (int i = 1; i < 4; i++) {
    NEAR(C(p[0][i]), C(i == 3 ? pin : 0), 0, "first momentum along z", cx);
    NEAR(C(p[1][i]), C(i == 3 ? -pin : 0), 0, "second momentum opposite", cx);
    NEAR(C(p[3][i]), C(-p[2][i]), 1e-18L * po, "fourth momentum opposite", cx);
  }
  NEAR(C(p[2][3]), C(po * ct), 1e-18L * po, "angle of the third momentum", cx);
  NEAR(C(p[2][1] * p[2][1] + p[2][2] * p[2][2]), C(po * po * (1 - ct * ct)), 1e-17L * po * po, "transverse third momentum", cx);
  // random rotation and boost of four independent momenta
  LD e[4], sc = 0;
  for (int n = 0; n < 4; n++) {
    Mom a = gen(r, n ? 2 : 0, .1L, 100, .1L, 100);
    for (int i = 0; i < 4; i++) p[n][i] = a.p[i];
    e[n] = a.p[0];
    sc = std::max(sc, a.p[0]);
  }
  KF = 1;
  cx = "momenta";
  for (auto &v : p) cx += fmt(" (%.15Lg,%.15Lg,%.15Lg,%.15Lg)", v[0], v[1], v[2], v[3]);
  LD d0 = det4(p), dev[2] = {0, 0}, last[2] = {0, 0};
  bool varies[2] = {false, false};
  int N = 4;
  for (int b = 0; b < 2; b++)
    for (int t = 0; t < N; t++) {
      for (int n = 0; n < 4; n++) for (int i = 0; i < 4; i++) q[n][i] = p[n][i];
      if (b) P.boost_random_test_momenta(q[0], q[1], q[2], q[3]); else P.rotate_random_test_momenta(q[0], q[1], q[2], q[3]);
      const char *w = b ? "boost" : "rotation";
      LD g = 1;
      for (int n = 0; n < 4; n++) g = std::max(g, q[n][0] / e[n]);
      std::string cy = cx + fmt(", first becomes (%.15Lg,%.15Lg,%.15Lg,%.15Lg)", q[0][0], q[0][1], q[0][2], q[0][3]);
      for (int n = 0; n < 4; n++) {
        if (!b) NEAR(C(q[n][0]), C(e[n]), 1e-17L * e[n], "energy under the random rotation", cy);
        else TRUE(q[n][0] > 0, "energy stays positive under the random boost", cy);
        // a boost below the velocity 0.99 has gamma < 7.1, products of two boosted momenta lose gamma^4 digits at most
        for (int l = 0; l <= n; l++) NEAR(C(mdot(q[n], q[l])), C(mdot(p[n], p[l])), (b ? 1e-13L : 1e-16L) * e[n] * e[l], fmt("four-products under the random %s", w), cy);
      }
      LD s4 = e[0] * e[1] * e[2] * e[3];
      NEAR(C(det4(q)), C(d0), (b ? 1e-11L : 1e-15L) * s4, fmt("orientation under the random %s", w), cy);
      LD mv_ = 0;
      for (int n = 0; n < 4; n++) for (int i = 0; i < 4; i++) mv_ = std::max(mv_, fabsl(q[n][i] - p[n][i]));
      dev[b] = std::max(dev[b], mv_);
      LD mark = q[0][0] + 2 * q[0][1] + 3 * q[0][2] + 5 * q[0][3];
      if (t && mark != last[b]) varies[b] = true;
      last[b] = mark;
    }
  TRUE(dev[0] > 1e-9L * sc, "random rotations turn the momenta", cx);
  TRUE(dev[1] > 1e-9L * sc, "random boosts change the momenta", cx);
  TRUE(varies[0], "random rotations vary", cx);
  TRUE(varies[1], "random boosts vary", cx);
  // the message about a wrong value
  if (r.n(8) == 0) {
    LD a = (r.n(2) ? 1 : -1) * r.logu(1e-6L, 1e6L), d = r.logu(1e-6L, 1e6L);
    static const char *nm[] = {"Lab Frame", "Random Boost", "xyz frame"};
    const char *f = nm[r.n(3)];
    std::string t = printed([&] { P.print_test_message(f, m[0], m[1], m[2], m[3], a, d, ct); });
    RP->stat("messages");
    RP->sample("p", t);
    TRUE(t.find(f) != std::string::npos, "message names the frame", t);
    std::vector<LD> n = numbers(t);
    const LD want[] = {m[0], m[1], m[2], m[3], a, d, ct, a / d};
    for (LD v : want) {
      bool found = false;
      for (LD y : n) found |= fabsl(y - v) <= 1e-5L * fabsl(v);
      TRUE(found, "message shows the values", fmt("%.9Lg in: ", v) + t);
    }
  }
}

// ------------------------------------------------------------------ C16
// Objects and what each of them must be; values are passed around in every way C++ offers.
template <class T> static T passed(T x) { return x; }
template <class T, class M, class New, class Mut, class Cmp>
static void pool(Rng &r, const char *kind, New fresh, Mut mut, Cmp cmp) {
  std::vector<T> v;
  std::vector<M> m;
  std::string log = std::string(kind) + ":";
  auto add = [&](const T &x, const M &k) {
    if (r.n(2)) { v.push_back(x); m.push_back(k); }
    else { size_t at = r.n(v.size() + 1); v.insert(v.begin() + at, x); m.insert(m.begin() + at, k); }
  };
  for (int i = 1 + r.n(3); i > 0; i--) { M k; T x = fresh(r, k); add(x, k); }
  int nops = 4 + r.n(10);
  for (int n = 0; n < nops; n++) {
    int i = r.n(v.size()), j = r.n(v.size()), op = r.n(12);
    RP->stat("operations");
    log += fmt(" %d(%d,%d)", op, i, j);
    if (op == 0) { T x(v[i]); M k = m[i]; add(x, k); }
    else if (op == 1) { v[i] = v[j]; m[i] = m[j]; }
    else if (op == 2) { T &self = v[i]; v[i] = self; }
    else if (op == 3) { std::swap(v[i], v[j]); std::swap(m[i], m[j]); }
    else if (op == 4) { T x(std::move(v[i])); M k = m[i]; v[i] = fresh(r, m[i]); cmp(x, k, r, log); }
    else if (op == 5) { T x = v[i]; M k = m[i]; mut(x, k, r); cmp(x, k, r, log); }            // the copy changes, the original does not
    else if (op == 6) { T x = v[i]; M k = m[i]; mut(v[i], m[i], r); cmp(x, k, r, log); }      // and the other way round
    else if (op == 7) { T x = passed(v[i]); cmp(x, m[i], r, log); }
    else if (op == 8) { std::vector<T> w(v); std::vector<M> k(m); mut(w[i], k[i], r); v.swap(w); m.swap(k); if (r.n(2)) { cmp(w[i], k[i], r, log); } }
    else if (op == 9 && v.size() > 1) { v.erase(v.begin() + i); m.erase(m.begin() + i); }
    else if (op == 10) { T x = fresh(r, m[i]); v[i] = std::move(x); }
    else { mut(v[i], m[i], r); }
    i = r.n(v.size());
    cmp(v[i], m[i], r, log);
    if (v.size() > 12) { v.resize(6, v[0]); m.resize(6); }
  }
  for (size_t i = 0; i < v.size(); i++) cmp(v[i], m[i], r, log);
  RP->nontrivial(hstr(log) ^ r.s);
  RP->sample(kind, log);
}
static void c16(Rng &r) {
  auto num = [](Rng &q) { return cdouble(q.uni(-10, 10), q.uni(-10, 10)); };
  int kind = r.n(5);
  if (kind == 0) {
    struct M { cdouble a, b; };
    auto fresh = [&](Rng &q, M &k) { k = {num(q), num(q)}; return cvector(k.a, k.b); };
    pool<cvector, M>(r, "vectors", fresh, [&](cvector &x, M &k, Rng &q) { k = {num(q), num(q)}; x = cvector(k.a, k.b); },
      [](cvector &x, const M &k, Rng &, const std::string &log) { TRUE(x.get(0) == k.a && x.get(1) == k.b, "copied vector", log); });
  } else if (kind == 1) {
    struct M { cdouble a[4]; };
    auto fresh = [&](Rng &q, M &k) { for (auto &x : k.a) x = num(q); return cmatrix(k.a[0], k.a[1], k.a[2], k.a[3]); };
    pool<cmatrix, M>(r, "matrices", fresh, [&](cmatrix &x, M &k, Rng &q) {
        int w = q.n(3);
        if (w == 0) { x *= 2; for (auto &y : k.a) y *= 2; }
        else if (w == 1) { x += x; for (auto &y : k.a) y += y; }
        else x = fresh(q, k);
      },
      [](cmatrix &x, const M &k, Rng &, const std::string &log) { TRUE(x.get(0, 0) == k.a[0] && x.get(0, 1) == k.a[1] && x.get(1, 0) == k.a[2] && x.get(1, 1) == k.a[3], "copied matrix", log); });
  } else if (kind == 2) {
    struct M { LD m, w; };
    auto fresh = [](Rng &q, M &k) { k = {q.uni(0, 100), q.uni(0, 5)}; return propagator(k.m, k.w); };
    pool<propagator, M>(r, "propagators", fresh, [](propagator &x, M &k, Rng &q) {
        if (q.n(2)) { k.m = q.uni(0, 100); x.set_mass(k.m); } else { k.w = q.uni(0, 5); x.set_width(k.w); }
      },
      [](propagator &x, const M &k, Rng &q, const std::string &log) {
        ldouble p[4];
        for (auto &y : p) y = q.uni(-50, 50);
        NEAR(z(x.denominator(p)), C((LD)p[0] * p[0] - p[1] * p[1] - p[2] * p[2] - p[3] * p[3] - k.m * k.m, -k.m * k.w), 1e-15L * 2e4L, "copied propagator", log);
      });
  } else {
    auto fresh = [](Rng &q, Mom &k) { k = gen(q, 2, .01L, 100, .05L, 100); particle P(k.p, k.m); peek(P, q); return P; };
    auto mut = [](particle &x, Mom &k, Rng &q) {
      Mom m = gen(q, 2, .01L, 100, .05L, 100);
      if (q.n(2)) { m = gen(q, k.m > 0, .01L, 100); m.m = k.m; kin::onshell(m.p, m.m); } else x.set_mass(m.m);
      x.set_momentum(m.p);
      k = m;
      peek(x, q);
    };
    if (kind == 3) { pool<particle, Mom>(r, "particles", fresh, mut, [](particle &x, const Mom &k, Rng &q, const std::string &log) { cmpP(x, k, q, log, "copied particle"); }); return; }
    // products over a fixed set of particles, some of which change
    const int np = 4;
    std::vector<std::unique_ptr<particle>> P;
    std::vector<Mom> k;
    for (int i = 0; i < np; i++) { Mom m = gen(r, i % 2, .01L, 100, .05L, 100); P.emplace_back(new particle(m.p, m.m)); k.push_back(m); }
    struct M { bool as, lu, ru; int l, rr, N, q[3], version; };
    int version = 0;
    auto build = [&](const M &x, std::vector<std::unique_ptr<particle>> &F) {
      particle *q[3];
      for (int i = 0; i < x.N; i++) q[i] = F[x.q[i]].get();
      return make(x.N, 3, x.as, F[x.l].get(), x.lu, F[x.rr].get(), x.ru, q);
    };
    auto newprod = [&](Rng &q, M &x) {
      x.as = q.n(2); x.l = q.n(np); x.rr = q.n(np); x.N = q.n(4); x.lu = k[x.l].m == 0 || q.n(2); x.ru = k[x.rr].m == 0 || q.n(2); x.version = version;
      for (auto &y : x.q) y = q.n(np);
      std::unique_ptr<sproduct> s(build(x, P));
      return sproduct(*s);
    };
    auto cmp = [&](sproduct &s, const M &x, Rng &q, const std::string &log) {
      if (x.version != version || q.n(3) == 0) s.update();  // needed after a change of the particles
      std::vector<std::unique_ptr<particle>> F;
      for (auto &m : k) F.emplace_back(new particle(m.p, m.m));
      std::unique_ptr<sproduct> f(build(x, F));
      LD sc = 2 * sqrtl((1 + k[x.l].p[0]) * (1 + k[x.rr].p[0]));
      for (int i = 0; i < x.N; i++) sc *= 2 * (1 + k[x.q[i]].p[0]);
      for (int n = 0; n < 3; n++) {
        int a = q.n(2) ? 1 : -1, b = q.n(2) ? 1 : -1;
        NEAR(value(s, k[x.l], a, k[x.rr], b), value(*f, k[x.l], a, k[x.rr], b), 1e-16L * sc, "copied product", log);
      }
    };
    pool<sproduct, M>(r, "products", newprod, [&](sproduct &s, M &x, Rng &q) {
        if (q.n(2)) {
          int i = q.n(np);
          Mom m = gen(q, k[i].m > 0, .01L, 100);
          m.m = k[i].m;
          kin::onshell(m.p, m.m);
          P[i]->set_momentum(m.p);
          k[i] = m;
          version++;
          s.update();
          x.version = version;
        } else s = newprod(q, x);
      }, cmp);
  }
}
int main(int argc, char **argv) {
  Report R(argc, argv);
  RP = &R;
  if (!R.out.empty() && !freopen("/dev/null", "w", stdout)) return 3;  // the library prints usage messages
  if (R.mode.empty()) R.mode = R.prop;
  WHAT = R.mode.c_str();
  int k = atoi(R.mode.c_str() + 1);
  if (k == 11) {
    int job = 0;
    static const int lab[3] = {-2, 0, 2};
    for (int len = 1; len <= (R.scale > 1 ? 6 : R.n(9, 11)); len++) {
      int tot = 1;
      for (int i = 0; i < len; i++) tot *= 3;
      for (int c = 0; c < tot; c++) {
        if (!R.mine(job++)) continue;
        if (len > 6 && c % 7 != (int)(R.seed % 7)) continue;
        if (!R.begin(fmt("labels%d#%d", len, c))) continue;
        std::vector<int> d;
        for (int i = 0, x = c; i < len; i++, x /= 3) d.push_back(lab[x % 3]);
        c11(d, len > 6);
      }
    }
    return R.finish();
  }
  static void (*const F[])(Rng &) = {0, c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, 0, c12, c13, c14, c15, c16};
  static const int Nq[] = {0, 800000, 800000, 400000, 320000, 400000, 240000, 160000, 480000, 300000, 800000, 0, 40000, 3200, 320000, 80000, 240000};
  int n = R.n(Nq[k], 10 * Nq[k]);
  for (int i = 0; i < n; i++)
    if (R.mine(i)) R.run(R.mode, i, [&](Rng &r) { KF = 1; F[k](r); });
  return R.finish();
}
