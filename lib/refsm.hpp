// Independent tree-level reference for 2->2 Standard Model scattering.
//
// Textbook Feynman rules in unitary gauge, evaluated numerically with Dirac spinors in the chiral
// basis and explicit polarisation vectors. It shares no code, convention or intermediate quantity
// with the library under observation. Templated on the real type so that a disagreement seen in
// long double can be adjudicated in __float128.
#ifndef REFSM_HPP
#define REFSM_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <quadmath.h>

namespace refsm {

inline long double rsqrt_(long double x) { return std::sqrt(x); }
inline __float128 rsqrt_(__float128 x) { return sqrtq(x); }
inline long double rabs_(long double x) { return std::fabs(x); }
inline __float128 rabs_(__float128 x) { return fabsq(x); }

template <class R> struct Cx {
  R r, i;
  Cx() : r(0), i(0) {}
  Cx(R a) : r(a), i(0) {}
  Cx(R a, R b) : r(a), i(b) {}
  Cx operator+(const Cx &o) const { return Cx(r + o.r, i + o.i); }
  Cx operator-(const Cx &o) const { return Cx(r - o.r, i - o.i); }
  Cx operator-() const { return Cx(-r, -i); }
  Cx operator*(const Cx &o) const { return Cx(r * o.r - i * o.i, r * o.i + i * o.r); }
  Cx operator/(const Cx &o) const {
    R n = o.r * o.r + o.i * o.i;
    return Cx((r * o.r + i * o.i) / n, (i * o.r - r * o.i) / n);
  }
  Cx &operator+=(const Cx &o) { r += o.r; i += o.i; return *this; }
  Cx conj() const { return Cx(r, -i); }
  R norm() const { return r * r + i * i; }
};

// ---- model -------------------------------------------------------------------------------------
enum Field { FA, FZ, FWp, FWm, Fh, Fg, Fu, Fc, Ft, Fd, Fs, Fb, Fe, Fm, Fl, Fne, Fnm, Fnl, NFIELD };

struct Leg { int f; bool anti; };  // f a Field; anti only meaningful for fermions

inline bool is_fermion(int f) { return f >= Fu; }
inline bool is_quark(int f) { return f >= Fu && f <= Fb; }
inline bool is_nu(int f) { return f >= Fne; }
inline bool is_vector(int f) { return f == FA || f == FZ || f == FWp || f == FWm || f == Fg; }
inline int conj_field(int f) { return f == FWp ? FWm : f == FWm ? FWp : f; }
inline int partner(int f) {
  switch (f) {
    case Fu: return Fd; case Fd: return Fu; case Fc: return Fs; case Fs: return Fc;
    case Ft: return Fb; case Fb: return Ft; case Fe: return Fne; case Fne: return Fe;
    case Fm: return Fnm; case Fnm: return Fm; case Fl: return Fnl; case Fnl: return Fl;
  }
  return -1;
}
inline bool is_up(int f) { return f == Fu || f == Fc || f == Ft || is_nu(f); }

inline bool parse_leg(const std::string &s, Leg &L) {
  static const struct { const char *n; int f; bool a; } T[] = {
      {"A", FA, 0}, {"Z", FZ, 0}, {"W+", FWp, 0}, {"W-", FWm, 0}, {"h", Fh, 0}, {"g", Fg, 0},
      {"u", Fu, 0}, {"U", Fu, 1}, {"c", Fc, 0}, {"C", Fc, 1}, {"t", Ft, 0}, {"T", Ft, 1},
      {"d", Fd, 0}, {"D", Fd, 1}, {"s", Fs, 0}, {"S", Fs, 1}, {"b", Fb, 0}, {"B", Fb, 1},
      {"e", Fe, 0}, {"E", Fe, 1}, {"m", Fm, 0}, {"M", Fm, 1}, {"l", Fl, 0}, {"L", Fl, 1},
      {"ne", Fne, 0}, {"Ne", Fne, 1}, {"nm", Fnm, 0}, {"Nm", Fnm, 1}, {"nl", Fnl, 0}, {"Nl", Fnl, 1}};
  for (auto &t : T) if (s == t.n) { L.f = t.f; L.anti = t.a; return true; }
  return false;
}

template <class R> struct Par {
  R e, gs, sw, cw, MW, MZ, mh, wh, WW, WZ;
  R mf[NFIELD];
  bool qed;  // photon exchange only
  R Q(int f) const {
    return (f == Fu || f == Fc || f == Ft) ? R(2) / R(3) : (f == Fd || f == Fs || f == Fb) ? R(-1) / R(3) : is_nu(f) ? R(0) : R(-1);
  }
  R I3(int f) const { return is_up(f) ? R(1) / R(2) : R(-1) / R(2); }
  R mass(int f) const {
    switch (f) {
      case FZ: return MZ; case FWp: case FWm: return MW; case Fh: return mh; case FA: case Fg: return R(0);
    }
    return is_nu(f) ? R(0) : mf[f];
  }
  R width(int f) const {
    switch (f) { case FZ: return WZ; case FWp: case FWm: return WW; case Fh: return wh; }
    return R(0);
  }
};

template <class R> struct Amp {
  typedef Cx<R> C;
  struct V4 { C v[4]; V4() {} };
  struct Sp { C v[4]; };

  const Par<R> &P;
  Leg leg[4];
  bool in[4];          // physical direction
  R p[4][4], k[4][4];  // physical momenta; all-incoming momenta
  int inf_[4];         // boson field type when regarded as incoming
  bool isrow[4];       // fermions

  Amp(const Par<R> &P_, const Leg L[4], const R mom[4][4]) : P(P_) {
    for (int i = 0; i < 4; i++) {
      leg[i] = L[i]; in[i] = i < 2;
      for (int m = 0; m < 4; m++) { p[i][m] = mom[i][m]; k[i][m] = in[i] ? p[i][m] : -p[i][m]; }
      inf_[i] = in[i] ? L[i].f : conj_field(L[i].f);
      isrow[i] = is_fermion(L[i].f) && (in[i] == L[i].anti);
    }
  }

  // ---- wavefunctions
  static void dirn(const R q[4], R &mag, R &ct2, R &st2, R &cp, R &sp) {
    mag = rsqrt_(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    R pt = rsqrt_(q[1] * q[1] + q[2] * q[2]);
    if (mag == R(0)) { ct2 = 1; st2 = 0; cp = 1; sp = 0; return; }
    // half angle, cancellation free on both sides
    if (q[3] >= 0) { ct2 = rsqrt_((mag + q[3]) / (2 * mag)); st2 = pt / (2 * mag * ct2); }
    else { st2 = rsqrt_((mag - q[3]) / (2 * mag)); ct2 = pt / (2 * mag * st2); }
    if (pt == R(0)) { cp = 1; sp = 0; } else { cp = q[1] / pt; sp = q[2] / pt; }
  }
  static void xi(const R q[4], int h, C x[2]) {
    R mag, c, s, cp, sp;
    dirn(q, mag, c, s, cp, sp);
    if (h > 0) { x[0] = C(c); x[1] = C(s * cp, s * sp); }
    else { x[0] = C(-s * cp, s * sp); x[1] = C(c); }
  }
  static void wroots(const R q[4], R m, R &rp, R &rm) {
    R mag = rsqrt_(q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
    rp = rsqrt_(q[0] + mag);
    rm = m == R(0) ? R(0) : m / rp;
  }
  static Sp u_(const R q[4], R m, int h) {
    R rp, rm; wroots(q, m, rp, rm);
    C x[2]; xi(q, h, x);
    Sp s; R a = h > 0 ? rm : rp, b = h > 0 ? rp : rm;
    s.v[0] = x[0] * C(a); s.v[1] = x[1] * C(a); s.v[2] = x[0] * C(b); s.v[3] = x[1] * C(b);
    return s;
  }
  static Sp v_(const R q[4], R m, int h) {  // antiparticle of physical helicity h
    R rp, rm; wroots(q, m, rp, rm);
    C x[2]; xi(q, -h, x);
    Sp s; R a = h > 0 ? rp : rm, b = h > 0 ? rm : rp;
    s.v[0] = x[0] * C(a); s.v[1] = x[1] * C(a); s.v[2] = -(x[0] * C(b)); s.v[3] = -(x[1] * C(b));
    return s;
  }
  static Sp bar(const Sp &a) {  // row psi^dagger gamma^0
    Sp b; b.v[0] = a.v[2].conj(); b.v[1] = a.v[3].conj(); b.v[2] = a.v[0].conj(); b.v[3] = a.v[1].conj();
    return b;
  }
  static V4 pol(const R q[4], R m, int h) {  // h = +1,0,-1 incoming polarisation
    R mag, c, s, cp, sp;
    dirn(q, mag, c, s, cp, sp);
    R ct = (c - s) * (c + s), st = 2 * s * c;
    V4 e;
    if (h == 0) {
      R E = q[0];
      e.v[0] = C(mag / m); e.v[1] = C(E / m * st * cp); e.v[2] = C(E / m * st * sp); e.v[3] = C(E / m * ct);
      return e;
    }
    R n = R(1) / rsqrt_(R(2)), sg = R(h);
    // e = (-+ e_theta - i e_phi)/sqrt2
    e.v[0] = C(0);
    e.v[1] = C(-sg * ct * cp * n, sp * n);
    e.v[2] = C(-sg * ct * sp * n, -cp * n);
    e.v[3] = C(sg * st * n);
    return e;
  }
  static C dot(const V4 &a, const V4 &b) { return a.v[0] * b.v[0] - a.v[1] * b.v[1] - a.v[2] * b.v[2] - a.v[3] * b.v[3]; }
  static C dotk(const R q[4], const V4 &b) { return C(q[0]) * b.v[0] - C(q[1]) * b.v[1] - C(q[2]) * b.v[2] - C(q[3]) * b.v[3]; }
  static V4 scale(const C &c, const V4 &a) { V4 r; for (int i = 0; i < 4; i++) r.v[i] = c * a.v[i]; return r; }
  static V4 add(const V4 &a, const V4 &b) { V4 r; for (int i = 0; i < 4; i++) r.v[i] = a.v[i] + b.v[i]; return r; }

  // a-slash (contravariant a) acting on column: gamma^mu a_mu, chiral basis, sigma/sigmabar blocks
  static Sp slash(const V4 &a, const Sp &x) {
    C a0 = a.v[0], a1 = a.v[1], a2 = a.v[2], a3 = a.v[3], I(R(0), R(1));
    // upper-right block a.sigma = a0 - a.sigma_vec ; lower-left a.sigmabar = a0 + a.sigma_vec
    Sp y;
    y.v[0] = (a0 - a3) * x.v[2] - (a1 - I * a2) * x.v[3];
    y.v[1] = -((a1 + I * a2) * x.v[2]) + (a0 + a3) * x.v[3];
    y.v[2] = (a0 + a3) * x.v[0] + (a1 - I * a2) * x.v[1];
    y.v[3] = (a1 + I * a2) * x.v[0] + (a0 - a3) * x.v[1];
    return y;
  }
  static C rc(const Sp &row, const Sp &col) {
    C s; for (int i = 0; i < 4; i++) s += row.v[i] * col.v[i];
    return s;
  }
  // chiral projection weights: (gL P_L + gR P_R) col
  static Sp chir(R gL, R gR, const Sp &x) {
    Sp y; y.v[0] = x.v[0] * C(gL); y.v[1] = x.v[1] * C(gL); y.v[2] = x.v[2] * C(gR); y.v[3] = x.v[3] * C(gR);
    return y;
  }

  // ---- couplings
  // fermion-fermion-vector with incoming vector field V: row f2, column f1
  bool gffv(int V, int f2, int f1, R &gL, R &gR) const {
    if (V == FA) { if (f1 != f2) return false; gL = gR = -P.e * P.Q(f1); return P.Q(f1) != R(0); }
    if (V == Fg) { if (f1 != f2 || !is_quark(f1)) return false; gL = gR = P.gs; return true; }
    if (P.qed) return false;
    if (V == FZ) {
      if (f1 != f2) return false;
      gR = -P.e * P.sw / P.cw * P.Q(f1);
      gL = P.e * (P.I3(f1) - P.sw * P.sw * P.Q(f1)) / (P.sw * P.cw);
      return true;
    }
    if (V == FWp) { if (partner(f1) != f2 || !is_up(f2)) return false; gR = 0; gL = P.e / (rsqrt_(R(2)) * P.sw); return true; }
    if (V == FWm) { if (partner(f1) != f2 || !is_up(f1)) return false; gR = 0; gL = P.e / (rsqrt_(R(2)) * P.sw); return true; }
    return false;
  }
  R gffh(int f) const { return P.qed ? R(0) : -P.e * P.mass(f) / (2 * P.sw * P.MW); }

  // ---- amplitude for one helicity assignment, split by colour structure
  // c[0]: pairing 1 colourless, c[1]: pairing 2 colourless, c[2]: pairing 1 gluon, c[3]: pairing 2 gluon
  // for q qbar g g: c[0] = T^x T^y, c[1] = T^y T^x (x the lower-numbered gluon leg)
  struct Out { C c[4]; };

  void wave(int i, int h, V4 &b, Sp &s, int gaugeleg) const {
    int f = leg[i].f; R m = P.mass(f);
    if (is_vector(f)) {
      if (gaugeleg == i) { for (int a = 0; a < 4; a++) b.v[a] = C(p[i][a]); return; }
      b = pol(p[i], m, h);
      if (!in[i]) for (int a = 0; a < 4; a++) b.v[a] = b.v[a].conj();
    } else if (f == Fh) { b.v[0] = C(1); }
    else if (isrow[i]) s = leg[i].anti ? bar(v_(p[i], m, h)) : bar(u_(p[i], m, h));
    else s = leg[i].anti ? v_(p[i], m, h) : u_(p[i], m, h);
  }

  // triple vector vertex coefficient for ordered incoming (a,b,c); 0 if absent
  R gvvv(int a, int b, int c) const {
    int x[3] = {a, b, c};
    int n = -1, pl = -1, mi = -1;
    for (int i = 0; i < 3; i++) { if (x[i] == FA || x[i] == FZ) n = i; if (x[i] == FWp) pl = i; if (x[i] == FWm) mi = i; }
    if (n < 0 || pl < 0 || mi < 0) return R(0);
    R g = x[n] == FA ? P.e : -P.e * P.cw / P.sw;
    bool even = (n == 0 && pl == 1) || (n == 1 && pl == 2) || (n == 2 && pl == 0);
    return even ? g : -g;
  }
  // current with free index from vectors 1,2 (momenta k1,k2 incoming): third momentum k3=-(k1+k2)
  static V4 vvvcur(const R k1[4], const V4 &e1, const R k2[4], const V4 &e2) {
    R k3[4]; for (int m = 0; m < 4; m++) k3[m] = -(k1[m] + k2[m]);
    V4 r; C d = dot(e1, e2);
    R a[4], b[4], c[4];
    for (int m = 0; m < 4; m++) { a[m] = k1[m] - k2[m]; b[m] = k2[m] - k3[m]; c[m] = k3[m] - k1[m]; }
    C be1 = dotk(b, e1), ce2 = dotk(c, e2);
    for (int m = 0; m < 4; m++) r.v[m] = d * C(a[m]) + be1 * e2.v[m] + ce2 * e1.v[m];
    return r;
  }
  R ghvv(int V) const {
    if (V == FZ) return P.e * P.MW / (P.cw * P.cw * P.sw);
    if (V == FWp || V == FWm) return P.e * P.MW / P.sw;
    return R(0);
  }
  C den(const R q[4], int f) const {
    R m = P.mass(f);
    R q2 = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3];
    return C(q2 - m * m, m * P.width(f));
  }
  C vexch(const R q[4], int f, const V4 &a, const V4 &b) const {
    C r = dot(a, b);
    R m = P.mass(f);
    if (m != R(0)) r = r - dotk(q, a) * dotk(q, b) / C(m * m);
    return r / den(q, f);
  }

  struct Cur { int X; V4 v; C s; };  // X = field that must come in at this vertex

  // bosonic currents from a pair of bosons or a fermion pair
  void pair_cur(int i, int j, const V4 *b, const Sp *s, std::vector<Cur> &out) const {
    bool fi = is_fermion(leg[i].f), fj = is_fermion(leg[j].f);
    if (fi != fj) return;
    if (fi) {
      if (isrow[i] == isrow[j]) return;
      int r = isrow[i] ? i : j, c = isrow[i] ? j : i;
      static const int VV[5] = {FA, FZ, FWp, FWm, Fg};
      for (int V : VV) {
        R gL, gR;
        if (!gffv(V, leg[r].f, leg[c].f, gL, gR)) continue;
        Sp x = chir(gL, gR, s[c]);
        Cur q; q.X = V;
        for (int m = 0; m < 4; m++) {  // contravariant current: row gamma^mu x = slash with covariant unit vector
          V4 ev; ev.v[m] = C(m == 0 ? R(1) : R(-1));
          q.v.v[m] = rc(s[r], slash(ev, x));
        }
        out.push_back(q);
      }
      if (leg[r].f == leg[c].f && gffh(leg[r].f) != R(0)) {
        Cur q; q.X = Fh; q.s = C(gffh(leg[r].f)) * rc(s[r], s[c]); out.push_back(q);
      }
      return;
    }
    int A = inf_[i], B = inf_[j];
    if (A == Fg && B == Fg) { Cur q; q.X = Fg; q.v = vvvcur(k[i], b[i], k[j], b[j]); out.push_back(q); return; }
    if (A == Fg || B == Fg) return;
    if (is_vector(A) && is_vector(B)) {
      static const int VV[4] = {FA, FZ, FWp, FWm};
      for (int V : VV) {
        R g = gvvv(A, B, V);
        if (g != R(0)) { Cur q; q.X = V; q.v = scale(C(g), vvvcur(k[i], b[i], k[j], b[j])); out.push_back(q); }
      }
      if (B == conj_field(A) && ghvv(A) != R(0)) { Cur q; q.X = Fh; q.s = C(ghvv(A)) * dot(b[i], b[j]); out.push_back(q); }
      return;
    }
    if (A == Fh && B == Fh) { Cur q; q.X = Fh; q.s = C(-3 * P.e * P.mh * P.mh / (2 * P.MW * P.sw)) * b[i].v[0] * b[j].v[0]; out.push_back(q); return; }
    int V = A == Fh ? B : A; const V4 &e = A == Fh ? b[j] : b[i];
    if (is_vector(V) && ghvv(V) != R(0)) { Cur q; q.X = conj_field(V); q.v = scale(C(ghvv(V)), e); out.push_back(q); }
  }

  C contact(const V4 *b) const {
    int f[4]; int nv = 0, nh = 0;
    for (int i = 0; i < 4; i++) { f[i] = inf_[i]; if (is_fermion(f[i])) return C(0); if (f[i] == Fh) nh++; else nv++; }
    R e2 = P.e * P.e, s2 = P.sw * P.sw, c2 = P.cw * P.cw;
    if (nh == 4) return C(-R(3) / R(4) * e2 * P.mh * P.mh / (P.MW * P.MW * s2));
    if (nh == 2) {
      int v[2], n = 0; for (int i = 0; i < 4; i++) if (f[i] != Fh) v[n++] = i;
      if (f[v[1]] != conj_field(f[v[0]])) return C(0);
      if (f[v[0]] == FZ) return C(e2 / (2 * c2 * s2)) * dot(b[v[0]], b[v[1]]);
      if (f[v[0]] == FWp || f[v[0]] == FWm) return C(e2 / (2 * s2)) * dot(b[v[0]], b[v[1]]);
      return C(0);
    }
    if (nh) return C(0);
    std::vector<int> wp, wm, nn;
    for (int i = 0; i < 4; i++) { if (f[i] == FWp) wp.push_back(i); else if (f[i] == FWm) wm.push_back(i); else nn.push_back(i); }
    R cc; int a0, a1, a2, a3;
    if (wp.size() == 2 && wm.size() == 2) { cc = R(1) / s2; a0 = wp[0]; a1 = wp[1]; a2 = wm[0]; a3 = wm[1]; }
    else if (wp.size() == 1 && wm.size() == 1 && nn.size() == 2) {
      int z = (f[nn[0]] == FZ) + (f[nn[1]] == FZ);
      if (f[nn[0]] == Fg || f[nn[1]] == Fg) return C(0);
      cc = z == 2 ? -c2 / s2 : z == 1 ? P.cw / P.sw : R(-1);
      a0 = wp[0]; a1 = wm[0]; a2 = nn[0]; a3 = nn[1];
    } else return C(0);
    return C(e2 * cc) * (C(2) * dot(b[a0], b[a1]) * dot(b[a2], b[a3]) - dot(b[a1], b[a2]) * dot(b[a0], b[a3]) - dot(b[a2], b[a0]) * dot(b[a1], b[a3]));
  }

  Out eval(const int h[4], int gaugeleg = -1) const {
    V4 b[4]; Sp s[4];
    for (int i = 0; i < 4; i++) wave(i, h[i], b[i], s[i], gaugeleg);
    Out o;
    int nf = 0, ng = 0; for (int i = 0; i < 4; i++) { nf += is_fermion(leg[i].f); ng += leg[i].f == Fg; }
    static const int ch[3][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}};
    if (ng == 4) {  // colour structures f^{12}f^{34}, f^{13}f^{24}, f^{14}f^{23} in c[0..2]
      R g2 = P.gs * P.gs;
      for (int n = 0; n < 3; n++) {
        const int *c = ch[n]; R q[4]; for (int m = 0; m < 4; m++) q[m] = k[c[0]][m] + k[c[1]][m];
        V4 v1 = vvvcur(k[c[0]], b[c[0]], k[c[1]], b[c[1]]), v2 = vvvcur(k[c[2]], b[c[2]], k[c[3]], b[c[3]]);
        R q2 = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3];
        // (gs V1)(-i/q2)(gs V2) = i M  =>  M = -gs^2 V1.V2/q2 ; contact: M = -gs^2 (...)
        o.c[n] = C(-g2) * (dot(v1, v2) / C(q2) + dot(b[c[0]], b[c[2]]) * dot(b[c[1]], b[c[3]]) - dot(b[c[0]], b[c[3]]) * dot(b[c[1]], b[c[2]]));
      }
      return o;
    }
    int firstrow = -1, firstcol = -1;
    for (int i = 3; i >= 0; i--) if (is_fermion(leg[i].f)) { if (isrow[i]) firstrow = i; else firstcol = i; }
    for (int n = 0; n < 3; n++) {
      const int *c = ch[n];
      R q[4]; for (int m = 0; m < 4; m++) q[m] = k[c[0]][m] + k[c[1]][m];
      // boson exchange
      std::vector<Cur> A, B;
      pair_cur(c[0], c[1], b, s, A);
      pair_cur(c[2], c[3], b, s, B);
      for (auto &x : A) for (auto &y : B) {
        if (y.X != conj_field(x.X)) continue;
        C val;
        if (x.X == Fh) val = -(x.s * y.s / den(q, Fh));
        else val = vexch(q, x.X, x.v, y.v);
        if (nf == 4) {
          // pairing 1 joins firstrow with firstcol
          bool p1 = false;
          for (int t = 0; t < 2; t++) { int u = c[2 * t], w = c[2 * t + 1]; if ((u == firstrow && w == firstcol) || (w == firstrow && u == firstcol)) p1 = true; }
          bool gl = x.X == Fg;
          if (!p1) val = -val;
          o.c[(p1 ? 0 : 1) + (gl ? 2 : 0)] += val;
        } else if (nf == 2 && x.X == Fg) {
          // quark current carries gs; three-gluon current needs gs: M = -gs [T^x,T^y] J.V/q2 for gluons in leg order
          C t = C(-P.gs) * val;
          o.c[0] += t; o.c[1] += -t;
        } else o.c[0] += val;
      }
      // fermion exchange
      if (nf == 2) {
        int r = firstrow, cl = firstcol;
        int br = -1, bc = -1;
        for (int t = 0; t < 2; t++) { int u = c[2 * t], w = c[2 * t + 1]; if (u == r) br = w; if (w == r) br = u; if (u == cl) bc = w; if (w == cl) bc = u; }
        if (br == cl || is_fermion(leg[br].f)) continue;
        // loop over possible intermediate flavours
        for (int X = Fu; X < NFIELD; X++) {
          R gL, gR; Sp x;
          int B1 = inf_[bc];
          if (B1 == Fh) { if (X != leg[cl].f) continue; R g = gffh(X); x = chir(g, g, s[cl]); }
          else { if (!gffv(B1, X, leg[cl].f, gL, gR)) continue; x = slash(b[bc], chir(gL, gR, s[cl])); }
          R pq[4]; V4 pv; for (int m = 0; m < 4; m++) { pq[m] = k[cl][m] + k[bc][m]; pv.v[m] = C(pq[m]); }
          R mX = P.mass(X);
          Sp y = slash(pv, x); for (int m = 0; m < 4; m++) y.v[m] += C(mX) * x.v[m];
          int B2 = inf_[br]; C val;
          if (B2 == Fh) { if (X != leg[r].f) continue; R g = gffh(X); val = rc(s[r], chir(g, g, y)); }
          else { if (!gffv(B2, leg[r].f, X, gL, gR)) continue; val = rc(s[r], slash(b[br], chir(gL, gR, y))); }
          R q2 = pq[0] * pq[0] - pq[1] * pq[1] - pq[2] * pq[2] - pq[3] * pq[3];
          val = -(val / C(q2 - mX * mX));
          if (ng == 2) o.c[br < bc ? 0 : 1] += val;  // row T^{br} T^{bc} col
          else o.c[0] += val;
        }
      }
    }
    if (nf == 0) o.c[0] += contact(b);
    return o;
  }

  // colour-summed |M|^2 for one helicity assignment
  R colsum(const Out &o) const {
    int nq = 0, ng = 0, nf = 0;
    for (int i = 0; i < 4; i++) { nq += is_quark(leg[i].f); ng += leg[i].f == Fg; nf += is_fermion(leg[i].f); }
    auto re = [](const C &a, const C &b) { return (a * b.conj()).r; };
    if (ng == 4) {
      // <s,s>=72 ; <s,t>=36 ; <s,u>=-36 ; <t,u>=36   (N=3, from Jacobi c_s = c_t - c_u)
      return 72 * (o.c[0].norm() + o.c[1].norm() + o.c[2].norm()) + 72 * re(o.c[0], o.c[1]) - 72 * re(o.c[0], o.c[2]) + 72 * re(o.c[1], o.c[2]);
    }
    if (nq == 4) {
      C d1 = o.c[0], d2 = o.c[1], t1 = o.c[2], t2 = o.c[3];
      return 9 * (d1.norm() + d2.norm()) + 6 * re(d1, d2) + 2 * (t1.norm() + t2.norm()) - R(4) / R(3) * re(t1, t2) + 8 * re(d1, t2) + 8 * re(d2, t1);
    }
    if (nq == 2 && ng == 2) return R(16) / R(3) * (o.c[0].norm() + o.c[1].norm()) - R(4) / R(3) * re(o.c[0], o.c[1]);
    if (nq == 2 && ng == 1) return 4 * o.c[0].norm();
    if (nq == 2 && nf == 4) return 3 * (o.c[0] + o.c[1]).norm();
    if (nq == 2) return 3 * o.c[0].norm();
    return (o.c[0] + o.c[1]).norm();
  }
  std::vector<int> hels(int i) const {
    int f = leg[i].f;
    if (f == Fh) return {0};
    if (f == FA || f == Fg) return {-1, 1};
    if (is_vector(f)) return {-1, 0, 1};
    if (is_nu(f)) return {leg[i].anti ? 1 : -1};
    return {-1, 1};
  }
  R avg() const {
    R n = 1;
    for (int i = 0; i < 2; i++) { n *= R((int)hels(i).size()); if (is_quark(leg[i].f)) n *= 3; if (leg[i].f == Fg) n *= 8; }
    if (leg[2].f == leg[3].f && leg[2].anti == leg[3].anti) n *= 2;
    return n;
  }
  // summed/averaged; optional fixed helicities (9 = sum). pol_avg: fixed legs not averaged over
  R amp2(const int *fix = 0) const {
    R s = 0; int h[4];
    auto H0 = hels(0), H1 = hels(1), H2 = hels(2), H3 = hels(3);
    for (int a : H0) for (int b2 : H1) for (int c : H2) for (int d : H3) {
      h[0] = a; h[1] = b2; h[2] = c; h[3] = d;
      if (fix) { bool ok = true; for (int i = 0; i < 4; i++) if (fix[i] != 9 && fix[i] != h[i]) ok = false; if (!ok) continue; }
      s += colsum(eval(h));
    }
    R n = avg();
    if (fix) for (int i = 0; i < 2; i++) if (fix[i] != 9) n /= R((int)hels(i).size());
    return s / n;
  }
  R gauge_test(int g) const {  // sum of |M|^2 with polarisation of leg g replaced by its momentum
    R s = 0; int h[4];
    auto H0 = hels(0), H1 = hels(1), H2 = hels(2), H3 = hels(3);
    for (int a : H0) for (int b2 : H1) for (int c : H2) for (int d : H3) { h[0] = a; h[1] = b2; h[2] = c; h[3] = d; s += colsum(eval(h, g)); }
    return s / avg() / (p[g][0] * p[g][0]);
  }
};

}  // namespace refsm
#endif
