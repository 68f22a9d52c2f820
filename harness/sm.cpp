// Monitors for the Standard Model processes (S01-S16): every process object is driven through its
// public API at random points and compared with the independent tree-level reference, with itself in
// another frame, after another history, or with exchanged legs.
#include "smcase.hpp"
#include <algorithm>
using namespace smc;
namespace procs { std::vector<Info> &registry() { static std::vector<Info> r; return r; } }

static const LD TOL = 1e-9L, DIGITS = 1e-13L;
static const int LONG = 6000;
static bool stub(const Info &I) { return !strcmp(I.name, "eeAZ"); }

static void tally(Report &R, const Point &c, LD f, const char *kind) {
  R.eval();
  R.stat(fmt("frame%d", c.fs)); R.stat(fmt("masses%d", c.ps)); R.stat(fmt("energy%d", c.ks));
  if (f > 0 && std::isfinite((double)f)) R.nontrivial(mix(c.hash(), hstr(kind)));
}
static void verdict(Report &R, Verdict v, const std::string &key, const std::string &detail) {
  if (v == BROKEN) R.bad(key, detail);
  if (v == UNDECIDED) R.undecided++;
}
static LD refQ(const Point &c, const int *fix = 0) {
  Par<Q> P = toQ(c.P);
  Q q[4][4];
  momQ(c, q);
  Amp<Q> a(P, c.L, q);
  return (LD)a.amp2(fix);
}

// An object for the masses of c: constructed with them, set to them again, or set to them after others.
static Proc *made(Rng &r, const Point &c, int how) {
  if (how < 2) return c.I->make(c.P);
  if (how == 2) { Proc *x = c.I->make(c.P); x->masses(c.P); return x; }
  PL o = c.P;
  LD k = r.uni(.6L, 1.6L);
  o.MW *= k; o.MZ *= k;
  o.mh *= r.uni(.6L, 1.6L);
  for (auto &m : o.mf) m *= r.uni(.6L, 1.6L);
  Proc *x = c.I->make(o);
  x->masses(c.P);
  return x;
}

// ---- S01..S07: spin sums and polarised sums against the reference
static void sums(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c);
    std::unique_ptr<Proc> x(made(r, c, i % 4));
    x->momenta(c.p);
    LD a = x->amp2();
    Amp<LD> ref(c.P, c.L, c.p);
    LD f = ref.amp2(), err;
    tally(R, c, f, "sum");
    R.sample(I.sector, c.str() + fmt(" amp2=%.15Lg reference=%.15Lg", a, f));
    if (stub(I) && a == 0) { R.bad("eeAZ:amp2-is-zero", "the process is not implemented and always gives 0: " + c.str()); return; }
    Verdict v = judge(c, a, f, 0, [&] { return refQ(c); }, impl_amp2, TOL, err);
    verdict(R, v, fmt("%s:amp2", I.name), fmt("amp2=%.18Lg reference=%.18Lg relative error %.2Le at ", a, f, err) + c.str());
    for (size_t k = 0; k < I.pols.size(); k++) {
      bool feyn = !strcmp(I.pols[k].name, "amp2_Feynman");
      if (feyn && strcmp(I.name, "gggg")) continue;  // massless-quark formula, see below
      LD ap = x->pol(k), fp = ref.amp2(I.pols[k].fix);
      R.eval();
      v = judge(c, ap, fp, 1e-9L * f, [&] { return refQ(c, I.pols[k].fix); },
                [&](const Point &d) { std::unique_ptr<Proc> y(I.make(d.P)); y->momenta(d.p); return y->pol(k); }, TOL, err);
      verdict(R, v, fmt("%s:%s", I.name, I.pols[k].name),
              fmt("%s=%.18Lg reference=%.18Lg relative error %.2Le at ", I.pols[k].name, ap, fp, err) + c.str());
    }
    // amp2 must still be the same after the polarised evaluations
    LD a2 = x->amp2();
    if (a2 != a) R.bad(fmt("%s:repeat", I.name), fmt("second evaluation gives %.18Lg, first gave %.18Lg at ", a2, a) + c.str());
  });
}
static void feynman(Report &R, const Info &I, int i) {
  for (size_t k = 0; k < I.pols.size(); k++)
    if (!strcmp(I.pols[k].name, "amp2_Feynman") && strcmp(I.name, "gggg"))
      R.run(std::string(I.name) + "/massless", i, [&](Rng &r) {
        Point c;
        gen(r, I, c, 0, 0, 0);
        LD pin = r.uni(50, 500);
        for (auto &m : c.P.mf) m = 1e-5L * pin;
        for (int j = 0; j < 4; j++) c.m[j] = c.P.mass(c.L[j].f);
        kin::cm(c.m, pin, r.uni(-.9L, .9L), c.p);
        frame(r, c, r.n(4));
        std::unique_ptr<Proc> x(I.make(c.P));
        x->momenta(c.p);
        LD a = x->pol(k), f = Amp<LD>(c.P, c.L, c.p).amp2();
        tally(R, c, f, "feynman");
        if (!(fabsl(a - f) <= 1e-6L * f))
          R.bad(fmt("%s:%s", I.name, I.pols[k].name), fmt("%s=%.18Lg reference=%.18Lg for nearly massless quarks at ", I.pols[k].name, a, f) + c.str());
      });
}

// ---- S08: single spin amplitudes
typedef std::vector<std::array<int, 4>> Hels;
template <class R_> static Hels all_hels(const Amp<R_> &ref) {
  Hels o;
  for (int a : ref.hels(0)) for (int b : ref.hels(1)) for (int c : ref.hels(2)) for (int d : ref.hels(3)) o.push_back({{a, b, c, d}});
  return o;
}
static void to_ds(const Point &c, const std::array<int, 4> &h, int sign, int ds[4]) {
  for (int l = 0; l < 4; l++) ds[l] = sign * (l < 2 ? 1 : -1) * h[l] * (is_fermion(c.L[l].f) ? 1 : 2);
}
static std::vector<LD> spin_squares(const Point &c, const Hels &H, int sign) {
  std::unique_ptr<Proc> x(c.I->make(c.P));
  x->momenta(c.p);
  std::vector<LD> o;
  for (auto &h : H) { int ds[4]; to_ds(c, h, sign, ds); o.push_back(x->spin2(ds)); }
  return o;
}
template <class R_> static std::vector<LD> ref_squares(Amp<R_> &ref, const Hels &H) {
  std::vector<LD> o;
  for (auto &h : H) { int k[4] = {h[0], h[1], h[2], h[3]}; o.push_back((LD)ref.colsum(ref.eval(k))); }
  return o;
}
static LD sum(const std::vector<LD> &v) { LD s = 0; for (LD x : v) s += x; return s; }
static LD spin_err(const std::vector<LD> &a, const std::vector<LD> &f, bool prop, size_t &worst, LD zero) {
  LD tot = sum(f), sc = prop ? tot / sum(a) : 1, e = 0;
  worst = 0;
  if (prop && tot < zero && sum(a) < zero) return 0;
  for (size_t k = 0; k < a.size(); k++) {
    LD d = fabsl(a[k] * sc - f[k]) / (f[k] + 1e-3L * tot / a.size() + zero);
    if (!(d <= e)) { e = d; worst = k; }
  }
  return e;
}
static void spins(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c);
    Amp<LD> ref(c.P, c.L, c.p);
    Hels H = all_hels(ref);
    try {
      auto a = spin_squares(c, H, 1);
      auto f = ref_squares(ref, H);
      R.eval(H.size() - 1);
      tally(R, c, sum(f), "spins");
      R.sample(I.sector, c.str() + fmt(" helicities=%zu sum=%.12Lg reference=%.12Lg", H.size(), sum(a), sum(f)));
      if (stub(I) && sum(a) == 0) { R.bad("eeAZ:amp-is-zero", "the process is not implemented and always gives 0: " + c.str()); return; }
      size_t w;
      bool prop = I.kind == K_PROP;
      LD e = spin_err(a, f, prop, w, nothing(c.P));
      if (e <= TOL) return;
      Par<Q> PQ = toQ(c.P);
      Q q[4][4];
      momQ(c, q);
      Amp<Q> rq(PQ, c.L, q);
      auto g = ref_squares(rq, H);
      e = spin_err(a, g, prop, w, nothing(c.P));
      if (e <= TOL) return;
      if (!(fabsl(sum(f) - sum(g)) <= 1e-6L * sum(g))) { R.undecided++; R.stat("vanishing amplitudes"); return; }
      size_t w2;
      std::vector<LD> near;
      Rng jr(12345);
      for (int k = 0; k < 9; k++) {
        Point d = c;
        jitter(jr, d);
        Amp<LD> rd(d.P, d.L, d.p);
        LD ek = spin_err(spin_squares(d, H, 1), ref_squares(rd, H), prop, w2, nothing(c.P));
        if (ek == ek) near.push_back(ek);
      }
      LD nz = spread(near);
      if (e <= TOL + 1e4L * nz) { R.undecided++; return; }
      Point d = c;  // a spin state at rest has no helicity to reverse: look in another frame
      Rng rr(7);
      frame(rr, d, 3);
      Amp<LD> rd(d.P, d.L, d.p);
      bool mirrored = spin_err(spin_squares(d, H, -1), ref_squares(rd, H), prop, w2, nothing(c.P)) <= 1e-7L && c.fs == 4;
      mirrored |= spin_err(spin_squares(c, H, -1), g, prop, w2, nothing(c.P)) <= TOL;
      R.bad(fmt("%s:%s", I.name, mirrored ? "all-spins-reversed" : "amp"),
            fmt("helicities (%d,%d,%d,%d): square=%.15Lg reference=%.15Lg, error %.2Le%s at ", H[w][0], H[w][1], H[w][2], H[w][3], a[w], g[w], e,
                mirrored ? ", agrees when all spin labels are reversed," : "") + c.str());
    } catch (const NotOffered &) { R.undecided++; R.stat("not offered"); }
  });
}

// ---- S09: spin sum = normalised sum of squares; finite, not negative
static void spinsum(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c);
    if (i % 2) {  // widths may be on
      c.P.wh = r.uni(0, .05L) * c.P.mh; c.P.WW = r.uni(0, .05L) * c.P.MW; c.P.WZ = r.uni(0, .05L) * c.P.MZ;
    }
    std::unique_ptr<Proc> x(I.make(c.P));
    x->momenta(c.p);
    LD a = x->amp2();
    tally(R, c, a, "spinsum");
    R.sample(I.sector, c.str() + fmt(" amp2=%.15Lg", a));
    if (!std::isfinite((double)a) || a < 0) { R.bad(fmt("%s:not-physical", I.name), fmt("amp2=%.18Lg at ", a) + c.str()); return; }
    for (size_t k = 0; k < I.pols.size(); k++) {
      LD b = x->pol(k);
      R.eval();
      if (!std::isfinite((double)b) || b < -1e-15L * a) R.bad(fmt("%s:%s:not-physical", I.name, I.pols[k].name), fmt("%s=%.18Lg at ", I.pols[k].name, b) + c.str());
    }
    if (I.kind == K_PROP) return;
    try {
      Amp<LD> ref(c.P, c.L, c.p);
      Hels H = all_hels(ref);
      LD s = 0, mx = 0;
      for (auto &h : H) {
        int ds[4];
        to_ds(c, h, 1, ds);
        LD q = x->spin2(ds);
        s += q; mx = std::max(mx, fabsl(q));
        if (I.kind == K_FULL && !(q >= 0)) R.bad(fmt("%s:amp:not-physical", I.name), fmt("|amp|^2=%.18Lg at ", q) + c.str());
      }
      s /= ref.avg();
      LD e = fabsl(a - s) / std::max(a, mx / (LD)ref.avg());
      if (e <= 1e-12L || a == s) return;
      LD nz = noise(c, impl_amp2, std::max(a, mx / (LD)ref.avg()));
      if (e <= 1e-11L + 1e4L * nz) { R.stat("within rounding"); return; }
        R.bad(fmt("%s:spin-sum", I.name), fmt("amp2=%.18Lg but the normalised sum of the spin amplitudes is %.18Lg at ", a, s) + c.str());
    } catch (const NotOffered &) { R.undecided++; R.stat("not offered"); }
  });
}

// ---- S10: frame independence
static void frames(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c, -1, -1, 0);
    if (i % 2) { c.P.wh = r.uni(0, .05L) * c.P.mh; c.P.WW = r.uni(0, .05L) * c.P.MW; c.P.WZ = r.uni(0, .05L) * c.P.MZ; }
    std::unique_ptr<Proc> x(I.make(c.P));
    x->momenta(c.p);
    LD a = x->amp2();
    for (int k = 0; k < 8; k++) {
      Point d = c;
      frame(r, d, 1 + (k + i) % 6);
      x->momenta(d.p);
      LD b = x->amp2();
      tally(R, d, a, "frame");
      R.sample(I.sector + std::to_string(d.fs), d.str() + fmt(" amp2=%.15Lg in the centre-of-mass frame %.15Lg", b, a));
      LD sc = std::max(fabsl(a), fabsl(b)) + nothing(c.P), e = fabsl(a - b) / sc;
      if (a == b || e <= TOL) continue;
      LD na = noise(c, impl_amp2, sc), nb = noise(d, impl_amp2, sc);
      if (e <= TOL + 1e4L * (na + (nb == nb ? nb : 0))) { R.undecided++; continue; }
      R.bad(fmt("%s:frame%d", I.name, d.fs), fmt("amp2=%.18Lg, but %.18Lg in the centre-of-mass frame, at ", b, a) + d.str());
    }
  });
}

// ---- S11: history and instance independence
static void newpoint(Rng &r, const Info &I, const Point &c, Point &d) {
  gen(r, I, d);
  d.P.e = c.P.e; d.P.gs = c.P.gs; d.P.sw = c.P.sw; d.P.cw = c.P.cw; d.P.wh = c.P.wh; d.P.WW = c.P.WW; d.P.WZ = c.P.WZ;
  d.P.MZ = d.P.MW / d.P.cw;
  for (int i = 0; i < 4; i++) d.m[i] = d.P.mass(d.L[i].f);
  LD pin = gen_pin(r, d.m, r.n(3));
  anyangle(r, d, pin);
  frame(r, d, r.n(7));
}
static void remom(Rng &r, Point &d) {
  LD pin = gen_pin(r, d.m, r.n(3));
  anyangle(r, d, pin);
  frame(r, d, r.n(7));
}
// other masses for the particles that are not among the legs, so that the momenta stay on shell
static bool inner_masses(Rng &r, Point &d) {
  bool ext[NFIELD] = {}, vb = false;
  for (auto &l : d.L) { ext[l.f] = true; vb |= l.f == FWp || l.f == FWm || l.f == FZ; }
  bool any = false;
  if (!vb) { LD k = r.uni(.5L, 2); d.P.MW *= k; d.P.MZ = d.P.MW / d.P.cw; any = true; }
  if (!ext[Fh]) { d.P.mh *= r.uni(.5L, 2); any = true; }
  for (int f = 0; f < NFIELD; f++) if (!ext[f]) d.P.mf[f] *= r.uni(.5L, 2);
  return any;
}
// two sets of momenta of the same particles that share a part: what is kept from one to the other must not leak
static std::string related(Rng &r, Point &a, Point &b) {
  LD pin = gen_pin(r, a.m, r.n(3));
  anyangle(r, a, pin);
  b = a;
  LD first[4][4];
  memcpy(first, a.p, sizeof first);
  int st = r.n(8);
  auto same = [&](LD q[4][4]) {  // the same energies, another angle
    LD k = first[0][3];
    for (int t = 0; t < 20; t++) if (kin::cm(a.m, k, gen_ct(r), q) && !nearexchange(a.P, q)) return;
    memcpy(q, first, sizeof first);
  };
  if (st == 0) same(b.p);                       // the same incoming momenta
  else if (st == 1) {                           // the same outgoing momenta
    LD k = a.p[0][3], ko = hypotl(hypotl(a.p[2][1], a.p[2][2]), a.p[2][3]);
    Point *z[2] = {&a, &b};
    for (auto *w : z) {
      LD q[4][4];
      same(q);
      LD c = ko > 0 ? q[2][3] / ko : 1, s = sqrtl(std::max(0.L, 1 - c * c)), ph = r.uni(-3, 3);
      LD n[3] = {s * cosl(ph), s * sinl(ph), c};
      for (int j = 0; j < 3; j++) { w->p[0][j + 1] = k * n[j]; w->p[1][j + 1] = -k * n[j]; w->p[2][j + 1] = j == 2 ? ko : 0; w->p[3][j + 1] = j == 2 ? -ko : 0; }
    }
  } else if (st == 2) {                         // a rotation around the beam
    LD ph = r.uni(.1L, 6);
    for (int i = 2; i < 4; i++) { LD x = b.p[i][1], y = b.p[i][2]; b.p[i][1] = x * cosl(ph) - y * sinl(ph); b.p[i][2] = x * sinl(ph) + y * cosl(ph); }
  } else if (st == 3) {                         // slightly different momenta
    LD k = a.p[0][3] * (1 + r.logu(1e-6L, 1e-2L));
    if (!kin::cm(a.m, k, a.p[2][3] / std::max(1e-30L, hypotl(hypotl(a.p[2][1], a.p[2][2]), a.p[2][3])), b.p)) b = a;
  }
  int fs = r.n(4);
  Rng r2 = r;
  frame(r, a, fs); frame(r2, b, fs);
  if (st == 4) { b = a; for (auto &q : b.p) q[2] = -q[2]; }
  else if (st == 5) { b = a; for (auto &q : b.p) for (int j = 1; j < 4; j++) q[j] = -q[j]; }
  else if (st == 6) { b = a; for (auto &q : b.p) { LD t = q[1]; q[1] = q[2]; q[2] = q[3]; q[3] = t; } }
  else if (st == 7) {
    b = a;
    bool in = a.m[0] == a.m[1], out = a.m[2] == a.m[3];
    if (in && (!out || r.n(2))) for (int j = 0; j < 4; j++) std::swap(b.p[0][j], b.p[1][j]);
    else if (out) for (int j = 0; j < 4; j++) std::swap(b.p[2][j], b.p[3][j]);
  }
  static const char *N[] = {"same incoming", "same outgoing", "turned around the beam", "slightly changed", "mirrored", "reversed", "axes exchanged", "exchanged"};
  return N[st];
}
static void observe(Proc &x, const Info &I, const Hels &H, const Point &c, std::vector<LD> &o, Rng *order = 0) {
  o.assign(1 + I.pols.size() + H.size(), 0);
  std::vector<int> idx(o.size());
  for (size_t k = 0; k < idx.size(); k++) idx[k] = k;
  if (order) for (size_t k = idx.size(); k > 1; k--) std::swap(idx[k - 1], idx[order->n(k)]);
  for (int k : idx) {
    if (k == 0) o[0] = x.amp2();
    else if (k <= (int)I.pols.size()) o[k] = x.pol(k - 1);
    else {
      int ds[4];
      to_ds(c, H[k - 1 - I.pols.size()], 1, ds);
      if (I.kind == K_FULL) o[k] = std::real(x.amp(ds)) + 3 * std::imag(x.amp(ds));
      else try { o[k] = x.spin2(ds); } catch (const NotOffered &) {}
    }
  }
}
static void history(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c, d;
    gen(r, I, c);
    c.P.wh = r.n(2) * r.uni(0, .05L) * c.P.mh; c.P.WW = r.n(2) * r.uni(0, .05L) * c.P.MW; c.P.WZ = r.n(2) * r.uni(0, .05L) * c.P.MZ;
    Point start;
    newpoint(r, I, c, start);
    Hels H;
    { Amp<LD> ref(c.P, c.L, c.p); H = all_hels(ref); }
    bool crowd = i % 40 == 1, longlife = i % 40 == 2;
    int nobj = crowd ? 20 + r.n(20) : 2 + r.n(2);
    // the caller's variables change after each call
    auto setP = [&](Proc &z, const PL &P) {
      static PL tmp;
      tmp = P;
      z.masses(tmp);
      tmp.e = tmp.gs = tmp.sw = tmp.MW = tmp.MZ = tmp.cw = tmp.mh = 7;
      for (auto &m : tmp.mf) m = 7;
    };
    auto setQ = [&](Proc &z, const LD p[4][4]) {
      static LD tmp[4][4];
      memcpy(tmp, p, sizeof tmp);
      struct Wipe { LD (*t)[4]; ~Wipe() { for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) t[a][b] = 5 + a - b; } } w{tmp};
      z.momenta(tmp);
    };
    auto make = [&](const PL &P) {
      static PL tmp;
      tmp = P;
      Proc *z = I.make(tmp);
      tmp.e = tmp.gs = tmp.sw = tmp.MW = tmp.MZ = tmp.cw = tmp.mh = tmp.wh = tmp.WW = tmp.WZ = 7;
      for (auto &m : tmp.mf) m = 7;
      return z;
    };
    std::vector<std::unique_ptr<Proc>> x;
    std::vector<Point> cur;
    for (int k = 0; k < nobj; k++) { newpoint(r, I, c, d); if (k == 0) d = start; x.emplace_back(make(d.P)); cur.push_back(d); }
    // a process of another kind living and working at the same time
    const Info &J = registry()[r.n(registry().size())];
    Point oth;
    gen(r, J, oth);
    std::unique_ptr<Proc> y(J.make(oth.P));
    bool massHist = false;
    std::string log;
    auto bad_momentum = [&](int k) {
      Point q = cur[k];
      int w = r.n(4);
      q.p[w][r.n(4)] += r.uni(.5L, 2) * (1 + q.p[w][0]);
      try { setQ(*x[k], q.p); } catch (const std::exception &) { log += " reject"; R.stat("rejected momenta"); return; }
      R.stat("not rejected");
    };
    int nops = longlife ? 600 + r.n(200) : crowd ? 60 : 3 + r.n(10);
    for (int n = 0; n < nops; n++) {
      int k = r.n(nobj), op = r.n(10);
      if (op == 0) { newpoint(r, I, c, d); setP(*x[k], d.P); setQ(*x[k], d.p); cur[k] = d; massHist |= k == 0; log += fmt(" masses+momenta(%d)", k); }
      else if (op == 1) { remom(r, cur[k]); setQ(*x[k], cur[k].p); log += fmt(" momenta(%d)", k); }
      else if (op == 2) { setQ(*x[k], cur[k].p); x[k]->amp2(); log += fmt(" amp2(%d)", k); }
      else if (op == 3 && I.kind == K_FULL) { int ds[4]; setQ(*x[k], cur[k].p); to_ds(c, H[r.n(H.size())], 1, ds); x[k]->amp(ds); log += fmt(" amp(%d)", k); }
      else if (op == 4) bad_momentum(k);
      else if (op == 5 && !I.pols.empty()) { setQ(*x[k], cur[k].p); x[k]->pol(r.n(I.pols.size())); log += fmt(" polarised(%d)", k); }
      else if (op == 6) { y->momenta(oth.p); y->amp2(); log += fmt(" other:%s", J.name); }
      else if (op == 7) { inner_masses(r, cur[k]); setP(*x[k], cur[k].P); setQ(*x[k], cur[k].p); log += fmt(" inner masses(%d)", k); }
      else if (op == 8) {  // another object ends, a new one takes its place
        int o = nobj == 1 ? 0 : 1 + r.n(nobj - 1);
        newpoint(r, I, c, d);
        if (r.n(2)) { x[o].reset(); x[o].reset(make(d.P)); } else x[o].reset(make(d.P));
        cur[o] = d;
        if (r.n(2)) { setQ(*x[o], d.p); x[o]->amp2(); }
        log += fmt(" renew(%d)", o);
      }
      else { newpoint(r, I, c, d); setP(*x[k], d.P); setP(*x[k], cur[k].P); massHist |= k == 0; log += fmt(" masses back and forth(%d)", k); }
      if (log.size() > 900) log = " ..." + log.substr(log.size() - 600);
      R.stat("operations");
    }
    // final: object 0 gets exactly c (masses only if they differ from what it has)
    bool setm = true;
    int fin = r.n(6);
    if (fin == 4) {  // after momenta that share a part
      for (int k = 0; k < 4; k++) c.m[k] = c.P.mass(c.L[k].f);
      Point q = c;
      std::string how = related(r, q, c);
      setP(*x[0], c.P);
      setm = r.n(2);
      setQ(*x[0], q.p);
      if (r.n(3)) { std::vector<LD> o; observe(*x[0], I, H, q, o, &r); }
      log += " then momenta " + how + "(0)";
      R.stat("related momenta");
    }
    if (fin == 5) {  // one mass changes, perhaps only by a little
      Point q = c;
      setP(*x[0], c.P); setQ(*x[0], c.p);
      if (r.n(2)) { std::vector<LD> o; observe(*x[0], I, H, q, o, &r); }
      LD k = r.n(2) ? 1 + r.logu(1e-6L, 1e-2L) : r.uni(.8L, 1.5L);
      int w = r.n(6);
      if (w == 0) q.P.mh *= k;
      else if (w == 1) { q.P.MW *= k; q.P.MZ = q.P.MW / q.P.cw; }
      else q.P.mf[q.L[r.n(4)].f] *= k;
      for (int t = 0; t < 4; t++) q.m[t] = q.P.mass(q.L[t].f);
      remom(r, q);
      c = q;
      log += " then one mass(0)";
      R.stat("one mass changed");
    }
    if (fin == 1) {  // the same momenta with other masses inside
      c = cur[0];
      setQ(*x[0], c.p);
      if (r.n(2)) x[0]->amp2();
      inner_masses(r, c);
      log += " then inner masses(0)";
    }
    if (fin == 0) { c.P = cur[0].P; for (int k = 0; k < 4; k++) c.m[k] = cur[0].m[k]; remom(r, c); setm = false; }
    std::unique_ptr<Proc> fresh(I.make(c.P));
    if (setm) setP(*x[0], c.P);
    if (fin != 1 && fin != 4 && r.n(2)) bad_momentum(0);
    setQ(*x[0], c.p);
    for (int k = 1; k < nobj; k++) if (r.n(2)) { remom(r, cur[k]); setQ(*x[k], cur[k].p); x[k]->amp2(); }
    if (r.n(2)) { y->momenta(oth.p); y->amp2(); }
    std::vector<LD> o, f;
    observe(*x[0], I, H, c, o, &r);
    fresh->momenta(c.p);
    observe(*fresh, I, H, c, f);
    tally(R, c, f[0], "history");
    R.sample(I.sector, log + " -> " + c.str() + fmt(" amp2=%.15Lg fresh=%.15Lg", o[0], f[0]));
    LD big = 0;
    for (LD v : f) big = std::max(big, fabsl(v));
    (void)massHist;
    for (size_t k = 0; k < o.size(); k++) {
      if (o[k] == f[k]) { R.stat("identical"); continue; }
      R.stat("different bits");
      bool amp = k > I.pols.size();
      LD sc = (amp ? 0 : std::max(fabsl(f[k]), fabsl(o[k]))) + nothing(c.P);
      if (amp) for (size_t j = 1 + I.pols.size(); j < f.size(); j++) sc = std::max(sc, fabsl(f[j]));
      LD e = fabsl(o[k] - f[k]) / sc;
      if (e <= TOL) continue;
      LD nz = noise(c, impl_amp2, std::max(fabsl(f[0]), fabsl(o[0])) + nothing(c.P));
      if (e <= TOL + 1e4L * nz) { R.undecided++; continue; }
      R.bad(fmt("%s:%s", I.name, k == 0 ? "amp2" : amp ? "amp" : I.pols[k - 1].name),
            fmt("after history%s: %.18Lg, fresh object: %.18Lg at ", log.c_str(), o[k], f[k]) + c.str());
    }
  });
}

// one object, thousands of evaluations
static void longrun(Report &R, const Info &I, int i) {
  R.run(std::string(I.name) + "/long", i, [&](Rng &r) {
    Point c[8];
    gen(r, I, c[0]);
    for (int k = 1; k < 8; k++) { c[k] = c[0]; remom(r, c[k]); }
    LD first[8];
    for (int k = 0; k < 8; k++) { std::unique_ptr<Proc> y(I.make(c[0].P)); y->momenta(c[k].p); first[k] = y->amp2(); }
    std::unique_ptr<Proc> x(I.make(c[0].P));
    for (int n = 0; n < LONG; n++) {
      int k = r.n(8);
      if (!r.n(50)) x->masses(c[0].P);
      x->momenta(c[k].p);
      LD a = x->amp2();
      if (a == first[k] || fabsl(a - first[k]) <= TOL * (fabsl(first[k]) + nothing(c[k].P))) continue;
      LD sc = std::max(fabsl(a), fabsl(first[k])) + nothing(c[k].P);
      if (fabsl(a - first[k]) <= 1e4L * sc * noise(c[k], impl_amp2, sc)) { R.undecided++; continue; }
      R.bad(fmt("%s:long", I.name), fmt("evaluation %d of one object gives %.18Lg, a fresh object %.18Lg at ", n + 1, a, first[k]) + c[k].str());
      break;
    }
    R.eval(LONG);
    tally(R, c[0], first[0], "long");
    R.stat("long lives");
  });
}

// ---- S12: widths
static const char *SCHEME[] = {"AAWW", "AWAW", "AWWh", "AWZW", "AZWW", "AhWW", "WWWW", "WWWW2", "ZWZW", "ZZWW", "hWWh", "hhWW", "hZZh", "hhZZ", "AWud", "AnWe", "enAW", "udAW"};
static void widths(Report &R, const Info &I, int i) {
  if (!has(I, "widthh") && !has(I, "widthW") && !has(I, "widthZ")) return;
  bool scheme = false;
  for (auto s : SCHEME) scheme |= !strcmp(s, I.name);
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c, r.n(5) ? 0 : 2, -1, 0);
    // choose an invariant mass on or near a resonance when one can be reached
    LD M[3] = {(LD)c.P.mh, (LD)c.P.MW, (LD)c.P.MZ};
    int res = -1;
    if (r.n(3)) {
      int k = r.n(3);
      for (int t = 0; t < 3 && res < 0; t++) {
        int q = (k + t) % 3;
        if (scheme && !strcmp(I.name, "ZZWW") && q == 0) { c.P.mh = c.P.MZ * r.uni(2.2L, 4); M[0] = c.P.mh; }
        if (scheme && !strcmp(I.name, "WWWW2") && q == 0) { c.P.mh = c.P.MW * r.uni(2.2L, 4); M[0] = c.P.mh; }
        if (M[q] > 1.02L * std::max(c.m[0] + c.m[1], c.m[2] + c.m[3])) res = q;
      }
    }
    for (int k = 0; k < 4; k++) c.m[k] = c.P.mass(c.L[k].f);
    LD w = scheme ? 1e-7L : r.n(3) ? r.logu(1e-4L, .1L) : r.uni(0, .1L);
    int which = r.n(5);  // all, only one, none
    c.P.wh = (which == 0 || which == 1) ? w * M[0] : 0;
    c.P.WW = (which == 0 || which == 2) ? w * M[1] * (scheme ? 1 : r.uni(.5L, 1)) : 0;
    c.P.WZ = (which == 0 || which == 3) ? w * M[2] * (scheme ? 1 : r.uni(.5L, 1)) : 0;
    if (res >= 0) {
      LD G = res == 0 ? c.P.wh : res == 1 ? c.P.WW : c.P.WZ;
      if (scheme && G == 0) { (res == 0 ? c.P.wh : res == 1 ? c.P.WW : c.P.WZ) = G = w * M[res]; }
      LD off = G > 0 ? G * r.uni(-2, 2) : M[res] * .01L;
      LD pin = pin_for(c.m[0], c.m[1], M[res] + off);
      if (!(pin > 0) || !kin::cm(c.m, pin, gen_ct(r), c.p)) res = -1;
    }
    if (res < 0) { LD pin = gen_pin(r, c.m, 0); while (!kin::cm(c.m, pin, gen_ct(r), c.p) || nearpole(c.P, c.p, 1e-3L)) pin *= 1.3L; }
    frame(r, c, r.n(7));
    std::unique_ptr<Proc> x(made(r, c, r.n(4)));
    x->momenta(c.p);
    LD a = x->amp2(), f = Amp<LD>(c.P, c.L, c.p).amp2(), err;
    tally(R, c, f, "width");
    R.stat(res >= 0 ? "on resonance" : "off resonance");
    R.sample(std::string(I.sector) + (res >= 0 ? "r" : ""), c.str() + fmt(" amp2=%.15Lg reference=%.15Lg", a, f));
    if (stub(I) && a == 0) { R.bad("eeAZ:amp2-is-zero", "the process is not implemented and always gives 0: " + c.str()); return; }
    Verdict v = judge(c, a, f, 0, [&] { return refQ(c); }, impl_amp2, scheme ? 1e-3L : TOL, err);
    if (v == BROKEN && scheme) {  // near a zero of the amplitude: where the width enters matters as much as the width does
      PL P0 = c.P;
      P0.wh = P0.WW = P0.WZ = 0;
      LD d = fabsl(f - Amp<LD>(P0, c.L, c.p).amp2()) / f;
      if (d < .01L && err <= 10 * d) v = UNDECIDED;
    }
    verdict(R, v, fmt("%s:width", I.name), fmt("amp2=%.18Lg reference=%.18Lg relative error %.2Le at ", a, f, err) + c.str());
  });
}

// As a function of one width every amplitude is a sum of a constant and of poles 1/(q^2-M^2-iM*width), q one of
// the three channel momenta (products of such poles are sums of them), and it depends on the width when the reference does.
static void widthpoles(Report &R, const Info &I, int i) {
  if (I.kind != K_FULL || stub(I)) return;
  static const char *arg[3] = {"widthh", "widthW", "widthZ"};
  for (int q = 0; q < 3; q++)
    if (has(I, arg[q])) R.run(std::string(I.name) + "/" + arg[q], i, [&](Rng &r) {
      Point c;
      gen(r, I, c, 0, 0, -1);
      LD M = q == 0 ? c.P.mh : q == 1 ? c.P.MW : c.P.MZ;
      for (int k = 0; k < 3; k++) if (k != q && r.n(2)) (k == 0 ? c.P.wh : k == 1 ? c.P.WW : c.P.WZ) = r.uni(0, .1L) * M;
      const int N = 9;
      const LD step[N] = {0, .04L, .1L, .2L, .35L, .5L, .7L, .9L, 1.2L};
      auto with = [&](LD w) { Point d = c; (q == 0 ? d.P.wh : q == 1 ? d.P.WW : d.P.WZ) = w; return d; };
      Hels H;
      std::vector<std::vector<std::complex<LD>>> a(N);
      LD refdep = 0, refbig = 0;
      std::vector<LD> f0;
      for (int k = 0; k < N; k++) {
        Point d = with(step[k] * M);
        if (k == 0 || k == N - 1) {
          Amp<LD> ref(d.P, d.L, d.p);
          if (k == 0) { H = all_hels(ref); f0 = ref_squares(ref, H); for (LD v : f0) refbig = std::max(refbig, v); }
          else { auto f = ref_squares(ref, H); for (size_t h = 0; h < H.size(); h++) refdep = std::max(refdep, fabsl(f[h] - f0[h])); }
        }
        std::unique_ptr<Proc> x(made(r, d, r.n(4)));
        x->momenta(d.p);
        for (auto &h : H) { int ds[4]; to_ds(c, h, 1, ds); a[k].push_back(x->amp(ds)); }
      }
      LD x[3];
      for (int ch = 0; ch < 3; ch++) {
        x[ch] = -M * M;
        for (int j = 0; j < 4; j++) { LD v = ch == 0 ? c.p[0][j] + c.p[1][j] : c.p[0][j] - c.p[ch + 1][j]; x[ch] += j ? -v * v : v * v; }
      }
      if (std::min(fabsl(x[0] - x[1]), std::min(fabsl(x[1] - x[2]), fabsl(x[0] - x[2]))) < 1e-3L * M * M) return;  // products would be double poles
      // orthonormal basis of {1, poles} on the sampled widths
      std::vector<std::vector<std::complex<LD>>> B;
      for (int b = 0; b < 4; b++) {
        std::vector<std::complex<LD>> v(N);
        for (int k = 0; k < N; k++) v[k] = b == 0 ? std::complex<LD>(1, 0) : M * M / std::complex<LD>(x[b - 1], -M * M * step[k]);
        LD n0 = 0, n1 = 0;
        for (auto &z : v) n0 += std::norm(z);
        for (int pass = 0; pass < 2; pass++)
          for (auto &u : B) {
            std::complex<LD> s = 0;
            for (int k = 0; k < N; k++) s += std::conj(u[k]) * v[k];
            for (int k = 0; k < N; k++) v[k] -= s * u[k];
          }
        for (auto &z : v) n1 += std::norm(z);
        if (n1 < 1e-24L * n0) continue;
        for (auto &z : v) z /= sqrtl(n1);
        B.push_back(v);
      }
      LD big = 0, dep = 0;
      for (int k = 0; k < N; k++) for (size_t h = 0; h < H.size(); h++) { big = std::max(big, std::abs(a[k][h])); dep = std::max(dep, std::abs(a[k][h] - a[0][h])); }
      tally(R, c, refbig, arg[q]);
      R.stat(std::string("poles ") + arg[q]);
      R.sample(arg[q], c.str() + fmt(" %s: amplitudes up to %.6Lg change by up to %.6Lg, squared reference %.6Lg changes by %.6Lg", arg[q], big, dep, refbig, refdep));
      if (refdep > 1e-3L * refbig && !(dep > 1e-6L * big))
        R.bad(fmt("%s:%s-ignored", I.name, arg[q]), fmt("amplitudes up to %.15Lg change by %.3Le only for a %s up to %.6Lg, squared reference amplitudes up to %.15Lg change by %.3Le at ",
                                                        big, dep, arg[q], 1.2L * M, refbig, refdep) + c.str());
      if (refdep == 0 && dep > 1e-7L * big)
        R.bad(fmt("%s:%s-spurious", I.name, arg[q]), fmt("amplitudes up to %.15Lg change by %.3Le for a %s up to %.6Lg, the reference does not, at ", big, dep, arg[q], 1.2L * M) + c.str());
      for (size_t h = 0; h < H.size(); h++) {
        std::vector<std::complex<LD>> v(N);
        LD res = 0;
        for (int k = 0; k < N; k++) v[k] = a[k][h];
        for (auto &u : B) {
          std::complex<LD> s = 0;
          for (int k = 0; k < N; k++) s += std::conj(u[k]) * v[k];
          for (int k = 0; k < N; k++) v[k] -= s * u[k];
        }
        for (auto &z : v) res = std::max(res, std::abs(z));
        R.eval();
        if (res <= 1e-9L * big) continue;
        LD nz = noise(c, impl_amp2, impl_amp2(c) + nothing(c.P));
        if (res <= big * (1e-9L + 1e4L * nz)) { R.undecided++; continue; }
        R.bad(fmt("%s:%s-form", I.name, arg[q]), fmt("helicities (%d,%d,%d,%d): amplitude is not a constant plus poles of mass %.12Lg in %s, residual %.3Le of %.6Lg at ", H[h][0], H[h][1], H[h][2],
                                                     H[h][3], M, arg[q], res, big) + c.str());
        break;
      }
    });
}

// ---- S13: powers of the couplings
static void couplings(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c);
    int ng = 0, nq = 0;
    for (int k = 0; k < 4; k++) { ng += c.L[k].f == Fg; nq += c.L[k].f >= Fu && c.L[k].f <= Fb; }
    auto at = [&](LD le, LD ls) { Point d = c; d.P.e = c.P.e * le; d.P.gs = c.P.gs * ls; return impl_amp2(d); };
    LD le = r.uni(.3L, 1.8L), ls = r.uni(.3L, 1.8L), a = impl_amp2(c), got = at(le, ls), want;
    bool mixed = nq == 4 && has(I, "gscharge") ;
    if (!mixed) {
      int pe = ng == 0 ? 4 : ng == 1 ? 2 : 0;
      want = a * powl(le, pe) * powl(ls, 4 - pe);
    } else {  // amp2 = A e^4 + B e^2 gs^2 + C gs^4, from the limits and one point
      LD C = at(1e-9L, 1), A = at(1, 1e-9L), B = a - A - C;
      want = A * powl(le, 4) + B * le * le * ls * ls + C * powl(ls, 4);
    }
    tally(R, c, a, "coupling");
    R.sample(std::string(I.sector) + (mixed ? "m" : ""), c.str() + fmt(" amp2=%.15Lg scaled by e*%.6Lg gs*%.6Lg: %.15Lg expected %.15Lg", a, le, ls, got, want));
    PL b = c.P;
    b.e *= le; b.gs *= ls;
    LD sc = std::max(fabsl(want), fabsl(got)) + std::min(nothing(c.P), nothing(b)), e = fabsl(got - want) / sc;
    if (got == want || e <= TOL) return;
    LD nz = noise(c, impl_amp2, fabsl(a) + nothing(c.P));
    if (e <= TOL + 1e4L * nz) { R.undecided++; return; }
    R.bad(fmt("%s:coupling", I.name), fmt("amp2 scales from %.18Lg to %.18Lg for e*%.9Lg gs*%.9Lg, expected %.18Lg at ", a, got, le, ls, want) + c.str());
  });
}

// ---- S14: exchange of identical particles, and of conjugate pairs opposite to self-conjugate bosons
static void exchange(Report &R, const Info &I, int i) {
  Leg L[4];
  legs(I, L);
  auto self = [](const Leg &l) { return l.f == FA || l.f == FZ || l.f == Fh || l.f == Fg; };
  auto same = [](const Leg &a, const Leg &b) { return a.f == b.f && a.anti == b.anti; };
  auto conj = [](const Leg &a, const Leg &b) {
    return (a.f == FWp && b.f == FWm) || (a.f == FWm && b.f == FWp) || (is_fermion(a.f) && a.f == b.f && a.anti != b.anti);
  };
  for (int s = 0; s < 4; s += 2) {
    int o = 2 - s;
    bool id = same(L[s], L[s + 1]), cc = conj(L[s], L[s + 1]) && self(L[o]) && self(L[o + 1]);
    if (!id && !cc) continue;
    R.run(std::string(I.name) + (s ? "/out" : "/in"), i, [&](Rng &r) {
      Point c, d;
      gen(r, I, c);
      c.P.wh = r.n(2) * r.uni(0, .05L) * c.P.mh; c.P.WW = r.n(2) * r.uni(0, .05L) * c.P.MW; c.P.WZ = r.n(2) * r.uni(0, .05L) * c.P.MZ;
      d = c;
      for (int j = 0; j < 4; j++) std::swap(d.p[s][j], d.p[s + 1][j]);
      LD a = impl_amp2(c), b = impl_amp2(d);
      tally(R, c, a, s ? "xout" : "xin");
      R.stat(id ? "identical pair" : "conjugate pair");
      R.sample(I.sector, c.str() + fmt(" legs %d and %d exchanged: %.15Lg and %.15Lg", s + 1, s + 2, a, b));
      LD sc = std::max(fabsl(a), fabsl(b)) + nothing(c.P), e = fabsl(a - b) / sc;
      if (a == b || e <= TOL) return;
      LD na = noise(c, impl_amp2, sc), nb = noise(d, impl_amp2, sc);
      if (e <= TOL + 1e4L * (na + nb)) { R.undecided++; return; }
      R.bad(fmt("%s:exchange-%s", I.name, s ? "out" : "in"), fmt("amp2=%.18Lg, %.18Lg with legs %d and %d exchanged, at ", a, b, s + 1, s + 2) + c.str());
    });
  }
}

// ---- S15: the phases of the spin amplitudes belong to one choice of spin states
// Ratio of observed and reference amplitude = product of one phase per leg and label. The integer relations between
// the label patterns turn this into statements about the ratios alone. Returns the largest violation in radian.
typedef std::vector<std::complex<LD>> Amps;
static Amps lib_amps(const Point &c, const Hels &H, int sign) {
  std::unique_ptr<Proc> x(c.I->make(c.P));
  x->momenta(c.p);
  Amps o;
  for (auto &h : H) { int ds[4]; cdouble z[4]; to_ds(c, h, sign, ds); x->parts(ds, z); for (int k = 0; k < (c.I->kind == K_SUM ? 4 : 1); k++) o.push_back(z[k]); }
  return o;
}
// the spinors of the library are those of the complex conjugate amplitude
template <class R_> static Amps ref_amps(const Point &c, const Amp<R_> &ref, const Hels &H, int sign) {
  Amps o;
  for (auto &h : H) {
    int k[4] = {h[0], h[1], h[2], h[3]};
    auto v = ref.eval(k);
    if (c.I->kind == K_SUM) for (int j = 0; j < 4; j++) o.push_back({(LD)v.c[j].r, -sign * (LD)v.c[j].i});
    else { auto z = v.c[0] + v.c[1]; o.push_back({(LD)z.r, -sign * (LD)z.i}); }
  }
  return o;
}
static LD phase_err(const Amps &a, const Amps &f, const Hels &H, int &relations, std::string &what, LD zero) {
  struct Row { std::array<long, 12> e; LD th; LD w; std::string s; };
  std::vector<Row> rows;
  LD big = 0, worst = 0;
  relations = 0;
  for (auto &z : f) big = std::max(big, std::abs(z));
  if (big * big <= zero) return 0;  // only rounding is left
  size_t np = f.size() / H.size();
  for (size_t k = 0; k < f.size(); k++) {
    if (!(std::abs(f[k]) > 1e-3L * big) || !(std::abs(a[k]) > 0)) continue;
    Row q;
    q.e.fill(0);
    const auto &h = H[k / np];
    for (int l = 0; l < 4; l++) q.e[3 * l + h[l] + 1] = 1;
    q.th = std::arg(a[k] / f[k]); q.w = std::abs(f[k]);
    q.s = fmt("(%d,%d,%d,%d)", h[0], h[1], h[2], h[3]) + (np > 1 ? fmt(" part %d", (int)(k % np)) : "");
    rows.push_back(q);
  }
  std::sort(rows.begin(), rows.end(), [](const Row &x, const Row &y) { return x.w > y.w; });
  for (auto &q : rows) q.w = 1;
  std::vector<Row> piv;
  auto lead = [](const Row &q) { for (int k = 0; k < 12; k++) if (q.e[k]) return k; return 12; };
  auto sub = [](Row &x, const Row &y, long n) { for (int k = 0; k < 12; k++) x.e[k] -= n * y.e[k]; x.th -= n * y.th; x.w += std::labs(n) * y.w; };
  const LD tau = 8 * atanl(1.0L);
  for (auto &q : rows) {
    Row x = q;
    for (int guard = 0; guard < 400; guard++) {
      int l = lead(x);
      if (l == 12) break;
      Row *p = 0;
      for (auto &y : piv) if (lead(y) == l) p = &y;
      if (!p) { piv.push_back(x); break; }
      long n = x.e[l] / p->e[l];
      sub(x, *p, n);
      if (x.e[l]) std::swap(x, *p);  // Euclid: the smaller leading entry becomes the pivot
    }
    if (lead(x) != 12) continue;
    relations++;
    LD d = fabsl(remainderl(x.th, tau)) / x.w;
    if (!(d <= worst)) { worst = d; what = q.s; }
  }
  return worst;
}
static void phases(Report &R, const Info &I, int i) {
  if (stub(I)) return;
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c);
    Amp<LD> ref(c.P, c.L, c.p);
    Hels H = all_hels(ref);
    try {
      int rel, rel2, sign = 1;
      std::string what, w2;
      LD e = phase_err(lib_amps(c, H, 1), ref_amps(c, ref, H, 1), H, rel, what, nothing(c.P));
      R.eval(rel);
      tally(R, c, rel, "phases");
      R.stat("relations", rel);
      R.sample(I.sector, c.str() + fmt(" %zu amplitudes, %d relations between their phases, largest deviation %.3Le rad", H.size(), rel, e));
      if (e <= 1e-8L) return;
      size_t w;
      auto f = ref_squares(ref, H);
      LD asis = spin_err(spin_squares(c, H, 1), f, false, w, nothing(c.P)), rev = spin_err(spin_squares(c, H, -1), f, false, w, nothing(c.P));
      if (rev <= 1e-6L && rev < asis) {  // reversed labels are S08
        sign = -1;
        R.stat("labels reversed");
        e = phase_err(lib_amps(c, H, sign), ref_amps(c, ref, H, sign), H, rel, what, nothing(c.P));
        if (e <= 1e-8L) return;
      }
      std::vector<LD> near;
      Rng jr(12345);
      for (int k = 0; k < 9; k++) {
        Point d = c;
        jitter(jr, d);
        Amp<LD> rd(d.P, d.L, d.p);
        LD ek = phase_err(lib_amps(d, H, sign), ref_amps(d, rd, H, sign), H, rel2, w2, nothing(c.P));
        if (ek == ek) near.push_back(ek);
      }
      LD nz = spread(near);
      if (e <= 1e-8L + 1e4L * nz) { R.undecided++; return; }
      R.bad(fmt("%s:phase", I.name), fmt("the phase of the amplitude with helicities %s is off by %.3Le rad (times a small integer) from what the others require at ", what.c_str(), e) + c.str());
    } catch (const NotOffered &) { R.undecided++; R.stat("not offered"); }
  });
}

// ---- S16: evaluation of given momenta in one call
static void onecall(Report &R, const Info &I, int i) {
  {
    Point c;
    Rng r(1);
    gen(r, I, c);
    std::unique_ptr<Proc> x(I.make(c.P));
    LD z;
    if (!x->onecall(c.p, z)) return;
  }
  R.run(I.name, i, [&](Rng &r) {
    Point c, d;
    gen(r, I, c);
    std::unique_ptr<Proc> x(made(r, c, i % 4));
    if (r.n(2)) { d = c; remom(r, d); x->momenta(d.p); if (r.n(2)) x->amp2(); }
    if (r.n(2)) { d = c; remom(r, d); LD z; x->onecall(d.p, z); }
    LD a, f = Amp<LD>(c.P, c.L, c.p).amp2(), err;
    x->onecall(c.p, a);
    tally(R, c, f, "onecall");
    R.sample(I.name, c.str() + fmt(" amp2=%.15Lg reference=%.15Lg", a, f));
    auto one = [&](const Point &q) { std::unique_ptr<Proc> y(I.make(q.P)); LD z; y->onecall(q.p, z); return z; };
    Verdict v = judge(c, a, f, 0, [&] { return refQ(c); }, one, TOL, err);
    verdict(R, v, fmt("%s:one-call", I.name), fmt("amp2(p1,p2,p3,p4)=%.18Lg reference=%.18Lg relative error %.2Le at ", a, f, err) + c.str());
    // the usual way must work afterwards
    remom(r, c);
    x->momenta(c.p);
    LD b = x->amp2(), g = Amp<LD>(c.P, c.L, c.p).amp2();
    R.eval();
    v = judge(c, b, g, 0, [&] { return refQ(c); }, impl_amp2, TOL, err);
    verdict(R, v, fmt("%s:after-one-call", I.name), fmt("after a one-call evaluation amp2=%.18Lg reference=%.18Lg relative error %.2Le at ", b, g, err) + c.str());
  });
}

// ---- S17: spin labels no state has
static std::string lab(const int ds[4]) { return fmt("(%d,%d,%d,%d)", ds[0], ds[1], ds[2], ds[3]); }
static void labels(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c);
    Amp<LD> ref(c.P, c.L, c.p);
    Hels H = all_hels(ref);
    std::vector<int> can;
    for (int l : I.ampLegs) if (c.L[l].f == FA || c.L[l].f == Fg || (is_fermion(c.L[l].f) && c.m[l] > 0)) can.push_back(l);
    if (can.empty()) return;
    std::unique_ptr<Proc> x(I.make(c.P)), y(I.make(c.P));
    x->momenta(c.p); y->momenta(c.p);
    int np = I.kind == K_SUM ? 4 : 1;
    LD big = 0;
    try {
      for (auto &h : H) { int ds[4]; cdouble z[4]; to_ds(c, h, 1, ds); y->parts(ds, z); for (int k = 0; k < np; k++) big = std::max(big, (LD)std::abs(z[k])); }
      for (int t = 0; t < 12; t++) {
        int ds[4];
        to_ds(c, H[r.n(H.size())], 1, ds);
        int nw = r.n(4) ? 1 : 1 + r.n(can.size());
        bool boson = false;
        for (int k = 0; k < nw; k++) {
          int l = can[r.n(can.size())];
          static const int no[] = {0, 2, -2, 3, -3};
          boson |= !is_fermion(c.L[l].f);
          ds[l] = is_fermion(c.L[l].f) ? no[r.n(5)] : 0;
        }
        cdouble z[4];
        R.eval();
        try {
          x->parts(ds, z);
          R.stat(boson ? "massless boson label 0: zero" : "fermion label: zero");
          for (int k = 0; k < np; k++)
            if (!(z[k] == cdouble(0, 0))) { R.bad(fmt("%s:label", I.name), fmt("doubled spins %s give the amplitude %.15Lg%+.15Lgi at ", lab(ds).c_str(), (LD)z[k].real(), (LD)z[k].imag()) + c.str()); break; }
        } catch (const std::exception &e) { R.stat(boson ? "massless boson label 0: exception" : "fermion label: exception"); }
      }
      tally(R, c, big, "labels");
    } catch (const NotOffered &) { R.undecided++; R.stat("not offered"); return; }
    std::vector<LD> o, f;
    observe(*x, I, H, c, o, &r);
    observe(*y, I, H, c, f);
    R.sample(I.sector, c.str() + fmt(" amp2=%.15Lg after requests for impossible spins, %.15Lg without", o[0], f[0]));
    for (size_t k = 0; k < o.size(); k++)
      if (!(fabsl(o[k] - f[k]) <= 1e-12L * (fabsl(f[k]) + (k > I.pols.size() ? big : 0)))) { R.bad(fmt("%s:after-label", I.name), fmt("result %zu is %.18Lg after requests for impossible spins, %.18Lg without, at ", k, o[k], f[k]) + c.str()); break; }
  });
}

// ---- S18: vanishing and tiny masses
static void massless(Report &R, const Info &I, int i) {
  if (stub(I)) return;
  R.run(I.name, i, [&](Rng &r) {
    Point c, d;
    gen(r, I, c, r.n(2) ? 0 : 2);
    d = c;  // ordinary masses, for afterwards
    bool tiny = i % 3 == 2, gone = false;
    LD sc = 0;
    for (LD m : c.m) sc = std::max(sc, m);
    auto small = [&] { return tiny ? r.logu(1e-8L, 1e-3L) * (sc + 1) : 0; };
    for (int f = Fu; f < NFIELD; f++) if (r.n(2)) c.P.mf[f] = small();
    int k0 = r.n(4);
    if (is_fermion(c.L[k0].f) && r.n(4)) c.P.mf[c.L[k0].f] = small();
    if (r.n(4) == 0) c.P.mh = small();
    for (int k = 0; k < 4; k++) { LD m = c.P.mass(c.L[k].f); gone |= m == 0 && c.m[k] > 0 && c.L[k].f != Fh; c.m[k] = m; }
    LD pin = gen_pin(r, c.m, r.n(3));
    if (pin < .3L) pin = r.uni(.3L, 30);
    while (!kin::cm(c.m, pin, gen_ct(r), c.p) || nearpole(c.P, c.p, 1e-3L)) pin *= 1.3L;
    frame(r, c, r.n(7));
    LD f = Amp<LD>(c.P, c.L, c.p).amp2(), err;
    tally(R, c, f, "massless");
    bool val = false;
    std::unique_ptr<Proc> x(I.make(d.P));
    if (r.n(2)) { x->momenta(d.p); x->amp2(); }
    try {
      if (r.n(2)) x.reset(made(r, c, i % 4)); else x->masses(c.P);
      x->momenta(c.p);
      LD a = x->amp2();
      val = true;
      R.sample(std::string(I.sector) + (tiny ? "t" : "0"), c.str() + fmt(" amp2=%.15Lg reference=%.15Lg", a, f));
      Verdict v = judge(c, a, f, 0, [&] { return refQ(c); }, impl_amp2, TOL, err);
      verdict(R, v, fmt("%s:%s", I.name, tiny ? "tiny-mass" : gone ? "massless-leg" : "massless-inner"), fmt("amp2=%.18Lg reference=%.18Lg relative error %.2Le at ", a, f, err) + c.str());
    } catch (const std::exception &e) {
      if (!gone) R.bad(fmt("%s:%s", I.name, tiny ? "tiny-mass" : "massless-inner"), std::string("unexpected exception ") + e.what() + " at " + c.str());
    }
    R.stat(std::string(tiny ? "tiny masses" : gone ? "massless leg" : "massless inner") + (val ? ": value" : ": exception"));
    // ordinary masses again
    d.P.e = c.P.e; d.P.gs = c.P.gs; d.P.sw = c.P.sw; d.P.cw = c.P.cw;
    x->masses(d.P);
    x->momenta(d.p);
    LD b = x->amp2(), g = Amp<LD>(d.P, d.L, d.p).amp2();
    R.eval();
    Verdict v = judge(d, b, g, 0, [&] { return refQ(d); }, impl_amp2, TOL, err);
    verdict(R, v, fmt("%s:after-massless", I.name), fmt("after vanishing masses amp2=%.18Lg reference=%.18Lg relative error %.2Le at ", b, g, err) + d.str());
  });
}

// ---- S19: digits kept at points without strong cancellations
static void digits(Report &R, const Info &I, int i) {
  R.run(I.name, i, [&](Rng &r) {
    Point c;
    gen(r, I, c, i % 3 ? 0 : 3, 0, 0);
    LD top = 0;
    for (LD m : c.m) top = std::max(top, m);
    LD pin = r.uni(.5L, 3) * std::max(top, (LD)10);
    for (;; pin *= 1.3L) if (kin::cm(c.m, pin, r.uni(-.8L, .8L), c.p) && !nearpole(c.P, c.p, .02L) && !nearexchange(c.P, c.p)) break;
    frame(r, c, r.n(4));
    std::unique_ptr<Proc> x(made(r, c, i % 4));
    x->momenta(c.p);
    LD a = x->amp2();
    if (stub(I) && a == 0) return;
    Par<Q> PQ = toQ(c.P);
    Q q[4][4];
    momQ(c, q);
    Amp<Q> ref(PQ, c.L, q);
    LD f = ref.amp2(), worst = fabsl(a - f) / f;
    tally(R, c, f, "digits");
    std::string what = "amp2";
    for (size_t k = 0; k < I.pols.size(); k++) {
      if (!strcmp(I.pols[k].name, "amp2_Feynman") && strcmp(I.name, "gggg")) continue;
      LD e = fabsl(x->pol(k) - (LD)ref.amp2(I.pols[k].fix)) / f;
      R.eval();
      if (!(e <= worst)) { worst = e; what = I.pols[k].name; }
    }
    R.sample(I.sector, c.str() + fmt(" amp2=%.19Lg reference=%.19Lg", a, f));
    int b = worst > 0 ? std::max(0, (int)ceill(-log10l(worst))) : 19;
    R.stat(fmt("%02d digits", b));
    if (worst <= DIGITS) return;
    LD nz = noise(c, impl_amp2, f);
    if (worst <= DIGITS + 100 * nz) { R.undecided++; return; }
    R.bad(fmt("%s:%s", I.name, what.c_str()), fmt("%s is off by a relative %.2Le at ", what.c_str(), worst) + c.str());
  });
}

int main(int argc, char **argv) {
  Report R(argc, argv);
  if (!R.out.empty() && !freopen("/dev/null", "w", stdout)) return 3;  // the library prints usage messages
  auto &reg = registry();
  std::sort(reg.begin(), reg.end(), [](const Info &a, const Info &b) { return strcmp(a.name, b.name) < 0; });
  int k = atoi(R.prop.c_str() + 1), n = 0, job = 0;
  if (k <= 7) n = k == 7 ? R.n(8000, 60000) : R.n(20000, 200000);
  else if (k == 8) n = R.n(2000, 20000);
  else if (k == 9) n = R.n(3000, 80000);
  else if (k == 10) n = R.n(600, 15000);
  else if (k == 11) n = R.n(600, 6000);
  else if (k == 15) n = R.n(2000, 20000);
  else if (k == 18) n = R.n(1000, 30000);
  else if (k == 17) n = R.n(600, 6000);
  else if (k == 19) n = R.n(500, 10000);
  else n = R.n(3000, 80000);
  for (auto &I : reg) {
    R.stat("processes", R.shard == 0);
    for (int i = 0; i < n; i++) {
      if (!R.mine(job++)) continue;
      if (k <= 7) { sums(R, I, i); if (i < n / 4) feynman(R, I, i); }
      else if (k == 8) spins(R, I, i);
      else if (k == 9) spinsum(R, I, i);
      else if (k == 10) frames(R, I, i);
      else if (k == 11) { history(R, I, i); int at = &I - &reg[0]; if (i >= at && i < at + (R.thorough ? 8 : 1)) longrun(R, I, i); }
      else if (k == 12) { widths(R, I, i); if (i % (R.thorough ? 100 : 40) == 0) widthpoles(R, I, i); }
      else if (k == 13) couplings(R, I, i);
      else if (k == 14) exchange(R, I, i);
      else if (k == 15) phases(R, I, i);
      else if (k == 17) labels(R, I, i);
      else if (k == 18) massless(R, I, i);
      else if (k == 19) digits(R, I, i);
      else onecall(R, I, i);
    }
  }
  return R.finish();
}
