// Whole-life workloads of every process and library object for the sanitizer, valgrind, thread and
// build-configuration monitors (R01-R04, R06-R08).
#include "smcase.hpp"
#include <atomic>
#include <csignal>
#include <dirent.h>
#include <fenv.h>
#include <iostream>
#include <locale>
#include <locale.h>
#include <malloc.h>
#include <sstream>
#include <thread>
#ifdef VP_VALGRIND
#include <valgrind/memcheck.h>
#endif
using namespace smc;
using spinas::particle;
using spinas::sproduct;
namespace procs { std::vector<Info> &registry() { static std::vector<Info> r; return r; } }

#ifdef VP_FILL
// Every new object starts on memory with a chosen content.
static thread_local int fillByte = -1;
void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  if (fillByte >= 0) memset(p, fillByte, n);
  return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
// and every call on a stack with that content
__attribute__((noinline)) static void fillStack(int b) {
  volatile unsigned char a[1 << 16];
  for (size_t i = 0; i < sizeof a; i++) a[i] = b;
}
#endif

typedef std::vector<LD> Vals;
static void put(Vals &v, LD x) {
#ifdef VP_VALGRIND
  VALGRIND_CHECK_MEM_IS_DEFINED(&x, sizeof(ldouble) > 8 ? 10 : 8);  // without the padding
#endif
  v.push_back(x);
}
static void put(Vals &v, cdouble x) { put(v, (LD)x.real()); put(v, (LD)x.imag()); }
static void put(Vals &v, const spinas::cvector &x) { for (int i = 0; i < 2; i++) put(v, x.get(i)); }
static void put(Vals &v, const spinas::cmatrix &x) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) put(v, x.get(i, j)); }

// exactly sized separate blocks, so that reading past any of the four momenta is visible
struct Blocks {
  ldouble *b[4];
  Blocks() { for (auto &x : b) x = (ldouble *)malloc(4 * sizeof(ldouble)); }
  ~Blocks() { for (auto x : b) free(x); }
  void set(const LD p[4][4]) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) b[i][j] = p[i][j]; }
};
static std::vector<int> labels(const Leg &l) {
  if (is_fermion(l.f)) return {-1, 1};
  if (l.f == Fh) return {0};
  if (l.f == FA || l.f == Fg) return {-2, 2};
  return {-2, 0, 2};
}
static void allspins(const Point &c, Proc &x, Vals &o, Rng *few = 0) {
  for (int a : labels(c.L[0])) for (int b : labels(c.L[1])) for (int d : labels(c.L[2])) for (int e : labels(c.L[3])) {
    if (few && few->n(6)) continue;
    int ds[4] = {a, b, d, e};
    try {
      if (c.I->kind == K_SUM) put(o, (LD)x.spin2(ds)); else put(o, x.amp(ds));
    } catch (const NotOffered &) {}
  }
}
// One life of a process object.
static Vals life(const Info &I, uint64_t seed, bool before) {
  Rng r(seed);
  Vals o;
  Point c, d;
  gen(r, I, c);
  gen(r, I, d);
  if (r.n(2)) { c.P.wh = .01L * c.P.mh; c.P.WW = .02L * c.P.MW; c.P.WZ = .02L * c.P.MZ; }
  std::unique_ptr<Proc> x(I.make(c.P));
  Blocks B;
  if (before) {  // evaluation before any momentum was given
    put(o, (LD)x->amp2());
    allspins(c, *x, o, &r);
  }
  B.set(c.p);
  x->base()->set_momenta(B.b[0], B.b[1], B.b[2], B.b[3]);
  put(o, (LD)x->amp2());
  for (size_t k = 0; k < I.pols.size(); k++) put(o, (LD)x->pol(k));
  allspins(c, *x, o);
  ldouble once, q[4][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) q[i][j] = c.p[i][j];
  if (x->onecall(q, once)) put(o, (LD)once);
  // a momentum that is refused, then the good one again
  LD bad[4][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) bad[i][j] = c.p[i][j];
  bad[r.n(4)][0] += 1 + r.u();
  B.set(bad);
  try { x->base()->set_momenta(B.b[0], B.b[1], B.b[2], B.b[3]); } catch (const std::exception &) { o.push_back(1); }
  B.set(c.p);
  x->base()->set_momenta(B.b[0], B.b[1], B.b[2], B.b[3]);
  put(o, (LD)x->amp2());
  // other masses
  x->masses(d.P);
  Point e = d;
  e.P = d.P;
  if (r.n(2)) {
    B.set(d.p);
    try {
      x->base()->set_momenta(B.b[0], B.b[1], B.b[2], B.b[3]);
      put(o, (LD)x->amp2());
      allspins(d, *x, o, &r);
    } catch (const std::exception &) { o.push_back(2); }
  }
  x->masses(c.P);
  B.set(c.p);
  try {
    x->base()->set_momenta(B.b[0], B.b[1], B.b[2], B.b[3]);
    put(o, (LD)x->amp2());
  } catch (const std::exception &) { o.push_back(3); }
  return o;
}
// The built-in self-check of one process against values of its own
static Vals selfcheck(const Info &I, uint64_t seed) {
  Rng r(seed);
  Point c;
  gen(r, I, c, 0, 0, 0);
  LD pin = c.p[0][3];
  std::unique_ptr<Proc> x(I.make(c.P));
  ldouble data[20];
  for (int j = 0; j < 20; j++) {
    LD p[4][4];
    kin::cm(c.m, pin, .95L - .1L * j, p);
    setmom(*x, p);
    data[j] = x->amp2();
  }
  Vals o;
  auto f = [&] { return x->amp2(); };
  ldouble m[4] = {(ldouble)c.m[0], (ldouble)c.m[1], (ldouble)c.m[2], (ldouble)c.m[3]};
  put(o, (LD)x->base()->test_2to2_amp2(f, m[0], m[1], m[2], m[3], pin, data));
  // only that it runs: the count may depend on the random frames where digits cancel
  // or a strongly boosted energetic momentum may be refused
  try {
    x->base()->test_2to2_amp2_rotations(f, m[0], m[1], m[2], m[3], pin, data);
    x->base()->test_2to2_amp2_boosts(f, m[0], m[1], m[2], m[3], pin, data);
    x->base()->test_2to2_amp2_boosts_and_rotations(f, m[0], m[1], m[2], m[3], pin, data);
  } catch (const std::exception &) {}
  return o;
}
// One life of library objects.
static Vals liblife(uint64_t seed) {
  Rng r(seed);
  Vals o;
  int n = 3 + r.n(3);
  std::vector<std::unique_ptr<particle>> P;
  std::vector<LD> m;
  for (int i = 0; i < n; i++) {
    LD mass = r.n(2) ? r.uni(.1L, 50) : 0;
    ldouble *p = (ldouble *)malloc(4 * sizeof(ldouble));
    LD q[4];
    for (int j = 1; j < 4; j++) q[j] = r.n(4) ? r.uni(-50, 50) : 0;
    if (mass == 0) q[3] += 1;
    kin::onshell(q, mass);
    for (int j = 0; j < 4; j++) p[j] = q[j];
    int how = r.n(3);
    if (how == 0) P.emplace_back(new particle(p, mass));
    else if (how == 1) {
      P.emplace_back(new particle(mass));
      if (mass == 0) put(o, P[i]->rangle()); else { put(o, P[i]->rangle(1)); put(o, P[i]->lsquare(-1, false)); }
      put(o, P[i]->umat());
      P[i]->set_momentum(p);
    } else {
      P.emplace_back(new particle());
      put(o, P[i]->lmat());
      put(o, P[i]->rsquare());
      P[i]->set_mass(mass);
      P[i]->set_momentum(p);
    }
    m.push_back(mass);
    put(o, P[i]->umat()); put(o, P[i]->lmat());
    put(o, P[i]->lorentz_j3_lu()); put(o, P[i]->lorentz_jp_lu()); put(o, P[i]->lorentz_jm_ul()); put(o, P[i]->lorentz_jp_lu_dot()); put(o, P[i]->lorentz_jm_ul_dot());
    put(o, P[i]->spin_j3_lu()); put(o, P[i]->spin_jp_ul());
    put(o, (LD)P[i]->test_angles());
    put(o, (LD)P[i]->dot(*P[0]));
    if (r.n(3) == 0) { p[0] += 1; try { P[i]->set_momentum(p); } catch (const std::exception &) { o.push_back(1); } }
    try { put(o, P[i]->rangle()); } catch (const std::exception &) { o.push_back(2); }
    try { put(o, P[i]->langle(1)); } catch (const std::exception &) { o.push_back(3); }
    try { put(o, P[i]->rsquare_matrix(r.n(2))); } catch (const std::exception &) { o.push_back(4); }
    free(p);
  }
  for (int k = 0; k < 6; k++) {
    int l = r.n(n), e = r.n(n), a = r.n(n), b = r.n(n);
    bool as = r.n(2);
    std::unique_ptr<sproduct> s;
    try {
      if (k == 0) s.reset(new sproduct(as, P[l].get(), P[e].get()));
      else if (k == 1) s.reset(new sproduct(as, P[l].get(), P[a].get(), P[e].get(), (bool)r.n(2)));
      else if (k == 2) s.reset(new sproduct(as, P[l].get(), (bool)r.n(2), P[a].get(), P[b].get(), P[e].get()));
      else if (k == 3) s.reset(new sproduct(as, P[l].get(), P[a].get(), P[b].get(), P[a].get(), P[e].get()));
      else if (k == 4) s.reset(new sproduct(as, P[l].get(), P[a].get(), P[b].get(), P[a].get(), P[b].get(), P[e].get()));
      else { s.reset(new sproduct()); *s = sproduct(as, P[l].get(), P[a].get(), P[b].get(), P[a].get(), P[b].get(), P[a].get(), P[b].get(), P[e].get()); }
    } catch (const std::exception &) { o.push_back(5); continue; }
    for (int t = 0; t < 2; t++) {
      try { put(o, s->v()); } catch (const std::exception &) { o.push_back(6); }
      for (int x = -1; x <= 1; x += 2) {
        try { put(o, s->v(x)); } catch (const std::exception &) { o.push_back(7); }
        for (int y = -1; y <= 1; y += 2) try { put(o, s->v(x, y)); } catch (const std::exception &) { o.push_back(8); }
      }
      s->update();
    }
  }
  spinas::propagator pr, pw(r.uni(1, 10), r.uni(0, 1));
  ldouble p[4] = {10, 1, 2, 3}, u[3] = {0, 0, 1}, v[3] = {.1L, .2L, .3L};
  put(o, pr.denominator(p));
  put(o, pw.denominator(p));
  spinas::rotate_momentum(p, u, r.uni(-3, 3));
  spinas::boost_momentum(p, v);
  for (ldouble x : p) put(o, (LD)x);
  spinas::cmatrix A(p, true), B, D;
  spinas::cvector V(cdouble(1, 2), cdouble(3, 4)), W;
  D = A * (A + B) * 2;
  D *= cdouble(1, 1);
  put(o, B); put(o, D); put(o, W); put(o, V * D); put(o, outer(V, V)); put(o, (LD)A.get_det());
  std::ostringstream os;
  os << A << V << W.to_Mathematica_string() << D.to_Mathematica_string() << spinas::double_to_Mathematica_string(p[0]);
  put(o, (LD)(hstr(os.str()) & 0xffffffff));
  put(o, (LD)(A == D)); put(o, (LD)(V != W));
  LD k = spinas::choose_random_int(2, 2);
  put(o, k);
  ldouble z[4];
  LD mm = spinas::choose_random_momentum(z, -5, 5);
  put(o, (LD)(mm >= 0));
  spinas::choose_random_massless_momentum(z, -5, 5);
  put(o, (LD)(std::abs(spinas::choose_random_cdouble(0, 1)) <= 2));
  return o;
}
static uint64_t digest(const Vals &v) {
  uint64_t h = v.size();
  for (LD x : v) { unsigned char b[16] = {0}; memcpy(b, &x, 10); uint64_t a, c; memcpy(&a, b, 8); memcpy(&c, b + 8, 8); h = mix(h, a ^ (c << 1)); }
  return h;
}
static bool same(const Vals &a, const Vals &b, size_t &at) {
  at = 0;
  if (a.size() != b.size()) return false;
  for (at = 0; at < a.size(); at++) if (memcmp(&a[at], &b[at], 10)) return false;
  return true;
}

// ---- R01, and R02 under valgrind: just live, the tool watches
static void live(Report &R) {
  int job = 0, n = R.n(240, 4800);
  auto &reg = registry();
  for (int i = 0; i < n; i++) {
    for (auto &I : reg)
      if (R.mine(job++)) R.run(I.name, i, [&](Rng &r) {
        Vals v = life(I, r.next(), i % 4 == 3);
        R.eval(v.size());
        R.stat("process lives");
        R.nontrivial(digest(v));
        R.sample(I.sector, fmt("%s: one life with %zu results", I.name, v.size()));
      });
    if (i % 20 == 0)
      for (auto &I : reg)
        if (R.mine(job++)) R.run(std::string(I.name) + "/selfcheck", i, [&](Rng &r) { Vals v = selfcheck(I, r.next()); R.eval(v.size()); R.stat("self-checks"); });
    for (int k = 0; k < 40; k++)
      if (R.mine(job++)) R.run("library", i * 40 + k, [&](Rng &r) {
        Vals v = liblife(r.next());
        R.eval(v.size());
        R.stat("library lives");
        R.nontrivial(digest(v));
      });
  }
}
#ifdef VP_FILL
// ---- R02 without valgrind: same life on memory with different previous contents
static void fills(Report &R) {
  static const int bytes[] = {0x00, 0xff, 0x7f, 0x41};
  int job = 0, n = R.n(160, 1600);
  auto one = [&](const std::string &name, int i, std::function<Vals(uint64_t)> f) {
    if (R.mine(job++)) R.run(name, i, [&](Rng &r) {
      uint64_t s = r.next();
      Vals ref;
      for (int k = 0; k < 4; k++) {
        fillByte = bytes[k];
        fillStack(bytes[k]);
        Vals v = f(s);
        fillByte = -1;
        R.eval(v.size());
        size_t at;
        if (k == 0) { ref = v; R.nontrivial(digest(v)); R.sample(name.substr(0, 2), fmt("%s: life with %zu results on four memory contents", name.c_str(), v.size())); }
        else if (!same(ref, v, at))
          R.bad(name + ":depends-on-memory", fmt("result %zu of %zu is %.18Lg on zeroed memory and %.18Lg on memory filled with 0x%02x", at, ref.size(), at < ref.size() ? ref[at] : 0,
                                                 at < v.size() ? v[at] : 0, bytes[k]));
      }
    });
  };
  for (int i = 0; i < n; i++) {
    for (auto &I : registry()) one(I.name, i, [&](uint64_t s) { return life(I, s, i % 3 == 2); });
    for (int k = 0; k < 40; k++) one("library", i * 40 + k, liblife);
  }
}
#endif
// ---- R03: the same lives in parallel threads and one after the other
static void threads(Report &R) {
  const int T = 6;
  int job = 0, n = R.n(12, 120);
  auto run = [&](const std::string &name, int i, std::vector<std::function<Vals()>> f) {
    if (R.mine(job++)) R.run(name, i, [&](Rng &) {
      std::vector<Vals> par(f.size());
      std::atomic<int> ready(0);
      std::vector<std::thread> th;
      for (size_t t = 0; t < f.size(); t++)
        th.emplace_back([&, t] {
          ready++;
          while (ready < (int)f.size()) std::this_thread::yield();
          par[t] = f[t]();
        });
      for (auto &t : th) t.join();
      for (size_t t = 0; t < f.size(); t++) {
        Vals s = f[t]();
        size_t at;
        R.eval(s.size());
        R.nontrivial(digest(s));
        if (!same(s, par[t], at))
          R.bad(name + ":threads-disagree", fmt("thread %zu result %zu of %zu: alone %.18Lg, in parallel %.18Lg", t, at, s.size(), at < s.size() ? s[at] : 0, at < par[t].size() ? par[t][at] : 0));
      }
      R.stat("parallel groups");
      R.stat("threads", f.size());
      R.sample(name.substr(0, 3), fmt("%s: %zu threads, each with its own objects", name.c_str(), f.size()));
    });
  };
  auto &reg = registry();
  for (int i = 0; i < n; i++) {
    for (size_t k = 0; k < reg.size(); k++) {
      // the same class in all threads, or different ones
      std::vector<std::function<Vals()>> f;
      for (int t = 0; t < T; t++) {
        const Info *I = i % 2 ? &reg[mix(R.seed, i * 100003 + k * 17 + t) % reg.size()] : &reg[k];
        uint64_t s = mix(mix(R.seed, hstr(I->name)), i * 1000 + t);
        f.push_back([I, s] { return life(*I, s, false); });
      }
      run(i % 2 ? fmt("mixed%zu", k) : reg[k].name, i, f);
    }
    for (int k = 0; k < 40; k++) {
      std::vector<std::function<Vals()>> f;
      for (int t = 0; t < T; t++) { uint64_t s = mix(R.seed, 7919 * (i * 40 + k) + t); f.push_back([s] { return liblife(s); }); }
      run("library", i * 40 + k, f);
    }
    for (int k = 0; k < 8; k++) {
      std::vector<std::function<Vals()>> f;
      const Info *I = &reg[mix(R.seed, i * 31 + k) % reg.size()];
      for (int t = 0; t < T; t++) { uint64_t s = mix(R.seed, 104729 * (i * 8 + k) + t); f.push_back([I, s] { return selfcheck(*I, s); }); }
      run(std::string(I->name) + "/selfcheck", i, f);
    }
  }
}
// ---- R04: values at fixed points, to be compared between builds
static void dround(PL &P) {
  auto d = [](ldouble &x) { x = (double)x; };
  d(P.e); d(P.gs); d(P.sw); d(P.MW); d(P.mh); d(P.wh); d(P.WW); d(P.WZ); d(P.cw); d(P.MZ);
  for (auto &x : P.mf) d(x);
}
static void dump(Report &R, const char *file) {
  FILE *f = fopen(file, "w");
  if (!f) exit(3);
  int job = 0, n = R.n(200, 2000);
  for (auto &I : registry())
    for (int i = 0; i < n; i++)
      if (R.mine(job++)) {
        R.run(I.name, i, [&](Rng &r) {
          PL P;
          Point c;
          c.I = &I;
          legs(I, c.L);
          for (int t = 0;; t++) {
            gen_par(r, I, r.n(4), P);
            if (P.sw < .25L || P.sw > .9L) continue;  // MZ=MW/cw must agree between precisions
            if (r.n(2)) { P.wh = .01L * P.mh; P.WW = .02L * P.MW; P.WZ = .02L * P.MZ; }
            dround(P);
            c.P = P;
            for (int k = 0; k < 4; k++) c.m[k] = (double)P.mass(c.L[k].f);
            LD sc = 1;
            for (LD x : c.m) sc = std::max(sc, x);
            LD pin = sc * r.uni(.5L, 4), ct = r.uni(-.9L, .9L);
            int z = 0;
            while (!kin::cm(c.m, pin, ct, c.p) && z++ < 60) pin *= 1.3L;
            if (z < 60) break;
          }
          frame(r, c, 2 + r.n(2));  // generic directions: the phases are continuous there
          auto eval = [&](const Point &q) {
            Vals o;
            std::unique_ptr<Proc> x(I.make(q.P));
            setmom(*x, q.p);
            o.push_back(x->amp2());
            for (size_t k = 0; k < I.pols.size(); k++) o.push_back(x->pol(k));
            for (int a : labels(c.L[0])) for (int b : labels(c.L[1])) for (int d : labels(c.L[2])) for (int e : labels(c.L[3])) {
              int ds[4] = {a, b, d, e};
              try { cdouble z = I.kind == K_SUM ? cdouble(x->spin2(ds), 0) : x->amp(ds); o.push_back(z.real()); o.push_back(z.imag()); } catch (const NotOffered &) {}
            }
            return o;
          };
          Vals v = eval(c), w(v.size(), 0);
          if (sizeof(ldouble) > 8)  // what the double precision rounding of the input is worth
            for (int k = 0; k < 4; k++) {
              Point q = c;
              for (auto &p : q.p) { for (int j = 1; j < 4; j++) p[j] *= 1 + (LD)(r.n(9) - 4) * 1.1e-16L; }
              conserve(q);
              Vals u = eval(q);
              for (size_t j = 0; j < v.size(); j++) w[j] = std::max(w[j], fabsl(u[j] - v[j]));
            }
          R.eval(v.size());
          fprintf(f, "%s#%d %zu", I.name, i, I.pols.size());
          for (size_t j = 0; j < v.size(); j++) fprintf(f, " %.21Lg:%.3Lg", v[j], w[j]);
          fprintf(f, "\n");
        });
      }
  fclose(f);
}

// ---- R06: the calls leave the surrounding program alone
struct World {
  std::vector<std::pair<std::string, std::string>> v;
  void put(const char *k, const std::string &x) { v.push_back({k, x}); }
  static std::string io(const std::ios &s) { return fmt("flags %lx precision %d width %d fill %d state %d exceptions %d locale ", (long)s.flags(), (int)s.precision(), (int)s.width(), (int)s.fill(), (int)s.rdstate(), (int)s.exceptions()) + s.getloc().name(); }
  void read() {
    v.clear();
    fenv_t e;
    fegetenv(&e);
    put("rounding mode", fmt("%d", fegetround()));
    put("x87 control word", fmt("%x", (unsigned)e.__control_word));
    put("sse control bits", fmt("%x", (unsigned)(e.__mxcsr & ~0x3fu)));
    put("floating point traps", fmt("%d", fegetexcept()));
    put("C locale", setlocale(LC_ALL, 0));
    put("C++ locale", std::locale().name());
    put("cout", io(std::cout)); put("cerr", io(std::cerr)); put("clog", io(std::clog)); put("cin", io(std::cin));
    std::string s;
    for (int i = 1; i < 65; i++) { struct sigaction a; if (sigaction(i, 0, &a) == 0) s += fmt("%d:%p/%x ", i, (void *)a.sa_handler, a.sa_flags); }
    put("signal handlers", s);
    sigset_t m;
    sigprocmask(0, 0, &m);
    s.clear();
    for (int i = 1; i < 65; i++) if (sigismember(&m, i) == 1) s += fmt("%d ", i);
    put("blocked signals", s);
    put("terminate handler", fmt("%p", (void *)std::get_terminate()));
    put("new handler", fmt("%p", (void *)std::get_new_handler()));
    s.clear();
    if (DIR *d = opendir("/proc/self/fd")) {
      std::set<std::string> n;
      while (dirent *x = readdir(d)) { char b[300]; ssize_t k = readlink((std::string("/proc/self/fd/") + x->d_name).c_str(), b, 299); if (x->d_name[0] != '.' && atoi(x->d_name) != dirfd(d)) n.insert(std::string(x->d_name) + "=" + std::string(b, k > 0 ? k : 0)); }
      closedir(d);
      for (auto &x : n) s += x + " ";
    }
    put("open files", s);
    char cwd[4096];
    put("working directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
    s.clear();
    for (char **x = environ; *x; x++) s += *x;
    put("environment", fmt("%llx", (unsigned long long)hstr(s)));
    s.clear();
    if (DIR *d = opendir("/proc/self/task")) { int k = 0; while (dirent *x = readdir(d)) k += x->d_name[0] != '.'; closedir(d); s = fmt("%d", k); }
    put("threads", s);
  }
};
static void quiet(Report &R) {
  int job = 0, n = R.n(60, 1200);
  int cap[2], old[2];
  for (int k = 0; k < 2; k++) {
    cap[k] = memfd_create("out", 0);
    if (cap[k] < 0) exit(3);
  }
  World a, b;
  auto watch = [&](const std::string &name, bool printing, const std::function<Vals()> &f) {
    fflush(stdout); std::cout.flush(); fflush(stderr); std::cerr.flush();
    for (int k = 0; k < 2; k++) { old[k] = dup(k + 1); if (ftruncate(cap[k], 0)) exit(3); lseek(cap[k], 0, SEEK_SET); dup2(cap[k], k + 1); }
    srand(4711);
    a.read();
    Vals v;
    std::string thrown;
    try { v = f(); } catch (const std::exception &e) { thrown = e.what(); }
    int rnd = rand();
    fflush(stdout); std::cout.flush(); fflush(stderr); std::cerr.flush();
    b.read();
    std::string text[2];
    for (int k = 0; k < 2; k++) {
      text[k].resize(lseek(cap[k], 0, SEEK_END));
      if (!text[k].empty() && pread(cap[k], &text[k][0], text[k].size(), 0) != (ssize_t)text[k].size()) exit(3);
      dup2(old[k], k + 1);
      close(old[k]);
    }
    srand(4711);
    R.eval(v.size());
    R.stat("values", v.size());
    if (!thrown.empty()) R.bad(name + ":exception", "unexpected exception: " + thrown);
    if (rnd != rand()) R.bad(name + ":rand", "the sequence of rand() was advanced or restarted");
    for (int k = 0; k < 2 && !printing; k++)
      if (!text[k].empty()) R.bad(name + (k ? ":prints-error" : ":prints"), "valid calls wrote: " + text[k].substr(0, 300));
    for (size_t k = 0; k < a.v.size(); k++) {
      R.eval();
      if (a.v[k].second != b.v[k].second) R.bad(name + ":" + a.v[k].first, a.v[k].first + " was: " + a.v[k].second.substr(0, 1000) + " and is: " + b.v[k].second.substr(0, 1000));
    }
    R.nontrivial(digest(v));
    R.sample(name.substr(0, 2), fmt("%s: %zu results, %zu aspects of the program the same before and after, %zu bytes printed", name.c_str(), v.size(), a.v.size(), text[0].size() + text[1].size()));
  };
  fesetround(FE_TONEAREST);
  for (auto &I : registry())
    for (int i = 0; i < (R.thorough ? 8 : 1); i++)
      if (R.mine(job++)) R.run(std::string(I.name) + "/long", i, [&](Rng &r) {
        Point c;
        gen(r, I, c);
        watch(I.name, false, [&] {
          std::unique_ptr<Proc> x(I.make(c.P));
          Vals o;
          for (int k = 0; k < 6000; k++) { if (k % 100 == 0) x->masses(c.P); setmom(*x, c.p); LD a = x->amp2(); if (k % 500 == 0) put(o, a); }
          return o;
        });
        R.stat("long lives");
      });
  for (int i = 0; i < n; i++) {
    // the program may have its own settings
    std::cout.precision(3 + i % 9); std::cerr.precision(4 + i % 7);
    std::cout.setf(i % 2 ? std::ios::scientific : std::ios::fixed, std::ios::floatfield);
    for (auto &I : registry())
      if (R.mine(job++)) R.run(I.name, i, [&](Rng &r) { uint64_t s = r.next(); watch(I.name, false, [&] { return life(I, s, i % 4 == 3); }); R.stat("process lives"); });
    for (int k = 0; k < 40; k++)
      if (R.mine(job++)) R.run("library", i * 40 + k, [&](Rng &r) { uint64_t s = r.next(); watch("library", true, [&] { return liblife(s); }); R.stat("library lives"); });
    for (int k = 0; k < 4; k++)
      if (R.mine(job++)) R.run("selfcheck", i * 4 + k, [&](Rng &r) { uint64_t s = r.next(); const Info &I = registry()[r.n(registry().size())]; watch(std::string(I.name) + "/selfcheck", true, [&] { return selfcheck(I, s); }); R.stat("self-checks"); });
  }
}
// ---- R07: repeated use does not accumulate memory
static size_t held() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static void growth(Report &R) {
  int job = 0, N = R.n(160, 1600);
  auto watch = [&](const std::string &name, const std::function<Vals(int)> &f) {
    if (R.mine(job++)) R.run(name, 0, [&](Rng &r) {
      uint64_t h = 0;
      size_t nv = 0;
      for (int i = 0; i < N / 4; i++) { Vals v = f(i); h ^= digest(v); nv += v.size(); }
      size_t m0 = held();
      for (int i = N / 4; i < N / 2; i++) { Vals v = f(i); h ^= digest(v); nv += v.size(); }
      size_t m1 = held();
      for (int i = N / 2; i < N; i++) { Vals v = f(i); h ^= digest(v); nv += v.size(); }
      size_t m2 = held();
      R.eval(nv + 2);
      R.nontrivial(h);
      R.stat("repetitions", N);
      R.sample(name.substr(0, 2), fmt("%s: %zu bytes held after %d repetitions, %zu after %d, %zu after %d", name.c_str(), m0, N / 4, m1, N / 2, m2, N));
      // a cache may fill up once; what still grows in both later stages is not given back
      if (m1 <= m0 || m2 <= m1 || m2 - m1 < (size_t)(N / 2)) return;
      for (int i = N; i < 2 * N; i++) f(i);
      size_t m3 = held();
      if (m3 > m2 && m3 - m2 >= (size_t)N)
        R.bad(name + ":grows", fmt("bytes held: %zu after %d repetitions, %zu after %d, %zu after %d, %zu after %d", m0, N / 4, m1, N / 2, m2, N, m3, 2 * N));
    });
  };
  for (auto &I : registry()) {
    watch(I.name, [&](int i) { return life(I, mix(R.cseed(I.name, 1), i), i % 4 == 3); });
    watch(std::string(I.name) + "/reuse", [&](int i) {
      static std::map<std::string, std::unique_ptr<Proc>> keep;  // one object used again and again
      static std::map<std::string, Point> at;
      Rng r(mix(R.cseed(I.name, 2), i));
      std::unique_ptr<Proc> &x = keep[I.name];
      if (!x || i == 0) { gen(r, I, at[I.name]); x.reset(I.make(at[I.name].P)); }
      Point c = at[I.name], b = c;
      Vals o;
      if (i % 3 == 0) x->masses(c.P);
      setmom(*x, c.p);
      put(o, (LD)x->amp2());
      allspins(c, *x, o, &r);
      for (int k = 0; k < 4; k++) b.p[k][0] += 1;
      try { setmom(*x, b.p); } catch (const std::exception &) { o.push_back(1); }
      return o;
    });
    watch(std::string(I.name) + "/selfcheck", [&](int i) { return i % 12 ? Vals() : selfcheck(I, mix(R.cseed(I.name, 3), i)); });
  }
  for (int k = 0; k < 8; k++) watch(fmt("library%d", k), [&](int i) { Vals o; for (int t = 0; t < 10; t++) o = liblife(mix(R.cseed("library", k), i * 10 + t)); return o; });
}

// ---- R08: no invalid operation, division by zero or overflow on the way
static void arith(Report &R) {
  int job = 0, n = R.n(1500, 20000);
  const int watched = FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW;
  std::string name;
  auto step = [&](const char *what, const std::string &cx, const std::function<void()> &f) {
    feclearexcept(FE_ALL_EXCEPT);
    f();
    int e = fetestexcept(watched);
    R.eval();
    if (e) R.bad(name + ":" + what, fmt("%s%s%s in %s at ", e & FE_INVALID ? "invalid operation " : "", e & FE_DIVBYZERO ? "division by zero " : "", e & FE_OVERFLOW ? "overflow " : "", what) + cx);
  };
  for (int i = 0; i < n; i++) {
    for (auto &I : registry())
      if (R.mine(job++)) R.run(I.name, i, [&](Rng &r) {
        name = I.name;
        Point c, d;
        gen(r, I, c); gen(r, I, d);
        if (r.n(2)) { c.P.wh = .01L * c.P.mh; c.P.WW = .02L * c.P.MW; c.P.WZ = .02L * c.P.MZ; }
        d.P.e = c.P.e; d.P.gs = c.P.gs; d.P.sw = c.P.sw; d.P.cw = c.P.cw; d.P.wh = c.P.wh; d.P.WW = c.P.WW; d.P.WZ = c.P.WZ; d.P.MZ = d.P.MW / d.P.cw;
        std::string cx = c.str();
        R.nontrivial(c.hash());
        R.sample(I.sector, cx);
        R.stat(fmt("frame%d", c.fs));
        std::unique_ptr<Proc> x;
        Vals o;
        ldouble q[4][4], once;
        for (int k = 0; k < 4; k++) for (int j = 0; j < 4; j++) q[k][j] = c.p[k][j];
        bool changed = i % 2;
        step("constructor", cx, [&] { x.reset(I.make(changed ? d.P : c.P)); });
        if (changed) step("set_masses", cx, [&] { x->masses(c.P); });
        step("set_momenta", cx, [&] { x->base()->set_momenta(q[0], q[1], q[2], q[3]); });
        step("amp2", cx, [&] { put(o, (LD)x->amp2()); });
        for (size_t k = 0; k < I.pols.size(); k++) step(I.pols[k].name, cx, [&] { put(o, (LD)x->pol(k)); });
        step("amp", cx, [&] { allspins(c, *x, o); });
        step("one-call amp2", cx, [&] { if (x->onecall(q, once)) put(o, (LD)once); });
        for (LD v : o) if (!std::isfinite(v)) { R.bad(name + ":not-finite", "a result is not finite at " + cx); break; }
      });
    if (R.mine(job++)) R.run("library", i, [&](Rng &r) { name = "library"; uint64_t s = r.next(); step("calls", fmt("life %llu", (unsigned long long)s), [&] { R.nontrivial(digest(liblife(s))); }); R.stat("library lives"); });
    if (i % 10 == 0 && R.mine(job++)) R.run("selfcheck", i, [&](Rng &r) {
      const Info &I = registry()[r.n(registry().size())];
      uint64_t s = r.next();
      name = I.name;
      step("self-check", fmt("life %llu", (unsigned long long)s), [&] { R.nontrivial(digest(selfcheck(I, s))); });
      R.stat("self-checks");
    });
  }
}

int main(int argc, char **argv) {
  Report R(argc, argv);
  if (!R.out.empty() && !freopen("/dev/null", "w", stdout)) return 3;
  if (R.mode == "live") live(R);
#ifdef VP_FILL
  else if (R.mode == "fills") fills(R);
#endif
  else if (R.mode == "quiet") quiet(R);
  else if (R.mode == "growth") growth(R);
  else if (R.mode == "arith") arith(R);
  else if (R.mode == "threads") threads(R);
  else if (R.mode == "dump") dump(R, (R.out + ".dump").c_str());
  else return 3;
  return R.finish();
}
