// Monitor for the user example (R05): the shipped muon-pair process against the tree-level QED reference.
#include "smcase.hpp"
#include "include/eemm.h"
using namespace smc;
namespace procs { std::vector<Info> &registry() { static std::vector<Info> r; return r; } }

static void set(eemm &x, const Point &c) {
  ldouble q[4][4];
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) q[i][j] = c.p[i][j];
  x.set_momenta(q[0], q[1], q[2], q[3]);
}
int main(int argc, char **argv) {
  Report R(argc, argv);
  if (!R.out.empty() && !freopen("/dev/null", "w", stdout)) return 3;
  Info I = {"eemm", "user", {"e", "E", "m", "M"}, true, {}, {}, nullptr, {0, 1, 2, 3}, K_FULL};
  int n = R.n(40000, 400000);
  for (int i = 0; i < n; i++)
    if (R.mine(i)) R.run("example", i, [&](Rng &r) {
      std::unique_ptr<eemm> x;
      Point c;
      int steps = 1 + r.n(3);
      for (int s = 0; s < steps; s++) {
        LD e = c.P.e;
        gen(r, I, c);
        if (s) {
          c.P.e = e;
          if (r.n(4) == 0) {  // a refused momentum in between
            ldouble q[4] = {1, 5, 0, 0};
            try { x->set_momenta(q, q, q, q); R.bad("eemm:refused", "an off-shell momentum was accepted"); } catch (const std::runtime_error &) {}
          }
          x->set_masses(c.P.mf[Fe], c.P.mf[Fm]);
        } else {
          if (r.n(5) == 0) { c.P.e = r.uni(-3, 3); }
          x.reset(new eemm(c.P.e, c.P.mf[Fe], c.P.mf[Fm]));
        }
        set(*x, c);
        LD a = x->amp2(), err;
        Amp<LD> ref(c.P, c.L, c.p);
        LD f = ref.amp2();
        R.eval();
        R.nontrivial(c.hash());
        R.stat(s ? "after a mass change" : "new object"); R.stat(fmt("frame%d", c.fs)); R.stat(fmt("masses%d", c.ps));
        R.sample(fmt("%d", c.fs), c.str() + fmt(" amp2=%.15Lg reference=%.15Lg", a, f));
        auto q2 = [&] { Par<Q> P = toQ(c.P); Q q[4][4]; momQ(c, q); Amp<Q> z(P, c.L, q); return (LD)z.amp2(); };
        auto fi = [&](const Point &d) { eemm y(d.P.e, d.P.mf[Fe], d.P.mf[Fm]); set(y, d); return (LD)y.amp2(); };
        Verdict v = judge(c, a, f, 0, q2, fi, 1e-9L, err);
        if (v == BROKEN) R.bad("eemm:amp2", fmt("amp2=%.18Lg reference=%.18Lg relative error %.2Le at ", a, f, err) + c.str());
        if (v == UNDECIDED) R.undecided++;
        // |amp|^2 per spin state
        LD sum = 0;
        for (int h = 0; h < 16; h++) {
          int k[4] = {h & 1 ? 1 : -1, h & 2 ? 1 : -1, h & 4 ? 1 : -1, h & 8 ? 1 : -1};
          LD b = std::norm(x->amp(k[0], k[1], -k[2], -k[3])), g = (LD)ref.colsum(ref.eval(k));
          sum += b;
          R.eval();
          if (!(fabsl(b - g) <= 1e-9L * (g + f))) R.bad("eemm:amp", fmt("helicities %d %d %d %d: |amp|^2=%.18Lg reference=%.18Lg at ", k[0], k[1], k[2], k[3], b, g) + c.str());
        }
        if (!(fabsl(sum / 4 - a) <= 1e-12L * a)) R.bad("eemm:spin-sum", fmt("amp2=%.18Lg, averaged sum %.18Lg at ", a, sum / 4) + c.str());
      }
    });
  if (R.shard == 0 && R.begin("shipped test")) {
    int k = test_eemm();
    R.eval();
    if (k) R.bad("eemm:shipped-test", fmt("the shipped test reports %d failures", k));
  }
  return R.finish();
}
