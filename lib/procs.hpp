// Uniform view of the process classes for the monitors.
#ifndef PROCS_HPP
#define PROCS_HPP
#include "spinas.h"
#include "refsm.hpp"
#include <functional>
#include <string>
#include <vector>

namespace procs {
using spinas::process;
typedef refsm::Par<ldouble> PL;

struct Proc {
  virtual ~Proc() {}
  virtual void masses(const PL &P) = 0;
  virtual void momenta(const ldouble m[4][4]) = 0;
  virtual ldouble amp2() = 0;
  virtual bool onecall(const ldouble[4][4], ldouble &) { return false; }  // amp2 of these momenta without set_momenta, where defined
  virtual ldouble pol(int) { return 0; }
  virtual cdouble amp(const int *) { return cdouble(0, 0); }
  virtual void parts(const int *ds, cdouble *o) { o[0] = amp(ds); o[1] = o[2] = o[3] = cdouble(0, 0); }  // by colour structure, as in the reference
  virtual ldouble spin2(const int *) { return 0; }  // colour-summed square for these doubled spins
  virtual spinas::process *base() = 0;
};
// Partial amplitudes some processes offer instead of one amplitude per spin state; not required to exist.
struct NotOffered {};
#define VP_OPT(fn) \
  template <class T> auto opt_##fn(T &x, const int *d, int)->decltype(x.fn(d[0], d[1], d[2], d[3])) { return x.fn(d[0], d[1], d[2], d[3]); } \
  template <class T> cdouble opt_##fn(T &, const int *, long) { throw NotOffered(); }
VP_OPT(amp_Num) VP_OPT(amp_gluon) VP_OPT(amp_rest) VP_OPT(amp_W)
VP_OPT(amp_gluon_S) VP_OPT(amp_gluon_T) VP_OPT(amp_gluon_U) VP_OPT(amp_rest_S) VP_OPT(amp_rest_T) VP_OPT(amp_rest_U)
// Colour sum for two colour flows, each with a gluon (g) and a colourless (r) exchange part.
inline ldouble colour2(cdouble g1, cdouble r1, cdouble g2, cdouble r2) {
  return 9 * (std::norm(r1) + std::norm(r2)) + 2 * (std::norm(g1) + std::norm(g2)) + 6 * std::real(r1 * std::conj(r2)) -
         (ldouble)4 / 3 * std::real(g1 * std::conj(g2)) + 8 * std::real(g1 * std::conj(r2)) + 8 * std::real(g2 * std::conj(r1));
}
// K_FULL: one amplitude per spin state; K_PROP: it lacks a spin-independent factor; K_SUM: only partial amplitudes
enum Kind { K_FULL, K_PROP, K_SUM };
struct Pol { const char *name; int fix[4]; };
struct Info {
  const char *name, *sector;
  const char *legs[4];
  bool qed;
  std::vector<std::string> cargs;
  std::vector<Pol> pols;
  std::function<Proc *(const PL &)> make;
  std::vector<int> ampLegs;  // legs whose doubled spin the per-spin amplitude takes
  Kind kind;
};
std::vector<Info> &registry();
struct Reg { Reg(const Info &i) { registry().push_back(i); } };
}  // namespace procs
#endif
