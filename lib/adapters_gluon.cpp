// Adapters of sector gluon: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/dAgd.h"
#include "include/gAdd.h"
#include "include/gAuu.h"
#include "include/guAu.h"
#include "include/dWgu.h"
#include "include/gWud.h"
#include "include/gZdd.h"
#include "include/gZuu.h"
#include "include/gdZd.h"
#include "include/guZu.h"
#include "include/dgdh.h"
#include "include/uguh.h"
#include "include/hgdd.h"
#include "include/hguu.h"
#include "include/ggdd.h"
#include "include/gguu.h"
#include "include/gugu.h"
#include "include/dggd.h"
#include "include/gggg.h"
namespace procs {
using namespace refsm;

struct P_dAgd : Proc {
  spinas::dAgd x;
  P_dAgd(const PL &P) : x(P.e, P.gs, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dAgd({"dAgd", "gluon", {"d", "A", "g", "d"}, false, {"echarge", "gscharge", "massd"}, {{"amp2_Aplus", {9, 1, 9, 9}}, {"amp2_Aminus", {9, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_dAgd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_gAdd : Proc {
  spinas::gAdd x;
  P_gAdd(const PL &P) : x(P.e, P.gs, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus_Aplus(); case 1: return x.amp2_gplus_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gAdd({"gAdd", "gluon", {"g", "A", "d", "D"}, false, {"echarge", "gscharge", "massd"}, {{"amp2_gplus_Aplus", {1, 1, 9, 9}}, {"amp2_gplus_Aminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gAdd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_gAuu : Proc {
  spinas::gAuu x;
  P_gAuu(const PL &P) : x(P.e, P.gs, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus_Aplus(); case 1: return x.amp2_gplus_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gAuu({"gAuu", "gluon", {"g", "A", "u", "U"}, false, {"echarge", "gscharge", "massu"}, {{"amp2_gplus_Aplus", {1, 1, 9, 9}}, {"amp2_gplus_Aminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gAuu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_guAu : Proc {
  spinas::guAu x;
  P_guAu(const PL &P) : x(P.e, P.gs, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_guAu({"guAu", "gluon", {"g", "u", "A", "u"}, false, {"echarge", "gscharge", "massu"}, {{"amp2_gplus", {1, 9, 9, 9}}, {"amp2_gminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_guAu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_dWgu : Proc {
  spinas::dWgu x;
  P_dWgu(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fd], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dWgu({"dWgu", "gluon", {"d", "W+", "g", "u"}, false, {"echarge", "gscharge", "massu", "massd", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_dWgu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_gWud : Proc {
  spinas::gWud x;
  P_gWud(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fd], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gWud({"gWud", "gluon", {"g", "W+", "u", "D"}, false, {"echarge", "gscharge", "massu", "massd", "massW", "sinW"}, {{"amp2_gplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gWud(P); }, {0, 1, 2, 3}, K_FULL});

struct P_gZdd : Proc {
  spinas::gZdd x;
  P_gZdd(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gZdd({"gZdd", "gluon", {"g", "Z", "d", "D"}, false, {"echarge", "gscharge", "massd", "massW", "sinW"}, {{"amp2_gplus", {1, 9, 9, 9}}, {"amp2_gminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gZdd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_gZuu : Proc {
  spinas::gZuu x;
  P_gZuu(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gZuu({"gZuu", "gluon", {"g", "Z", "u", "U"}, false, {"echarge", "gscharge", "massu", "massW", "sinW"}, {{"amp2_gplus", {1, 9, 9, 9}}, {"amp2_gminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gZuu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_gdZd : Proc {
  spinas::gdZd x;
  P_gdZd(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gdZd({"gdZd", "gluon", {"g", "d", "Z", "d"}, false, {"echarge", "gscharge", "massd", "massW", "sinW"}, {{"amp2_gplus", {1, 9, 9, 9}}, {"amp2_gminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gdZd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_guZu : Proc {
  spinas::guZu x;
  P_guZu(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_guZu({"guZu", "gluon", {"g", "u", "Z", "u"}, false, {"echarge", "gscharge", "massu", "massW", "sinW"}, {{"amp2_gplus", {1, 9, 9, 9}}, {"amp2_gminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_guZu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_dgdh : Proc {
  spinas::dgdh x;
  P_dgdh(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dgdh({"dgdh", "gluon", {"d", "g", "d", "h"}, false, {"echarge", "gscharge", "massd", "massh", "massW", "sinW"}, {{"amp2_gplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_dgdh(P); }, {0, 1, 2}, K_FULL});

struct P_uguh : Proc {
  spinas::uguh x;
  P_uguh(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uguh({"uguh", "gluon", {"u", "g", "u", "h"}, false, {"echarge", "gscharge", "massu", "massh", "massW", "sinW"}, {{"amp2_gplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_uguh(P); }, {0, 1, 2}, K_FULL});

struct P_hgdd : Proc {
  spinas::hgdd x;
  P_hgdd(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hgdd({"hgdd", "gluon", {"h", "g", "d", "D"}, false, {"echarge", "gscharge", "massd", "massh", "massW", "sinW"}, {{"amp2_gplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_hgdd(P); }, {1, 2, 3}, K_FULL});

struct P_hguu : Proc {
  spinas::hguu x;
  P_hguu(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 4 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hguu({"hguu", "gluon", {"h", "g", "u", "U"}, false, {"echarge", "gscharge", "massu", "massh", "massW", "sinW"}, {{"amp2_gplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_hguu(P); }, {1, 2, 3}, K_FULL});

struct P_ggdd : Proc {
  spinas::ggdd x;
  P_ggdd(const PL &P) : x(P.gs, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Feynman(); case 1: return x.amp2_gplus_gplus(); case 2: return x.amp2_gplus_gminus(); } return 0; }
  ldouble spin2(const int *ds) { return std::norm(opt_amp_Num(x, ds, 0)); }
  cdouble amp(const int *ds) { return opt_amp_Num(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_ggdd({"ggdd", "gluon", {"g", "g", "d", "D"}, false, {"gcharge", "massd"}, {{"amp2_Feynman", {9, 9, 9, 9}}, {"amp2_gplus_gplus", {1, 1, 9, 9}}, {"amp2_gplus_gminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_ggdd(P); }, {0, 1, 2, 3}, K_PROP});

struct P_gguu : Proc {
  spinas::gguu x;
  P_gguu(const PL &P) : x(P.gs, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Feynman(); case 1: return x.amp2_gplus_gplus(); case 2: return x.amp2_gplus_gminus(); } return 0; }
  ldouble spin2(const int *ds) { return std::norm(opt_amp_Num(x, ds, 0)); }
  cdouble amp(const int *ds) { return opt_amp_Num(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_gguu({"gguu", "gluon", {"g", "g", "u", "U"}, false, {"gcharge", "massu"}, {{"amp2_Feynman", {9, 9, 9, 9}}, {"amp2_gplus_gplus", {1, 1, 9, 9}}, {"amp2_gplus_gminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gguu(P); }, {0, 1, 2, 3}, K_PROP});

struct P_gugu : Proc {
  spinas::gugu x;
  P_gugu(const PL &P) : x(P.gs, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  ldouble spin2(const int *ds) { return std::norm(opt_amp_Num(x, ds, 0)); }
  cdouble amp(const int *ds) { return opt_amp_Num(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_gugu({"gugu", "gluon", {"g", "u", "g", "u"}, false, {"gcharge", "massu"}, {{"amp2_gplus", {1, 9, 9, 9}}, {"amp2_gminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gugu(P); }, {0, 1, 2, 3}, K_PROP});

struct P_dggd : Proc {
  spinas::dggd x;
  P_dggd(const PL &P) : x(P.gs, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_gplus(); case 1: return x.amp2_gminus(); } return 0; }
  ldouble spin2(const int *ds) { return std::norm(opt_amp_Num(x, ds, 0)); }
  cdouble amp(const int *ds) { return opt_amp_Num(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_dggd({"dggd", "gluon", {"D", "g", "g", "D"}, false, {"gcharge", "massd"}, {{"amp2_gplus", {9, 1, 9, 9}}, {"amp2_gminus", {9, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_dggd(P); }, {0, 1, 2, 3}, K_PROP});

struct P_gggg : Proc {
  spinas::gggg x;
  P_gggg(const PL &P) : x(P.gs) {}
  void masses(const PL &P) { (void)P; }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Feynman(); case 1: return x.amp2_gplus_gplus(); case 2: return x.amp2_gplus_gminus(); case 3: return x.amp2_gminus_gplus(); case 4: return x.amp2_gminus_gminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_gggg({"gggg", "gluon", {"g", "g", "g", "g"}, false, {"gcharge"}, {{"amp2_Feynman", {9, 9, 9, 9}}, {"amp2_gplus_gplus", {1, 1, 9, 9}}, {"amp2_gplus_gminus", {1, -1, 9, 9}}, {"amp2_gminus_gplus", {-1, 1, 9, 9}}, {"amp2_gminus_gminus", {-1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_gggg(P); }, {0, 1, 2, 3}, K_PROP});

}  // namespace procs
