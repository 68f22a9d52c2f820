// Adapters of sector lepton: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/eemm.h"
#include "include/emem.h"
#include "include/eeee.h"
#include "include/eeee2.h"
#include "include/eeeeQED.h"
#include "include/eemmQED.h"
#include "include/eenene.h"
#include "include/eenmnm.h"
#include "include/enenee.h"
#include "include/enmenm.h"
#include "include/menn.h"
#include "include/mnen.h"
#include "include/nenenene.h"
#include "include/nenenene2.h"
#include "include/nenenmnm.h"
#include "include/nenmnenm.h"
namespace procs {
using namespace refsm;

struct P_eemm : Proc {
  spinas::eemm x;
  P_eemm(const PL &P) : x(P.e, P.mf[Fe], P.mf[Fm], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mf[Fm], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eemm({"eemm", "lepton", {"e", "E", "m", "M"}, false, {"echarge", "masse", "massmu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eemm(P); }, {0, 1, 2, 3}, K_FULL});

struct P_emem : Proc {
  spinas::emem x;
  P_emem(const PL &P) : x(P.e, P.mf[Fe], P.mf[Fm], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mf[Fm], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_emem({"emem", "lepton", {"e", "m", "e", "m"}, false, {"echarge", "masse", "massmu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_emem(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeee : Proc {
  spinas::eeee x;
  P_eeee(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeee({"eeee", "lepton", {"e", "E", "e", "E"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eeee(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeee2 : Proc {
  spinas::eeee2 x;
  P_eeee2(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeee2({"eeee2", "lepton", {"e", "e", "e", "e"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eeee2(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeeeQED : Proc {
  spinas::eeeeQED x;
  P_eeeeQED(const PL &P) : x(P.e, P.mf[Fe]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  bool onecall(const ldouble m[4][4], ldouble &a) { a = x.amp2(m[0], m[1], m[2], m[3]); return true; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeeeQED({"eeeeQED", "lepton", {"e", "E", "e", "E"}, true, {"echarge", "masse"}, {}, [](const PL &P) -> Proc * { return new P_eeeeQED(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eemmQED : Proc {
  spinas::eemmQED x;
  P_eemmQED(const PL &P) : x(P.e, P.mf[Fe], P.mf[Fm]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mf[Fm]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  bool onecall(const ldouble m[4][4], ldouble &a) { a = x.amp2(m[0], m[1], m[2], m[3]); return true; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eemmQED({"eemmQED", "lepton", {"e", "E", "m", "M"}, true, {"echarge", "masse", "massmu"}, {}, [](const PL &P) -> Proc * { return new P_eemmQED(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eenene : Proc {
  spinas::eenene x;
  P_eenene(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.WW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eenene({"eenene", "lepton", {"e", "E", "ne", "Ne"}, false, {"echarge", "masse", "massW", "widthW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eenene(P); }, {0, 1}, K_FULL});

struct P_eenmnm : Proc {
  spinas::eenmnm x;
  P_eenmnm(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eenmnm({"eenmnm", "lepton", {"e", "E", "nm", "Nm"}, false, {"echarge", "masse", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eenmnm(P); }, {0, 1}, K_FULL});

struct P_enenee : Proc {
  spinas::enenee x;
  P_enenee(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.WW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_enenee({"enenee", "lepton", {"e", "ne", "ne", "e"}, false, {"echarge", "masse", "massW", "widthW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_enenee(P); }, {0, 3}, K_FULL});

struct P_enmenm : Proc {
  spinas::enmenm x;
  P_enmenm(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_enmenm({"enmenm", "lepton", {"e", "nm", "e", "nm"}, false, {"echarge", "masse", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_enmenm(P); }, {0, 2}, K_FULL});

struct P_menn : Proc {
  spinas::menn x;
  P_menn(const PL &P) : x(P.e, P.mf[Fe], P.mf[Fm], P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mf[Fm], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_menn({"menn", "lepton", {"M", "e", "ne", "Nm"}, false, {"echarge", "masse", "massmu", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_menn(P); }, {0, 1}, K_FULL});

struct P_mnen : Proc {
  spinas::mnen x;
  P_mnen(const PL &P) : x(P.e, P.mf[Fe], P.mf[Fm], P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mf[Fm], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_mnen({"mnen", "lepton", {"m", "ne", "e", "nm"}, false, {"echarge", "masse", "massmu", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_mnen(P); }, {0, 2}, K_FULL});

struct P_nenenene : Proc {
  spinas::nenenene x;
  P_nenenene(const PL &P) : x(P.e, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { (void)ds; return x.amp(); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nenenene({"nenenene", "lepton", {"ne", "Ne", "ne", "Ne"}, false, {"echarge", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nenenene(P); }, {}, K_FULL});

struct P_nenenene2 : Proc {
  spinas::nenenene2 x;
  P_nenenene2(const PL &P) : x(P.e, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { (void)ds; return x.amp(); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nenenene2({"nenenene2", "lepton", {"ne", "ne", "ne", "ne"}, false, {"echarge", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nenenene2(P); }, {}, K_FULL});

struct P_nenenmnm : Proc {
  spinas::nenenmnm x;
  P_nenenmnm(const PL &P) : x(P.e, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { (void)ds; return x.amp(); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nenenmnm({"nenenmnm", "lepton", {"ne", "Ne", "nm", "Nm"}, false, {"echarge", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nenenmnm(P); }, {}, K_FULL});

struct P_nenmnenm : Proc {
  spinas::nenmnenm x;
  P_nenmnenm(const PL &P) : x(P.e, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { (void)ds; return x.amp(); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nenmnenm({"nenmnenm", "lepton", {"ne", "nm", "ne", "nm"}, false, {"echarge", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nenmnenm(P); }, {}, K_FULL});

}  // namespace procs
