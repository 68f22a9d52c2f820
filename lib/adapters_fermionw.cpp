// Adapters of sector fermionw: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/AWud.h"
#include "include/AnWe.h"
#include "include/ZnWe.h"
#include "include/enAW.h"
#include "include/enZW.h"
#include "include/WdWd.h"
#include "include/WdZu.h"
#include "include/udZW.h"
#include "include/udAW.h"
#include "include/ddWW.h"
#include "include/uuWW.h"
#include "include/uWWu.h"
#include "include/eeWW.h"
#include "include/eWWe.h"
#include "include/enWh.h"
#include "include/hnWe.h"
#include "include/udWh.h"
#include "include/uhWd.h"
#include "include/nWWn.h"
#include "include/nnWW.h"
namespace procs {
using namespace refsm;

struct P_AWud : Proc {
  spinas::AWud x;
  P_AWud(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AWud({"AWud", "fermionw", {"A", "W+", "u", "D"}, false, {"echarge", "massu", "massd", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AWud(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AnWe : Proc {
  spinas::AnWe x;
  P_AnWe(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AnWe({"AnWe", "fermionw", {"A", "ne", "W+", "e"}, false, {"echarge", "masse", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AnWe(P); }, {0, 2, 3}, K_FULL});

struct P_ZnWe : Proc {
  spinas::ZnWe x;
  P_ZnWe(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ZnWe({"ZnWe", "fermionw", {"Z", "ne", "W+", "e"}, false, {"echarge", "masse", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_ZnWe(P); }, {0, 2, 3}, K_FULL});

struct P_enAW : Proc {
  spinas::enAW x;
  P_enAW(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_enAW({"enAW", "fermionw", {"E", "ne", "A", "W+"}, false, {"echarge", "masse", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_enAW(P); }, {0, 2, 3}, K_FULL});

struct P_enZW : Proc {
  spinas::enZW x;
  P_enZW(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_enZW({"enZW", "fermionw", {"E", "ne", "Z", "W+"}, false, {"echarge", "masse", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_enZW(P); }, {0, 2, 3}, K_FULL});

struct P_WdWd : Proc {
  spinas::WdWd x;
  P_WdWd(const PL &P) : x(P.e, P.mf[Fd], P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_WdWd({"WdWd", "fermionw", {"W+", "d", "W+", "d"}, false, {"echarge", "massd", "massu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_WdWd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_WdZu : Proc {
  spinas::WdZu x;
  P_WdZu(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_WdZu({"WdZu", "fermionw", {"W+", "d", "Z", "u"}, false, {"echarge", "massu", "massd", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_WdZu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_udZW : Proc {
  spinas::udZW x;
  P_udZW(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_udZW({"udZW", "fermionw", {"U", "d", "Z", "W-"}, false, {"echarge", "massu", "massd", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_udZW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_udAW : Proc {
  spinas::udAW x;
  P_udAW(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_udAW({"udAW", "fermionw", {"U", "d", "A", "W-"}, false, {"echarge", "massu", "massd", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_udAW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ddWW : Proc {
  spinas::ddWW x;
  P_ddWW(const PL &P) : x(P.e, P.mf[Fd], P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddWW({"ddWW", "fermionw", {"D", "d", "W+", "W-"}, false, {"echarge", "massd", "massu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ddWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uuWW : Proc {
  spinas::uuWW x;
  P_uuWW(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuWW({"uuWW", "fermionw", {"u", "U", "W+", "W-"}, false, {"echarge", "massu", "massd", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uWWu : Proc {
  spinas::uWWu x;
  P_uWWu(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uWWu({"uWWu", "fermionw", {"u", "W+", "W+", "u"}, false, {"echarge", "massu", "massd", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uWWu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeWW : Proc {
  spinas::eeWW x;
  P_eeWW(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeWW({"eeWW", "fermionw", {"e", "E", "W+", "W-"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eeWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eWWe : Proc {
  spinas::eWWe x;
  P_eWWe(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eWWe({"eWWe", "fermionw", {"e", "W+", "W+", "e"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eWWe(P); }, {0, 1, 2, 3}, K_FULL});

struct P_enWh : Proc {
  spinas::enWh x;
  P_enWh(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_enWh({"enWh", "fermionw", {"E", "ne", "W+", "h"}, false, {"echarge", "masse", "massh", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_enWh(P); }, {0, 2}, K_FULL});

struct P_hnWe : Proc {
  spinas::hnWe x;
  P_hnWe(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hnWe({"hnWe", "fermionw", {"h", "ne", "W+", "e"}, false, {"echarge", "masse", "massh", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_hnWe(P); }, {2, 3}, K_FULL});

struct P_udWh : Proc {
  spinas::udWh x;
  P_udWh(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mh, P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_udWh({"udWh", "fermionw", {"u", "D", "W+", "h"}, false, {"echarge", "massu", "massd", "massh", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_udWh(P); }, {0, 1, 2}, K_FULL});

struct P_uhWd : Proc {
  spinas::uhWd x;
  P_uhWd(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mh, P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uhWd({"uhWd", "fermionw", {"u", "h", "W+", "d"}, false, {"echarge", "massu", "massd", "massh", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_uhWd(P); }, {0, 2, 3}, K_FULL});

struct P_nWWn : Proc {
  spinas::nWWn x;
  P_nWWn(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2], ds[1]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nWWn({"nWWn", "fermionw", {"ne", "W+", "W+", "ne"}, false, {"echarge", "masse", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nWWn(P); }, {2, 1}, K_FULL});

struct P_nnWW : Proc {
  spinas::nnWW x;
  P_nnWW(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nnWW({"nnWW", "fermionw", {"ne", "Ne", "W+", "W-"}, false, {"echarge", "masse", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nnWW(P); }, {2, 3}, K_FULL});

}  // namespace procs
