// Adapters of sector boson: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/AAWW.h"
#include "include/AWAW.h"
#include "include/AWWh.h"
#include "include/AWZW.h"
#include "include/AZWW.h"
#include "include/AhWW.h"
#include "include/WWWW.h"
#include "include/WWWW2.h"
#include "include/ZWWh.h"
#include "include/ZWZW.h"
#include "include/ZZWW.h"
#include "include/ZZZZ.h"
#include "include/ZhWW.h"
#include "include/hWWh.h"
#include "include/hhWW.h"
#include "include/hZZh.h"
#include "include/hhZZ.h"
#include "include/hhhh.h"
namespace procs {
using namespace refsm;

struct P_AAWW : Proc {
  spinas::AAWW x;
  P_AAWW(const PL &P) : x(P.e, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus_Aplus(); case 1: return x.amp2_Aplus_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AAWW({"AAWW", "boson", {"A", "A", "W+", "W-"}, false, {"echarge", "massW", "sinW", "widthW"}, {{"amp2_Aplus_Aplus", {1, 1, 9, 9}}, {"amp2_Aplus_Aminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AAWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AWAW : Proc {
  spinas::AWAW x;
  P_AWAW(const PL &P) : x(P.e, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AWAW({"AWAW", "boson", {"A", "W+", "A", "W+"}, false, {"echarge", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AWAW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AWWh : Proc {
  spinas::AWWh x;
  P_AWWh(const PL &P) : x(P.e, P.mh, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AWWh({"AWWh", "boson", {"A", "W+", "W+", "h"}, false, {"echarge", "massh", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AWWh(P); }, {0, 1, 2}, K_FULL});

struct P_AWZW : Proc {
  spinas::AWZW x;
  P_AWZW(const PL &P) : x(P.e, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AWZW({"AWZW", "boson", {"A", "W+", "Z", "W+"}, false, {"echarge", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AWZW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AZWW : Proc {
  spinas::AZWW x;
  P_AZWW(const PL &P) : x(P.e, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AZWW({"AZWW", "boson", {"A", "Z", "W+", "W-"}, false, {"echarge", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AZWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AhWW : Proc {
  spinas::AhWW x;
  P_AhWW(const PL &P) : x(P.e, P.mh, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AhWW({"AhWW", "boson", {"A", "h", "W+", "W-"}, false, {"echarge", "massh", "massW", "sinW", "widthW"}, {{"amp2_Aplus", {1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AhWW(P); }, {0, 2, 3}, K_FULL});

struct P_WWWW : Proc {
  spinas::WWWW x;
  P_WWWW(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.WZ, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_WWWW({"WWWW", "boson", {"W+", "W+", "W+", "W+"}, false, {"echarge", "massh", "widthh", "massW", "widthZ", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_WWWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_WWWW2 : Proc {
  spinas::WWWW2 x;
  P_WWWW2(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.WZ, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_WWWW2({"WWWW2", "boson", {"W+", "W-", "W+", "W-"}, false, {"echarge", "massh", "widthh", "massW", "widthZ", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_WWWW2(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ZWWh : Proc {
  spinas::ZWWh x;
  P_ZWWh(const PL &P) : x(P.e, P.mh, P.MW, P.sw, P.WW, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ZWWh({"ZWWh", "boson", {"Z", "W+", "W+", "h"}, false, {"echarge", "massh", "massW", "sinW", "widthW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ZWWh(P); }, {0, 1, 2}, K_FULL});

struct P_ZWZW : Proc {
  spinas::ZWZW x;
  P_ZWZW(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ZWZW({"ZWZW", "boson", {"Z", "W+", "Z", "W+"}, false, {"echarge", "massh", "widthh", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ZWZW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ZZWW : Proc {
  spinas::ZZWW x;
  P_ZZWW(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ZZWW({"ZZWW", "boson", {"Z", "Z", "W+", "W-"}, false, {"echarge", "massh", "widthh", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ZZWW(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ZZZZ : Proc {
  spinas::ZZZZ x;
  P_ZZZZ(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ZZZZ({"ZZZZ", "boson", {"Z", "Z", "Z", "Z"}, false, {"echarge", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ZZZZ(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ZhWW : Proc {
  spinas::ZhWW x;
  P_ZhWW(const PL &P) : x(P.e, P.mh, P.MW, P.sw, P.WW, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ZhWW({"ZhWW", "boson", {"Z", "h", "W+", "W-"}, false, {"echarge", "massh", "massW", "sinW", "widthW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ZhWW(P); }, {0, 2, 3}, K_FULL});

struct P_hWWh : Proc {
  spinas::hWWh x;
  P_hWWh(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hWWh({"hWWh", "boson", {"h", "W+", "W+", "h"}, false, {"echarge", "massh", "widthh", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_hWWh(P); }, {1, 2}, K_FULL});

struct P_hhWW : Proc {
  spinas::hhWW x;
  P_hhWW(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.sw, P.WW) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hhWW({"hhWW", "boson", {"h", "h", "W+", "W-"}, false, {"echarge", "massh", "widthh", "massW", "sinW", "widthW"}, {}, [](const PL &P) -> Proc * { return new P_hhWW(P); }, {2, 3}, K_FULL});

struct P_hZZh : Proc {
  spinas::hZZh x;
  P_hZZh(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hZZh({"hZZh", "boson", {"h", "Z", "Z", "h"}, false, {"echarge", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_hZZh(P); }, {1, 2}, K_FULL});

struct P_hhZZ : Proc {
  spinas::hhZZ x;
  P_hhZZ(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hhZZ({"hhZZ", "boson", {"h", "h", "Z", "Z"}, false, {"echarge", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_hhZZ(P); }, {2, 3}, K_FULL});

struct P_hhhh : Proc {
  spinas::hhhh x;
  P_hhhh(const PL &P) : x(P.e, P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { (void)ds; return x.amp(); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_hhhh({"hhhh", "boson", {"h", "h", "h", "h"}, false, {"echarge", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_hhhh(P); }, {}, K_FULL});

}  // namespace procs
