// Adapters of sector higgsz: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/dZZd.h"
#include "include/eZZe.h"
#include "include/uZZu.h"
#include "include/ddZZ.h"
#include "include/eeZZ.h"
#include "include/uuZZ.h"
#include "include/dZdh.h"
#include "include/eZeh.h"
#include "include/uZuh.h"
#include "include/ddZh.h"
#include "include/eeZh.h"
#include "include/uuZh.h"
#include "include/nZZn.h"
#include "include/nnZZ.h"
#include "include/nZnh.h"
#include "include/nnZh.h"
#include "include/ddhh.h"
#include "include/dhdh.h"
#include "include/eehh.h"
#include "include/eheh.h"
#include "include/uuhh.h"
#include "include/uhuh.h"
namespace procs {
using namespace refsm;

struct P_dZZd : Proc {
  spinas::dZZd x;
  P_dZZd(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dZZd({"dZZd", "higgsz", {"d", "Z", "Z", "d"}, false, {"echarge", "massf", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_dZZd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eZZe : Proc {
  spinas::eZZe x;
  P_eZZe(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eZZe({"eZZe", "higgsz", {"e", "Z", "Z", "e"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eZZe(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uZZu : Proc {
  spinas::uZZu x;
  P_uZZu(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uZZu({"uZZu", "higgsz", {"u", "Z", "Z", "u"}, false, {"echarge", "massf", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uZZu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ddZZ : Proc {
  spinas::ddZZ x;
  P_ddZZ(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddZZ({"ddZZ", "higgsz", {"d", "D", "Z", "Z"}, false, {"echarge", "massf", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ddZZ(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeZZ : Proc {
  spinas::eeZZ x;
  P_eeZZ(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeZZ({"eeZZ", "higgsz", {"e", "E", "Z", "Z"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eeZZ(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uuZZ : Proc {
  spinas::uuZZ x;
  P_uuZZ(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuZZ({"uuZZ", "higgsz", {"u", "U", "Z", "Z"}, false, {"echarge", "massf", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuZZ(P); }, {0, 1, 2, 3}, K_FULL});

struct P_dZdh : Proc {
  spinas::dZdh x;
  P_dZdh(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dZdh({"dZdh", "higgsz", {"d", "Z", "d", "h"}, false, {"echarge", "massd", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_dZdh(P); }, {0, 1, 2}, K_FULL});

struct P_eZeh : Proc {
  spinas::eZeh x;
  P_eZeh(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eZeh({"eZeh", "higgsz", {"e", "Z", "e", "h"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eZeh(P); }, {0, 1, 2}, K_FULL});

struct P_uZuh : Proc {
  spinas::uZuh x;
  P_uZuh(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uZuh({"uZuh", "higgsz", {"u", "Z", "u", "h"}, false, {"echarge", "massu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uZuh(P); }, {0, 1, 2}, K_FULL});

struct P_ddZh : Proc {
  spinas::ddZh x;
  P_ddZh(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddZh({"ddZh", "higgsz", {"d", "D", "Z", "h"}, false, {"echarge", "massd", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ddZh(P); }, {0, 1, 2}, K_FULL});

struct P_eeZh : Proc {
  spinas::eeZh x;
  P_eeZh(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeZh({"eeZh", "higgsz", {"e", "E", "Z", "h"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_eeZh(P); }, {0, 1, 2}, K_FULL});

struct P_uuZh : Proc {
  spinas::uuZh x;
  P_uuZh(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuZh({"uuZh", "higgsz", {"u", "U", "Z", "h"}, false, {"echarge", "massu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuZh(P); }, {0, 1, 2}, K_FULL});

struct P_nZZn : Proc {
  spinas::nZZn x;
  P_nZZn(const PL &P) : x(P.e, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nZZn({"nZZn", "higgsz", {"ne", "Z", "Z", "ne"}, false, {"echarge", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nZZn(P); }, {1, 2}, K_FULL});

struct P_nnZZ : Proc {
  spinas::nnZZ x;
  P_nnZZ(const PL &P) : x(P.e, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nnZZ({"nnZZ", "higgsz", {"ne", "Ne", "Z", "Z"}, false, {"echarge", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nnZZ(P); }, {2, 3}, K_FULL});

struct P_nZnh : Proc {
  spinas::nZnh x;
  P_nZnh(const PL &P) : x(P.e, P.mh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[1]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nZnh({"nZnh", "higgsz", {"ne", "Z", "ne", "h"}, false, {"echarge", "massh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nZnh(P); }, {1}, K_FULL});

struct P_nnZh : Proc {
  spinas::nnZh x;
  P_nnZh(const PL &P) : x(P.e, P.mh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_nnZh({"nnZh", "higgsz", {"ne", "Ne", "Z", "h"}, false, {"echarge", "massh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_nnZh(P); }, {2}, K_FULL});

struct P_ddhh : Proc {
  spinas::ddhh x;
  P_ddhh(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddhh({"ddhh", "higgsz", {"d", "D", "h", "h"}, false, {"echarge", "massd", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ddhh(P); }, {0, 1}, K_FULL});

struct P_dhdh : Proc {
  spinas::dhdh x;
  P_dhdh(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dhdh({"dhdh", "higgsz", {"d", "h", "d", "h"}, false, {"echarge", "massd", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_dhdh(P); }, {0, 2}, K_FULL});

struct P_eehh : Proc {
  spinas::eehh x;
  P_eehh(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eehh({"eehh", "higgsz", {"e", "E", "h", "h"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_eehh(P); }, {0, 1}, K_FULL});

struct P_eheh : Proc {
  spinas::eheh x;
  P_eheh(const PL &P) : x(P.e, P.mf[Fe], P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eheh({"eheh", "higgsz", {"e", "h", "e", "h"}, false, {"echarge", "masse", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_eheh(P); }, {0, 2}, K_FULL});

struct P_uuhh : Proc {
  spinas::uuhh x;
  P_uuhh(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuhh({"uuhh", "higgsz", {"u", "U", "h", "h"}, false, {"echarge", "massu", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_uuhh(P); }, {0, 1}, K_FULL});

struct P_uhuh : Proc {
  spinas::uhuh x;
  P_uhuh(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.wh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uhuh({"uhuh", "higgsz", {"u", "h", "u", "h"}, false, {"echarge", "massu", "massh", "widthh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_uhuh(P); }, {0, 2}, K_FULL});

}  // namespace procs
