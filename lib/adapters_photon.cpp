// Adapters of sector photon: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/AAdd.h"
#include "include/AAee.h"
#include "include/AAuu.h"
#include "include/eAAe.h"
#include "include/dAAd.h"
#include "include/uAAu.h"
#include "include/eeAA.h"
#include "include/ddAA.h"
#include "include/uuAA.h"
#include "include/AZdd.h"
#include "include/AZee.h"
#include "include/AZuu.h"
#include "include/AdZd.h"
#include "include/AeZe.h"
#include "include/AuZu.h"
#include "include/eeAZ.h"
#include "include/dAdh.h"
#include "include/ddAh.h"
#include "include/uAuh.h"
#include "include/uuAh.h"
#include "include/eAeh.h"
#include "include/eeAh.h"
namespace procs {
using namespace refsm;

struct P_AAdd : Proc {
  spinas::AAdd x;
  P_AAdd(const PL &P) : x(P.e, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus_Aplus(); case 1: return x.amp2_Aplus_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AAdd({"AAdd", "photon", {"A", "A", "d", "D"}, false, {"echarge", "massd"}, {{"amp2_Aplus_Aplus", {1, 1, 9, 9}}, {"amp2_Aplus_Aminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AAdd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AAee : Proc {
  spinas::AAee x;
  P_AAee(const PL &P) : x(P.e, P.mf[Fe]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus_Aplus(); case 1: return x.amp2_Aplus_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AAee({"AAee", "photon", {"A", "A", "e", "E"}, false, {"echarge", "masse"}, {{"amp2_Aplus_Aplus", {1, 1, 9, 9}}, {"amp2_Aplus_Aminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AAee(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AAuu : Proc {
  spinas::AAuu x;
  P_AAuu(const PL &P) : x(P.e, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus_Aplus(); case 1: return x.amp2_Aplus_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AAuu({"AAuu", "photon", {"A", "A", "u", "U"}, false, {"echarge", "massu"}, {{"amp2_Aplus_Aplus", {1, 1, 9, 9}}, {"amp2_Aplus_Aminus", {1, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AAuu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eAAe : Proc {
  spinas::eAAe x;
  P_eAAe(const PL &P) : x(P.e, P.mf[Fe]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eAAe({"eAAe", "photon", {"e", "A", "A", "e"}, false, {"echarge", "masse"}, {{"amp2_Aplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_eAAe(P); }, {0, 1, 2, 3}, K_FULL});

struct P_dAAd : Proc {
  spinas::dAAd x;
  P_dAAd(const PL &P) : x(P.e, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dAAd({"dAAd", "photon", {"d", "A", "A", "d"}, false, {"echarge", "massd"}, {{"amp2_Aplus", {9, 1, 9, 9}}, {"amp2_Aminus", {9, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_dAAd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uAAu : Proc {
  spinas::uAAu x;
  P_uAAu(const PL &P) : x(P.e, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uAAu({"uAAu", "photon", {"u", "A", "A", "u"}, false, {"echarge", "massu"}, {{"amp2_Aplus", {9, 1, 9, 9}}, {"amp2_Aminus", {9, -1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_uAAu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeAA : Proc {
  spinas::eeAA x;
  P_eeAA(const PL &P) : x(P.e, P.mf[Fe]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  bool onecall(const ldouble m[4][4], ldouble &a) { a = x.amp2(m[0], m[1], m[2], m[3]); return true; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeAA({"eeAA", "photon", {"e", "E", "A", "A"}, false, {"echarge", "masse"}, {}, [](const PL &P) -> Proc * { return new P_eeAA(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ddAA : Proc {
  spinas::ddAA x;
  P_ddAA(const PL &P) : x(P.e, P.mf[Fd]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddAA({"ddAA", "photon", {"d", "D", "A", "A"}, false, {"echarge", "massd"}, {}, [](const PL &P) -> Proc * { return new P_ddAA(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uuAA : Proc {
  spinas::uuAA x;
  P_uuAA(const PL &P) : x(P.e, P.mf[Fu]) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu]); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuAA({"uuAA", "photon", {"u", "U", "A", "A"}, false, {"echarge", "massu"}, {}, [](const PL &P) -> Proc * { return new P_uuAA(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AZdd : Proc {
  spinas::AZdd x;
  P_AZdd(const PL &P) : x(P.e, P.mf[Fd], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AZdd({"AZdd", "photon", {"A", "Z", "d", "D"}, false, {"echarge", "massd", "massW", "sinW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AZdd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AZee : Proc {
  spinas::AZee x;
  P_AZee(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AZee({"AZee", "photon", {"A", "Z", "e", "E"}, false, {"echarge", "masse", "massW", "sinW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AZee(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AZuu : Proc {
  spinas::AZuu x;
  P_AZuu(const PL &P) : x(P.e, P.mf[Fu], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AZuu({"AZuu", "photon", {"A", "Z", "u", "U"}, false, {"echarge", "massu", "massW", "sinW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AZuu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AdZd : Proc {
  spinas::AdZd x;
  P_AdZd(const PL &P) : x(P.e, P.mf[Fd], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AdZd({"AdZd", "photon", {"A", "d", "Z", "d"}, false, {"echarge", "massd", "massW", "sinW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AdZd(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AeZe : Proc {
  spinas::AeZe x;
  P_AeZe(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AeZe({"AeZe", "photon", {"A", "e", "Z", "e"}, false, {"echarge", "masse", "massW", "sinW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AeZe(P); }, {0, 1, 2, 3}, K_FULL});

struct P_AuZu : Proc {
  spinas::AuZu x;
  P_AuZu(const PL &P) : x(P.e, P.mf[Fu], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); case 1: return x.amp2_Aminus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_AuZu({"AuZu", "photon", {"A", "u", "Z", "u"}, false, {"echarge", "massu", "massW", "sinW"}, {{"amp2_Aplus", {1, 9, 9, 9}}, {"amp2_Aminus", {-1, 9, 9, 9}}}, [](const PL &P) -> Proc * { return new P_AuZu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_eeAZ : Proc {
  spinas::eeAZ x;
  P_eeAZ(const PL &P) : x(P.e, P.mf[Fe], P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fe], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeAZ({"eeAZ", "photon", {"e", "E", "A", "Z"}, false, {"echarge", "masse", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_eeAZ(P); }, {0, 1, 2, 3}, K_FULL});

struct P_dAdh : Proc {
  spinas::dAdh x;
  P_dAdh(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dAdh({"dAdh", "photon", {"d", "A", "d", "h"}, false, {"echarge", "massd", "massh", "massW", "sinW"}, {{"amp2_Aplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_dAdh(P); }, {0, 1, 2}, K_FULL});

struct P_ddAh : Proc {
  spinas::ddAh x;
  P_ddAh(const PL &P) : x(P.e, P.mf[Fd], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddAh({"ddAh", "photon", {"d", "D", "A", "h"}, false, {"echarge", "massd", "massh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ddAh(P); }, {0, 1, 2}, K_FULL});

struct P_uAuh : Proc {
  spinas::uAuh x;
  P_uAuh(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uAuh({"uAuh", "photon", {"u", "A", "u", "h"}, false, {"echarge", "massu", "massh", "massW", "sinW"}, {{"amp2_Aplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_uAuh(P); }, {0, 1, 2}, K_FULL});

struct P_uuAh : Proc {
  spinas::uuAh x;
  P_uuAh(const PL &P) : x(P.e, P.mf[Fu], P.mh, P.MW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuAh({"uuAh", "photon", {"u", "U", "A", "h"}, false, {"echarge", "massu", "massh", "massW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_uuAh(P); }, {0, 1, 2}, K_FULL});

struct P_eAeh : Proc {
  spinas::eAeh x;
  P_eAeh(const PL &P) : x(P.e, P.mf[Fe], P.mh, (2*P.MW*P.sw/P.e)) {}
  int calls = 0;
  void masses(const PL &P) { bool first = calls++ % 2; if (first) x.set_v((2*P.MW*P.sw/P.e)); x.set_masses(P.mf[Fe], P.mh); if (!first) x.set_v((2*P.MW*P.sw/P.e)); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  bool onecall(const ldouble m[4][4], ldouble &a) { a = x.amp2(m[0], m[1], m[2], m[3]); return true; }
  ldouble pol(int i) { switch (i) { case 0: return x.amp2_Aplus(); } return 0; }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eAeh({"eAeh", "photon", {"e", "A", "e", "h"}, false, {"echarge", "masse", "massh", "vev"}, {{"amp2_Aplus", {9, 1, 9, 9}}}, [](const PL &P) -> Proc * { return new P_eAeh(P); }, {0, 1, 2}, K_FULL});

struct P_eeAh : Proc {
  spinas::eeAh x;
  P_eeAh(const PL &P) : x(P.e, P.mf[Fe], P.mh, (2*P.MW*P.sw/P.e)) {}
  int calls = 0;
  void masses(const PL &P) { bool first = calls++ % 2; if (first) x.set_v((2*P.MW*P.sw/P.e)); x.set_masses(P.mf[Fe], P.mh); if (!first) x.set_v((2*P.MW*P.sw/P.e)); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2]); }
  ldouble spin2(const int *ds) { return 1 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_eeAh({"eeAh", "photon", {"e", "E", "A", "h"}, false, {"echarge", "masse", "massh", "vev"}, {}, [](const PL &P) -> Proc * { return new P_eeAh(P); }, {0, 1, 2}, K_FULL});

}  // namespace procs
