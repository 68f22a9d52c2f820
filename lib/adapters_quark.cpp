// Adapters of sector quark: public API of each process class behind one interface. See tools/gen_adapters.py.
#include "procs.hpp"
#include "include/ddee.h"
#include "include/deed.h"
#include "include/uuee.h"
#include "include/ueeu.h"
#include "include/ddnn.h"
#include "include/dnnd.h"
#include "include/uunn.h"
#include "include/unnu.h"
#include "include/udnl.h"
#include "include/ulnd.h"
#include "include/ubdt.h"
#include "include/udtb.h"
#include "include/dddd.h"
#include "include/dddd2.h"
#include "include/uuuu.h"
#include "include/uuuu2.h"
#include "include/ddss.h"
#include "include/dsds.h"
#include "include/ucuc.h"
#include "include/uucc.h"
#include "include/uuss.h"
#include "include/usus.h"
#include "include/uudd.h"
#include "include/udud.h"
namespace procs {
using namespace refsm;

struct P_ddee : Proc {
  spinas::ddee x;
  P_ddee(const PL &P) : x(P.e, P.mf[Fd], P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddee({"ddee", "quark", {"d", "D", "e", "E"}, false, {"echarge", "massd", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ddee(P); }, {0, 1, 2, 3}, K_FULL});

struct P_deed : Proc {
  spinas::deed x;
  P_deed(const PL &P) : x(P.e, P.mf[Fd], P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_deed({"deed", "quark", {"d", "e", "e", "d"}, false, {"echarge", "massd", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_deed(P); }, {0, 1, 2, 3}, K_FULL});

struct P_uuee : Proc {
  spinas::uuee x;
  P_uuee(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uuee({"uuee", "quark", {"u", "U", "e", "E"}, false, {"echarge", "massu", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuee(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ueeu : Proc {
  spinas::ueeu x;
  P_ueeu(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fe], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fe], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ueeu({"ueeu", "quark", {"u", "e", "e", "u"}, false, {"echarge", "massu", "masse", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ueeu(P); }, {0, 1, 2, 3}, K_FULL});

struct P_ddnn : Proc {
  spinas::ddnn x;
  P_ddnn(const PL &P) : x(P.e, P.mf[Fd], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ddnn({"ddnn", "quark", {"d", "D", "ne", "Ne"}, false, {"echarge", "massd", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ddnn(P); }, {0, 1}, K_FULL});

struct P_dnnd : Proc {
  spinas::dnnd x;
  P_dnnd(const PL &P) : x(P.e, P.mf[Fd], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_dnnd({"dnnd", "quark", {"d", "nm", "nm", "d"}, false, {"echarge", "massd", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_dnnd(P); }, {0, 3}, K_FULL});

struct P_uunn : Proc {
  spinas::uunn x;
  P_uunn(const PL &P) : x(P.e, P.mf[Fu], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_uunn({"uunn", "quark", {"u", "U", "ne", "Ne"}, false, {"echarge", "massu", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uunn(P); }, {0, 1}, K_FULL});

struct P_unnu : Proc {
  spinas::unnu x;
  P_unnu(const PL &P) : x(P.e, P.mf[Fu], P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_unnu({"unnu", "quark", {"u", "nm", "nm", "u"}, false, {"echarge", "massu", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_unnu(P); }, {0, 3}, K_FULL});

struct P_udnl : Proc {
  spinas::udnl x;
  P_udnl(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mf[Fl], P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mf[Fl], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_udnl({"udnl", "quark", {"u", "D", "nl", "L"}, false, {"echarge", "massu", "massd", "masstau", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_udnl(P); }, {0, 1, 3}, K_FULL});

struct P_ulnd : Proc {
  spinas::ulnd x;
  P_ulnd(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mf[Fl], P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mf[Fl], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[3]); }
  ldouble spin2(const int *ds) { return 3 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ulnd({"ulnd", "quark", {"u", "l", "nl", "d"}, false, {"echarge", "massu", "massd", "masstau", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ulnd(P); }, {0, 1, 3}, K_FULL});

struct P_ubdt : Proc {
  spinas::ubdt x;
  P_ubdt(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mf[Ft], P.mf[Fb], P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mf[Ft], P.mf[Fb], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 9 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_ubdt({"ubdt", "quark", {"u", "b", "d", "t"}, false, {"echarge", "massu", "massd", "masst", "massb", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_ubdt(P); }, {0, 1, 2, 3}, K_FULL});

struct P_udtb : Proc {
  spinas::udtb x;
  P_udtb(const PL &P) : x(P.e, P.mf[Fu], P.mf[Fd], P.mf[Ft], P.mf[Fb], P.MW, P.WW, P.sw) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mf[Ft], P.mf[Fb], P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  cdouble amp(const int *ds) { return x.amp(ds[0], ds[1], ds[2], ds[3]); }
  ldouble spin2(const int *ds) { return 9 * std::norm(amp(ds)); }
  spinas::process *base() { return &x; }
};
static Reg r_udtb({"udtb", "quark", {"u", "D", "t", "B"}, false, {"echarge", "massu", "massd", "masst", "massb", "massW", "widthW", "sinW"}, {}, [](const PL &P) -> Proc * { return new P_udtb(P); }, {0, 1, 2, 3}, K_FULL});

struct P_dddd : Proc {
  spinas::dddd x;
  P_dddd(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon_S(x, ds, 0), opt_amp_rest_S(x, ds, 0), opt_amp_gluon_T(x, ds, 0), opt_amp_rest_T(x, ds, 0)); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest_S(x, ds, 0); o[1] = opt_amp_rest_T(x, ds, 0); o[2] = opt_amp_gluon_S(x, ds, 0); o[3] = opt_amp_gluon_T(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_dddd({"dddd", "quark", {"d", "D", "d", "D"}, false, {"echarge", "gscharge", "massd", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_dddd(P); }, {0, 1, 2, 3}, K_SUM});

struct P_dddd2 : Proc {
  spinas::dddd2 x;
  P_dddd2(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon_T(x, ds, 0), opt_amp_rest_T(x, ds, 0), opt_amp_gluon_U(x, ds, 0), opt_amp_rest_U(x, ds, 0)); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest_T(x, ds, 0); o[1] = opt_amp_rest_U(x, ds, 0); o[2] = opt_amp_gluon_T(x, ds, 0); o[3] = opt_amp_gluon_U(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_dddd2({"dddd2", "quark", {"d", "d", "d", "d"}, false, {"echarge", "gscharge", "massd", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_dddd2(P); }, {0, 1, 2, 3}, K_SUM});

struct P_uuuu : Proc {
  spinas::uuuu x;
  P_uuuu(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon_S(x, ds, 0), opt_amp_rest_S(x, ds, 0), opt_amp_gluon_T(x, ds, 0), opt_amp_rest_T(x, ds, 0)); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest_S(x, ds, 0); o[1] = opt_amp_rest_T(x, ds, 0); o[2] = opt_amp_gluon_S(x, ds, 0); o[3] = opt_amp_gluon_T(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_uuuu({"uuuu", "quark", {"u", "U", "u", "U"}, false, {"echarge", "gscharge", "massu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuuu(P); }, {0, 1, 2, 3}, K_SUM});

struct P_uuuu2 : Proc {
  spinas::uuuu2 x;
  P_uuuu2(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon_T(x, ds, 0), opt_amp_rest_T(x, ds, 0), opt_amp_gluon_U(x, ds, 0), opt_amp_rest_U(x, ds, 0)); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest_T(x, ds, 0); o[1] = opt_amp_rest_U(x, ds, 0); o[2] = opt_amp_gluon_T(x, ds, 0); o[3] = opt_amp_gluon_U(x, ds, 0); }
  spinas::process *base() { return &x; }
};
static Reg r_uuuu2({"uuuu2", "quark", {"u", "u", "u", "u"}, false, {"echarge", "gscharge", "massu", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuuu2(P); }, {0, 1, 2, 3}, K_SUM});

struct P_ddss : Proc {
  spinas::ddss x;
  P_ddss(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.mf[Fs], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mf[Fs], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, 0); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = 0; o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_ddss({"ddss", "quark", {"d", "D", "s", "S"}, false, {"echarge", "gscharge", "massd", "masss", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ddss(P); }, {0, 1, 2, 3}, K_SUM});

struct P_dsds : Proc {
  spinas::dsds x;
  P_dsds(const PL &P) : x(P.e, P.gs, P.mf[Fd], P.mf[Fs], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fd], P.mf[Fs], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, 0); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = 0; o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_dsds({"dsds", "quark", {"d", "s", "d", "s"}, false, {"echarge", "gscharge", "massd", "masss", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_dsds(P); }, {0, 1, 2, 3}, K_SUM});

struct P_ucuc : Proc {
  spinas::ucuc x;
  P_ucuc(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fc], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fc], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, 0); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = 0; o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_ucuc({"ucuc", "quark", {"u", "c", "u", "c"}, false, {"echarge", "gscharge", "massu", "massc", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_ucuc(P); }, {0, 1, 2, 3}, K_SUM});

struct P_uucc : Proc {
  spinas::uucc x;
  P_uucc(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fc], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fc], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, 0); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = 0; o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_uucc({"uucc", "quark", {"u", "U", "c", "C"}, false, {"echarge", "gscharge", "massu", "massc", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uucc(P); }, {0, 1, 2, 3}, K_SUM});

struct P_uuss : Proc {
  spinas::uuss x;
  P_uuss(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fs], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fs], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, 0); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = 0; o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_uuss({"uuss", "quark", {"u", "U", "s", "S"}, false, {"echarge", "gscharge", "massu", "masss", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uuss(P); }, {0, 1, 2, 3}, K_SUM});

struct P_usus : Proc {
  spinas::usus x;
  P_usus(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fs], P.mh, P.wh, P.MW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fs], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, 0); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = 0; o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_usus({"usus", "quark", {"u", "s", "u", "s"}, false, {"echarge", "gscharge", "massu", "masss", "massh", "widthh", "massW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_usus(P); }, {0, 1, 2, 3}, K_SUM});

struct P_uudd : Proc {
  spinas::uudd x;
  P_uudd(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fd], P.mh, P.wh, P.MW, P.WW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, opt_amp_W(x, ds, 0)); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = opt_amp_W(x, ds, 0); o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_uudd({"uudd", "quark", {"u", "U", "d", "D"}, false, {"echarge", "gscharge", "massu", "massd", "massh", "widthh", "massW", "widthW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_uudd(P); }, {0, 1, 2, 3}, K_SUM});

struct P_udud : Proc {
  spinas::udud x;
  P_udud(const PL &P) : x(P.e, P.gs, P.mf[Fu], P.mf[Fd], P.mh, P.wh, P.MW, P.WW, P.sw, P.WZ) {}
  void masses(const PL &P) { x.set_masses(P.mf[Fu], P.mf[Fd], P.mh, P.MW); }
  void momenta(const ldouble m[4][4]) { x.set_momenta(m[0], m[1], m[2], m[3]); }
  ldouble amp2() { return x.amp2(); }
  ldouble spin2(const int *ds) { return colour2(opt_amp_gluon(x, ds, 0), opt_amp_rest(x, ds, 0), 0, opt_amp_W(x, ds, 0)); }
  void parts(const int *ds, cdouble *o) { o[0] = opt_amp_rest(x, ds, 0); o[1] = opt_amp_W(x, ds, 0); o[2] = opt_amp_gluon(x, ds, 0); o[3] = 0; }
  spinas::process *base() { return &x; }
};
static Reg r_udud({"udud", "quark", {"u", "d", "u", "d"}, false, {"echarge", "gscharge", "massu", "massd", "massh", "widthh", "massW", "widthW", "sinW", "widthZ"}, {}, [](const PL &P) -> Proc * { return new P_udud(P); }, {0, 1, 2, 3}, K_SUM});

}  // namespace procs
