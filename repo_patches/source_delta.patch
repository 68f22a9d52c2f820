From 5656d9c422b3e1c3007dd434e4c23d743441a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:00 +0000
Subject: [PATCH 01/20] fix: use the Z width in the Z propagator of the
 four-fermion processes

---
 SM/dddd2.cpp     | 1 +
 SM/ddee.cpp      | 1 +
 SM/ddnn.cpp      | 1 +
 SM/ddss.cpp      | 1 +
 SM/deed.cpp      | 1 +
 SM/dnnd.cpp      | 1 +
 SM/dsds.cpp      | 1 +
 SM/eeee.cpp      | 1 +
 SM/eeee2.cpp     | 1 +
 SM/eemm.cpp      | 1 +
 SM/eenene.cpp    | 1 +
 SM/eenmnm.cpp    | 1 +
 SM/emem.cpp      | 1 +
 SM/enenee.cpp    | 1 +
 SM/enmenm.cpp    | 1 +
 SM/nenenene.cpp  | 1 +
 SM/nenenene2.cpp | 1 +
 SM/nenenmnm.cpp  | 1 +
 SM/nenmnenm.cpp  | 1 +
 SM/ucuc.cpp      | 1 +
 SM/udud.cpp      | 1 +
 SM/ueeu.cpp      | 1 +
 SM/unnu.cpp      | 1 +
 SM/usus.cpp      | 1 +
 SM/uucc.cpp      | 1 +
 SM/uudd.cpp      | 1 +
 SM/uuee.cpp      | 1 +
 SM/uunn.cpp      | 1 +
 SM/uuss.cpp      | 1 +
 SM/uuuu.cpp      | 1 +
 SM/uuuu2.cpp     | 1 +
 31 files changed, 31 insertions(+)

diff --git a/SM/dddd2.cpp b/SM/dddd2.cpp
index 954523f..5a0c0d2 100755
--- a/SM/dddd2.cpp
+++ b/SM/dddd2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*md/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/ddee.cpp b/SM/ddee.cpp
index 3ae71bf..0b8853d 100755
--- a/SM/ddee.cpp
+++ b/SM/ddee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/ddnn.cpp b/SM/ddnn.cpp
index 22ce0b8..ea7d1ea 100755
--- a/SM/ddnn.cpp
+++ b/SM/ddnn.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/ddss.cpp b/SM/ddss.cpp
index f4ee478..27bf491 100755
--- a/SM/ddss.cpp
+++ b/SM/ddss.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/deed.cpp b/SM/deed.cpp
index a4e93f6..11407e4 100755
--- a/SM/deed.cpp
+++ b/SM/deed.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*me/(4.0*MW*MW*SW*SW);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
diff --git a/SM/dnnd.cpp b/SM/dnnd.cpp
index eba29ab..116d614 100755
--- a/SM/dnnd.cpp
+++ b/SM/dnnd.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLd=-1.0+2.0/3.0*SW*SW;
     gRd=2.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/dsds.cpp b/SM/dsds.cpp
index ea162fa..9b516d3 100755
--- a/SM/dsds.cpp
+++ b/SM/dsds.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*md*ms/(4.0*MW*MW*SW*SW);
     gL=-1.0+2.0/3.0*SW*SW;
     gR=2.0/3.0*SW*SW;
diff --git a/SM/eeee.cpp b/SM/eeee.cpp
index 320a861..6d972b0 100755
--- a/SM/eeee.cpp
+++ b/SM/eeee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eeee2.cpp b/SM/eeee2.cpp
index 3b1ae2f..62cecc8 100755
--- a/SM/eeee2.cpp
+++ b/SM/eeee2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*me/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eemm.cpp b/SM/eemm.cpp
index 3b045ea..cf8bc91 100755
--- a/SM/eemm.cpp
+++ b/SM/eemm.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/eenene.cpp b/SM/eenene.cpp
index fddc1fb..bda0717 100755
--- a/SM/eenene.cpp
+++ b/SM/eenene.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/eenmnm.cpp b/SM/eenmnm.cpp
index b26e696..79b7c0e 100755
--- a/SM/eenmnm.cpp
+++ b/SM/eenmnm.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/emem.cpp b/SM/emem.cpp
index 1b23d34..b9884a6 100755
--- a/SM/emem.cpp
+++ b/SM/emem.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*me*mm/(4.0*MW*MW*SW*SW);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
diff --git a/SM/enenee.cpp b/SM/enenee.cpp
index 8e08123..66662e8 100755
--- a/SM/enenee.cpp
+++ b/SM/enenee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/enmenm.cpp b/SM/enmenm.cpp
index 8ada286..0a951b9 100755
--- a/SM/enmenm.cpp
+++ b/SM/enmenm.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gL=2.0*SW*SW-1.0;
     gR=2.0*SW*SW;
     preZ = e*e/(4.0*CW*CW*SW*SW);
diff --git a/SM/nenenene.cpp b/SM/nenenene.cpp
index 9d3957d..ab4b36c 100755
--- a/SM/nenenene.cpp
+++ b/SM/nenenene.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene::set_masses(const ldouble& massW){
diff --git a/SM/nenenene2.cpp b/SM/nenenene2.cpp
index 2823413..1f27b59 100755
--- a/SM/nenenene2.cpp
+++ b/SM/nenenene2.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenene2::set_masses(const ldouble& massW){
diff --git a/SM/nenenmnm.cpp b/SM/nenenmnm.cpp
index 9953c2e..6804144 100755
--- a/SM/nenenmnm.cpp
+++ b/SM/nenenmnm.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenenmnm::set_masses(const ldouble& massW){
diff --git a/SM/nenmnenm.cpp b/SM/nenmnenm.cpp
index a2a834c..2ef37a5 100755
--- a/SM/nenmnenm.cpp
+++ b/SM/nenmnenm.cpp
@@ -39,6 +39,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preZ = e*e/(4.0*CW*CW*SW*SW);
   }
   void nenmnenm::set_masses(const ldouble& massW){
diff --git a/SM/ucuc.cpp b/SM/ucuc.cpp
index 319db46..9a4629a 100755
--- a/SM/ucuc.cpp
+++ b/SM/ucuc.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/udud.cpp b/SM/udud.cpp
index d50c75d..edd680b 100755
--- a/SM/udud.cpp
+++ b/SM/udud.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/ueeu.cpp b/SM/ueeu.cpp
index bb58c11..b77c26b 100755
--- a/SM/ueeu.cpp
+++ b/SM/ueeu.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/unnu.cpp b/SM/unnu.cpp
index 0aa75de..b56686e 100755
--- a/SM/unnu.cpp
+++ b/SM/unnu.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/usus.cpp b/SM/usus.cpp
index d783c1a..e7c1316 100755
--- a/SM/usus.cpp
+++ b/SM/usus.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uucc.cpp b/SM/uucc.cpp
index 09c7b77..82527b0 100755
--- a/SM/uucc.cpp
+++ b/SM/uucc.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mc/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uudd.cpp b/SM/uudd.cpp
index 89698fc..193f818 100755
--- a/SM/uudd.cpp
+++ b/SM/uudd.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*md/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuee.cpp b/SM/uuee.cpp
index c08c2d3..702596f 100755
--- a/SM/uuee.cpp
+++ b/SM/uuee.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*me/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uunn.cpp b/SM/uunn.cpp
index 6518114..cfb6bd9 100755
--- a/SM/uunn.cpp
+++ b/SM/uunn.cpp
@@ -49,6 +49,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
     gLn=1.0;
diff --git a/SM/uuss.cpp b/SM/uuss.cpp
index 2ff1bcf..8b28182 100755
--- a/SM/uuss.cpp
+++ b/SM/uuss.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*ms/(4.0*MW*MW*SW*SW);
     gLu=1.0-4.0/3.0*SW*SW;
     gRu=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu.cpp b/SM/uuuu.cpp
index db629cc..0da45b5 100755
--- a/SM/uuuu.cpp
+++ b/SM/uuuu.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
diff --git a/SM/uuuu2.cpp b/SM/uuuu2.cpp
index cc54632..6c9b24c 100755
--- a/SM/uuuu2.cpp
+++ b/SM/uuuu2.cpp
@@ -50,6 +50,7 @@ namespace spinas {
     //For some reason, MZ doesn't get set correctly above.  Redo it here.
     MZ=MW/CW;
     propZ.set_mass(MZ);
+    propZ.set_width(WZ);
     preh = e*e*mu*mu/(4.0*MW*MW*SW*SW);
     gL=1.0-4.0/3.0*SW*SW;
     gR=-4.0/3.0*SW*SW;
-- 
2.43.0


From cdb284168bec9d1d820ea658addc44c543175017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:00 +0000
Subject: [PATCH 02/20] fix: use the electron mass given to the nWWn and nnWW
 constructors

---
 SM/nWWn.cpp | 2 +-
 SM/nnWW.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SM/nWWn.cpp b/SM/nWWn.cpp
index 2e0a7ed..944a5b9 100755
--- a/SM/nWWn.cpp
+++ b/SM/nWWn.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nWWn::nWWn(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
diff --git a/SM/nnWW.cpp b/SM/nnWW.cpp
index 6b5a525..9f16a21 100755
--- a/SM/nnWW.cpp
+++ b/SM/nnWW.cpp
@@ -30,7 +30,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 namespace spinas {
 
   nnWW::nnWW(const ldouble& echarge, const ldouble& masse, const ldouble& massW, const ldouble& sinW, const ldouble& widthZ):
-    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(0,0) {
+    e(echarge), me(masse), MW(massW), SW(sinW), CW(std::sqrt(1.0-sinW*sinW)), MZ(massW/CW), WZ(widthZ), prope(masse,0) {
     constexpr ldouble two = 2;
     sqrt2 = std::sqrt(two);
     MZ = MW/CW;//std::cout<<"constructor: MZ="<<MZ<<"\n";
-- 
2.43.0


From e0cd6a75986983fd5bf432aa99c92b7a4099989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:00 +0000
Subject: [PATCH 03/20] fix: update the Z propagator mass in ZWWh and ZhWW
 set_masses

---
 SM/ZWWh.cpp | 1 +
 SM/ZhWW.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SM/ZWWh.cpp b/SM/ZWWh.cpp
index 956c715..721c37b 100755
--- a/SM/ZWWh.cpp
+++ b/SM/ZWWh.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(mh);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = sqrt2*e*e/(2.0*MW*MW*SW*SW);
     preS = pre;
diff --git a/SM/ZhWW.cpp b/SM/ZhWW.cpp
index 9dbf049..c1ecf67 100755
--- a/SM/ZhWW.cpp
+++ b/SM/ZhWW.cpp
@@ -73,6 +73,7 @@ namespace spinas {
     p3.set_mass(MW);
     p4.set_mass(MW);
     propW.set_mass(MW);
+    propZ.set_mass(MZ);
     //Couplings
     pre = e*e/(sqrt2*MW*MW*SW*SW);
     preS = pre;
-- 
2.43.0


From f8522cc6e288ecdadc917a13a2d18ecb2bfb88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:00 +0000
Subject: [PATCH 04/20] fix: update the W mass in set_masses of the
 fermion-Higgs radiation processes

---
 SM/dAdh.cpp | 1 +
 SM/dgdh.cpp | 1 +
 SM/hgdd.cpp | 1 +
 SM/hguu.cpp | 1 +
 SM/uAuh.cpp | 1 +
 SM/uguh.cpp | 1 +
 6 files changed, 6 insertions(+)

diff --git a/SM/dAdh.cpp b/SM/dAdh.cpp
index 340ff04..f74c2f0 100755
--- a/SM/dAdh.cpp
+++ b/SM/dAdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dAdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/dgdh.cpp b/SM/dgdh.cpp
index 9bb48b4..bc610ca 100755
--- a/SM/dgdh.cpp
+++ b/SM/dgdh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void dgdh::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(md);
     p3.set_mass(md);
     p4.set_mass(mh);
diff --git a/SM/hgdd.cpp b/SM/hgdd.cpp
index 91e6b14..dbf53eb 100755
--- a/SM/hgdd.cpp
+++ b/SM/hgdd.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hgdd::set_masses(const ldouble& massd, const ldouble& massh, const ldouble& massW){
     md=massd;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(md);
     p4.set_mass(md);
diff --git a/SM/hguu.cpp b/SM/hguu.cpp
index a5a8d6d..fa6ce84 100755
--- a/SM/hguu.cpp
+++ b/SM/hguu.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void hguu::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mh);
     p3.set_mass(mu);
     p4.set_mass(mu);
diff --git a/SM/uAuh.cpp b/SM/uAuh.cpp
index cbe541f..2b83998 100755
--- a/SM/uAuh.cpp
+++ b/SM/uAuh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uAuh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
diff --git a/SM/uguh.cpp b/SM/uguh.cpp
index 47d50c1..b105931 100755
--- a/SM/uguh.cpp
+++ b/SM/uguh.cpp
@@ -54,6 +54,7 @@ namespace spinas {
   void uguh::set_masses(const ldouble& massu, const ldouble& massh, const ldouble& massW){
     mu=massu;
     mh=massh;
+    MW=massW;
     p1.set_mass(mu);
     p3.set_mass(mu);
     p4.set_mass(mh);
-- 
2.43.0


From 089602eb6e659ee90acaf4e7e24cdb3785c8188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:08 +0000
Subject: [PATCH 05/20] fix: give the left-handed fermions the right spin
 labels in menn, udnl and ulnd

---
 SM/include/menn.h |  2 +-
 SM/include/udnl.h |  4 ++--
 SM/include/ulnd.h |  4 ++--
 SM/menn.cpp       | 24 ++++++++++++------------
 SM/udnl.cpp       | 26 +++++++++++++-------------
 SM/ulnd.cpp       | 30 +++++++++++++++---------------
 6 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/SM/include/menn.h b/SM/include/menn.h
index 0c99ee1..f79dd86 100755
--- a/SM/include/menn.h
+++ b/SM/include/menn.h
@@ -28,7 +28,7 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator prop;
     cdouble pDenU;
-    sproduct s24s, a13a, s14s, a23a;
+    sproduct a24a, s13s, a14a, s23s;
 
     
   public:
diff --git a/SM/include/udnl.h b/SM/include/udnl.h
index de44b1c..d7485b8 100755
--- a/SM/include/udnl.h
+++ b/SM/include/udnl.h
@@ -28,8 +28,8 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator prop;
     cdouble pDenS;
-    //[14], <23>, <34>, [12], <12>
-    sproduct s14s, a23a, a34a, s12s, a12a;
+    //<14>, [23], [34], <12>, [12]
+    sproduct a14a, s23s, s34s, a12a, s12s;
 
     
   public:
diff --git a/SM/include/ulnd.h b/SM/include/ulnd.h
index 1f1dcd8..3ec6c82 100755
--- a/SM/include/ulnd.h
+++ b/SM/include/ulnd.h
@@ -29,8 +29,8 @@ namespace spinas {
     particle p1,p2,p3,p4;
     propagator prop;
     cdouble pDenU;
-    //[14], <23>, <34>, [12], <12>
-    sproduct a14a, s14s, a23a, a34a, s12s, a12a;
+    //<14>, [23], [34], <12>, [12]
+    sproduct s14s, a14a, s23s, s34s, a12a, s12s;
 
     
   public:
diff --git a/SM/menn.cpp b/SM/menn.cpp
index 427fcc1..83dc456 100755
--- a/SM/menn.cpp
+++ b/SM/menn.cpp
@@ -33,11 +33,11 @@ namespace spinas {
     e(echarge), me(masse), mm(massmu), MW(massW), WW(widthW), SW(sinW), prop(massW,widthW),
     p1(particle(mm)), p2(particle(me)),
     p3(particle(0)), p4(particle(0)),
-    //[24], ⟨13⟩, [14], ⟨23⟩
-    s24s(sproduct(SQUARE,&p2,&p4)),
-    a13a(sproduct(ANGLE,&p1,&p3)),
-    s14s(sproduct(SQUARE,&p1,&p4)),
-    a23a(sproduct(ANGLE,&p2,&p3))
+    //<24>, [13], <14>, [23]
+    a24a(sproduct(ANGLE,&p2,&p4)),
+    s13s(sproduct(SQUARE,&p1,&p3)),
+    a14a(sproduct(ANGLE,&p1,&p4)),
+    s23s(sproduct(SQUARE,&p2,&p3))
   {}
   void menn::set_masses(const ldouble& masse, const ldouble& massmu, const ldouble& massW){
     me=masse;
@@ -55,10 +55,10 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    s24s.update();
-    a13a.update();
-    s14s.update();
-    a23a.update();
+    a24a.update();
+    s13s.update();
+    a14a.update();
+    s23s.update();
     //Propagator Momentum
     ldouble propP[4];
     for(int j=0;j<4;j++)
@@ -70,10 +70,10 @@ namespace spinas {
   //Amplitude
   //set_momenta(...) must be called before amp(...).
   cdouble menn::amp(const int& ds1, const int& ds2){
-    //All ingoing: -(2MW^2 [24]⟨13⟩ + mμme[14]⟨23⟩)/ (2MW^2 (u−MW^2))
+    //All ingoing: -(2MW^2 <24>[13] + mμme<14>[23])/ (2MW^2 (u−MW^2))
     //Sign changes due to p3 and p4 being outgoing.
-    // (2MW^2 [24]⟨13⟩ + mμme[14]⟨23⟩)/ (2MW^2 (u−MW^2))
-    return e*e/2.0/SW/SW*(2.0*MW*MW*s24s.v(ds2)*a13a.v(ds1) + mm*me*s14s.v(ds1)*a23a.v(ds2))/(MW*MW*pDenU);
+    // (2MW^2 <24>[13] + mμme<14>[23])/ (2MW^2 (u−MW^2))
+    return e*e/2.0/SW/SW*(2.0*MW*MW*a24a.v(ds2)*s13s.v(ds1) + mm*me*a14a.v(ds1)*s23s.v(ds2))/(MW*MW*pDenU);
   }
   
   //set_momenta(...) must be called before amp2().
diff --git a/SM/udnl.cpp b/SM/udnl.cpp
index 598472b..03bd4d1 100755
--- a/SM/udnl.cpp
+++ b/SM/udnl.cpp
@@ -33,12 +33,12 @@ namespace spinas {
     e(echarge), mu(massu), md(massd), ml(masstau), MW(massW), WW(widthW), SW(sinW), prop(massW,widthW),
     p1(particle(mu)), p2(particle(md)),
     p3(particle(0)), p4(particle(ml)),
-    //[14], <23>, <34>, [12], <12>
-    s14s(sproduct(SQUARE,&p1,&p4)),
-    a23a(sproduct(ANGLE,&p2,&p3)),
-    s12s(sproduct(SQUARE,&p1,&p2)),
+    //<14>, [23], [34], <12>, [12]
+    a14a(sproduct(ANGLE,&p1,&p4)),
+    s23s(sproduct(SQUARE,&p2,&p3)),
     a12a(sproduct(ANGLE,&p1,&p2)),
-    a34a(sproduct(ANGLE,&p3,&p4))
+    s12s(sproduct(SQUARE,&p1,&p2)),
+    s34s(sproduct(SQUARE,&p3,&p4))
   {}
   void udnl::set_masses(const ldouble& massu, const ldouble& massd, const ldouble& masstau, const ldouble& massW){
     mu=massu;
@@ -57,11 +57,11 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    s14s.update();
-    a23a.update();
-    s12s.update();
+    a14a.update();
+    s23s.update();
     a12a.update();
-    a34a.update();
+    s12s.update();
+    s34s.update();
     //Propagator Momentum
     ldouble propPS[4];
     for(int j=0;j<4;j++){
@@ -74,11 +74,11 @@ namespace spinas {
   //Amplitude
   //set_momenta(...) must be called before amp(...).
   cdouble udnl::amp(const int& ds1, const int& ds2, const int& ds4){
-    //All ingoing: (2MW^2 [14]<23> + mlmu<34><12> - mlmd<34>[12])/ (2MW^2 (s−MW^2))
+    //All ingoing: (2MW^2 <14>[23] + mlmu[34][12] - mlmd[34]<12>)/ (2MW^2 (s−MW^2))
     //Sign changes due to p3 and p4 being outgoing.
-    // - (2MW^2 <14>[23] - mlmu<34>[12] + mlmd<34><12>)/ (2MW^2 (s−MW^2))
-    return e*e/2.0/SW/SW*(  2.0*MW*MW*s14s.v(ds1,ds4)*a23a.v(ds2)
-			  + ml*md*a34a.v(ds4)*s12s.v(ds1,ds2) - mu*ml*a12a.v(ds1,ds2)*a34a.v(ds4)
+    // - (2MW^2 [14]<23> - mlmu[34]<12> + mlmd[34][12])/ (2MW^2 (s−MW^2))
+    return e*e/2.0/SW/SW*(  2.0*MW*MW*a14a.v(ds1,ds4)*s23s.v(ds2)
+			  + ml*md*s34s.v(ds4)*a12a.v(ds1,ds2) - mu*ml*s12s.v(ds1,ds2)*s34s.v(ds4)
 			  )/(MW*MW*pDenS);
   }
   
diff --git a/SM/ulnd.cpp b/SM/ulnd.cpp
index 26b5c5c..a9f26e4 100755
--- a/SM/ulnd.cpp
+++ b/SM/ulnd.cpp
@@ -33,13 +33,13 @@ namespace spinas {
     e(echarge), mu(massu), md(massd), ml(masstau), MW(massW), WW(widthW), SW(sinW), prop(massW,widthW),
     p1(particle(mu)), p2(particle(ml)),
     p3(particle(0)), p4(particle(md)),
-    //[14], <23>, <34>, [12], <12>
-    a14a(sproduct(ANGLE,&p1,&p4)),
+    //<14>, [23], [34], <12>, [12]
     s14s(sproduct(SQUARE,&p1,&p4)),
-    a23a(sproduct(ANGLE,&p2,&p3)),
-    s12s(sproduct(SQUARE,&p1,&p2)),
+    a14a(sproduct(ANGLE,&p1,&p4)),
+    s23s(sproduct(SQUARE,&p2,&p3)),
     a12a(sproduct(ANGLE,&p1,&p2)),
-    a34a(sproduct(ANGLE,&p3,&p4))
+    s12s(sproduct(SQUARE,&p1,&p2)),
+    s34s(sproduct(SQUARE,&p3,&p4))
   {
     preW = e*e/(4.0*MW*MW*SW*SW);
   }
@@ -60,12 +60,12 @@ namespace spinas {
     p2.set_momentum(mom2);
     p3.set_momentum(mom3);
     p4.set_momentum(mom4);
-    a14a.update();
     s14s.update();
-    a23a.update();
-    s12s.update();
+    a14a.update();
+    s23s.update();
     a12a.update();
-    a34a.update();
+    s12s.update();
+    s34s.update();
     //Propagator Momentum
     ldouble propP[4];
     for(int j=0;j<4;j++){
@@ -80,15 +80,15 @@ namespace spinas {
   cdouble ulnd::amp(const int& ds1, const int& ds2, const int& ds4){
     //preW = e*e/(4.0*MW*MW*SW*SW);
     //uDnlL all ingoing:
-    //+ preW ( 2MW^2 [14]<23> + mlmu<34><12> - mlmd<34>[12] )/(s−MW^2)
+    //+ preW ( 2MW^2 <14>[23] + mlmu[34][12] - mlmd[34]<12> )/(s−MW^2)
     //uLNlD: 2<->4
-    //+ preW (- 2MW^2 [12]<34> - mlmu<23><14> + mlmd<23>[14] )/(u−MW^2)
+    //+ preW (- 2MW^2 <12>[34] - mlmu[23][14] + mlmd[23]<14> )/(u−MW^2)
     //34 out:
-    //- preW ( 2MW^2 [12]<34> + mlmu<23><14> + mlmd<23>[14] )/(u−MW^2)
+    //- preW ( 2MW^2 <12>[34] + mlmu[23][14] + mlmd[23]<14> )/(u−MW^2)
     return - preW*2.0*(
-		       + 2.0*MW*MW*s12s.v(ds1,ds2)*a34a.v(ds4)
-		       + mu*ml*a23a.v(ds2)*a14a.v(ds1,ds4)
-		       + ml*md*a23a.v(ds2)*s14s.v(ds1,ds4)
+		       + 2.0*MW*MW*a12a.v(ds1,ds2)*s34s.v(ds4)
+		       + mu*ml*s23s.v(ds2)*s14s.v(ds1,ds4)
+		       + ml*md*s23s.v(ds2)*a14a.v(ds1,ds4)
 		       )/pDenU;
   }
   
-- 
2.43.0


From ca011d7f049499bcbc87fd977383d7ac3f0e61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 06/20] fix: rotate momenta in the right direction for angles
 outside 0 to pi

The sine was taken as the positive root of 1-cos^2.
---
 source/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index bf6b6ee..b52685c 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -56,7 +56,7 @@ namespace spinas {
   //Rotate a Momentum by theta around axis given by normalized u[3]={ux,uy,uz}.
   void rotate_momentum(ldouble mom[4], const ldouble u[3], const ldouble& theta){
     ldouble cost = std::cos(theta), ux=u[0], uy=u[1], uz=u[2];
-    ldouble sint = std::sqrt(1.0-cost*cost);
+    ldouble sint = std::sin(theta);
     ldouble R[4][4] = {{1,0,0,0},
 		       {0, cost + ux*ux*(1 - cost), ux*uy*(1 - cost) - uz*sint, ux*uz*(1 - cost) + uy*sint},
 		       {0, ux*uy*(1 - cost) + uz*sint, cost + uy*uy*(1 - cost), uy*uz*(1 - cost) - ux*sint},
-- 
2.43.0


From ce250f134a73ad8128566731935aba3927405d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 07/20] fix: leave a momentum unchanged when boosted by zero
 velocity

The boost matrix divided by the squared velocity and gave NaN.
---
 source/utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index b52685c..a493cdc 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -72,6 +72,7 @@ namespace spinas {
   void boost_momentum(ldouble mom[4], const ldouble v[3]){
     ldouble vx=v[0], vy=v[1], vz=v[2];
     ldouble v2=vx*vx+vy*vy+vz*vz;
+    if(v2==0) return;//No boost.
     ldouble gamma = 1./std::sqrt(1-v2);
     ldouble B[4][4] = {{gamma, -gamma*vx, -gamma*vy, -gamma*vz},
 		       {-gamma*vx, 1 + (gamma - 1)*vx*vx/v2, (gamma - 1)*vx*vy/v2, (gamma - 1)*vx*vz/v2},
-- 
2.43.0


From a3858f64fd8db7063817d53866c7f2395bba71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 08/20] fix: initialise all members of a particle constructed
 without a momentum

The angles and spinor factors were read before they were set.
---
 source/particle.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 633c1ed..0dfb690 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -32,11 +32,17 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 namespace spinas {
   //Constructors
-  particle::particle()
-  {}
+  particle::particle():
+    m(0), p{0,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble& mass):
-    m(mass), p{m,0,0,0}{}
+    m(mass), p{m,0,0,0}
+  {
+    update();
+  }
 
   particle::particle(const ldouble momentum[4], const ldouble& mass):
     m(mass),p{momentum[0],momentum[1],momentum[2],momentum[3]}
-- 
2.43.0


From 00cfdce8ea92ac4d89feedb759532b44eecae76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 09/20] fix: keep the previous momentum when a new one is
 rejected

The particle kept the rejected momentum with the spinors of the old one.
---
 source/particle.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 0dfb690..339ed73 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -55,8 +55,16 @@ namespace spinas {
     m=mass;
   }
   void particle::set_momentum(const ldouble momentum[4]){
+    const ldouble old[4] = {p[0],p[1],p[2],p[3]};
     for(int j=0;j<4;j++) p[j]=momentum[j];
-    update();
+    try{
+      update();
+    }
+    catch(...){
+      //Keep the previous momentum.
+      for(int j=0;j<4;j++) p[j]=old[j];
+      throw;
+    }
   }
   //Get momentum and mass
   const ldouble particle::mass() const{
@@ -72,11 +80,13 @@ namespace spinas {
   //Calc particle properties
   void particle::update(){
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000000;
-    pxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
-    pmag = std::sqrt(pxymag*pxymag+p[3]*p[3]);
-    if(std::abs(p[0]*p[0]-pmag*pmag-m*m) > epsilon){
-      throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-pmag*pmag) + " != " + std::to_string(m*m));
+    const ldouble newpxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
+    const ldouble newpmag = std::sqrt(newpxymag*newpxymag+p[3]*p[3]);
+    if(std::abs(p[0]*p[0]-newpmag*newpmag-m*m) > epsilon){
+      throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-newpmag*newpmag) + " != " + std::to_string(m*m));
     }
+    pxymag = newpxymag;
+    pmag = newpmag;
     theta = atan2(pxymag,p[3]);
     phi = atan2(p[2],p[1]);
     //if(phi<0) phi+=2.*PI;
-- 
2.43.0


From da5e05816837252f6a2e71b6a71a2ca0cf19efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 10/20] fix: reject momenta that are not a number

---
 source/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 339ed73..b78d725 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -82,7 +82,7 @@ namespace spinas {
     constexpr ldouble epsilon = std::numeric_limits<ldouble>::epsilon() * 1000000000;
     const ldouble newpxymag = std::sqrt(p[1]*p[1]+p[2]*p[2]);
     const ldouble newpmag = std::sqrt(newpxymag*newpxymag+p[3]*p[3]);
-    if(std::abs(p[0]*p[0]-newpmag*newpmag-m*m) > epsilon){
+    if(!(std::abs(p[0]*p[0]-newpmag*newpmag-m*m) <= epsilon)){
       throw std::runtime_error("Momentum and mass don't match:  p^2 = " + std::to_string(p[0]*p[0]-newpmag*newpmag) + " != " + std::to_string(m*m));
     }
     pxymag = newpxymag;
-- 
2.43.0


From ab27166f4c1ed4bed4b2c25e275718679da409fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 11/20] fix: compute sqrt(E-p) of a massive particle without
 cancellation

It was NaN or inaccurate for very light, very energetic particles.
---
 source/particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index b78d725..f21a875 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -94,7 +94,7 @@ namespace spinas {
     s = std::polar(std::sin(theta/2.),phi);
     sc = std::conj(s);
     sqrtEpP = cdouble(std::sqrt(p[0]+pmag),0);
-    sqrtEmP = cdouble(std::sqrt(p[0]-pmag),0);
+    sqrtEmP = cdouble(m==0 ? 0 : std::abs(m)/std::sqrt(p[0]+pmag),0);
     
     //Reset all the calcs.
     //The matrices and spinors
-- 
2.43.0


From b084a174e709d34b2b5874007f0a72925c7b247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 12/20] fix: reject invalid spins of a spinor product that was
 already calculated

An invalid spin was only rejected on the first evaluation.
---
 source/sproduct.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/sproduct.cpp b/source/sproduct.cpp
index 9cc32d2..666e636 100755
--- a/source/sproduct.cpp
+++ b/source/sproduct.cpp
@@ -316,6 +316,8 @@ namespace spinas {
   }
   //One massive spinor
   cdouble sproduct::v(const int& spin){
+    if(spin!=1 && spin!=-1)
+      throw std::runtime_error("Incorrect usage of sproduct.val(j).  The spin must be 1 or -1.");
     if(isLeftMassive){
       if(isRightMassive){
 	throw std::runtime_error("Incorrect usage of sproduct.val(j).  Only one particle must be massive.");
@@ -385,6 +387,8 @@ namespace spinas {
   }
   //Both massive
   cdouble sproduct::v(const int& spinL, const int& spinR){
+    if((spinL!=1 && spinL!=-1) || (spinR!=1 && spinR!=-1))
+      throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  The spins must be 1 or -1.");
     if(!isLeftMassive || !isRightMassive){
       throw std::runtime_error("Incorrect usage of sproduct.val(jL,jR).  Both particles must be massive.");
       return cdouble(0,0);
-- 
2.43.0


From 0981bef8c74e7891af8adc8c96a17dbd9395e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:52 +0000
Subject: [PATCH 13/20] fix: write Mathematica exponents and all digits for
 vectors and matrices

The C style 1e-20 is read by Mathematica as 1*e-20.
---
 source/cmatrix.cpp | 9 +++++----
 source/cvector.cpp | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cmatrix.cpp b/source/cmatrix.cpp
index df8e7e9..15ada16 100755
--- a/source/cmatrix.cpp
+++ b/source/cmatrix.cpp
@@ -29,6 +29,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include "types.h"
 //#include "aliases.h"
 #include "cmatrix.h"
+#include "utilities.h"
 
 namespace spinas {
   //Constructors
@@ -217,10 +218,10 @@ namespace spinas {
   
   std::string cmatrix::to_Mathematica_string() const {
     std::stringstream tmpStr;
-    tmpStr<<"{ { "<<std::real(mat[0][0])<<" + I* "<<std::imag(mat[0][0])<<
-      " , "<<std::real(mat[0][1])<<" + I* "<<std::imag(mat[0][1])<<
-      " } , { "<<std::real(mat[1][0])<<" + I* "<<std::imag(mat[1][0])<<
-      " , "<<std::real(mat[1][1])<<" + I* "<<std::imag(mat[1][1])<<" } }";
+    tmpStr<<"{ { "<<double_to_Mathematica_string(std::real(mat[0][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[0][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[0][1]))<<
+      " } , { "<<double_to_Mathematica_string(std::real(mat[1][0]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][0]))<<
+      " , "<<double_to_Mathematica_string(std::real(mat[1][1]))<<" + I* "<<double_to_Mathematica_string(std::imag(mat[1][1]))<<" } }";
     return tmpStr.str();
   }
   
diff --git a/source/cvector.cpp b/source/cvector.cpp
index 8be3ba7..a6709cf 100755
--- a/source/cvector.cpp
+++ b/source/cvector.cpp
@@ -28,6 +28,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 //#include "aliases.h"
 #include "cmatrix.h"
 #include "cvector.h"
+#include "utilities.h"
 
 namespace spinas {
   //Constructors
@@ -144,8 +145,8 @@ namespace spinas {
   std::string cvector::to_Mathematica_string() const {
     std::stringstream tmpStr;
     tmpStr<<"{ "
-	  <<std::real(vec[0])<<" + I * "<<std::imag(vec[0])<<
-      " , "<<std::real(vec[1])<<" + I * "<<std::imag(vec[1])<<
+	  <<double_to_Mathematica_string(std::real(vec[0]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[0]))<<
+      " , "<<double_to_Mathematica_string(std::real(vec[1]))<<" + I * "<<double_to_Mathematica_string(std::imag(vec[1]))<<
       " }";
     return tmpStr.str();
   }
-- 
2.43.0


From f543eebaad265c43cd828dbcc722a5d62c6c9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:54 +0000
Subject: [PATCH 14/20] fix: compute the angles of a particle in extended
 precision

---
 source/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index f21a875..865a61a 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -87,8 +87,8 @@ namespace spinas {
     }
     pxymag = newpxymag;
     pmag = newpmag;
-    theta = atan2(pxymag,p[3]);
-    phi = atan2(p[2],p[1]);
+    theta = std::atan2(pxymag,p[3]);
+    phi = std::atan2(p[2],p[1]);
     //if(phi<0) phi+=2.*PI;
     c = cdouble(std::cos(theta/2.),0.);
     s = std::polar(std::sin(theta/2.),phi);
-- 
2.43.0


From 742db245a971b5217d367e9cbad1d4077c030aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:51 +0000
Subject: [PATCH 15/20] fix: avoid std::polar with a negative modulus in the
 rotation generators

---
 source/particle.cpp | 61 ++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/source/particle.cpp b/source/particle.cpp
index 865a61a..7af62b6 100755
--- a/source/particle.cpp
+++ b/source/particle.cpp
@@ -31,6 +31,11 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #include "particle.h"
 
 namespace spinas {
+  //std::polar is undefined for a negative modulus
+  static cdouble signed_polar(const ldouble& r, const ldouble& angle){
+    return cdouble(r*std::cos(angle),r*std::sin(angle));
+  }
+  
   //Constructors
   particle::particle():
     m(0), p{0,0,0,0}
@@ -495,8 +500,8 @@ namespace spinas {
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return -half*cmatrix(std::cos(theta)*one,std::polar(std::sin(theta),-phi),
-		      std::polar(std::sin(theta),phi),-std::cos(theta)*one);
+    return -half*cmatrix(std::cos(theta)*one,signed_polar(std::sin(theta),-phi),
+		      signed_polar(std::sin(theta),phi),-std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_lu() const{
     constexpr ldouble half=0.5, one=1;
@@ -504,24 +509,24 @@ namespace spinas {
     if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
 
     return pre*cmatrix(
-		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
-		       -std::polar(one+std::cos(theta),phi), -std::sin(theta));
+		       std::sin(theta), -signed_polar(-one+std::cos(theta),-phi) ,
+		       -signed_polar(one+std::cos(theta),phi), -std::sin(theta));
   }
   cmatrix particle::lorentz_jm_lu() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
     if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
     return pre*cmatrix(
-		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
-		       -std::polar(-one+std::cos(theta),phi), -std::sin(theta));
+		       std::sin(theta), -signed_polar(one+std::cos(theta),-phi) ,
+		       -signed_polar(-one+std::cos(theta),phi), -std::sin(theta));
   }
   //UL acts on <j| (from the left)
   cmatrix particle::lorentz_j3_ul() const{
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return half*cmatrix(std::cos(theta)*one,std::polar(std::sin(theta),phi),
-			std::polar(std::sin(theta),-phi),-std::cos(theta)*one);
+    return half*cmatrix(std::cos(theta)*one,signed_polar(std::sin(theta),phi),
+			signed_polar(std::sin(theta),-phi),-std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_ul() const{
     constexpr ldouble half=0.5, one=1;
@@ -529,16 +534,16 @@ namespace spinas {
     if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
 
     return pre*cmatrix(
-		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
-		       std::polar(-one+std::cos(theta),-phi), std::sin(theta));
+		       -std::sin(theta), signed_polar(one+std::cos(theta),phi) ,
+		       signed_polar(-one+std::cos(theta),-phi), std::sin(theta));
   }
   cmatrix particle::lorentz_jm_ul() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=1;
     if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
     return pre*cmatrix(
-		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
-		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
+		       -std::sin(theta), signed_polar(-one+std::cos(theta),phi) ,
+		       signed_polar(one+std::cos(theta),-phi), std::sin(theta));
   }
 
   
@@ -548,8 +553,8 @@ namespace spinas {
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return half*cmatrix(std::cos(theta)*one,std::polar(std::sin(theta),phi),
-			std::polar(std::sin(theta),-phi),-std::cos(theta)*one);
+    return half*cmatrix(std::cos(theta)*one,signed_polar(std::sin(theta),phi),
+			signed_polar(std::sin(theta),-phi),-std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
@@ -557,24 +562,24 @@ namespace spinas {
     if(m!=0) pre = half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
 
     return pre*cmatrix(
-		       -std::sin(theta), std::polar(one+std::cos(theta),phi) ,
-		       std::polar(-one+std::cos(theta),-phi), std::sin(theta));
+		       -std::sin(theta), signed_polar(one+std::cos(theta),phi) ,
+		       signed_polar(-one+std::cos(theta),-phi), std::sin(theta));
   }
   cmatrix particle::lorentz_jm_lu_dot() const{
     constexpr ldouble half=0.5, one=1;
     ldouble pre=0;
     if(m!=0) pre=half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
     return pre*cmatrix(
-		       -std::sin(theta), std::polar(-one+std::cos(theta),phi) ,
-		       std::polar(one+std::cos(theta),-phi), std::sin(theta));
+		       -std::sin(theta), signed_polar(-one+std::cos(theta),phi) ,
+		       signed_polar(one+std::cos(theta),-phi), std::sin(theta));
   }
   //UL acts on |j] (from the right)
   cmatrix particle::lorentz_j3_ul_dot() const{
     constexpr ldouble half=0.5;
     constexpr cdouble one=cdouble(1,0);
     
-    return half*cmatrix(-std::cos(theta)*one,-std::polar(std::sin(theta),-phi),
-			-std::polar(std::sin(theta),phi),std::cos(theta)*one);
+    return half*cmatrix(-std::cos(theta)*one,-signed_polar(std::sin(theta),-phi),
+			-signed_polar(std::sin(theta),phi),std::cos(theta)*one);
   }
   cmatrix particle::lorentz_jp_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
@@ -582,8 +587,8 @@ namespace spinas {
     if(m!=0) pre=half*std::sqrt((p[0]+pmag)/(p[0]-pmag));
 
     return pre*cmatrix(
-		       std::sin(theta), -std::polar(-one+std::cos(theta),-phi) ,
-		       -std::polar(one+std::cos(theta),phi), -std::sin(theta));
+		       std::sin(theta), -signed_polar(-one+std::cos(theta),-phi) ,
+		       -signed_polar(one+std::cos(theta),phi), -std::sin(theta));
   }
   cmatrix particle::lorentz_jm_ul_dot() const{
     constexpr ldouble half=0.5, one=1;
@@ -591,8 +596,8 @@ namespace spinas {
     if(m!=0) pre = half*std::sqrt((p[0]-pmag)/(p[0]+pmag));
     
     return pre*cmatrix(
-		       std::sin(theta), -std::polar(one+std::cos(theta),-phi) ,
-		       -std::polar(-one+std::cos(theta),phi), -std::sin(theta));
+		       std::sin(theta), -signed_polar(one+std::cos(theta),-phi) ,
+		       -signed_polar(-one+std::cos(theta),phi), -std::sin(theta));
   }
   
   
@@ -608,12 +613,12 @@ namespace spinas {
     constexpr cdouble zero=cdouble(0,0);
     constexpr ldouble one=1;
     return cmatrix(zero,zero,
-		   -std::polar(one,phi),zero);
+		   -signed_polar(one,phi),zero);
   }
   cmatrix particle::spin_jm_lu() const{
     constexpr cdouble zero=cdouble(0,0);
     constexpr ldouble one=1;
-    return cmatrix(zero,-std::polar(one,-phi),
+    return cmatrix(zero,-signed_polar(one,-phi),
 		   zero,zero);
   }
 
@@ -628,14 +633,14 @@ namespace spinas {
   cmatrix particle::spin_jp_ul() const{
     constexpr cdouble zero=cdouble(0,0);
     constexpr ldouble one=1;
-    return cmatrix(zero,std::polar(one,phi),
+    return cmatrix(zero,signed_polar(one,phi),
 		   zero,zero);
   }
   cmatrix particle::spin_jm_ul() const{
     constexpr cdouble zero=cdouble(0,0);
     constexpr ldouble one=1;
     return cmatrix(zero,zero,
-		   std::polar(one,-phi),zero);
+		   signed_polar(one,-phi),zero);
   }
 
 }
-- 
2.43.0


From 5ceb5d017677b6d8eb1d841c567d0999eaa9f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:51 +0000
Subject: [PATCH 16/20] fix: give each thread its own random generator

---
 source/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index a493cdc..0acb1f2 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -89,8 +89,8 @@ namespace spinas {
 
   
   //Random Generation Used in Tests
-  std::random_device rd;
-  std::mt19937 gen(rd());  
+  thread_local std::random_device rd;
+  thread_local std::mt19937 gen(rd());  
   
   int choose_random_int(int begin, int end){
     std::uniform_int_distribution<> disInt(begin, end);
-- 
2.43.0


From 83d7642a38c6356490725bba5e747098023af2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:20 +0000
Subject: [PATCH 17/20] fix: initialise the propagator denominators of the
 two-gluon processes

---
 SM/include/dggd.h | 2 +-
 SM/include/ggdd.h | 2 +-
 SM/include/gggg.h | 2 +-
 SM/include/gguu.h | 2 +-
 SM/include/gugu.h | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/SM/include/dggd.h b/SM/include/dggd.h
index 31ecb0a..bf81374 100755
--- a/SM/include/dggd.h
+++ b/SM/include/dggd.h
@@ -27,7 +27,7 @@ namespace spinas {
     ldouble md;//Mass of down
     particle p1,p2,p3,p4;
     propagator propd, propg;
-    ldouble pDenS, pDenT, pDenU;
+    ldouble pDenS=0, pDenT=0, pDenU=0;
     sproduct s34s, a34a, s12s, a12a, s13s, a13a, s24s, a24a, s23s, a23a, s14s, a14a, s312a, s213a;
     ldouble sqrt2;
 
diff --git a/SM/include/ggdd.h b/SM/include/ggdd.h
index 4becd36..b5b26b4 100755
--- a/SM/include/ggdd.h
+++ b/SM/include/ggdd.h
@@ -27,7 +27,7 @@ namespace spinas {
     ldouble md;//Mass of down
     particle p1,p2,p3,p4;
     propagator propd, propg;
-    ldouble pDenS, pDenT, pDenU;
+    ldouble pDenS=0, pDenT=0, pDenU=0;
     sproduct s34s, a34a, s12s, a12a, s13s, a13a, s24s, a24a, s23s, a23a, s14s, a14a, s132a, s231a;
     ldouble sqrt2;
 
diff --git a/SM/include/gggg.h b/SM/include/gggg.h
index f68099e..371856a 100755
--- a/SM/include/gggg.h
+++ b/SM/include/gggg.h
@@ -29,7 +29,7 @@ namespace spinas {
     sproduct s1432s, a1432a, s3214s, a3214a;
     sproduct a3124a;
     propagator prop;
-    ldouble pDenS, pDenT, pDenU;
+    ldouble pDenS=0, pDenT=0, pDenU=0;
 
     
     
diff --git a/SM/include/gguu.h b/SM/include/gguu.h
index ab0a9b5..a2dc4ee 100755
--- a/SM/include/gguu.h
+++ b/SM/include/gguu.h
@@ -27,7 +27,7 @@ namespace spinas {
     ldouble mu;//Mass of up
     particle p1,p2,p3,p4;
     propagator propu, propg;
-    ldouble pDenS, pDenT, pDenU;
+    ldouble pDenS=0, pDenT=0, pDenU=0;
     sproduct s34s, a34a, s12s, a12a, s13s, a13a, s24s, a24a, s23s, a23a, s14s, a14a, s132a, s231a;
     ldouble sqrt2;
 
diff --git a/SM/include/gugu.h b/SM/include/gugu.h
index f613b03..3a15730 100755
--- a/SM/include/gugu.h
+++ b/SM/include/gugu.h
@@ -27,7 +27,7 @@ namespace spinas {
     ldouble mu;//Mass of up
     particle p1,p2,p3,p4;
     propagator propu, propg;
-    ldouble pDenS, pDenT, pDenU;
+    ldouble pDenS=0, pDenT=0, pDenU=0;
     sproduct s34s, a34a, s12s, a12a, s13s, a13a, s24s, a24a, s23s, a23a, s14s, a14a, s143a, s341a;
     ldouble sqrt2;
 
-- 
2.43.0


From c3a1a1cd573e29250503769b13fd71102ddd9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:43 +0000
Subject: [PATCH 18/20] fix: compute all spinor products in the one-call amp2
 of eAeh

The products s241 and a241 were declared but never set, so the one-call
version dropped the terms that contain them.
---
 SM/eAeh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SM/eAeh.cpp b/SM/eAeh.cpp
index df427c5..dd1019c 100755
--- a/SM/eAeh.cpp
+++ b/SM/eAeh.cpp
@@ -171,6 +171,8 @@ namespace spinas {
       a23[i] = p2.langle()*p3.rangle(2*i-1);
       s243[i] = p2.lsquare()*p4.umat()*p3.rangle(2*i-1);
       a243[i] = p2.langle()*p4.lmat()*p3.rsquare(2*i-1);
+      s241[i] = p2.lsquare()*p4.umat()*p1.rangle(2*i-1);
+      a241[i] = p2.langle()*p4.lmat()*p1.rsquare(2*i-1);
     }
     s2342 = p2.lsquare()*p3.umat()*p4.lmat()*p2.rsquare();
     a2342 = p2.langle()*p3.lmat()*p4.umat()*p2.rangle();
-- 
2.43.0


From dbe7e4a924ce9ec6c8f65245cdb82f8d9a4b3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:43 +0000
Subject: [PATCH 19/20] fix: relative sign of one photon helicity amplitude of
 dAAd

The amplitude for photon labels (-,+) had the opposite sign of the one in
eAAe and uAAu. Sums over spins are not affected.
---
 SM/dAAd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SM/dAAd.cpp b/SM/dAAd.cpp
index dc51239..0d3507f 100755
--- a/SM/dAAd.cpp
+++ b/SM/dAAd.cpp
@@ -110,8 +110,8 @@ namespace spinas {
     else if(ds3>0&&ds2<0){
       //AADd all in:      + ([31]<42>+[41]<32>)[132>/tu
       //dAAD: 4->1->3->4: - ([34]<12>+[13]<24>)[342>/st
-      //34 out:           - ([34]<12>-[13]<24>)[342>/st
-      return - 2.0*e*e*Qd*Qd*(s34s.v(ds4)*a12a.v(ds1)-s13s.v(ds1)*a24a.v(ds4))*s342a.v()/pDenS/pDenT;
+      //34 out:           + ([34]<12>-[13]<24>)[342>/st
+      return + 2.0*e*e*Qd*Qd*(s34s.v(ds4)*a12a.v(ds1)-s13s.v(ds1)*a24a.v(ds4))*s342a.v()/pDenS/pDenT;
     }
     else if(ds3<0&&ds2>0){
       //AADd all in:      + (<31>[42]+<41>[32])[231>/tu
-- 
2.43.0


From bbb51d46becb5393fdd033f0cd9ceca02fb77f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:55 +0000
Subject: [PATCH 20/20] fix: Mathematica text of numbers in programs with
 another locale

---
 source/utilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/utilities.cpp b/source/utilities.cpp
index 0acb1f2..58976a1 100755
--- a/source/utilities.cpp
+++ b/source/utilities.cpp
@@ -41,6 +41,7 @@ namespace spinas {
     size_t epos;
     
     std::stringstream xStr;
+    xStr.imbue(std::locale::classic());//Independent of the locale of the program.
     xStr << std::setprecision(std::numeric_limits<ldouble>::digits10 + 1) << x;
     num=xStr.str();
     epos=num.find("e");
-- 
2.43.0

