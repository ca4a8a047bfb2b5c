From 54f1761b3daee4cedca96f7a69373ea750ff54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 01/25] fix: vlswap: give each thread its own temporary when
 swapping values

---
 src/main/main/variables.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index 913340e..62e701b 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -660,9 +660,9 @@ void vlswap(tVarList *v, tVarList *u)
       SGRID_LEVEL3_Pragma(omp parallel for)
       for (i = 0; i < nnodes; i++)
       {
-        temp  = pv[i];
+        double tempi = pv[i];
         pv[i] = pu[i];
-        pu[i] = temp;
+        pu[i] = tempi;
       }
     }
   }
-- 
2.43.0


From d390ec4cebaa82dd70635be473b5db9994cb02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 02/25] fix: transposed sparse products: do not add into shared
 f[j] from several threads

---
 src/utility/LinAlg/SparseVector_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/LinAlg/SparseVector_utils.c b/src/utility/LinAlg/SparseVector_utils.c
index f6897c2..dd2a99d 100644
--- a/src/utility/LinAlg/SparseVector_utils.c
+++ b/src/utility/LinAlg/SparseVector_utils.c
@@ -214,7 +214,7 @@ void vector_times_SparseMatrixLines(double *x, tSparseVector **Aline,
 
   for(k=0; k<nlines; k++) f[k] = 0.0;
 
-  SGRID_LEVEL4_Pragma(omp parallel for)
+  /* serial, because different k add to the same f[j] */
   for(k=0; k<nlines; k++)
   {
     int j,ent;
@@ -243,7 +243,7 @@ void SparseMatrixLinesTranspose_times_vector(tSparseVector **Aline, int nlines,
  
   for(i=0; i<nlines; i++) f[i] = 0.0;
 
-  SGRID_LEVEL4_Pragma(omp parallel for)
+  /* serial, because different i add to the same f[j] */
   for(i=0; i<nlines; i++)
   {
     int j,ent;
-- 
2.43.0


From 2eb0e0ac1847653612e5e9218369c6a1a30f1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 03/25] fix: Z4secondO: declare the parameters Z4secondO_lapse
 and Z4secondO_shift_stop_time

---
 src/physics/Z4secondO/sgrid_Z4secondO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/Z4secondO/sgrid_Z4secondO.c b/src/physics/Z4secondO/sgrid_Z4secondO.c
index 51ba9e6..004c4f5 100644
--- a/src/physics/Z4secondO/sgrid_Z4secondO.c
+++ b/src/physics/Z4secondO/sgrid_Z4secondO.c
@@ -50,7 +50,9 @@ int sgrid_Z4secondO(void)
          
   AddPar("Z4secondO_shift",  "constant",
          "shift equation [constant,gamma0,gamma2]");
-  AddPar("Z4secondOy_lapse", "constant", 
+  AddPar("Z4secondO_lapse", "constant", 
 	 "lapse equation [constant,1+log,harmonic;withshift]");
+  AddPar("Z4secondO_shift_stop_time", "-1.0", 
+         "time when shift stops evolving (-1 for don't stop)");
   return 0;
 }
-- 
2.43.0


From efcfc23b30bb526f30e48b1087d4a8e76354016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 04/25] fix: Coordinates: give each thread its own copy of
 function-static caches

---
 src/utility/Coordinates/Coordinates.c    | 34 ++++++++++++++++++++++++
 src/utility/Coordinates/findXYZ_of_xyz.c |  3 +++
 2 files changed, 37 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 40e8009..0d41b2b 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -1546,6 +1546,7 @@ return 0.;
 double r_of_xi(double xi)
 {
   static double r0=-1.0;
+#pragma omp threadprivate(r0)
 
 //  if(xi==1.0) return  
   if(r0 < 0.0)
@@ -1558,6 +1559,7 @@ double r_of_xi(double xi)
 double dxi_dr(double xi)
 {
   static double r0=-1.0;
+#pragma omp threadprivate(r0)
   double r;
 
   if(xi==1.0) return 0.0;
@@ -1637,6 +1639,7 @@ double dphicompactSphericalDF_dy(void *aux, int ind, double xi, double thm, doub
 double ddxi_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Cos(theta),2)*(1. + Power(r0,2) - 2.*r0*(r0 + Tan(0.5*PI*xi)) - Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) + 2.*Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)) + Power(Sin(theta),2)*(2.*r0*Power(Cos(phi),2)*(r0 + Tan(0.5*PI*xi)) - 2.*Power(Cos(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Sin(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Sin(phi),2)*(-1. + Power(r0,2) + 2.*r0*Tan(0.5*PI*xi) + Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1644,6 +1647,7 @@ return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi
 double ddxi_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Sin(2.*phi)*Power(Sin(theta),2)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1651,6 +1655,7 @@ return (Power(Cos(0.5*PI*xi),2)*Sin(2.*phi)*Power(Sin(theta),2)*(-2. + Cos(PI*xi
 double ddxi_compactSphericalDF_dxdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Cos(phi)*Power(Cos(0.5*PI*xi),2)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1658,6 +1663,7 @@ return (Cos(phi)*Power(Cos(0.5*PI*xi),2)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Si
 double ddxi_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Cos(theta),2)*(1. + Power(r0,2) - 2.*r0*(r0 + Tan(0.5*PI*xi)) + 2.*Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)) + Power(Sin(theta),2)*(2.*r0*Power(Sin(phi),2)*(r0 + Tan(0.5*PI*xi)) + Power(Cos(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - 2.*Power(Sin(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Cos(phi),2)*(-1. + Power(r0,2) + 2.*r0*Tan(0.5*PI*xi) + Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1665,6 +1671,7 @@ return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi
 double ddxi_compactSphericalDF_dydz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Sin(phi)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1672,6 +1679,7 @@ return (Power(Cos(0.5*PI*xi),2)*Sin(phi)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Si
 double ddxi_compactSphericalDF_dzdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (-2.*Power(Cos(0.5*PI*xi),2)*(Cos(2.*theta) + Power(Cos(theta),2)*(-Cos(PI*xi) + r0*Sin(PI*xi))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
@@ -1679,6 +1687,7 @@ return (-2.*Power(Cos(0.5*PI*xi),2)*(Cos(2.*theta) + Power(Cos(theta),2)*(-Cos(P
 double ddthm_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -(((Cos(2.*phi) - Power(Cos(phi),2)*Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
@@ -1686,6 +1695,7 @@ return -(((Cos(2.*phi) - Power(Cos(phi),2)*Cos(2.*theta))*Power(Cos(0.5*PI*xi),2
 double ddthm_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (0.5*(-2. + Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta)*Sin(2.*phi))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
@@ -1693,6 +1703,7 @@ return (0.5*(-2. + Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta)*Sin(2.*phi)
 double ddthm_compactSphericalDF_dxdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -((Cos(phi)*Cos(2.*theta)*Power(Cos(0.5*PI*xi),2))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
@@ -1700,6 +1711,7 @@ return -((Cos(phi)*Cos(2.*theta)*Power(Cos(0.5*PI*xi),2))/Power(r0*Cos(0.5*PI*xi
 double ddthm_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Cot(theta)*(Cos(2.*phi) + Cos(2.*theta)*Power(Sin(phi),2)))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
@@ -1707,6 +1719,7 @@ return (Power(Cos(0.5*PI*xi),2)*Cot(theta)*(Cos(2.*phi) + Cos(2.*theta)*Power(Si
 double ddthm_compactSphericalDF_dydz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -((Cos(2.*theta)*Power(Cos(0.5*PI*xi),2)*Sin(phi))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
@@ -1714,6 +1727,7 @@ return -((Cos(2.*theta)*Power(Cos(0.5*PI*xi),2)*Sin(phi))/Power(r0*Cos(0.5*PI*xi
 double ddthm_compactSphericalDF_dzdz(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Cos(0.5*PI*xi),2)*Sin(2.*theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
@@ -1721,6 +1735,7 @@ return (Power(Cos(0.5*PI*xi),2)*Sin(2.*theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5
 double ddphi_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (Power(Csc(theta),2)*Sin(2.*phi))/Power(r0 + Tan(0.5*PI*xi),2);
 }
@@ -1728,6 +1743,7 @@ return (Power(Csc(theta),2)*Sin(2.*phi))/Power(r0 + Tan(0.5*PI*xi),2);
 double ddphi_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return -((Cos(2.*phi)*Power(Csc(theta),2))/Power(r0 + Tan(0.5*PI*xi),2));
 }
@@ -1740,6 +1756,7 @@ return 0.0;
 double ddphi_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
 tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
+#pragma omp threadprivate(r0)
    if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
 return (-2.*Cos(phi)*Power(Csc(theta),2)*Sin(phi))/Power(r0 + Tan(0.5*PI*xi),2);
 }
@@ -2185,6 +2202,7 @@ return 0;
 double x_of_xs(double xs)
 {
   static double s=-1.0;
+#pragma omp threadprivate(s)
 
   if(s < 0.0)
   {
@@ -2198,6 +2216,7 @@ double x_of_xs(double xs)
 double dxs_dx(double xs)
 {
   static double s=-1.0;
+#pragma omp threadprivate(s)
   double u, arg;
 
   if(s < 0.0)
@@ -2216,6 +2235,7 @@ double dxs_dx(double xs)
 double ddxs_dxdx(double xs)
 {
   static double s=-1.0;
+#pragma omp threadprivate(s)
   double u, arg, dum;
 
   if(s < 0.0)
@@ -2308,6 +2328,7 @@ void xyz_of_AnsorgNS(tBox *box, int ind, int domain,
   static double Asav=-1, BBsav=-1, phisav=-1;
   static double xsav, ysav, zsav, Xsav, Rsav;
   static int BBshift=-1;
+#pragma omp threadprivate(BBshift)
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
@@ -2522,6 +2543,7 @@ void dABphi_dxyz_AnsorgNS(tBox *box, int ind, int domain,
                 dphidxsav, dphidysav, dphidzsav;
   double dBdx, dBdy, dBdz;
   static int BBshift=-1;
+#pragma omp threadprivate(BBshift)
   int read=0;
   double X,R;
   double Rsqr=-1, Xsqr=-1, Rsqr_p_Xsqr=-1;
@@ -3359,6 +3381,7 @@ double AnsorgNS_sigma_pm(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3386,6 +3409,7 @@ double AnsorgNS_dsigma_pm_dB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3413,6 +3437,7 @@ double AnsorgNS_dsigma_pm_dphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3432,6 +3457,7 @@ double AnsorgNS_ddsigma_pm_dBdB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3459,6 +3485,7 @@ double AnsorgNS_ddsigma_pm_dBdphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3486,6 +3513,7 @@ double AnsorgNS_ddsigma_pm_dphidphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3511,6 +3539,7 @@ double tsafe_AnsorgNS_sigma_pm(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3538,6 +3567,7 @@ double tsafe_AnsorgNS_dsigma_pm_dB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3565,6 +3595,7 @@ double tsafe_AnsorgNS_dsigma_pm_dphi(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3584,6 +3615,7 @@ double tsafe_AnsorgNS_ddsigma_pm_dBdB(tBox *box, int ind, double B, double phi)
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3611,6 +3643,7 @@ double tsafe_AnsorgNS_ddsigma_pm_dBdphi(tBox *box, int ind, double B, double phi
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
@@ -3638,6 +3671,7 @@ double tsafe_AnsorgNS_ddsigma_pm_dphidphi(tBox *box, int ind, double B, double p
 {
   static int firstcall=1;
   static int isig, dsig_dphi_ZeroOnAxis;
+#pragma omp threadprivate(firstcall, isig, dsig_dphi_ZeroOnAxis)
 
   if(firstcall)
   {
diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 9c7b7d1..3ef4642 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -51,6 +51,9 @@ int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
   static int Coordinates_newtTOLF_ParIndex;
   static int Coordinates_XYZ_of_xyz_Verbose_ParIndex;
   static int Coordinates_XYZ_of_xyz_Guess_ParIndex;
+#pragma omp threadprivate(firstcall, Coordinates_newtTOLF_ParIndex)
+#pragma omp threadprivate(Coordinates_XYZ_of_xyz_Verbose_ParIndex)
+#pragma omp threadprivate(Coordinates_XYZ_of_xyz_Guess_ParIndex)
   double tol;
   int XYZ_of_xyz_Verbose, XYZ_of_xyz_Guess;
   double XYZvec[4];
-- 
2.43.0


From 51106e62b71a8bf2383f4748b193ad3e2f47ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 05/25] fix: ScalarOnKerr: first order system used the x
 component of phi as z derivative

---
 src/physics/ScalarOnKerr/ScalarOnKerr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/ScalarOnKerr/ScalarOnKerr.c b/src/physics/ScalarOnKerr/ScalarOnKerr.c
index 3108d9d..8ff60e3 100644
--- a/src/physics/ScalarOnKerr/ScalarOnKerr.c
+++ b/src/physics/ScalarOnKerr/ScalarOnKerr.c
@@ -725,7 +725,7 @@ void ScalarOnKerr_evolve(tVarList *unew, tVarList *upre, double dt,
       {
         psix = cphix[i];
         psiy = cphiy[i];
-        psiz = cphix[i];
+        psiz = cphiz[i];
         psixx = dphixx[i];
         psixy = dphixy[i];
         psixz = dphixz[i];
-- 
2.43.0


From 8ef53e4017b555e2c89ab60a726652904f16a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 06/25] fix: tensorindexlist: reflection signs of (ab)(ij) were
 shifted by one direction

---
 src/main/main/tensors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..9774bad 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -265,8 +265,8 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
-- 
2.43.0


From d5e0fe975dfaa085296b0c6cdd2c8a283f563c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 07/25] fix: tensorindexlist: accept the long forms of
 (ij)(kl), (ab)(ij) and (qr)(st)

---
 src/main/main/tensors.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 9774bad..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,7 +258,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From efa23e31c6421c97a6f72324a31a934ed1fdd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 08/25] fix: write_grid: do not read words longer than the
 buffer

---
 src/utility/output/output.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 4e3a4a7..a051485 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -279,7 +279,7 @@ int write_grid(tGrid *grid)
       int start=0;
       int vi;
 
-      while(sscanf(ou[0]+start, "%s", str)==1)
+      while(sscanf(ou[0]+start, "%999s", str)==1)
       {
         start += strlen(str);
         if(ou[0][start]==' ') start++;
@@ -318,7 +318,7 @@ int write_grid(tGrid *grid)
       int vi;
 
       //printf("1dout ... |%s|\n", ou[1]);
-      while(sscanf(ou[1]+start, "%s", str)==1)
+      while(sscanf(ou[1]+start, "%999s", str)==1)
       {
         start += strlen(str);
         if(ou[1][start]==' ') start++;
@@ -358,7 +358,7 @@ int write_grid(tGrid *grid)
       int vi;
 
       //printf("2dout ... |%s|\n", ou[2]);
-      while(sscanf(ou[2]+start, "%s", str)==1)
+      while(sscanf(ou[2]+start, "%999s", str)==1)
       {
         start += strlen(str);
         if(ou[2][start]==' ') start++;
@@ -398,7 +398,7 @@ int write_grid(tGrid *grid)
       int vi;
 
       //printf("3dout ... |%s|\n", ou[3]);
-      while(sscanf(ou[3]+start, "%s", str)==1)
+      while(sscanf(ou[3]+start, "%999s", str)==1)
       {
         start += strlen(str);
         if(ou[3][start]==' ') start++;
-- 
2.43.0


From c7dcdbc919ac965ca4797ae9a1e1d298877cd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 09/25] fix: pr_C_vector: print the vector element instead of
 misreading its index

---
 src/utility/numerics/lu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/lu.c b/src/utility/numerics/lu.c
index 418c6bd..49f90eb 100644
--- a/src/utility/numerics/lu.c
+++ b/src/utility/numerics/lu.c
@@ -167,7 +167,7 @@ void pr_C_matrix(int n, double A[][n])
 void pr_C_vector(int n, double x[])
 {
   int i;
-  for(i=0; i<n; i++) printf("%.15g\n", i, x[i]);
+  for(i=0; i<n; i++) printf("%.15g\n", x[i]);
 }
 
 
-- 
2.43.0


From 050eafd31380f41bd46aa59a1a029b5e4c3df9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 10/25] fix: ModeComputer_read_spheredata: do not read words
 longer than the buffer

---
 src/physics/ModeComputer/ModeComputer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/ModeComputer/ModeComputer.c b/src/physics/ModeComputer/ModeComputer.c
index 8b17b0d..6e815d3 100644
--- a/src/physics/ModeComputer/ModeComputer.c
+++ b/src/physics/ModeComputer/ModeComputer.c
@@ -182,7 +182,7 @@ int ModeComputer_read_spheredata(tGrid *grid, FILE *fp, char *gridtype,
   for(k=0; k<nphi; k++)
   for(j=0; j<ntheta; j++)
   {
-    fscanf(fp, "%s", str);
+    fscanf(fp, "%3999s", str);
     val = atof(str);
     for(i=0; i<n1; i++) var[Index(i,j,k)]=val; 
   }
-- 
2.43.0


From 0844cc9286cf0d212f083ec8071598ce602291a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 11/25] fix: checkpoint: free the file name when there is no
 file to read

---
 src/utility/checkpoint/checkpoint.c  | 1 +
 src/utility/checkpoint/parameterio.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 23454ad..8389e0e 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -156,6 +156,7 @@ FILE *checkpoint_openfiles(char *suffix)
   if (nfp == 0) {
     if (1) printf(
       "  there are no checkpoint files to read yet\n");
+    free(filename);
     return 0;
   }
 
diff --git a/src/utility/checkpoint/parameterio.c b/src/utility/checkpoint/parameterio.c
index b7e9192..578178f 100644
--- a/src/utility/checkpoint/parameterio.c
+++ b/src/utility/checkpoint/parameterio.c
@@ -51,7 +51,7 @@ int parameterio_update_pars(tGrid *g)
 
   /* open file for reading */
   fp = fopen(filename, "rb");
-  if (!fp) return 0; /* errorexits("failed opening %s", filename); */
+  if (!fp) { free(filename); return 0; }
 
   /* read parameters */
   if(1) printf("parameterio_update_pars:\n");
-- 
2.43.0


From 89fe09110b1d3fa6ebf2c5fc4387f412d8d20346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 12/25] fix: bicgstab, WTiterator, matrix_SOR: release
 temporaries when the initial guess already solves the system

---
 src/utility/GridIterators/SOR.c      |  2 +-
 src/utility/GridIterators/WTsolver.c |  8 +++++++-
 src/utility/GridIterators/bicgstab.c | 12 +++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index 7d67674..d7128d6 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -64,7 +64,7 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
            nlines, omega, itmax, tol);
     printf("matrix_SOR: step %d  residual=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol) { free(f); return 0; }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
diff --git a/src/utility/GridIterators/WTsolver.c b/src/utility/GridIterators/WTsolver.c
index 3f6d258..f40fcc3 100644
--- a/src/utility/GridIterators/WTsolver.c
+++ b/src/utility/GridIterators/WTsolver.c
@@ -106,7 +106,13 @@ int WTiterator(tSparseVector **Aline, int nlines,
   { 
     printf("WTiterator: %d  res=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol)
+  {
+    free(mm);
+    free(f);
+    free(dx);
+    return 0;
+  }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..6e8abe8 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -57,7 +57,17 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
     }
   *normres = norm2(r);
   if (pr) printf("bicgstab: %5d  %10.3e\n", 0, *normres);
-  if (*normres <= tol) return 0;
+  if (*normres <= tol)
+  {
+    VLDisableFree(p);
+    VLDisableFree(ph);
+    VLDisableFree(rt);
+    VLDisableFree(s);
+    VLDisableFree(sh);
+    VLDisableFree(t);
+    VLDisableFree(v);
+    return 0;
+  }
 
   /* cgs iteration */
   for (ii = 0; ii < itmax; ii++) {
-- 
2.43.0


From f66749e8d15d3de1ef73f23c9e793d2f0265bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 13/25] fix: remove_dir: close every directory it opens

---
 src/main/main/utilities.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..6b75e7d 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -316,7 +316,7 @@ int copy_file_into_dir(char *fname, char *dir)
 /* use opendir to scan through dir and remove the entire dir */
 int remove_dir(char *which_dir)
 {
-  DIR           *d;
+  DIR           *d, *sub;
   struct dirent *dir;
   char file[1000];
   
@@ -332,7 +332,12 @@ int remove_dir(char *which_dir)
       snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
-      if(opendir(file)!=NULL) remove_dir(file);
+      sub = opendir(file);
+      if(sub!=NULL)
+      {
+        closedir(sub);
+        remove_dir(file);
+      }
       else
       {
         if(remove(file) != 0)
-- 
2.43.0


From 8c999f36ff25eddc24fbd5730ce7b3134ac16a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 14/25] fix: odeintegrate_HR: free max_absy

---
 src/utility/NumericUtils/odeintegrate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/NumericUtils/odeintegrate.c b/src/utility/NumericUtils/odeintegrate.c
index 50dc732..a47ed8b 100644
--- a/src/utility/NumericUtils/odeintegrate.c
+++ b/src/utility/NumericUtils/odeintegrate.c
@@ -224,6 +224,7 @@ double odeintegrate_HR(double ystart[], int nvar, double x1, double x2,
 				xp[++kount]=x;
 				for (i=1;i<=nvar;i++) yp[i][kount]=y[i];
 			}
+			free_vector(max_absy,1,nvar);
 			free_vector(dydx,1,nvar);
 			free_vector(y,1,nvar);
 			free_vector(yscal,1,nvar);
@@ -233,6 +234,7 @@ double odeintegrate_HR(double ystart[], int nvar, double x1, double x2,
 		}
 		if(fabs(hnext) <= hmin) /* nrerror("Step size too small in odeintegrate"); */
 		{
+                  free_vector(max_absy,1,nvar);
                   free_vector(dydx,1,nvar);
                   free_vector(y,1,nvar);
                   free_vector(yscal,1,nvar);
@@ -243,6 +245,7 @@ double odeintegrate_HR(double ystart[], int nvar, double x1, double x2,
 		h=hnext;
 	}
 	/* nrerror("Too many steps in routine odeintegrate"); */
+	free_vector(max_absy,1,nvar);
 	free_vector(dydx,1,nvar);
 	free_vector(y,1,nvar);
 	free_vector(yscal,1,nvar);
-- 
2.43.0


From deb25d19989c304ba4adc33d77a7980ece99cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 15/25] fix: box_extremum_of_F_in_dir: free the coefficients
 when no bracket is found

---
 src/utility/Coordinates/find_extrema.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/find_extrema.c b/src/utility/Coordinates/find_extrema.c
index c9df071..4cbdc86 100644
--- a/src/utility/Coordinates/find_extrema.c
+++ b/src/utility/Coordinates/find_extrema.c
@@ -213,7 +213,7 @@ int box_extremum_of_F_in_dir(tBox *box, int Fi, int dir, double C1, double C2,
   //printf("Cl=%g Ch=%g\n", Cl,Ch);
   /* bracket root */
   stat = zbrac_P(f1_from_c1_dir_ZP, &Cl,&Ch, (void *) par);
-  if(stat<0) return stat;
+  if(stat<0) { free(c); return stat; }
   //printf("Cl=%g Ch=%g\n", Cl,Ch);
 
   //printf("C=%g\n", *C);
-- 
2.43.0


From f2aa5b3da7106e9cd49f9ebe9b54bb03f25cabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 16/25] fix: checkpoint: write the time with all its digits

---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From d6973b37df3097bc7b01a9e6f1b6e761a160b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 17/25] fix: checkpoint_write: do not replace the old
 checkpoint by an incomplete one

---
 src/utility/checkpoint/checkpoint_write.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..53ba4a6 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -23,7 +23,7 @@ void checkpoint_write(tGrid *g)
   char *filename = checkpoint_filename("", "w");
   char *filename_new;
   FILE *fp;
-  int i;
+  int i, i_err;
 
   /* name of backup file */
   filename_new = cmalloc(strlen(filename) + 20);
@@ -43,8 +43,9 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, but make sure all has arrived in the file */
+      i_err = ferror(fp);
+      if (fclose(fp) || i_err) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
-- 
2.43.0


From b26390e71ccee989fc899b7ac54e2ccec509910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 18/25] fix: checkpoint_read: stop if the file ends within the
 data of a variable

---
 src/utility/checkpoint/checkpoint_read.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 4bdf915..537f30d 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -214,7 +214,8 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
     {
       /* read */
       /* fread(box->v[i], sizeof(double), nnodes_on_l, fp); */
-      fread_double_little(box->v[i], nnodes_on_l, fp);
+      if(fread_double_little(box->v[i], nnodes_on_l, fp) != nnodes_on_l)
+        errorexits("checkpoint file ends within the data of %s", varname);
 
       nv++;
       n += nnodes_on_l;
@@ -227,7 +228,9 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
       //errorexit("we should overread the next nnodes_on_l doubles in fp");
       printf("skipping the %d double numbers of %s (in box %d) ...\n",
              nnodes_on_l, varname, l);
-      for(j=1; j<=nnodes_on_l*sizeof(double)/sizeof(char); j++) fgetc(fp);
+      for(j=1; j<=nnodes_on_l*sizeof(double)/sizeof(char); j++)
+        if(fgetc(fp) == EOF)
+          errorexits("checkpoint file ends within the data of %s", varname);
     }
   }
   /* info */
-- 
2.43.0


From 267a0a73d83243f15d91078bd89062b3bc354a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 19/25] fix: checkpoint_read: stop if labels are missing or
 name a box that does not exist

---
 src/utility/checkpoint/checkpoint_read.c | 27 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 537f30d..69cddc6 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -98,10 +98,18 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
   /* read one line text header, check with "head -1 checkpoint.0" */
   if(fgotonext(fp, "$BEGIN_checkpoint_header:") == EOF)
     errorexit("$BEGIN_checkpoint_header: is missing!");
-  fgetparameter(fp, "$bmin", value);  bmin = atoi(value);
-  fgetparameter(fp, "$bmax", value);  bmax = atoi(value);
-  fgetparameter(fp, "$time", value);      grid->time = atof(value);
-  fgetparameter(fp, "$iteration", value); grid->iteration = atoi(value);
+  if(fgetparameter(fp, "$bmin", value) == EOF)
+    errorexit("$bmin is missing!");
+  bmin = atoi(value);
+  if(fgetparameter(fp, "$bmax", value) == EOF)
+    errorexit("$bmax is missing!");
+  bmax = atoi(value);
+  if(fgetparameter(fp, "$time", value) == EOF)
+    errorexit("$time is missing!");
+  grid->time = atof(value);
+  if(fgetparameter(fp, "$iteration", value) == EOF)
+    errorexit("$iteration is missing!");
+  grid->iteration = atoi(value);
   printf("found $bmin = %d , $bmax = %d , $time = %g, $iteration = %d\n",
          bmin, bmax, grid->time, grid->iteration);
 
@@ -111,7 +119,8 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
   if(fgotonext(fp, "$BEGIN_parameter_database:") == EOF)
     errorexit("$BEGIN_parameter_database: is missing!");
 
-  fgetparameter(fp, "$number_of_parameters", value);
+  if(fgetparameter(fp, "$number_of_parameters", value) == EOF)
+    errorexit("$number_of_parameters is missing!");
   numberofpars = atoi(value);
   printf("  found %d parameters\n", numberofpars);
 
@@ -192,8 +201,11 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
       i = 0;
     }
 
-    fgetparameter(fp, "box", value);
+    if(fgetparameter(fp, "box", value) == EOF)
+      errorexits("checkpoint file ends after the name of %s", varname);
     l = atoi(value);
+    if(l < 0 || l >= grid->nboxes)
+      errorexiti("there is no box%d on this grid", l);
     box = grid->box[l];
     if(l != lold)
     {
@@ -201,7 +213,8 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
       n = nv = 0;
     }
 
-    fgetparameter(fp, "box->nnodes", value);
+    if(fgetparameter(fp, "box->nnodes", value) == EOF)
+      errorexits("checkpoint file ends after the name of %s", varname);
     nnodes_on_l  = atoi(value);
     if(nnodes_on_l != box->nnodes)
       errorexit("box->nnodes in checkpoint file is not what it should be!");
-- 
2.43.0


From ea9757ab063d5ee479f1c355980d76e7e8c2e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 20/25] fix: SingleBHKS: with spin the derivatives of psi did
 not belong to psi

---
 src/physics/SingleBH/SingleBHKS.c | 20 ++++++++++----------
 src/physics/SingleBH/SingleBHKS.m |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/physics/SingleBH/SingleBHKS.c b/src/physics/SingleBH/SingleBHKS.c
index 24b1664..19f82d3 100644
--- a/src/physics/SingleBH/SingleBHKS.c
+++ b/src/physics/SingleBH/SingleBHKS.c
@@ -447,52 +447,52 @@ if (ConformalFactor) {
 
 psi[ijk]
 =
-1. + (2.*M)/r
+1. + (2.*M)/rho
 ;
 
 dpsiopsi1[ijk]
 =
-(-2.*M*x1[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x1[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi2[ijk]
 =
-(-2.*M*x2[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x2[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi3[ijk]
 =
-(-2.*M*x3[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x3[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 ddpsiopsi11[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x1[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x1[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi12[ijk]
 =
-(6.*M*x1[ijk]*x2[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x2[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi13[ijk]
 =
-(6.*M*x1[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi22[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x2[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x2[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi23[ijk]
 =
-(6.*M*x2[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x2[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi33[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x3[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x3[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 
diff --git a/src/physics/SingleBH/SingleBHKS.m b/src/physics/SingleBH/SingleBHKS.m
index b4d82a0..1cdc4ec 100644
--- a/src/physics/SingleBH/SingleBHKS.m
+++ b/src/physics/SingleBH/SingleBHKS.m
@@ -46,10 +46,10 @@ tocompute = {
  (* Conformal Factor *)
  Cif == ConformalFactor,
 
-   (* set cconformal factor psi=1+2M/r   <-adhoc choice *)
-   psi == 1+2M/r,
-   dpsiopsi[a] == ( -(2M/r^2) x[a]/r )/psi ,  (* = ( -(2M/r^3) x[a] )/psi *)
-   ddpsiopsi[a,b] == ( (6M/r^3) (x[a]/r) (x[b]/r) -(2M/r^3)delta[a,b] )/psi,
+   (* set cconformal factor psi=1+2M/rho   <-adhoc choice *)
+   psi == 1+2M/rho,
+   dpsiopsi[a] == ( -(2M/rho^2) x[a]/rho )/psi ,  (* = ( -(2M/rho^3) x[a] )/psi *)
+   ddpsiopsi[a,b] == ( (6M/rho^3) (x[a]/rho) (x[b]/rho) -(2M/rho^3)delta[a,b] )/psi,
 
  Cif == else,
 
-- 
2.43.0


From ee3580e887025827ef4ef525e336f6c4552b45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 21/25] fix: PolarCE coordinates: drho/dx and drho/dy were
 evaluated at Y instead of phi(Y)

---
 src/utility/Coordinates/Coordinates.c | 20 ++++++++++++++++++--
 src/utility/Coordinates/Coordinates.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 0d41b2b..0fa26a9 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -126,8 +126,8 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       box->x_of_X[2] = y_ofPolarCE;
       box->x_of_X[3] = z_equals_Z;
 
-      box->dX_dx[1][1] = drho_dx;
-      box->dX_dx[1][2] = drho_dy;
+      box->dX_dx[1][1] = drhoPolarCE_dx;
+      box->dX_dx[1][2] = drhoPolarCE_dy;
       box->dX_dx[1][3] = zero_of_xyz;
       box->dX_dx[2][1] = dYPolarCE_dx;
       box->dX_dx[2][2] = dYPolarCE_dy;
@@ -1299,6 +1299,22 @@ double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z)
 }
 
 /* first coord. derivs */
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dx(aux,ind, rho, phi, Z);
+}
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dy(aux,ind, rho, phi, Z);
+}
 /* NOTE: Y = PI*( 1.0 - cos( ((N-1.0)/(2.0*N)) * phi ) )             */
 /* dY/dphi = PI*((N-1.0)/(2.0*N)) * sin( ((N-1.0)/(2.0*N)) * phi )   */
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
diff --git a/src/utility/Coordinates/Coordinates.h b/src/utility/Coordinates/Coordinates.h
index a22f6eb..37c3b3b 100644
--- a/src/utility/Coordinates/Coordinates.h
+++ b/src/utility/Coordinates/Coordinates.h
@@ -77,6 +77,8 @@ double dphi_dydy(void *aux, int ind, double rho, double phi, double Z);
 /* PolarCE coordinates: */
 double x_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
 double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 
-- 
2.43.0


From 61fd0a6796d1872b6baa0c9cf133d1f831f65806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 22/25] fix: evolve: create the time integrator's variables in
 a restarted run; advance the time of the stages in icn and euler

---
 src/utility/evolve/evolve.c | 5 +++--
 src/utility/evolve/icn.c    | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/evolve/evolve.c b/src/utility/evolve/evolve.c
index 9c72799..103261b 100644
--- a/src/utility/evolve/evolve.c
+++ b/src/utility/evolve/evolve.c
@@ -80,8 +80,9 @@ int evolve(tGrid *grid)
   u_c->grid = grid;
   u_c->time = grid->time;
 
-  /* add new variables before first time step */
-  if (grid->iteration == 0) {
+  /* add new variables before first time step of this run,
+     which is not iteration 0 if we just restarted from a checkpoint */
+  if (grid->iteration == 0 || !u_p) {
     printf("Adding variables for evolution:\n");
 
     /* add additional variables */
diff --git a/src/utility/evolve/icn.c b/src/utility/evolve/icn.c
index 13a1861..1988d35 100644
--- a/src/utility/evolve/icn.c
+++ b/src/utility/evolve/icn.c
@@ -25,6 +25,7 @@ void evolve_icn(tGrid *grid)
 
     /* u_c = u_p + k F(u_q) */
     evolve_rhs(u_c, u_p, dt, u_q);
+    u_c->time = u_p->time + dt;
 
     /* set algebraic BCs for u_c, and any other stuff needed */
     if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
@@ -50,6 +51,7 @@ void evolve_euler(tGrid *grid)
 
   /* u_c = u_p + k F(u_p) */  
   evolve_rhs(u_c, u_p, dt, u_p);
+  u_c->time = u_p->time + dt;
 
   /* set algebraic BCs for u_c, and any other stuff needed */
   if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
-- 
2.43.0


From 4443717b85b03d129abf084e9aed5a42ee3d493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 23/25] fix: Poisson3: the linearised equation lacked a factor
 Chi in the derivative of Chi*Chi*Psizz

---
 src/physics/Poisson3/Poisson3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/Poisson3/Poisson3.c b/src/physics/Poisson3/Poisson3.c
index c154540..79081d6 100644
--- a/src/physics/Poisson3/Poisson3.c
+++ b/src/physics/Poisson3/Poisson3.c
@@ -416,7 +416,7 @@ void J_Poisson3(tVarList *VLJlu, tVarList *VLlu,
     forallpoints(box, i)
     {
       JlPsi[i] = Chi[i]*lPsixx[i] + lChi[i]*Psixx[i]  +  lPsiyy[i]  +
-                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*lChi[i]*Psizz[i];
+                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*Chi[i]*lChi[i]*Psizz[i];
       JlChi[i] = lChixx[i] + Psix[i]*lChiyy[i] + lPsix[i]*Chiyy[i] + lChizz[i];
     }
   }
-- 
2.43.0


From fa18a2968f1c8a16caa110edd7c041e3255e0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 24/25] fix: Poisson3: the outer boundary function got y and z
 of the point interchanged

---
 src/physics/Poisson3/Poisson3_BCs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/Poisson3/Poisson3_BCs.c b/src/physics/Poisson3/Poisson3_BCs.c
index 1fea507..95fd001 100644
--- a/src/physics/Poisson3/Poisson3_BCs.c
+++ b/src/physics/Poisson3/Poisson3_BCs.c
@@ -51,8 +51,8 @@ void Poisson3_set_interbox_and_outerBCs(tBox *box, int iFPsi, int iPsi,
         double *Z = box->v[iX+2];
         int ix = Ind("x");
         double *px = box->v[ix];
-        double *pz = box->v[ix+1];
-        double *py = box->v[ix+2];
+        double *py = box->v[ix+1];
+        double *pz = box->v[ix+2];
 
         forPointList_inbox(bface->fpts, box, pi, ind)
         {
-- 
2.43.0


From 9dfdc25ab987068bd13a7cded842b53eec0003ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 25/25] fix: GetvFlag: a longer word that ends with the option
 hid the option itself

---
 src/main/main/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..8d8497f 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -429,7 +429,7 @@ int GetvFlag(char *name, char *value, int fatal)
   {
     lv = strlen(value);
     //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
+    if( (s == p->value || s[-1]==' ') && (s[lv]==' ' || s[lv]==0) ) break;
     parval = s+1;
   }
   if (!s) return 0;
-- 
2.43.0

