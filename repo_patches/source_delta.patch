From 1336f39acc8a7a806439166c038de9a97a3a4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:04 +0000
Subject: [PATCH 01/19] fix: coulombWaveFunctions leaked its workspace when the
 recurrence throws

---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index 9d87581..bb7f063 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -27,12 +27,10 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                   -eta*(1.+(y2-48.)/(30.*y4)+(y2*y2-160.*y2+1280.)/(105.*y4*y4))
                   /(12.*y3);
 
-  std::complex<double> *Cou0 = new std::complex<double>[MAX_L]; // G + iF
-  std::complex<double> *Cou1 = new std::complex<double>[MAX_L]; // G'+ iF'
+  std::complex<double> Cou0[MAX_L]; // G + iF
+  std::complex<double> Cou1[MAX_L]; // G'+ iF'
   omExternalFunction(l ,ratio, eta, sigma0, Cou0, Cou1);
 
   gf  = Cou0[l];
   dgf = Cou1[l];
-  delete [] Cou0;
-  delete [] Cou1;
 }
-- 
2.43.0


From 39230f9e6f9e2c6732f59a191c180f5ba3a31ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:04 +0000
Subject: [PATCH 02/19] fix: coulombWaveFunctions read outside its workspace
 for negative or large angular momenta

---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index bb7f063..b0bffd2 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -19,6 +19,12 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                            std::complex<double>& gf,
                            std::complex<double>& dgf ) {
 
+  // the derivatives are available up to l = MAX_L - 2 only
+  if ( l < 0 || l > MAX_L - 2 ) {
+
+    throw std::exception();
+  }
+
   double y2 = eta*eta;
   double y3 = 16.0 + y2;
   double y4 = y3*y3;
-- 
2.43.0


From fdb94de137cd10b5a3e97ba05c5810574314fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:02 +0000
Subject: [PATCH 03/19] fix: the charged particle phase shift lost the sign of
 F

---
 .../rmatrix/src/calculatePhaseShift.hpp                       | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index d827a06..e6842d1 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -69,7 +69,5 @@ double calculatePhaseShift< ChargedParticle >( const unsigned int l,
 
   double F = gf.imag();
   double G = gf.real();
-  return ( F == 0. ) and ( G == 0. )
-           ? 0.
-           : std::acos( G / std::sqrt( F * F + G * G ) );
+  return ( F == 0. ) and ( G == 0. ) ? 0. : std::atan2( F, G );
 }
-- 
2.43.0


From 656794a495e33f9d68aaa3c14ccaa111be0dd9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:02 +0000
Subject: [PATCH 04/19] fix: wrong coefficient in the Riccati expansion of
 omGcase4 (omGcase1 has the same polynomial)

---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 146230e..ea4b8b2 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -149,7 +149,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 = -(x*(x*(x*(x*(x*(-1890.*x+7560.)-12240.)-13440.)+16128.)-9216.)+2048.)
        /92160.;
   g3 = -(x*(x*(x*(x*(x*(x*(x*(x*(x*(130977.*x
-       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+15178880.)
+       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+13178880.)
        -11714560.)+6389760.)-1966080.)+  262144.)/10321920.;
   g4 = 2.0*y*(x2/x+0.5*log((1.0-x2)/(1.0+x2)))+PI_4;
   fai = g4+std::sqrt(g0)*(g1+g0*(g2+g0*g3));
-- 
2.43.0


From 990bae85196a5dad3f74832a0e72c64da24dbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:55 +0000
Subject: [PATCH 05/19] fix: omAsymptotic integrated over zero mesh points when
 the matching radius lies one to two meshes beyond the starting point

---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index ea4b8b2..3b2aebd 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -261,7 +261,7 @@ void omAsymptotic(double rm, double coulomb, double sigma0, double *g0, double *
 
   if((p0 != 0.0) && (p1 != 0.0)){
     if((dr = ra-rm) != 0.0){
-      n = std::abs((int)( dr/MESH_RHO )+1);
+      n = (int)( std::abs(dr)/MESH_RHO )+1;
       mesh = dr/(double)n;
       omNewmark(n,mesh,coulomb,ra,&p0,&p1);
     }
-- 
2.43.0


From 78fd8aa8832cb3c25ec21cee869e751ad29fe2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:31 +0000
Subject: [PATCH 06/19] fix: functions and full specialisations defined in
 headers were not inline, so two including translation units did not link

---
 .../src/calculateFluctuationIntegrals.hpp          |  2 +-
 .../rmatrix/src/calculateCoulombPhaseShift.hpp     |  2 +-
 .../rmatrix/src/calculatePenetrability.hpp         |  4 ++--
 .../rmatrix/src/calculatePhaseShift.hpp            |  4 ++--
 .../rmatrix/src/calculateShiftFactor.hpp           |  4 ++--
 .../rmatrix/src/coh3-asympt.hpp                    | 14 +++++++-------
 .../rmatrix/src/coh3-coulomb.hpp                   |  2 +-
 .../rmatrix/src/coh3-extwave.hpp                   | 10 +++++-----
 .../rmatrix/src/fromENDF.hpp                       |  2 +-
 .../rmatrix/src/makeChannelRadii.hpp               |  2 +-
 .../rmatrix/src/makeChannelRadiusTable.hpp         |  2 +-
 .../src/makeLegacyUnresolvedCompoundSystem.hpp     |  2 +-
 .../src/makeLegacyUnresolvedResonanceTable.hpp     |  4 ++--
 .../rmatrix/src/makeParticleChannelData.hpp        |  2 +-
 .../rmatrix/src/makeParticleChannels.hpp           |  2 +-
 .../rmatrix/src/makeParticlePairs.hpp              |  8 ++++----
 .../rmatrix/src/makeQuantumNumbers.hpp             |  4 ++--
 .../rmatrix/src/makeReichMooreChannelData.hpp      |  2 +-
 .../rmatrix/src/makeReichMooreCompoundSystem.hpp   |  2 +-
 .../rmatrix/src/possibleChannelSpinValues.hpp      |  2 +-
 .../possibleChannelTotalAngularMomentumValues.hpp  |  4 ++--
 21 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
index 73898d4..762e430 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
@@ -10,7 +10,7 @@
  *
  *  @return the fluctuation integral data
  */
-FluctuationIntegrals calculateFluctuationIntegrals( const Widths& widths,
+inline FluctuationIntegrals calculateFluctuationIntegrals( const Widths& widths,
                                                     const Degrees& degrees ) {
 
   static constexpr std::array< std::array< double, 4 >, 10 > w = {{
diff --git a/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp
index 68e7012..a2b1778 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp
@@ -26,7 +26,7 @@ double calculateCoulombPhaseShift( const int, const double ) {
  *  @param[in] eta   the value fo the eta parameter to be used
  */
 template <>
-double calculateCoulombPhaseShift< ChargedParticle >( const int l,
+inline double calculateCoulombPhaseShift< ChargedParticle >( const int l,
                                                       const double eta ) {
   return ranges::accumulate(
              ranges::view::indices( 1, l + 1 )
diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePenetrability.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePenetrability.hpp
index 09eb338..ac197cc 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePenetrability.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePenetrability.hpp
@@ -20,7 +20,7 @@ double calculatePenetrability( const unsigned int, const double, const double )
  *  @param[in] ratio   the value of rho = ka
  */
 template <>
-double calculatePenetrability< Neutron >( const unsigned int l,
+inline double calculatePenetrability< Neutron >( const unsigned int l,
                                           const double ratio,
                                           const double  ) {
 
@@ -65,7 +65,7 @@ double calculatePenetrability< Neutron >( const unsigned int l,
  *  @param[in] eta     the Sommerfeld parameter
  */
 template <>
-double calculatePenetrability< ChargedParticle >( const unsigned int l,
+inline double calculatePenetrability< ChargedParticle >( const unsigned int l,
                                                   const double ratio,
                                                   const double eta ) {
 
diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index e6842d1..d489d75 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -20,7 +20,7 @@ double calculatePhaseShift( const unsigned int, const double, const double ) {
  *  @param[in] ratio   the value of rho = ka
  */
 template <>
-double calculatePhaseShift< Neutron >( const unsigned int l,
+inline double calculatePhaseShift< Neutron >( const unsigned int l,
                                        const double ratio,
                                        const double ) {
 
@@ -60,7 +60,7 @@ double calculatePhaseShift< Neutron >( const unsigned int l,
  *  @param[in] eta     the Sommerfeld parameter
  */
 template <>
-double calculatePhaseShift< ChargedParticle >( const unsigned int l,
+inline double calculatePhaseShift< ChargedParticle >( const unsigned int l,
                                                const double ratio,
                                                const double eta ) {
 
diff --git a/src/resonanceReconstruction/rmatrix/src/calculateShiftFactor.hpp b/src/resonanceReconstruction/rmatrix/src/calculateShiftFactor.hpp
index 418e504..bfc8ace 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculateShiftFactor.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculateShiftFactor.hpp
@@ -16,7 +16,7 @@ double calculateShiftFactor( const unsigned int, const double, const double ) {
  *  hardsphere functions.
  */
 template <>
-double calculateShiftFactor< Neutron >( const unsigned int l,
+inline double calculateShiftFactor< Neutron >( const unsigned int l,
                                         const double ratio,
                                         const double ) {
 
@@ -61,7 +61,7 @@ double calculateShiftFactor< Neutron >( const unsigned int l,
  *  @param[in] eta     the Sommerfeld parameter
  */
 template <>
-double calculateShiftFactor< ChargedParticle >( const unsigned int l,
+inline double calculateShiftFactor< ChargedParticle >( const unsigned int l,
                                                 const double ratio,
                                                 const double eta ) {
 
diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 3b2aebd..25698e4 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -19,7 +19,7 @@ const double EULER      =  0.577215664901532860607 ;  /* Euler-Mascheroni     */
 /***************************************/
 /*     Riccati - 1                     */
 /***************************************/
-void omGcase1(double ra, double y, double *p0, double *p1)
+inline void omGcase1(double ra, double y, double *p0, double *p1)
 {
   double t,t1,t2,t3,y1,g0,g1,g2,g3,g4,g5,g6,g7,q;
 
@@ -70,7 +70,7 @@ void omGcase1(double ra, double y, double *p0, double *p1)
 /***************************************/
 /*     Special Case of Airty Integral  */
 /***************************************/
-void omGcase2(double y, double *p0, double *p1)
+inline void omGcase2(double y, double *p0, double *p1)
 {
   *p0=  1.223404016 *pow(y, 1.0/6.0)
       *(1+0.04959570165  *pow(y, -4.0/3.0)-0.008888888889 *pow(y,-2.0)
@@ -85,7 +85,7 @@ void omGcase2(double y, double *p0, double *p1)
 /***************************************/
 /*     Asymptotic Formula              */
 /***************************************/
-void omGcase3(double ra, double y, double sig, double *p0, double *p1)
+inline void omGcase3(double ra, double y, double sig, double *p0, double *p1)
 {
   double gs,gs0,gs1,gt,gt0,gt1,ps,ps0,ps1,pt,pt0,pt1;
 
@@ -134,7 +134,7 @@ void omGcase3(double ra, double y, double sig, double *p0, double *p1)
 /***************************************/
 /*     Riccati - 2                     */
 /***************************************/
-void omGcase4(double ra, double y, double *p0, double *p1)
+inline void omGcase4(double ra, double y, double *p0, double *p1)
 {
   double x,x1,x2,y1,y2,fai,psi,a,b,m,g0,g1,g2,g3,g4;
 
@@ -185,7 +185,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
 /*     Proc. American Society of                 */
 /*     Civil Engineering, EM 3, 67(1959)         */
 /*************************************************/
-void omNewmark(int n, double h, double y, double ra, double *p0, double *p1)
+inline void omNewmark(int n, double h, double y, double ra, double *p0, double *p1)
 {
   double e,g1,f1,r0,r1,s1;
 
@@ -225,7 +225,7 @@ void omNewmark(int n, double h, double y, double ra, double *p0, double *p1)
 /*      C.E.Froeberg                                       */
 /*      Rev. Mod. Phys., 27, 399(1955)                     */
 /***********************************************************/
-void omAsymptotic(double rm, double coulomb, double sigma0, double *g0, double *g1)
+inline void omAsymptotic(double rm, double coulomb, double sigma0, double *g0, double *g1)
 {
   double ra,mesh,dr,p0,p1;
   int n;
@@ -276,7 +276,7 @@ void omAsymptotic(double rm, double coulomb, double sigma0, double *g0, double *
 /*      Closed Channel Coulomb Function                    */
 /*      This part was taken from ECIS, coverted into C++   */
 /***********************************************************/
-double omAsymptoticClosed(double rm, double coulomb)
+inline double omAsymptoticClosed(double rm, double coulomb)
 {
   const int max_itr = 1000;
   const double eps = 1e-16;
diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index b0bffd2..3f19156 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -15,7 +15,7 @@ const int MAX_L0           =  100;     /* maximum iteration for F function    */
 #include "coh3-asympt.hpp"
 #include "coh3-extwave.hpp"
 
-void coulombWaveFunctions( int l, double ratio, double eta,
+inline void coulombWaveFunctions( int l, double ratio, double eta,
                            std::complex<double>& gf,
                            std::complex<double>& dgf ) {
 
diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 7411b67..05d1d58 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -11,7 +11,7 @@
 /**********************************************************/
 /*      Coulomb Function -- G at Matching Radius          */
 /**********************************************************/
-double omGfunction(int l, double eta, double rho, double g1, double g2)
+inline double omGfunction(int l, double eta, double rho, double g1, double g2)
 {
   double j  = (double)l;
   double j1 = (double)(l+1);
@@ -22,7 +22,7 @@ double omGfunction(int l, double eta, double rho, double g1, double g2)
 /**********************************************************/
 /*      Coulomb Function -- F at Matching Radius          */
 /**********************************************************/
-double omFfunction(int l, double eta, double rho, double g1, double g2)
+inline double omFfunction(int l, double eta, double rho, double g1, double g2)
 {
   double j  = (double)l;
   double j1 = (double)(l+1);
@@ -33,7 +33,7 @@ double omFfunction(int l, double eta, double rho, double g1, double g2)
 /**********************************************************/
 /*      Derivarive of Coulomb Function at Matching Radius */
 /**********************************************************/
-double omDfunction(int l, double eta, double rho, double g1, double g2)
+inline double omDfunction(int l, double eta, double rho, double g1, double g2)
 {
   double j1 = (double)(l+1);
   return( ((eta+j1*j1/rho)*g1-std::sqrt(j1*j1+eta*eta)*g2)/j1 );
@@ -43,7 +43,7 @@ double omDfunction(int l, double eta, double rho, double g1, double g2)
 /*      I.A.Stegun and M.Abramowitz                       */
 /*      Phys. Rev. 98, 1851(1955)                         */
 /**********************************************************/
-int omExternalFunction(int lmax, double rho_match, double coulomb, double coulomb_scat0, std::complex<double>* wfn, std::complex<double>* dfn)
+inline int omExternalFunction(int lmax, double rho_match, double coulomb, double coulomb_scat0, std::complex<double>* wfn, std::complex<double>* dfn)
 {
   double g0,g1,p1,p2,p3;
   int    l;
@@ -120,7 +120,7 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
 /**********************************************************/
 /*      Coulomb Function for Negative Energy              */
 /**********************************************************/
-int omExternalClosed(int lmax, double rho_match, double coulomb, std::complex<double> *wfn, std::complex<double>*dfn)
+inline int omExternalClosed(int lmax, double rho_match, double coulomb, std::complex<double> *wfn, std::complex<double>*dfn)
 {
   double p1, p2, p3;
 
diff --git a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
index 21c432a..b5e44ed 100644
--- a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
@@ -1,4 +1,4 @@
-Reconstructor
+inline Reconstructor
 fromENDF( const endf::ResonanceRange& endfResonanceRange,
           const AtomicMass& neutronMass,
           const ElectricalCharge& elementaryCharge,
diff --git a/src/resonanceReconstruction/rmatrix/src/makeChannelRadii.hpp b/src/resonanceReconstruction/rmatrix/src/makeChannelRadii.hpp
index 9f51366..fe4de19 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeChannelRadii.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeChannelRadii.hpp
@@ -1,4 +1,4 @@
-ChannelRadii
+inline ChannelRadii
 makeChannelRadii( double ap, const std::optional< ChannelRadiusTable >& nro,
                   int naps, double awri, double neutronMass ) {
 
diff --git a/src/resonanceReconstruction/rmatrix/src/makeChannelRadiusTable.hpp b/src/resonanceReconstruction/rmatrix/src/makeChannelRadiusTable.hpp
index b63f4cc..01394cc 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeChannelRadiusTable.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeChannelRadiusTable.hpp
@@ -1,4 +1,4 @@
-std::optional< ChannelRadiusTable >
+inline std::optional< ChannelRadiusTable >
 makeChannelRadiusTable( const std::optional< endf::ScatteringRadius >& radius ) {
 
   if ( radius ) {
diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedCompoundSystem.hpp
index 2a1dc07..928d935 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedCompoundSystem.hpp
@@ -5,7 +5,7 @@ std::vector< double > getEnergies( const Unresolved& unresolved,
   return { lower, upper };
 }
 
-template <> std::vector< double >
+template <> inline std::vector< double >
 getEnergies(
   const endf::UnresolvedEnergyDependentFissionWidths& unresolved,
   double lower, double upper ) {
diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp
index 1a7fbcf..1423516 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyUnresolvedResonanceTable.hpp
@@ -1,4 +1,4 @@
-legacy::unresolved::ResonanceTable
+inline legacy::unresolved::ResonanceTable
 makeLegacyUnresolvedResonanceTable(
     const endf::UnresolvedEnergyDependent::JValue& endfParameters,
     const std::vector< double >& ) {
@@ -107,7 +107,7 @@ makeLegacyUnresolvedResonanceTable(
                static_cast<unsigned int>( endfParameters.competitiveWidthDegreesFreedom() ) } );
 }
 
-legacy::unresolved::ResonanceTable
+inline legacy::unresolved::ResonanceTable
 makeLegacyUnresolvedResonanceTable(
     const endf::UnresolvedEnergyDependentFissionWidths::JValue& endfParameters,
     const std::vector< double >& energies ) {
diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
index bab40e5..908efb2 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
@@ -1,4 +1,4 @@
-std::vector< ParticleChannelData >
+inline std::vector< ParticleChannelData >
 consolidateChannelData( const std::vector< ParticleChannelData >& channels ) {
 
   // the consolidated channels
diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index a78bc8e..4bf05b9 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -1,4 +1,4 @@
-std::vector< ParticleChannel >
+inline std::vector< ParticleChannel >
 makeParticleChannels(
     const ParticlePair& incident,
     const std::vector< ParticlePair >& pairs,
diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticlePairs.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticlePairs.hpp
index 877964e..0ef0707 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticlePairs.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticlePairs.hpp
@@ -1,4 +1,4 @@
-unsigned int
+inline unsigned int
 findParticlePairForReaction(
     const endf::RMatrixLimited::ParticlePairs& endfPairs,
     int mt ) {
@@ -11,21 +11,21 @@ findParticlePairForReaction(
   return std::distance( ranges::begin( reactions ), found );
 }
 
-unsigned int
+inline unsigned int
 incident( const endf::RMatrixLimited::ParticlePairs& endfPairs ) {
 
   // the incident particle pair is the one associated with mt2
   return findParticlePairForReaction( endfPairs, 2 );
 }
 
-unsigned int
+inline unsigned int
 eliminated( const endf::RMatrixLimited::ParticlePairs& endfPairs ) {
 
   // the incident particle pair is the one associated with mt102
   return findParticlePairForReaction( endfPairs, 102 );
 }
 
-std::vector< ParticlePair >
+inline std::vector< ParticlePair >
 makeParticlePairs( const endf::RMatrixLimited::ParticlePairs& endfPairs,
                    const AtomicMass& neutronMass,
                    const ElectricalCharge& elementaryCharge,
diff --git a/src/resonanceReconstruction/rmatrix/src/makeQuantumNumbers.hpp b/src/resonanceReconstruction/rmatrix/src/makeQuantumNumbers.hpp
index 71d7e8e..0232640 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeQuantumNumbers.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeQuantumNumbers.hpp
@@ -1,4 +1,4 @@
-std::vector< ChannelQuantumNumbers >
+inline std::vector< ChannelQuantumNumbers >
 makeQuantumNumbers( const ParticlePair& incident, unsigned int lmax ) {
 
   std::vector< ChannelQuantumNumbers > numbers;
@@ -20,7 +20,7 @@ makeQuantumNumbers( const ParticlePair& incident, unsigned int lmax ) {
   return numbers;
 }
 
-ChannelQuantumNumbers
+inline ChannelQuantumNumbers
 retrieveQuantumNumber( unsigned int l, double j,
                        std::vector< ChannelQuantumNumbers >& available ) {
 
diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
index 3b39a95..2e6f39b 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
@@ -1,4 +1,4 @@
-std::vector< ParticleChannelData >
+inline std::vector< ParticleChannelData >
 makeReichMooreChannelData(
     const endf::ReichMooreLValue& endfLValue,
     const AtomicMass& neutronMass,
diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
index d18cdd6..70c99c7 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
@@ -1,4 +1,4 @@
-CompoundSystem< ReichMoore, ShiftFactor >
+inline CompoundSystem< ReichMoore, ShiftFactor >
 makeReichMooreCompoundSystem(
     const endf::ReichMoore& endfReichMoore,
     const AtomicMass& neutronMass,
diff --git a/src/resonanceReconstruction/rmatrix/src/possibleChannelSpinValues.hpp b/src/resonanceReconstruction/rmatrix/src/possibleChannelSpinValues.hpp
index c5dfdcd..1d58e14 100644
--- a/src/resonanceReconstruction/rmatrix/src/possibleChannelSpinValues.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/possibleChannelSpinValues.hpp
@@ -10,7 +10,7 @@
  *
  *  @return the possible values for the total angular momentum of the channel
  */
-auto
+inline auto
 possibleChannelSpinValues( const Spin& i, const Spin& I ) {
 
   Spin min = std::abs(i - I);
diff --git a/src/resonanceReconstruction/rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp b/src/resonanceReconstruction/rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp
index 995aa97..11ecb1e 100644
--- a/src/resonanceReconstruction/rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/possibleChannelTotalAngularMomentumValues.hpp
@@ -13,7 +13,7 @@
  *  @return the possible values for the total angular momentum of the channel
  */
 //template < typename Spin >
-auto
+inline auto
 possibleChannelTotalAngularMomentumValues( const OrbitalAngularMomentum& l,
                                            const Spin& i,
                                            const Spin& I ) {
@@ -41,7 +41,7 @@ possibleChannelTotalAngularMomentumValues( const OrbitalAngularMomentum& l,
  *
  *  @return the possible values for the total angular momentum of the channel
  */
-auto
+inline auto
 possibleChannelTotalAngularMomentumValues( const OrbitalAngularMomentum& l,
                                            const Spin& s ) {
 
-- 
2.43.0


From 47ebdbe342f84758bc4fc0142f32dac86f5cb167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:46 +0000
Subject: [PATCH 07/19] fix: legacy SpinGroupBase built its reaction
 identifiers from the channel it had already moved from

---
 src/resonanceReconstruction/rmatrix/legacy/SpinGroupBase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/SpinGroupBase.hpp b/src/resonanceReconstruction/rmatrix/legacy/SpinGroupBase.hpp
index 4295a1c..54ca437 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/SpinGroupBase.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/SpinGroupBase.hpp
@@ -36,7 +36,7 @@ public:
         return {{ ReactionID{ incident, target, ReactionType( "elastic" ) },
                   ReactionID{ incident, target, ReactionType( "capture" ) },
                   ReactionID{ incident, target, ReactionType( "fission" ) } }};
-      }( incident ) ) {}
+      }( this->incident_ ) ) {}
 
   /* methods */
 
-- 
2.43.0


From 9f59fe12d7cd7f6a05e48504d32819632abd1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:46 +0000
Subject: [PATCH 08/19] fix: the single level Breit-Wigner spin group sized its
 work arrays with the table it had already moved from

---
 .../SpinGroup/SingleLevelBreitWigner/src/ctor.hpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/ctor.hpp
index 950771b..7b93247 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/ctor.hpp
@@ -9,8 +9,8 @@ SpinGroup( Channel< Neutron >&& incident, resolved::ResonanceTable&& table,
            const Energy& qx ) :
   SpinGroupBase( std::move( incident ), std::move( table ) ),
   qx_( qx ),
-  elastic_( table.resonances().size() ),
-  capture_( table.resonances().size() ),
-  fission_( table.resonances().size() ),
-  total_( table.resonances().size() ),
-  delta_( table.resonances().size() ) {}
+  elastic_( this->resonanceTable().resonances().size() ),
+  capture_( this->resonanceTable().resonances().size() ),
+  fission_( this->resonanceTable().resonances().size() ),
+  total_( this->resonanceTable().resonances().size() ),
+  delta_( this->resonanceTable().resonances().size() ) {}
-- 
2.43.0


From 59f71a21049b8304dc4bc11da05f9d4089c0da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:46 +0000
Subject: [PATCH 09/19] fix: the penetrability of a legacy resolved resonance
 was never initialised

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..7723815 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0


From aca400acb9cf729be9da3ff4e9e9e9feac424aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:46 +0000
Subject: [PATCH 10/19] fix: use exp(2iw) for the elastic term so that it
 matches the collision matrix

---
 .../rmatrix/SpinGroup/src/evaluate.hpp                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
index a2526f5..4f83457 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
@@ -67,12 +67,12 @@ void evaluate( const Energy& energy,
                                    incidentSqrtP * tValue * sqrtP ) * omega; },
             delta( 1.0 ), row, diagonalSqrtPMatrix, diagonalOmegaMatrix );
 
-    // the exponential of the coulomb phase shift for the incident channel
+    // the exponential of twice the coulomb phase shift for the incident channel
     const auto exponential =
-      std::exp( std::complex< double >( 0., coulombShifts[c] ) );
+      std::exp( std::complex< double >( 0., 2. * coulombShifts[c] ) );
 
     // the cross section values for channel c to c' - independent of formalism
-    // sigma_cc' = norm( exp( iw_c ) delta_cc' - U_cc' )
+    // sigma_cc' = norm( exp( 2iw_c ) delta_cc' - U_cc' )
     const auto sigma =
       ranges::view::zip_with(
           [&] ( const auto delta, const auto uValue )
-- 
2.43.0


From 6d2b0170aa9f3375a7db71fb2518a4209917c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:12 +0000
Subject: [PATCH 11/19] fix: zero elastic degrees of freedom indexed outside
 the quadrature tables

The verification of unresolved resonance tables accepts zero degrees of
freedom for every reaction, and the fission and competitive indices guard
against it; the elastic index wrapped around to 4294967295.
---
 .../legacy/unresolved/src/calculateFluctuationIntegrals.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
index 762e430..3b9c303 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
@@ -46,7 +46,7 @@ inline FluctuationIntegrals calculateFluctuationIntegrals( const Widths& widths,
                                0. / electronVolt, 0. / electronVolt );
 
   // the degrees of freedom for each reaction
-  unsigned int mu = degrees.elastic - 1;
+  unsigned int mu = degrees.hasElastic() ? degrees.elastic - 1 : 0;
   unsigned int nu = degrees.hasFission() ? degrees.fission - 1 : 0;
   unsigned int lambda = degrees.hasCompetition() ? degrees.competition - 1 : 0;
 
-- 
2.43.0


From 8c793c7e9604abbe4c876f5f7018fd04332c9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 12/19] fix: constructing a spin group without channels throws
 instead of reading past the end

---
 .../rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
index 5cb13e8..d56d8be 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
@@ -3,6 +3,12 @@ std::vector< ReactionID >
 makeReactionIdentifiers( const std::vector< ParticleChannel >& channels,
                          ReichMoore ) {
 
+  // a spin group without channels is rejected by verifyChannels
+  if ( channels.size() == 0 ) {
+
+    return {};
+  }
+
   auto reactionID = [] ( const auto& channel )
                        { return channel.reactionID(); };
 
-- 
2.43.0


From 23eadf2754c0fc1b523105be07af273361d252fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:54 +0000
Subject: [PATCH 13/19] fix: R-matrix limited channels take the reaction number
 of their own particle pair

---
 .../rmatrix/src/makeParticleChannels.hpp               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index 4bf05b9..0bb2e1a 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -62,12 +62,18 @@ makeParticleChannels(
 
   // do some range magic
   auto q = endfPairs.Q();
-  auto incidentPairs = ranges::view::repeat_n( incident, pairs.size() );
+  auto mt = endfPairs.MT();
+  auto incidentPairs = ranges::view::repeat_n(
+                           incident,
+                           ranges::distance( endfChannels.particlePairNumbers() ) );
   auto channelPairs = endfChannels.particlePairNumbers()
                           | ranges::view::transform( getParticlePair );
   auto qValues = endfChannels.particlePairNumbers()
                      | ranges::view::transform( [&] ( unsigned int i )
                                                     { return q[ i - 1 ]; } );
+  auto mtNumbers = endfChannels.particlePairNumbers()
+                       | ranges::view::transform( [&] ( unsigned int i )
+                                                      { return mt[ i - 1 ]; } );
   auto channelNumbers = ranges::view::zip_with(
                             makeChannelQuantumNumbers,
                             endfChannels.orbitalMomentumValues(),
@@ -85,5 +91,5 @@ makeParticleChannels(
              channelNumbers,
              channelRadii,
              endfChannels.boundaryConditionValues(),
-             endfPairs.MT() );
+             mtNumbers );
 }
-- 
2.43.0


From 4ef1360a8a2cb1cdcbeaadc54c53b187c043bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:57 +0000
Subject: [PATCH 14/19] fix: R-matrix limited data without a capture pair read
 past the end of the particle pairs

---
 .../rmatrix/src/makeParticleChannelData.hpp           | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
index 908efb2..0fdcbb5 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
@@ -262,7 +262,7 @@ makeParticleChannelData(
   std::vector< ParticleChannel > channels =
       makeParticleChannels( incident, pairs, endfPairs,
                             endfSpinGroup.channels() );
-  unsigned int eliminated = [&] {
+  unsigned int eliminated = [&] () -> unsigned int {
 
     auto getParticlePair = [] ( const ParticleChannel& channel ) {
 
@@ -271,7 +271,14 @@ makeParticleChannelData(
                          channel );
     };
 
-    auto eliminatedPair = pairs[ rmatrix::eliminated( endfPairs ) ];
+    // no channel is eliminated when there is no capture particle pair
+    const auto index = rmatrix::eliminated( endfPairs );
+    if ( index >= pairs.size() ) {
+
+      return channels.size();
+    }
+
+    auto eliminatedPair = pairs[ index ];
     auto pairs = channels | ranges::view::transform( getParticlePair );
     auto found = std::find_if(
                      ranges::begin( pairs ),
-- 
2.43.0


From 881018e0e8cb99c42013133004e761ef1623a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:12 +0000
Subject: [PATCH 15/19] fix: reject unsupported NAPS values in the functional
 Apply interfaces

The switch statements over NAPS have no default: for a value that the
format allows nowhere (or NAPS=2 without an energy dependent radius) the
function flowed off its end without returning a value.
---
 .../breitWigner/multiLevel/Apply/src/call.hpp                  | 3 +++
 .../breitWigner/singleLevel/Apply/src/call.hpp                 | 3 +++
 src/resonanceReconstruction/reichMoore/Apply/src/call.hpp      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
index 71e4d20..64c86b1 100644
--- a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
@@ -40,4 +40,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain MLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "The NAPS flag of the resonance range is not supported" );
 }
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
index 37a83a0..ee5fc21 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
@@ -42,4 +42,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain SLBW parameters" );
   }
+
+  throw std::runtime_error(
+    "The NAPS flag of the resonance range is not supported" );
 }
diff --git a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
index fbf33aa..26d804b 100644
--- a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
@@ -52,4 +52,7 @@ operator()( const endf::ResonanceRange& range,
     throw std::runtime_error(
       "The resonance range does not appear to contain Reich-Moore parameters" );
   }
+
+  throw std::runtime_error(
+    "The NAPS flag of the resonance range is not supported" );
 }
-- 
2.43.0


From 774bceb89833c437959656bc2550e0895ba13914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:27 +0000
Subject: [PATCH 16/19] fix: bound levels of the functional Breit-Wigner
 interface use the channel radius at |E|

---
 .../breitWigner/singleLevel/Apply/src/resonance.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
index 84f8b2e..ee71cd8 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
@@ -15,7 +15,7 @@ static auto resonance(
 
   const auto competitiveWidth = 0.0 * electronVolts;
 
-  const auto ps = penetrationShift( rho( energy ) );
+  const auto ps = penetrationShift( rho( std::abs( energy ) ) );
   const auto& penetrationFactor = ps[0];
   const auto& shiftFactor = ps[1];
 
-- 
2.43.0


From 68297b158d162c53940c2dc3892893d6b95fb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 17/19] fix: the competitive Q value of the functional
 Breit-Wigner interface is a centre of mass energy

ENDF adds QX to the centre of mass energy of the incident particle.  As an
offset to the laboratory energy it is QX (A+1)/A, the code used QX A/(A+1).
---
 .../breitWigner/singleLevel/Apply/src/lvalue.hpp                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
index d37f5c5..9d836f8 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
@@ -8,7 +8,7 @@ static auto lvalue( const endf::SingleLevelBreitWigner::LValue& lstate,
                     double targetSpin ){
   if ( lstate.LRX() ){
     const auto weightRatio = lstate.AWRI() / ( lstate.AWRI() + 1. );
-    const auto offset = lstate.QX() * weightRatio * electronVolts;
+    const auto offset = lstate.QX() / weightRatio * electronVolts;
 
     auto rs =
       resonances( lstate.resonances(),
-- 
2.43.0


From 564a3ac6d045979c99b69b512e90d68e3cd0e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 18/19] fix: a Breit-Wigner CrossSection can be made from a
 pack

The constructor took its components with std::get from the pack itself,
which has no such overload: it did not compile when used.
---
 src/resonanceReconstruction/breitWigner/CrossSection.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/breitWigner/CrossSection.hpp b/src/resonanceReconstruction/breitWigner/CrossSection.hpp
index 3d83332..86835bd 100644
--- a/src/resonanceReconstruction/breitWigner/CrossSection.hpp
+++ b/src/resonanceReconstruction/breitWigner/CrossSection.hpp
@@ -5,9 +5,9 @@ struct CrossSection {
 
   template< typename T1, typename T2, typename T3 >
   CrossSection( const Pack< T1, T2, T3 >& pack )
-    : elastic( std::get<0>(pack) ),
-      capture( std::get<1>(pack) ),
-      fission( std::get<2>(pack) ){}
+    : elastic( std::get<0>(pack.data) ),
+      capture( std::get<1>(pack.data) ),
+      fission( std::get<2>(pack.data) ){}
 
   CrossSection( Quantity< Barn > elastic,
                 Quantity< Barn > capture,
-- 
2.43.0


From 2b21868540ffb739d5d5b8f87e0bdb81720d7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:23 +0000
Subject: [PATCH 19/19] fix: start the downward recurrence of the regular
 Coulomb functions where they are minimal

When the irregular function did not grow by the criterion within the
stored partial waves (ratios above about 60), the downward recurrence
started inside the oscillating region, where it does not single out the
regular function: at eta = 0.1 and a ratio of 70, F was wrong by a factor
of two while the Wronskian was still one.  Continue the upward recurrence
to find the starting point.
---
 .../rmatrix/src/coh3-extwave.hpp                   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 05d1d58..d7f6a43 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -77,7 +77,17 @@ inline int omExternalFunction(int lmax, double rho_match, double coulomb, double
 
   lmax = (l==MAX_L-1) ? l-1 : l;
 
-  int  l0   = lmax+10;
+  /*** F can be obtained by downward recurrence only from an l for which
+       G has grown sufficiently, even if such an l is not kept */
+  if(l==MAX_L-1){
+    for( ; (a/(p3*p3)) >= CRIT_LMAX ; l++){
+      p3 = omGfunction(l,coulomb,rho_match,p1,p2);
+      p1 = p2;  p2 = p3;
+    }
+  }
+
+  int  l0   = l+10;
+  int  l1   = l+MAX_L0;
   bool flag = false;
   do{
     flag = false;
@@ -108,7 +118,7 @@ inline int omExternalFunction(int lmax, double rho_match, double coulomb, double
         break;
       }
     }
-    if(l0 > MAX_L0){
+    if(l0 > l1){
       Log::error( "angular momentum too large {}", l0 );
       throw std::exception();
     }
-- 
2.43.0

