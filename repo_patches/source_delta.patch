From 8ba9c9c3a24587826e92bc30b9ebe6caef739ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:40 +0000
Subject: [PATCH 01/41] fix: keep the energy table index inside the table just
 below its last point

Rounding of the logarithm could place an energy right below the last table
point (1e7 MeV/u included) behind the table, which read past the end of the
arrays and returned unrelated numbers.
---
 include/catima/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..e24a45d 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -57,6 +57,7 @@ namespace catima{
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
         int i = static_cast<int> (std::floor(lxval/step));
+        if(i>N-2)i=N-2; // v is below the last point, the rounding must not move it behind
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
@@ -98,6 +99,7 @@ namespace catima{
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
+            if(i>N-2)i=N-2; // v is below the last point, the rounding must not move it behind
             if(v >= value(i+1)-numeric_epsilon)i++; // this is correction for floating point precision
             return i;
         }
-- 
2.43.0


From b4fbcc3d616761115dfd1a8404617da9127e4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:27 +0000
Subject: [PATCH 02/41] fix: do not report a particle as stopped when the
 energy iteration overshoots

A Newton step below the energy cut-off returned 0 even when the remaining
range was large, and a first guess below the cut-off could be returned as a
negative energy. The solution is now kept inside the interval which contains
it and a step outside is replaced by a bisection.
---
 src/catima.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..6cf6b76 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -209,14 +209,23 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     range = range_spline(T);
     dedx = 1.0/range_spline.derivative(T);
     if(range<= thickness) return 0.0;
-    
+    if(range - range_spline(Ezero) < thickness) return 0.0; // stopped, what is left is below Ezero
+
+    // the result is between emin and emax
+    double emin = Ezero;
+    double emax = T;
     e = T - (thickness*dedx);
     while(1){
+        if(!(e>=emin && e<=emax)){ // the step left the interval, bisect it
+            e = 0.5*(emin+emax);
+            dedx = 1.0/range_spline.derivative(e);
+        }
         r = range - range_spline(e) - thickness;
         if(fabs(r)<Eout_th_epsilon)return e;
+        if(r>0) emin = e;
+        else emax = e;
         double step = -r*dedx;
         e = e-step;
-        if(e<Ezero)return 0.0;
         dedx = 1.0/range_spline.derivative(e);
         counter++;
         assert(counter<=100);
-- 
2.43.0


From 3813bab856a6056ead58ae218db81706cc03e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:09 +0000
Subject: [PATCH 03/41] fix: solve the spline equations with the lower and
 upper diagonal in place

The tridiagonal matrix stored the lower diagonal where the solver reads the
upper one and the other way round, so the derivative of the spline jumped at
every table point.
---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From fdc47280837dbb9ce283584f5c0a3706a4de32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:09 +0000
Subject: [PATCH 04/41] fix: return zero instead of NaN energy straggling where
 the variance is flat

At ultrarelativistic energies the energy-loss variance vanishes and the
interpolated range variance can decrease by a rounding-size amount, which made
the square root NaN.
---
 src/catima.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 6cf6b76..7d05f0e 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -94,7 +94,7 @@ double range_straggling(const Projectile &p, double T, const Material &t, const
     auto& data = _storage.Get(p,t,c);
     //Interpolator range_straggling_spline(energy_table.values,data.range_straggling.data(),energy_table.num);
     spline_type range_straggling_spline = get_range_straggling_spline(data);
-    return sqrt(range_straggling_spline(T));
+    return sqrt(std::max(0.0, range_straggling_spline(T)));
 }
 
 double range_variance(const Projectile &p, double T, const Material &t, const Config &c){
@@ -197,7 +197,7 @@ double energy_straggling_from_E(const Projectile &p, double T, double Tout,const
     spline_type range_spline = get_range_spline(data);
     spline_type range_straggling_spline = get_range_straggling_spline(data);
     double dEdxo = p.A/range_spline.derivative(Tout);
-    return dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(Tout))/p.A;
+    return dEdxo*sqrt(std::max(0.0, range_straggling_spline(T) - range_straggling_spline(Tout)))/p.A;
 }
 
 double energy_out(double T, double thickness, const Interpolator &range_spline){
@@ -295,7 +295,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
     res.Ein = T;
     res.range = range_spline(T);
     res.dEdxi = p.A/range_spline.derivative(T);   
-    res.sigma_r = sqrt(range_straggling_spline(T));        
+    res.sigma_r = sqrt(std::max(0.0, range_straggling_spline(T)));
 
     if(t.thickness()==0){
         res.dEdxo = res.dEdxi;
@@ -320,7 +320,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
             double edif = (res.Ein-res.Eout);            
             double s1 = range_straggling_spline.derivative(T);
             double s2 = range_straggling_spline.derivative(res.Eout);
-            res.sigma_E = res.dEdxo*sqrt(edif*0.5*(s1+s2))/p.A;
+            res.sigma_E = res.dEdxo*sqrt(std::max(0.0, edif*0.5*(s1+s2)))/p.A;
             if(use_angular_spline){
                 s1 = angular_variance_spline.derivative(T);
                 s2 = angular_variance_spline.derivative(res.Eout);
@@ -328,14 +328,14 @@ Result calculate(Projectile p, const Material &t, const Config &c){
             }        
         }
         else{
-            res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;            
+            res.sigma_E = res.dEdxo*sqrt(std::max(0.0, range_straggling_spline(T) - range_straggling_spline(res.Eout)))/p.A;
             if(use_angular_spline){
                 res.sigma_a = sqrt(angular_variance_spline(T) - angular_variance_spline(res.Eout));
             }
             
         }        
         #else
-        res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;
+        res.sigma_E = res.dEdxo*sqrt(std::max(0.0, range_straggling_spline(T) - range_straggling_spline(res.Eout)))/p.A;
         if(use_angular_spline){
             res.sigma_a = sqrt(angular_variance_spline(T) - angular_variance_spline(res.Eout));
         }        
-- 
2.43.0


From 6b6ba1848ffe988d64ec3fbf578f279acd517cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 05/41] fix: keep the scattering power non-negative for very
 thin targets

The Gottschalk and the differential Highland parametrizations turn negative
for very thin targets, which made the angular and position straggling NaN.
---
 src/calculations.cpp | 1 +
 src/catima.cpp       | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..acda87a 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -510,6 +510,7 @@ double angular_scattering_power_xs(const Projectile &p, const Material &mat, dou
     double cl1 = log10(1-ipow(pv/p1v1,2));
     double cl2 = log10(pv);
     double f = 0.5244 + 0.1975*cl1 + 0.2320*cl2 - (0.0098*cl2*cl1);
+    if(!(f>0.0))return 0.0; // outside of the validity of the parametrization, scattering power cannot be negative
     return f*Es2 * ipow(p.Z,2)/(Xs*ipow(_p*beta,2));
 }
 
diff --git a/src/catima.cpp b/src/catima.cpp
index 7d05f0e..5b51785 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -161,7 +161,7 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
         if(c.scattering == scattering_types::dhighland){
             double l = x*t.density()/X0;
             double lnl = log(l);
-            ff = 0.97*(1+lnl/20.7)*(1+lnl/22.7);
+            ff = (lnl>-20.7)?0.97*(1+lnl/20.7)*(1+lnl/22.7):0.0; // the correction cannot be negative
         }
 	    //return d*ff*da2dx(p(e), t, c);
         return d*ff*Tfr(p(e),1, 1.0);
-- 
2.43.0


From 441de1670b5b0d80706bace8b758ccd34ae3d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 06/41] fix: use the energy argument in catima_range

The projectile energy was never set, so every call returned the range at 0.
---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From a9c115d27fd3a2f2a83cfce7a8dd12844b21da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 07/41] fix: apply catima_defaults in all functions of the C
 interface

The straggling-from-energy and the non-reaction functions used the settings
left behind by the previous call of another function.
---
 src/cwrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..bf70422 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,8 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
+        catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From 7879acf6f8e8a41ea2ec2de9603a535dbe885c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 08/41] fix: calculate the time of flight with the requested
 configuration

The default configuration was used regardless of the one passed to calculate.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 5b51785..6bf088e 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -345,7 +345,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From d5ce5edf41c66b6ed1c95158c282d4a66b84db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 09/41] fix: count all atoms of a molecule in the non-reaction
 probability

The cross section was averaged per atom but multiplied by the number of
molecules, so a compound given by stoichiometric numbers got a too high
probability, different from the same compound given by weight fractions.
---
 src/reactions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 6ce7958..bc5cb05 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -28,15 +28,14 @@ double nonreaction_rate(Projectile &projectile, const Material &target, const Co
     if(energy_out(projectile.T, target.thickness(), range_spline) < emin_reaction)return -1.0;
     
     auto sigma_r = [&](double th){
-        double stn_sum=0.0, sum=0.0;
+        double sum=0.0;
         double e = energy_out(projectile.T, th, range_spline);
         for(unsigned int i = 0;i<target.ncomponents();i++){
             int zt = target.get_element(i).Z;
             int at = abundance::get_isotope_a(zt,0); // most abundand natural isotope mass
-            stn_sum += target.molar_fraction(i);
             sum += target.molar_fraction(i)*SigmaR_Kox(ap,zp,e,at,zt); 
         }
-        return sum/stn_sum;
+        return sum; // per molecule, the same unit as number_density_cm2()
     };
 
     //nurex::Nucleus nurex_projectile = nurex::get_default_nucleus(ap,zp);
-- 
2.43.0


From 54cb0c9222d919c86466c65e59ffd32ad71130f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 10/41] fix: compare the scattering factor of configurations
 exactly

Configurations with slightly different scattering factors shared the cached
tables, so the angular straggling depended on which one was used first.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 6bf088e..b7829ad 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor) return false;
     return true;
     }
 
-- 
2.43.0


From 2e702e5059f1a6dbb7b9022597aa917f14b8ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:33 +0000
Subject: [PATCH 11/41] fix: limit Z to the last row of the precalculated LS
 tables

The tables end at Z=108, projectiles with Z=109 and above read past them.
---
 include/catima/generated_LS_coeff.h | 2 +-
 utils/generator.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
diff --git a/utils/generator.cpp b/utils/generator.cpp
index bfaffea..657cba0 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -38,7 +38,7 @@ int main(){
     file<<"#include \"catima/storage.h\"";
     file<<"\n\n";
     file<<"#define LS_NUM_ENERGY_POINTS "<<num_LS_datapoints<<"\n";
-    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ<<"\n";
+    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ-2<<"\n"; // the last Z of the tables below
     file<<"namespace catima{\n\n";
     file<<"namespace ls_coefficients{\n\n";
     file<<"// relative difference of mass number for 2nd mass point ls_coefficients_ahi \n\n";
-- 
2.43.0


From 288c35286342df5982fe3313768df21ac6aad05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 12/41] fix: keep the last LS coefficient above the tabulated
 energies

The header promises the coefficient of the highest calculated energy there,
but 0 was returned and the stopping power jumped.
---
 src/calculations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index acda87a..d8a47fb 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -583,6 +583,7 @@ double precalculated_lindhard(const Projectile &p){
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
-- 
2.43.0


From db6870702ef19584b38b3c35757ad4bf7c6bbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 13/41] fix: sign of the Coulomb correction in the radiation
 length

A doubled minus added the leading term of the correction instead of
subtracting it, e.g. bismuth got 5.0 g/cm2 instead of 6.29 g/cm2.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index d8a47fb..f93abc8 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -548,7 +548,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From e645325b70a3f6c94e3a58b6ecd3e18cd14ac6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 14/41] fix: pass the velocity to the Pierce-Blann formula in
 z_eff_global

The kinetic energy was passed where the velocity is expected, which gave a
fully stripped ion at almost any energy.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index f93abc8..7a5e109 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -752,7 +752,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From 4293522a3cad43f0d5aa71dbc08e0810307f827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 15/41] fix: reflect also purely imaginary arguments in lngamma

The reflection formula was prepared for them but not applied.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 7a5e109..3c65650 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -889,7 +889,7 @@ std::complex<double> lngamma( const std::complex<double> &z )
         double aterm3=atan2(num,denom);
         double lterm3 = 0.5*log(num*num + denom*denom);
         std::complex<double> result(lterm1+lterm2+lterm3,aterm1+aterm2+aterm3);
-        if(z.real() < 0){
+        if(z.real() <= 0){
             std::complex<double> lpi(log(PI), 0.0);
             result = lpi - (result + std::log(std::sin(PI*z)));
         }
-- 
2.43.0


From 65046dc9cd788dc4eed358b539fd09b770bed6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 16/41] fix: return all points of the odd-order quadratures

The middle point was returned twice, the outermost one was missing and the
last entry was not initialized.
---
 include/catima/gkq_integrator.h | 6 ++++--
 include/catima/glq_integrator.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..6fd9608 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -158,9 +158,11 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    int odd = (order%2);
+    if(odd)points[num] = p*x(0) + q; // x(0) is the middle point in case of odd-order
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+odd+i] = p*x(i+odd) + q;
     }
     return points;
 }
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..72dcff5 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -56,9 +56,11 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    int odd = (order%2);
+    if(odd)points[num] = p*x(0) + q; // x(0) is the middle point in case of odd-order
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+odd+i] = p*x(i+odd) + q;
     }
     return points;
 }
-- 
2.43.0


From ee4021888ec8af15d394ebcf6502e8b81dd4a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 17/41] fix: reject a negative isotope index

It read before the beginning of the isotopes of the element.
---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..0f44698 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || (i+1) > num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || (i+1) > num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(num==0|| i<0 || (i+1) > num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From 02a6f8947b9de7ac6cac8ac6a4c17dae10d1daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:07 +0000
Subject: [PATCH 18/41] fix: leave the energy unchanged when there are no
 layers

The total result reported Eout = 0 with no energy loss.
---
 src/catima.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catima.cpp b/src/catima.cpp
index b7829ad..21b112e 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -368,6 +368,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
     MultiResult res;
     double e = p.T;
     res.total_result.Ein = e;
+    res.total_result.Eout = e; // unchanged if there are no layers
     res.total_result.sigma_a = ps.sigma_a*ps.sigma_a;
     res.total_result.sigma_x = ps.sigma_x*ps.sigma_x;
     res.total_result.cov = ps.cov_x;
-- 
2.43.0


From 036cdf0c9cf30740ddb710245d587390ff1fc9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:04 +0000
Subject: [PATCH 19/41] fix: search all compounds of the database in
 materialdb_id

The last two, Brass and RW3, were left out and exported without an id.
---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..b791166 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -38,7 +38,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
 }
 
 int materialdb_id(const Material &m){
-    for(int i=201;i<=347;i++){
+    for(int i=static_cast<int>(material::Plastics);i<=static_cast<int>(material::RW3);i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
         }
-- 
2.43.0


From c4d36f59c18540d6203f327d7f5926567905c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:04 +0000
Subject: [PATCH 20/41] fix: include the middle points in the odd-order 2D
 quadrature

The odd orders left out the outermost points and counted the middle ones four
times, so not even a constant was integrated correctly.
---
 include/catima/glq_integrator.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index 72dcff5..c4877c6 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -87,13 +87,15 @@ double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, do
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
+        double wx = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // middle point is counted twice below
+        for(int j=0;j<order/2 + order%2;j++){
             yy = (r*integrator.x(j));
+            double wy = (order%2 && j==0)?0.5*integrator.w(j):integrator.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
+            res += wx * wy * sum;
         }
     }
     return p*r*res;
@@ -121,13 +123,15 @@ double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, dou
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
+        double wx = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // middle point is counted twice below
+        for(int j=0;j<order2/2 + order2%2;j++){
             yy = (r*integrator2.x(j));
+            double wy = (order2%2 && j==0)?0.5*integrator2.w(j):integrator2.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
+            res += wx * wy * sum;
         }
     }
     return p*r*res;
-- 
2.43.0


From d04ce9d483966387ea1c7880959cb43a6de4295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:04 +0000
Subject: [PATCH 21/41] fix: use the density of a compound given in the
 calculator config

The tabulated density was used even if another one was specified.
---
 bin/catima_calculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 2b4d482..239e948 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -258,6 +258,7 @@ Material json_material(json &j){
             }
         else{
             Material m = get_material(z);
+            if(j.count("density")>0 && density>0)m.density(density);
             m.thickness(th);
             return m;
             }
-- 
2.43.0


From dc66f7226433eb631c58d0f4e03993d03bc157dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:04 +0000
Subject: [PATCH 22/41] fix: accept fractional energy steps and two energies in
 the calculator

The step was truncated to an integer, a step below 1 divided by zero, and a
range with only its two end points was ignored.
---
 bin/catima_calculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 239e948..fe8e0c1 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -82,12 +82,13 @@ int main( int argc, char * argv[] )
                         double emax = e["max"].get<double>();
                         int num=0;
                         if(e.count("step")){
-                            num = 1+(emax-emin)/e["step"].get<int>();
+                            double step = e["step"].get<double>();
+                            if(step>0)num = 1+static_cast<int>((emax-emin)/step + 1e-6);
                         }
                         if(e.count("num")){
                             num = e["num"].get<int>();
                         }
-                        if(num>2)
+                        if(num>=2)
                             energies  =  linspace_vector(emin,emax,num);
                     }
                 }
-- 
2.43.0


From f5c142d1bc225091c1eb1a4a74ebe6f0b6ca79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:12 +0000
Subject: [PATCH 23/41] fix: resolve the low energies in the time of flight
 integral

A single 8-point interval over the whole energy loss was wrong by up to 25%
for particles which nearly stop.
---
 src/catima.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 21b112e..74defa4 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -455,9 +455,14 @@ DataPoint calculate_DataPoint(Projectile p, const Material &t, const Config &c){
 }
 
 double calculate_tof_from_E(Projectile p, double Eout, const Material &t, const Config &c){
-    double res;
+    double res = 0;
+    double e = p.T;
     auto function = [&](double x)->double{return 1.0/(dedx(p(x),t,c)*beta_from_T(x));};
-    res = integrator.integrate(function,Eout,p.T);
+    while(e>4*Eout && e>4*Ezero){ // steep at low energies, one interval is not enough for a large energy loss
+        res += integrator.integrate(function,0.25*e,e);
+        e *= 0.25;
+    }
+    res += integrator.integrate(function,Eout,e);
     res = res*10.0*p.A/(c_light*t.density());
     return res;
 }
-- 
2.43.0


From e352cdff1f524d0eb87b56798124a6b923c06569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:19 +0000
Subject: [PATCH 24/41] fix: oxygen instead of a second carbon in the RW3
 composition

RW3 is polystyrene with 2% of TiO2, the 0.8% belong to oxygen.
---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..a4d2f85 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From ac0232ab40d7ab05a7dd5d33dcf6695ff2c69b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:19 +0000
Subject: [PATCH 25/41] fix: carbon instead of oxygen in the Polyolefin
 composition

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index a4d2f85..85d7f60 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,7 +28,7 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
 		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
-- 
2.43.0


From 07815bd09b094c7cd1607a27ffd1f79667db4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:19 +0000
Subject: [PATCH 26/41] fix: two sodium atoms in Na2CO3

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 85d7f60..622c739 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -118,7 +118,7 @@ namespace catima{
 		 case material::Muscle_strained:	 return Material({{0,1,0.101997},{0,6,0.123},{0,7,0.035},{0,8,0.729003},{0,11,0.0008},{0,12,0.0002},{0,15,0.002},{0,16,0.005},{0,19,0.003}},1.04);
 		 case material::Muscle_sucrose:	 return Material({{0,1,0.0982341},{0,6,0.156214},{0,7,0.035451},{0,8,0.710101}},1.11);
 		 case material::Muscle_no_sucrose:	 return Material({{0,1,0.101969},{0,6,0.120058},{0,7,0.035451},{0,8,0.742522}},1.07);
-		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,1}},2.532);
+		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,2}},2.532);
 		 case material::NaI:	 return Material({{0,11,1},{0,53,1}},3.667);
 		 case material::NaCl:	 return Material({{0,11,1},{0,17,1}},2.165);
 		 case material::Na2O:	 return Material({{0,8,1},{0,11,2}},2.27);
-- 
2.43.0


From e700f4c74d42dd6a0d84a2616262343ae768a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:19 +0000
Subject: [PATCH 27/41] fix: add the missing iodine to the photographic
 emulsion

The weight fractions summed up to 0.99688 only.
---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 622c739..18551dd 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -129,7 +129,7 @@ namespace catima{
 		 case material::Octane:	 return Material({{0,1,18},{0,6,8}},0.703);
 		 case material::Paraffin:	 return Material({{0,1,0.148605},{0,6,0.851395}},0.93);
 		 case material::nPentane:	 return Material({{0,1,12},{0,6,5}},0.626);
-		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105}},3.815);
+		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105},{0,53,0.00312}},3.815);
 		 case material::PuO2:	 return Material({{0,8,2},{0,94,1}},11.46);
 		 case material::Polyacrylonitrile:	 return Material({{0,1,3},{0,6,3},{0,7,1}},1.184);
 		 case material::Polycarbonate:	 return Material({{0,1,0.055491},{0,6,0.755751},{0,8,0.188758}},1.2);
-- 
2.43.0


From b4157decfa2f08f70867b5b33b69ce9e3c5a626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:35 +0000
Subject: [PATCH 28/41] fix: keep the extrapolated straggling factor of heavy
 isotopes non-negative

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 3c65650..41eb26c 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -612,7 +612,7 @@ double precalculated_lindhard_X(const Projectile &p){
     //double dif = ls_X_ahi(T) - ls_X_a(T);
     //return ls_X_a(T)+(dif*da/ls_coefficients::a_rel_increase);
     double dif = v2 - v1;
-    return v1+(dif*da/ls_coefficients::a_rel_increase);
+    return std::max(0.0, v1+(dif*da/ls_coefficients::a_rel_increase)); // extrapolated for heavy isotopes, cannot be negative
 }
 
 double dedx_variance(const Projectile &p, const Target &t, const Config &c){
-- 
2.43.0


From a8b79bab5d91897981509a22a40ad0e44708b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:59 +0000
Subject: [PATCH 29/41] fix: scattering length uses the atomic mass without
 truncating it to an integer

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 41eb26c..2769adc 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -562,7 +562,7 @@ double radiation_length(const Material &material){
     return 1/sum;
 }
 
-double scattering_length(int a, int z){
+double scattering_length(double a, int z){
     double c = 0.00034896*z*z*(2*std::log(33219*std::pow(a*z,-1.0/3.0))-1)/a;
     return 1.0/c;
 }
-- 
2.43.0


From a51aa0a095900135b4dc747caa986d70d6685786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:53 +0000
Subject: [PATCH 30/41] fix: avoid integer overflow for the largest isotope
 index

---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 0f44698..cc02125 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| i<0 || (i+1) > num)return 0;
+        if(num==0|| i<0 || i >= num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| i<0 || (i+1) > num)return 0;
+        if(num==0|| i<0 || i >= num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| i<0 || (i+1) > num)return res;
+        if(num==0|| i<0 || i >= num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From 3bbce6a416aab5547aabb9be662abc08c69a7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:04 +0000
Subject: [PATCH 31/41] fix: end the hypergeometric series when it overflows

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 2769adc..ac5d96a 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -852,7 +852,7 @@ std::complex<double> hyperg(const std::complex<double> &a,
             std::complex<double> Cm(dm-1.0, 0.0);
             term = previousterm * ((a + Cm)/(b + Cm)) * (z/dm);
             sumterm += term;
-        } while( std::abs(term) > 1.0e-6 && std::abs(previousterm) > 1.0e-6 );
+        } while( std::isfinite(std::abs(term)) && std::abs(term) > 1.0e-6 && std::abs(previousterm) > 1.0e-6 );
         return(sumterm);
 }
 
-- 
2.43.0


From 771518f3fb9f2ecf19505c6847e6c11f34abbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:42 +0000
Subject: [PATCH 32/41] fix: table interpolation just below the last point read
 behind the table

---
 include/catima/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index e24a45d..f754068 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -72,8 +72,8 @@ namespace catima{
 	double EnergyTable_interpolate(const T &table, double xval, double *y){
 	    double r;
 	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
-	    if(xval==table.values[table.size()-1])return y[table.size()-1];
         int i = table.index(xval);
+	    if(i>=table.size()-1)return y[table.size()-1];
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
-- 
2.43.0


From 392ac58eb2dcbc39bf5695cbe9f8277d49c5a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:31 +0000
Subject: [PATCH 33/41] fix: adaptive integration over reversed intervals
 ignored the precision

---
 include/catima/gkq_integrator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 6fd9608..c4b4e97 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -95,7 +95,7 @@ std::pair<double,double> GaussKronrodIntegration<order>::integrate_nonadaptive(F
 
     double err = std::max( std::abs(gres-res), std::numeric_limits<double>::epsilon());
 
-    return std::make_pair(p*res, p*err);
+    return std::make_pair(p*res, std::abs(p)*err);
 }
 
 template<int order>
@@ -109,7 +109,7 @@ double GaussKronrodIntegration<order>::integrate_adaptive(F& f, double a, double
     result = r.first;
     err = r.second;
     //printf("level = %d, I=%lf, e=%lf, %lf - %lf\n",level,result,err,a,b);
-    if( (std::abs(result) < numlimit) || ((b-a)<numlimit)){
+    if( (std::abs(result) < numlimit) || (std::abs(b-a)<numlimit)){
         return result;
     }
 
-- 
2.43.0


From 8e1f3f683f5b7ed3566ffcd986612ecb439e42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:22 +0000
Subject: [PATCH 34/41] fix: end the beam block of the MOCADI export with a
 newline

---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index b791166..5cb44f0 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -53,7 +53,7 @@ bool save_mocadi(const char* filename, const Projectile p, const Layers &layers,
     fw<<"epax 2\natima-1.0\noption listmode root\n";
     std::string beam = "BEAM\n100000\n" + std::to_string(p.T) + ", 0, " + std::to_string(p.A) + ", " + std::to_string(p.Z) + "\n2\n" +
                             std::to_string(psx.sigma_x) +  ", " + std::to_string(1000*psx.sigma_a) + ", 0, 0, 0\n2\n" +
-                            std::to_string(psy.sigma_x) + ", " + std::to_string(1000*psy.sigma_a) + ", 0, 0, 0\n1\n0,  0, 0, 0, 0";
+                            std::to_string(psy.sigma_x) + ", " + std::to_string(1000*psy.sigma_a) + ", 0, 0, 0\n1\n0,  0, 0, 0, 0\n";
     fw<<beam;
     int c = 0;
     for (auto& m: layers.get_materials()){
-- 
2.43.0


From 20f12be1fa7abfc7fa874ee580eed4f410600145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:23 +0000
Subject: [PATCH 35/41] fix: calculator reports unknown materials and unusable
 projectiles instead of calculating with them

---
 bin/catima_calculator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index fe8e0c1..fcd9187 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -55,6 +55,9 @@ int main( int argc, char * argv[] )
                     projectile.A = j["projectile"].at(0).get<double>();
                     projectile.Z = j["projectile"].at(1).get<double>();
                 }
+                else{
+                    throw std::invalid_argument("projectile field is not an array");
+                }
             }
             else{
                 throw std::invalid_argument("projectile field is missing");
@@ -254,11 +257,13 @@ Material json_material(json &j){
         
         if(z<200){
             Material m(a,z,density,th);
+            if(m.get_element(0).A<=0)throw std::invalid_argument("Unknown element");
             if(ipot>0)m.I(ipot);
             return m;
             }
         else{
             Material m = get_material(z);
+            if(m.ncomponents()==0)throw std::invalid_argument("Unknown compound");
             if(j.count("density")>0 && density>0)m.density(density);
             m.thickness(th);
             return m;
-- 
2.43.0


From 4c6b46caca47563bfad5df45470b184a504b4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:32:45 +0000
Subject: [PATCH 36/41] fix: the library compiles again without the REACTIONS
 option

---
 include/catima/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..96d4ad4 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -15,8 +15,8 @@ constexpr double Eout_th_epsilon = 1e-5;  //
 
 constexpr double thin_target_limit = 1 - 1e-3;
 
-#ifdef REACTIONS
 constexpr double emin_reaction = 30.0;
+#ifdef REACTIONS
 constexpr bool reactions = true;
 #else
 constexpr bool reactions = false;
-- 
2.43.0


From 529bddd92f90a83081e02c570942e4fba1f6246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:09 +0000
Subject: [PATCH 37/41] fix: energy tables took nan for an index far outside of
 the table

---
 include/catima/storage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index f754068..14cfa00 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -51,7 +51,7 @@ namespace catima{
 	const double* begin()const{return values;}
     const double* end()const{return &values[num];}
     int index(double v)const noexcept{        
-        if(v<values[0] || step==0.0)return -1;
+        if(!(v>=values[0]) || step==0.0)return -1; // also for nan
         if(v>=values[N-1]-numeric_epsilon)return N-1;
         
         #ifdef ET_CALCULATED_INDEX
@@ -71,7 +71,7 @@ namespace catima{
 	template<typename T>
 	double EnergyTable_interpolate(const T &table, double xval, double *y){
 	    double r;
-	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
+	    if(!(xval>=table.values[0] && xval<=table.values[table.size()-1]))return 0.0; // also for nan
         int i = table.index(xval);
 	    if(i>=table.size()-1)return y[table.size()-1];
 	    double linstep = table.values[i+1] - table.values[i];
@@ -95,7 +95,7 @@ namespace catima{
         double operator()(int i)const noexcept{return value(i);}
         double step_size()const noexcept{return step;}
         int index(double v)const noexcept{
-            if(v<value(0) || step==0.0)return -1;
+            if(!(v>=value(0)) || step==0.0)return -1;
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
@@ -121,7 +121,7 @@ namespace catima{
         constexpr static int size() noexcept{return N;}
         double operator[](int i)const noexcept{return i*step + min;}
         int index(double v)const noexcept{
-            if(v<min || step==0.0)return -1;
+            if(!(v>=min) || step==0.0)return -1;
             if(v>=max)return N-1;
             assert(step>0.0);
             return static_cast<int> (std::floor((v-min)/step));
-- 
2.43.0


From 037230162d34b469e5744f706c34e0e99c73654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:09 +0000
Subject: [PATCH 38/41] fix: time of flight integral did not end for an
 infinite energy

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 74defa4..fcfa0c2 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -458,7 +458,7 @@ double calculate_tof_from_E(Projectile p, double Eout, const Material &t, const
     double res = 0;
     double e = p.T;
     auto function = [&](double x)->double{return 1.0/(dedx(p(x),t,c)*beta_from_T(x));};
-    while(e>4*Eout && e>4*Ezero){ // steep at low energies, one interval is not enough for a large energy loss
+    while(e>4*Eout && e>4*Ezero && std::isfinite(e)){ // steep at low energies, one interval is not enough for a large energy loss
         res += integrator.integrate(function,0.25*e,e);
         e *= 0.25;
     }
-- 
2.43.0


From a0d551840e49d923efea4077afa79c92baac5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:43 +0000
Subject: [PATCH 39/41] fix: adding a stack of layers to itself read freed
 memory

---
 src/structures.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..f948824 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,8 +68,9 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
-      add(m);
+    const int n = l.num(); // l can be this object
+    for(int i=0;i<n;i++){
+      add(l.materials[i]);
     }
 }
 
-- 
2.43.0


From e9edb19e05857e21daca08506800ae4befc94ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:46 +0000
Subject: [PATCH 40/41] fix: the splines of a copied data point read the values
 of the original

---
 include/catima/storage.h |  4 ++++
 src/storage.cpp          | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 14cfa00..b2f4a5d 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -222,7 +222,11 @@ class DataPoint{
     DataPoint(const Projectile _p, const Material _m,const Config &_c=default_config):p(_p),m(_m),config(_c){}
     DataPoint(const DataPoint&)=delete;
     DataPoint(DataPoint&&)=default;
+#ifdef STORE_SPLINES
+    DataPoint& operator=(const DataPoint &d); // splines refer to the values of their own data point
+#else
     DataPoint& operator=(const DataPoint&)=default;
+#endif
     DataPoint& operator=(DataPoint&&)=default;
 	friend bool operator==(const DataPoint &a, const DataPoint &b);
     };
diff --git a/src/storage.cpp b/src/storage.cpp
index acd6ece..3d5a7eb 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -69,6 +69,21 @@ double InterpolatorGSL::derivative(double x)const{
 #endif
 
 #ifdef STORE_SPLINES
+    DataPoint& DataPoint::operator=(const DataPoint &d){
+        if(this == &d)return *this;
+        p = d.p;
+        m = d.m;
+        config = d.config;
+        range = d.range;
+        range_straggling = d.range_straggling;
+        angular_variance = d.angular_variance;
+        if(range.empty())return *this; // nothing calculated yet
+        range_spline = Interpolator(energy_table, range);
+        range_straggling_spline = Interpolator(energy_table, range_straggling);
+        angular_variance_spline = Interpolator(energy_table, angular_variance);
+        return *this;
+    }
+
     const Interpolator& get_range_spline(const DataPoint &data){
         return data.range_spline;
     }
-- 
2.43.0


From ce9bf3340bddd3f7a32f142a8ddbf109605a75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:23:51 +0000
Subject: [PATCH 41/41] fix: a data point calculated directly had no splines

---
 src/catima.cpp  | 5 +++++
 src/storage.cpp | 8 --------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index fcfa0c2..39b7f20 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -451,6 +451,11 @@ DataPoint calculate_DataPoint(Projectile p, const Material &t, const Config &c){
         res = p.A*res;
         dp.range_straggling[i] = res + dp.range_straggling[i-1];
     }
+    #ifdef STORE_SPLINES
+    dp.range_spline = Interpolator(energy_table, dp.range);
+    dp.range_straggling_spline = Interpolator(energy_table, dp.range_straggling);
+    dp.angular_variance_spline = Interpolator(energy_table, dp.angular_variance);
+    #endif
     return dp;
 }
 
diff --git a/src/storage.cpp b/src/storage.cpp
index 3d5a7eb..1727547 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -131,14 +131,6 @@ void Data::Add(const Projectile &p, const Material &t, const Config &c){
 	}
     if(index==storage.end())index=storage.begin();
     *index = calculate_DataPoint(p,t,c);
-#ifdef STORE_SPLINES
-    //index->range_spline = Interpolator(energy_table.values,index->range);
-    //index->range_straggling_spline = Interpolator(energy_table.values,index->range_straggling);
-    //index->angular_variance_spline = Interpolator(energy_table.values,index->angular_variance);
-    index->range_spline = Interpolator(energy_table, index->range);
-    index->range_straggling_spline = Interpolator(energy_table, index->range_straggling);
-    index->angular_variance_spline = Interpolator(energy_table, index->angular_variance);
-#endif
     index++;
     }
     
-- 
2.43.0

