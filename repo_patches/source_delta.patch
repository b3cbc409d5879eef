From ecaf983c2f7f6be822cfa7f2d61b5a4e29ae7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:44 +0000
Subject: [PATCH 01/24] Allow table sizes to be set by a verification build

The number of energy points and cache slots can be given on the command
line when CATIMA_VERIFICATION is defined. Normal builds are unchanged.
---
 include/catima/constants.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..542ed3d 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -8,8 +8,13 @@ namespace catima {
 constexpr double Ezero = 1E-3; // lowest E to calculate, below taken as 0
 constexpr double logEmin = -3; // log of minimum energy
 constexpr double logEmax = 7.0;  // log of max energy
+#ifdef CATIMA_VERIFICATION // table sizes given by the verification build
+constexpr int max_datapoints = CATIMA_MAX_DATAPOINTS;
+constexpr int max_storage_data = CATIMA_MAX_STORAGE_DATA;
+#else
 constexpr int max_datapoints = 600; // how many datapoints between logEmin and logEmax
 constexpr int max_storage_data = 60; // number of datapoints which can be stored in cache
+#endif
 constexpr double numeric_epsilon = 10*std::numeric_limits<double>::epsilon();
 constexpr double Eout_th_epsilon = 1e-5;  //
 
-- 
2.43.0


From 818f381d733be3ec1e737af6637144a67d72c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:55 +0000
Subject: [PATCH 02/24] fix: reject negative isotope indices

A negative index read before the table or returned an isotope of the
previous element, and the largest integer overflowed.
---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..6eeb1fe 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(i<0 || i>=num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(i<0 || i>=num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(i<0 || i>=num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From f806cf6f542c8680ffcb4e9d5c4aca0a4f007867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:31:58 +0000
Subject: [PATCH 03/24] fix: catima_range uses the requested energy

The energy argument was ignored, the range of a projectile at zero
energy was returned.
---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From 039d05295ec43e7eaa74c12b1a28186ff5a03815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:07 +0000
Subject: [PATCH 04/24] fix: spline solver mixed up the off-diagonals

The solver reads the lower diagonal from a and the upper one from c, the
element access wrote them the other way round. The resulting curve had
jumps in its first derivative.
---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From d47fe6a25df8b9bdaf01e888559d50a233679707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:11 +0000
Subject: [PATCH 05/24] fix: sign of the Coulomb correction in the radiation
 length

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..fdb98a7 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -547,7 +547,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From b922bebe8f01bd54353fde742367edc3fc5f1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:15 +0000
Subject: [PATCH 06/24] fix: time of flight uses the requested configuration

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..72630ca 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From 89f80dad9a54d41d639f10c6d45f8be6e8ff46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:18 +0000
Subject: [PATCH 07/24] fix: low energy branch of the global charge model takes
 beta

The energy was passed where the velocity is expected.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index fdb98a7..d146745 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -750,7 +750,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From 75be7812fed1aeccff9de11f566dc5e36cd5d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:21 +0000
Subject: [PATCH 08/24] fix: compare scattering factors exactly

Cached tables depend on the factor. With a tolerance the result depended
on which configuration was calculated first.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 72630ca..7176005 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor) return false;
     return true;
     }
 
-- 
2.43.0


From 2beac660dd31e6a9ced457add364eb53b78f2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:24 +0000
Subject: [PATCH 09/24] fix: layers can be appended to themselves

The loop iterated over the vector it was growing.
---
 src/structures.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..bb1f832 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,7 +68,8 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
+    const std::vector<Material> added = l.get_materials(); // copy, l can be this object
+    for(auto& m: added){
       add(m);
     }
 }
-- 
2.43.0


From 8415c9c905fc4b194fc8d9b07377903843c9dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:28 +0000
Subject: [PATCH 10/24] fix: energy is unchanged when there are no layers

---
 src/catima.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catima.cpp b/src/catima.cpp
index 7176005..4628292 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -359,6 +359,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
     MultiResult res;
     double e = p.T;
     res.total_result.Ein = e;
+    res.total_result.Eout = e;
     res.total_result.sigma_a = ps.sigma_a*ps.sigma_a;
     res.total_result.sigma_x = ps.sigma_x*ps.sigma_x;
     res.total_result.cov = ps.cov_x;
-- 
2.43.0


From 920e582535c9886fc5aa484a1a7e5c5f672304df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:31 +0000
Subject: [PATCH 11/24] fix: limit of the Lindhard tables

The tables end at Z=108, heavier projectiles read beyond them.
---
 include/catima/generated_LS_coeff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
-- 
2.43.0


From 77dc0fcd1094545f4db3e3bb4b16cbd04e6f564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:34 +0000
Subject: [PATCH 12/24] fix: reaction rate in compounds

The cross section was averaged per atom but multiplied with the number
of formula units.
---
 src/reactions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 6ce7958..dd6b2ed 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -28,15 +28,14 @@ double nonreaction_rate(Projectile &projectile, const Material &target, const Co
     if(energy_out(projectile.T, target.thickness(), range_spline) < emin_reaction)return -1.0;
     
     auto sigma_r = [&](double th){
-        double stn_sum=0.0, sum=0.0;
+        double sum=0.0;
         double e = energy_out(projectile.T, th, range_spline);
         for(unsigned int i = 0;i<target.ncomponents();i++){
             int zt = target.get_element(i).Z;
             int at = abundance::get_isotope_a(zt,0); // most abundand natural isotope mass
-            stn_sum += target.molar_fraction(i);
             sum += target.molar_fraction(i)*SigmaR_Kox(ap,zp,e,at,zt); 
         }
-        return sum/stn_sum;
+        return sum;
     };
 
     //nurex::Nucleus nurex_projectile = nurex::get_default_nucleus(ap,zp);
-- 
2.43.0


From 8fdc8e8bac0baef7f3473aed80a71db3008544ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:36 +0000
Subject: [PATCH 13/24] fix: C functions apply the C defaults

Three wrapper functions used the configuration left by whatever was
called before.
---
 src/cwrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..bf70422 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,8 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
+        catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From 601a5f21b0e894930a3c9180aafb08c8ba72b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:42 +0000
Subject: [PATCH 14/24] fix: points of odd order quadrature

The central point was listed twice, the outermost ones were missing and
the last element was not set.
---
 include/catima/gkq_integrator.h | 6 ++++--
 include/catima/glq_integrator.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..08c9d4d 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -157,10 +157,12 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double p = 0.5*(b-a);
     double q = 0.5*(b+a);
 
+    const int odd = order%2;
     int num = (order/2);
+    if(odd)points[num] = p*x(0) + q; // central point
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+odd+i] = p*x(i+odd) + q;
     }
     return points;
 }
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..a4c2f3d 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -55,10 +55,12 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double p = 0.5*(b-a);
     double q = 0.5*(b+a);
 
+    const int odd = order%2;
     int num = (order/2);
+    if(odd)points[num] = p*x(0) + q; // central point
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+odd+i] = p*x(i+odd) + q;
     }
     return points;
 }
-- 
2.43.0


From c2496f55da87e98dafc5ddea5b3f49e93d91215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:48 +0000
Subject: [PATCH 15/24] fix: odd order two dimensional quadrature includes the
 centre

---
 include/catima/glq_integrator.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index a4c2f3d..c5d8173 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -87,13 +87,15 @@ double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, do
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<(order+1)/2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is visited twice
+        for(int j=0;j<(order+1)/2;j++){
             yy = (r*integrator.x(j));
+            double wj = (order%2 && j==0)?0.5*integrator.w(j):integrator.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
@@ -121,13 +123,15 @@ double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, dou
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<(order+1)/2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is visited twice
+        for(int j=0;j<(order2+1)/2;j++){
             yy = (r*integrator2.x(j));
+            double wj = (order2%2 && j==0)?0.5*integrator2.w(j):integrator2.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
-- 
2.43.0


From ae6c6b9b89d3424e454a740f7da2e1788dea90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:52 +0000
Subject: [PATCH 16/24] fix: outgoing energy stays between zero and the initial
 energy

The Newton iteration could leave the energy range. It then returned
negative energies, or reported particles as stopped although the target
is thinner than their range. The solution is now kept in brackets.
---
 src/catima.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 4628292..4c05cf3 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -205,24 +205,25 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     double range;
     double dedx;
     double e,r;
+    double emin = Ezero; // solution is between emin and emax
+    double emax = T;
     
     range = range_spline(T);
     dedx = 1.0/range_spline.derivative(T);
-    if(range<= thickness) return 0.0;
+    if(range - range_spline(Ezero) <= thickness) return 0.0;
     
     e = T - (thickness*dedx);
     while(1){
+        if(!(e>=emin && e<=emax) || counter>50)e = 0.5*(emin+emax); // newton step out of bounds or not converging
         r = range - range_spline(e) - thickness;
         if(fabs(r)<Eout_th_epsilon)return e;
-        double step = -r*dedx;
-        e = e-step;
-        if(e<Ezero)return 0.0;
+        if(r>0)emin = e;
+        else emax = e;
         dedx = 1.0/range_spline.derivative(e);
+        e = e + r*dedx;
         counter++;
-        assert(counter<=100);
-        if(counter>100)return -1;
+        if(counter>100)return 0.5*(emin+emax);
     }
-    return -1;
 }
 
 double energy_out(const Projectile &p, const Material &t, const Config &c){
-- 
2.43.0


From 024ad187d8397b209c9ef12ae765be1c4fa4a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:22 +0000
Subject: [PATCH 17/24] fix: table interpolation next to the upper end

---
 include/catima/storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..530ee0d 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -73,6 +73,7 @@ namespace catima{
 	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
 	    if(xval==table.values[table.size()-1])return y[table.size()-1];
         int i = table.index(xval);
+        if(i >= table.size()-1)return y[table.size()-1];
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
-- 
2.43.0


From 59eb14ebdbcc303957e6ed9cdd2c8c1c0c58cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:05:08 +0000
Subject: [PATCH 18/24] fix: scattering factor applies to all scattering models
 and moments

---
 src/catima.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 4c05cf3..d210a84 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -175,9 +175,9 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
     
     // corrections      
     if(c.scattering == scattering_types::gottschalk){
-        return integrator.integrate(fx0p_2,0, rrange)*t.density();
+        return c.scattering_factor*integrator.integrate(fx0p_2,0, rrange)*t.density();
     }
-    return integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
+    return c.scattering_factor*integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
 }
 
 double angular_straggling(Projectile p, const Material &t, const Config &c){
-- 
2.43.0


From 1741a8329f194268097cbef48b0c982844f60d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:23 +0000
Subject: [PATCH 19/24] fix: scattering length uses the atomic weight, not its
 integer part

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index d146745..af04422 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -561,7 +561,7 @@ double radiation_length(const Material &material){
     return 1/sum;
 }
 
-double scattering_length(int a, int z){
+double scattering_length(double a, int z){
     double c = 0.00034896*z*z*(2*std::log(33219*std::pow(a*z,-1.0/3.0))-1)/a;
     return 1.0/c;
 }
-- 
2.43.0


From 7b1e1708789e41917d530dc53da15ea2ec801ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:42 +0000
Subject: [PATCH 20/24] fix: polyolefin is a hydrocarbon

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..10332f1 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,7 +28,7 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
 		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
-- 
2.43.0


From ca080d4a3475cccb3490b29607173fbaac916dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:42 +0000
Subject: [PATCH 21/24] fix: sodium carbonate has two sodium atoms

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 10332f1..4410691 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -118,7 +118,7 @@ namespace catima{
 		 case material::Muscle_strained:	 return Material({{0,1,0.101997},{0,6,0.123},{0,7,0.035},{0,8,0.729003},{0,11,0.0008},{0,12,0.0002},{0,15,0.002},{0,16,0.005},{0,19,0.003}},1.04);
 		 case material::Muscle_sucrose:	 return Material({{0,1,0.0982341},{0,6,0.156214},{0,7,0.035451},{0,8,0.710101}},1.11);
 		 case material::Muscle_no_sucrose:	 return Material({{0,1,0.101969},{0,6,0.120058},{0,7,0.035451},{0,8,0.742522}},1.07);
-		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,1}},2.532);
+		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,2}},2.532);
 		 case material::NaI:	 return Material({{0,11,1},{0,53,1}},3.667);
 		 case material::NaCl:	 return Material({{0,11,1},{0,17,1}},2.165);
 		 case material::Na2O:	 return Material({{0,8,1},{0,11,2}},2.27);
-- 
2.43.0


From a6f416da3f4e2fa154ea6421f5279cbf25fa0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:42 +0000
Subject: [PATCH 22/24] fix: oxygen content of RW3

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 4410691..622c739 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From c890f4a1dcfeb1391bc3e78ffb0f21ff23a78903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:42 +0000
Subject: [PATCH 23/24] fix: iodine content of photographic emulsion

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 622c739..18551dd 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -129,7 +129,7 @@ namespace catima{
 		 case material::Octane:	 return Material({{0,1,18},{0,6,8}},0.703);
 		 case material::Paraffin:	 return Material({{0,1,0.148605},{0,6,0.851395}},0.93);
 		 case material::nPentane:	 return Material({{0,1,12},{0,6,5}},0.626);
-		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105}},3.815);
+		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105},{0,53,0.00312}},3.815);
 		 case material::PuO2:	 return Material({{0,8,2},{0,94,1}},11.46);
 		 case material::Polyacrylonitrile:	 return Material({{0,1,3},{0,6,3},{0,7,1}},1.184);
 		 case material::Polycarbonate:	 return Material({{0,1,0.055491},{0,6,0.755751},{0,8,0.188758}},1.2);
-- 
2.43.0


From b174416fda3f0008bc8a69af2413b9264c869fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:33:42 +0000
Subject: [PATCH 24/24] fix: catalogue numbers of the last two compounds

---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..12506f1 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -38,7 +38,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
 }
 
 int materialdb_id(const Material &m){
-    for(int i=201;i<=347;i++){
+    for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
         }
-- 
2.43.0

