From 8e5b6e2bcf6312e3eafac55a903dd74099227662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:47 +0000
Subject: [PATCH 01/17] fix: pass velocity instead of energy to Pierce-Blann in
 z_eff_global

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..f5e40bf 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -750,7 +750,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From 4e1d5344818978ade7a75e82e067bf455aae619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:52 +0000
Subject: [PATCH 02/17] fix: sign of Coulomb correction in radiation length
 formula

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index f5e40bf..d146745 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -547,7 +547,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From ac7300b4a83b9c19a9a9e3ae9d741cc2a043acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:04 +0000
Subject: [PATCH 03/17] fix: keep energy grid lookup inside the table for
 rounding and NaN

---
 include/catima/storage.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..4b63274 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -20,6 +20,7 @@
 #include <vector>
 #include <array>
 #include <iterator>
+#include <algorithm>
 #include <cmath>
 //#include <unordered_set>
 #include "catima/build_config.h"
@@ -51,12 +52,13 @@ namespace catima{
 	const double* begin()const{return values;}
     const double* end()const{return &values[num];}
     int index(double v)const noexcept{        
-        if(v<values[0] || step==0.0)return -1;
+        if(!(v>=values[0]) || step==0.0)return -1; // also NaN
         if(v>=values[N-1]-numeric_epsilon)return N-1;
         
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
         int i = static_cast<int> (std::floor(lxval/step));
+        i = std::min(std::max(i,0),N-2); // rounding must not leave the table
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
@@ -94,10 +96,11 @@ namespace catima{
         double operator()(int i)const noexcept{return value(i);}
         double step_size()const noexcept{return step;}
         int index(double v)const noexcept{
-            if(v<value(0) || step==0.0)return -1;
+            if(!(v>=value(0)) || step==0.0)return -1; // also NaN
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
+            i = std::min(std::max(i,0),N-2); // rounding must not leave the table
             if(v >= value(i+1)-numeric_epsilon)i++; // this is correction for floating point precision
             return i;
         }
@@ -119,10 +122,11 @@ namespace catima{
         constexpr static int size() noexcept{return N;}
         double operator[](int i)const noexcept{return i*step + min;}
         int index(double v)const noexcept{
-            if(v<min || step==0.0)return -1;
+            if(!(v>=min) || step==0.0)return -1; // also NaN
             if(v>=max)return N-1;
             assert(step>0.0);
-            return static_cast<int> (std::floor((v-min)/step));
+            int i = static_cast<int> (std::floor((v-min)/step));
+            return std::min(std::max(i,0),N-2); // rounding must not leave the table
         }
         private:
             double step=0.0;
-- 
2.43.0


From 04387bbcce0636a7b12d0962b343bd8135d43dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:16 +0000
Subject: [PATCH 04/17] fix: table interpolation must not read beyond the last
 point or for NaN

---
 include/catima/storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 4b63274..82688df 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -72,9 +72,9 @@ namespace catima{
 	template<typename T>
 	double EnergyTable_interpolate(const T &table, double xval, double *y){
 	    double r;
-	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
-	    if(xval==table.values[table.size()-1])return y[table.size()-1];
+	    if(!(xval>=table.values[0] && xval<=table.values[table.size()-1]))return 0.0;
         int i = table.index(xval);
+	    if(i>=table.size()-1)return y[table.size()-1];
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
-- 
2.43.0


From 9f206712b2db4626f44078c03913400baee080d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:27 +0000
Subject: [PATCH 05/17] fix: sub- and superdiagonal were exchanged in
 tridiagonal matrix access

---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From 9d2ee8c7cbffecd7be2d2cdb2817b30eefce9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:30 +0000
Subject: [PATCH 06/17] fix: catima_range ignored the energy

---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From 3d5937dc77c021965643c3e0f07bed969b04b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:34 +0000
Subject: [PATCH 07/17] fix: apply C defaults in all C functions

---
 src/cwrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..bf70422 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,8 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
+        catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From b3a299010e470c5b6f0ee7d8416f934ce61770ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:38 +0000
Subject: [PATCH 08/17] fix: keep projectile charge inside the
 Lindhard-Sorensen tables

---
 include/catima/generated_LS_coeff.h | 2 +-
 src/calculations.cpp                | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
diff --git a/src/calculations.cpp b/src/calculations.cpp
index d146745..e61de05 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -581,6 +581,7 @@ double precalculated_lindhard(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
@@ -599,6 +600,7 @@ double precalculated_lindhard_X(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
-- 
2.43.0


From 4d3268f21c69bb73fb7ee5c723e417644f4b48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:41 +0000
Subject: [PATCH 09/17] fix: reject negative isotope index

---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..cc02125 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || i >= num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || i >= num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(num==0|| i<0 || i >= num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From 61684731c619707494bcc8bea998c85d454abe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:46 +0000
Subject: [PATCH 10/17] fix: time of flight used default configuration

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..72630ca 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From a1228efe372d411ca6b6c197bfccd901eef506b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:50 +0000
Subject: [PATCH 11/17] fix: compare scattering factor exactly

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 72630ca..f29e9be 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor)return false;
     return true;
     }
 
-- 
2.43.0


From d74f90f35c465da9e5afbab91cbc7843ad519085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:54 +0000
Subject: [PATCH 12/17] fix: appending a layer list to itself

---
 src/structures.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..605fa5a 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,7 +68,8 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
+    const std::vector<Material> layers = l.get_materials(); // copy, l can be this object
+    for(auto& m: layers){
       add(m);
     }
 }
-- 
2.43.0


From 2d2f41d762302021d8958393441e6236820c1e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:59 +0000
Subject: [PATCH 13/17] fix: energy_out must not return energies below the
 lowest energy

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index f29e9be..7ebb526 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -213,7 +213,7 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     e = T - (thickness*dedx);
     while(1){
         r = range - range_spline(e) - thickness;
-        if(fabs(r)<Eout_th_epsilon)return e;
+        if(fabs(r)<Eout_th_epsilon)return (e<Ezero)?0.0:e;
         double step = -r*dedx;
         e = e-step;
         if(e<Ezero)return 0.0;
-- 
2.43.0


From d31b09371ba8b82a749fa8f4fa496d92ee13281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:47 +0000
Subject: [PATCH 14/17] fix: elements of RW3 and Polyolefin

---
 src/material_database.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..85d7f60 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,7 +28,7 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
 		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From b4f6a795e74eef2b963f262f448aa3a4f4d233d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:55 +0000
Subject: [PATCH 15/17] fix: get_points for integrators of odd order

---
 include/catima/gkq_integrator.h | 6 ++++--
 include/catima/glq_integrator.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..2d7df84 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -158,9 +158,11 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    int odd = order%2;
+    if(odd)points[num] = p*x(0) + q; // central point
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+i+odd] = p*x(i+odd) + q;
     }
     return points;
 }
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..7d6fe2e 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -56,9 +56,11 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    int odd = order%2;
+    if(odd)points[num] = p*x(0) + q; // central point
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+i+odd] = p*x(i+odd) + q;
     }
     return points;
 }
-- 
2.43.0


From 719d3245069719468dde445d6b6a3009b0cbcc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:02 +0000
Subject: [PATCH 16/17] fix: central point in 2D integrators of odd order

---
 include/catima/glq_integrator.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index 7d6fe2e..e0f9043 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -87,13 +87,15 @@ double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, do
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is evaluated twice
         xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
+        for(int j=0;j<order/2 + order%2;j++){
+            double wj = (order%2 && j==0)?0.5*integrator.w(j):integrator.w(j);
             yy = (r*integrator.x(j));
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
@@ -121,13 +123,15 @@ double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, dou
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is evaluated twice
         xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
+        for(int j=0;j<order2/2 + order2%2;j++){
+            double wj = (order2%2 && j==0)?0.5*integrator2.w(j):integrator2.w(j);
             yy = (r*integrator2.x(j));
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
-- 
2.43.0


From 3baa47d57138136232ecb521e77d40c0cb80ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:01 +0000
Subject: [PATCH 17/17] fix: adaptive Gauss-Kronrod integration with swapped
 limits

The error estimate of the rule carried the sign of the interval, and the
test for a vanishing interval was true for every b < a. Integration from the
upper to the lower limit was therefore never subdivided and could differ in
magnitude from the integral with the limits in ascending order.
---
 include/catima/gkq_integrator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 2d7df84..dbd602f 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -95,7 +95,7 @@ std::pair<double,double> GaussKronrodIntegration<order>::integrate_nonadaptive(F
 
     double err = std::max( std::abs(gres-res), std::numeric_limits<double>::epsilon());
 
-    return std::make_pair(p*res, p*err);
+    return std::make_pair(p*res, std::abs(p)*err);
 }
 
 template<int order>
@@ -109,7 +109,7 @@ double GaussKronrodIntegration<order>::integrate_adaptive(F& f, double a, double
     result = r.first;
     err = r.second;
     //printf("level = %d, I=%lf, e=%lf, %lf - %lf\n",level,result,err,a,b);
-    if( (std::abs(result) < numlimit) || ((b-a)<numlimit)){
+    if( (std::abs(result) < numlimit) || (std::abs(b-a)<numlimit)){
         return result;
     }
 
-- 
2.43.0

