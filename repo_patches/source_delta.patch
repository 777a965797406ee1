From 9a8185bbbc2cdb42a7e98ab09c0cdeb41b9ef30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:39 +0000
Subject: [PATCH 01/64] fix: correct signs and flux index in relativistic
 first-order flux correction

FixCell() of the 2D and 3D relativistic VL integrators corrected the face fields
around a bad cell with the opposite sign of the correction applied on the cell
itself (div B and the total flux changed), and the 3D version took the x2 flux
for the upper x3 face.
---
 src/integrators/integrate_2d_vl_sr.c | 16 ++++----
 src/integrators/integrate_3d_vl_sr.c | 58 ++++++++++++++--------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..bbe3671 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1622,21 +1622,21 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
 /* Use emf3 difference to correct face-centered fields around bad cell */
   if (ix.j > pG->js) {
-    pG->B1i[ks][ix.j-1][ix.i  ] -= dtodx2*(emf3D_ji);
-    pG->B1i[ks][ix.j-1][ix.i+1] -= dtodx2*(emf3D_jip1);
+    pG->B1i[ks][ix.j-1][ix.i  ] += dtodx2*(emf3D_ji);
+    pG->B1i[ks][ix.j-1][ix.i+1] += dtodx2*(emf3D_jip1);
   }
   if (ix.j < pG->je) {
-    pG->B1i[ks][ix.j+1][ix.i  ] += dtodx2*(emf3D_jp1i);
-    pG->B1i[ks][ix.j+1][ix.i+1] += dtodx2*(emf3D_jp1ip1);
+    pG->B1i[ks][ix.j+1][ix.i  ] -= dtodx2*(emf3D_jp1i);
+    pG->B1i[ks][ix.j+1][ix.i+1] -= dtodx2*(emf3D_jp1ip1);
   }
 
   if (ix.i > pG->is) {
-    pG->B2i[ks][ix.j  ][ix.i-1] += dtodx1*(emf3D_ji);
-    pG->B2i[ks][ix.j+1][ix.i-1] += dtodx1*(emf3D_jp1i);
+    pG->B2i[ks][ix.j  ][ix.i-1] -= dtodx1*(emf3D_ji);
+    pG->B2i[ks][ix.j+1][ix.i-1] -= dtodx1*(emf3D_jp1i);
   }
   if (ix.i < pG->ie) {
-    pG->B2i[ks][ix.j  ][ix.i+1] -= dtodx1*(emf3D_jip1);
-    pG->B2i[ks][ix.j+1][ix.i+1] -= dtodx1*(emf3D_jp1ip1);
+    pG->B2i[ks][ix.j  ][ix.i+1] += dtodx1*(emf3D_jip1);
+    pG->B2i[ks][ix.j+1][ix.i+1] += dtodx1*(emf3D_jp1ip1);
   }
 
 /* compute new cell-centered fields */
diff --git a/src/integrators/integrate_3d_vl_sr.c b/src/integrators/integrate_3d_vl_sr.c
index 7ca20ce..8b14cc9 100644
--- a/src/integrators/integrate_3d_vl_sr.c
+++ b/src/integrators/integrate_3d_vl_sr.c
@@ -2213,7 +2213,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.d = x1Flux[ix.k][ix.j][ix.i+1].d - x1FluxP[ix.k][ix.j][ix.i+1].d;
   x2FD_jp1.d = x2Flux[ix.k][ix.j+1][ix.i].d - x2FluxP[ix.k][ix.j+1][ix.i].d;
-  x3FD_kp1.d = x2Flux[ix.k+1][ix.j][ix.i].d - x3FluxP[ix.k+1][ix.j][ix.i].d;
+  x3FD_kp1.d = x3Flux[ix.k+1][ix.j][ix.i].d - x3FluxP[ix.k+1][ix.j][ix.i].d;
 
   x1FD_i.Mx = x1Flux[ix.k][ix.j][ix.i].Mx - x1FluxP[ix.k][ix.j][ix.i].Mx;
   x2FD_j.Mx = x2Flux[ix.k][ix.j][ix.i].Mx - x2FluxP[ix.k][ix.j][ix.i].Mx;
@@ -2221,7 +2221,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.Mx = x1Flux[ix.k][ix.j][ix.i+1].Mx - x1FluxP[ix.k][ix.j][ix.i+1].Mx;
   x2FD_jp1.Mx = x2Flux[ix.k][ix.j+1][ix.i].Mx - x2FluxP[ix.k][ix.j+1][ix.i].Mx;
-  x3FD_kp1.Mx = x2Flux[ix.k+1][ix.j][ix.i].Mx - x3FluxP[ix.k+1][ix.j][ix.i].Mx;
+  x3FD_kp1.Mx = x3Flux[ix.k+1][ix.j][ix.i].Mx - x3FluxP[ix.k+1][ix.j][ix.i].Mx;
 
   x1FD_i.My = x1Flux[ix.k][ix.j][ix.i].My - x1FluxP[ix.k][ix.j][ix.i].My;
   x2FD_j.My = x2Flux[ix.k][ix.j][ix.i].My - x2FluxP[ix.k][ix.j][ix.i].My;
@@ -2229,7 +2229,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.My = x1Flux[ix.k][ix.j][ix.i+1].My - x1FluxP[ix.k][ix.j][ix.i+1].My;
   x2FD_jp1.My = x2Flux[ix.k][ix.j+1][ix.i].My - x2FluxP[ix.k][ix.j+1][ix.i].My;
-  x3FD_kp1.My = x2Flux[ix.k+1][ix.j][ix.i].My - x3FluxP[ix.k+1][ix.j][ix.i].My;
+  x3FD_kp1.My = x3Flux[ix.k+1][ix.j][ix.i].My - x3FluxP[ix.k+1][ix.j][ix.i].My;
 
   x1FD_i.Mz = x1Flux[ix.k][ix.j][ix.i].Mz - x1FluxP[ix.k][ix.j][ix.i].Mz;
   x2FD_j.Mz = x2Flux[ix.k][ix.j][ix.i].Mz - x2FluxP[ix.k][ix.j][ix.i].Mz;
@@ -2237,7 +2237,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.Mz = x1Flux[ix.k][ix.j][ix.i+1].Mz - x1FluxP[ix.k][ix.j][ix.i+1].Mz;
   x2FD_jp1.Mz = x2Flux[ix.k][ix.j+1][ix.i].Mz - x2FluxP[ix.k][ix.j+1][ix.i].Mz;
-  x3FD_kp1.Mz = x2Flux[ix.k+1][ix.j][ix.i].Mz - x3FluxP[ix.k+1][ix.j][ix.i].Mz;
+  x3FD_kp1.Mz = x3Flux[ix.k+1][ix.j][ix.i].Mz - x3FluxP[ix.k+1][ix.j][ix.i].Mz;
 
 #ifndef BAROTROPIC
   x1FD_i.E = x1Flux[ix.k][ix.j][ix.i].E - x1FluxP[ix.k][ix.j][ix.i].E;
@@ -2246,7 +2246,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.E = x1Flux[ix.k][ix.j][ix.i+1].E - x1FluxP[ix.k][ix.j][ix.i+1].E;
   x2FD_jp1.E = x2Flux[ix.k][ix.j+1][ix.i].E - x2FluxP[ix.k][ix.j+1][ix.i].E;
-  x3FD_kp1.E = x2Flux[ix.k+1][ix.j][ix.i].E - x3FluxP[ix.k+1][ix.j][ix.i].E;
+  x3FD_kp1.E = x3Flux[ix.k+1][ix.j][ix.i].E - x3FluxP[ix.k+1][ix.j][ix.i].E;
 #endif /* BAROTROPIC */
 
 #ifdef MHD
@@ -2375,42 +2375,42 @@ static void FixCell(GridS *pG, Int3Vect ix)
   
 /* Use emf differences to correct face-centered fields around bad cell */
   if (ix.i > pG->is) {
-    pG->B2i[ix.k  ][ix.j  ][ix.i-1] += dtodx1*(emf3D_ji);
-    pG->B2i[ix.k  ][ix.j+1][ix.i-1] += dtodx1*(emf3D_jp1i);
-    pG->B3i[ix.k  ][ix.j  ][ix.i-1] -= dtodx1*(emf2D_ki);
-    pG->B3i[ix.k+1][ix.j  ][ix.i-1] -= dtodx1*(emf2D_kp1i);
+    pG->B2i[ix.k  ][ix.j  ][ix.i-1] -= dtodx1*(emf3D_ji);
+    pG->B2i[ix.k  ][ix.j+1][ix.i-1] -= dtodx1*(emf3D_jp1i);
+    pG->B3i[ix.k  ][ix.j  ][ix.i-1] += dtodx1*(emf2D_ki);
+    pG->B3i[ix.k+1][ix.j  ][ix.i-1] += dtodx1*(emf2D_kp1i);
   }
   if (ix.i < pG->ie) {
-    pG->B2i[ix.k  ][ix.j  ][ix.i+1] -= dtodx1*(emf3D_jip1);
-    pG->B2i[ix.k  ][ix.j+1][ix.i+1] -= dtodx1*(emf3D_jp1ip1);
-    pG->B3i[ix.k  ][ix.j  ][ix.i+1] += dtodx1*(emf2D_kip1);
-    pG->B3i[ix.k+1][ix.j  ][ix.i+1] += dtodx1*(emf2D_kp1ip1);
+    pG->B2i[ix.k  ][ix.j  ][ix.i+1] += dtodx1*(emf3D_jip1);
+    pG->B2i[ix.k  ][ix.j+1][ix.i+1] += dtodx1*(emf3D_jp1ip1);
+    pG->B3i[ix.k  ][ix.j  ][ix.i+1] -= dtodx1*(emf2D_kip1);
+    pG->B3i[ix.k+1][ix.j  ][ix.i+1] -= dtodx1*(emf2D_kp1ip1);
   }
   
   if (ix.j > pG->js) {
-    pG->B3i[ix.k  ][ix.j-1][ix.i  ] += dtodx2*(emf1D_kj);
-    pG->B3i[ix.k+1][ix.j-1][ix.i  ] += dtodx2*(emf1D_kp1j);
-    pG->B1i[ix.k  ][ix.j-1][ix.i  ] -= dtodx2*(emf3D_ji);
-    pG->B1i[ix.k  ][ix.j-1][ix.i+1] -= dtodx2*(emf3D_jip1);
+    pG->B3i[ix.k  ][ix.j-1][ix.i  ] -= dtodx2*(emf1D_kj);
+    pG->B3i[ix.k+1][ix.j-1][ix.i  ] -= dtodx2*(emf1D_kp1j);
+    pG->B1i[ix.k  ][ix.j-1][ix.i  ] += dtodx2*(emf3D_ji);
+    pG->B1i[ix.k  ][ix.j-1][ix.i+1] += dtodx2*(emf3D_jip1);
   }
   if (ix.j < pG->je) {
-    pG->B3i[ix.k  ][ix.j+1][ix.i  ] -= dtodx2*(emf1D_kjp1);
-    pG->B3i[ix.k+1][ix.j+1][ix.i  ] -= dtodx2*(emf1D_kp1jp1);
-    pG->B1i[ix.k  ][ix.j+1][ix.i  ] += dtodx2*(emf3D_jp1i);
-    pG->B1i[ix.k  ][ix.j+1][ix.i+1] += dtodx2*(emf3D_jp1ip1);
+    pG->B3i[ix.k  ][ix.j+1][ix.i  ] += dtodx2*(emf1D_kjp1);
+    pG->B3i[ix.k+1][ix.j+1][ix.i  ] += dtodx2*(emf1D_kp1jp1);
+    pG->B1i[ix.k  ][ix.j+1][ix.i  ] -= dtodx2*(emf3D_jp1i);
+    pG->B1i[ix.k  ][ix.j+1][ix.i+1] -= dtodx2*(emf3D_jp1ip1);
   }
   
   if (ix.k > pG->ks) {
-    pG->B1i[ix.k-1][ix.j  ][ix.i  ] += dtodx3*(emf2D_ki);
-    pG->B1i[ix.k-1][ix.j  ][ix.i+1] += dtodx3*(emf2D_kip1);
-    pG->B2i[ix.k-1][ix.j  ][ix.i  ] -= dtodx3*(emf1D_kj);
-    pG->B2i[ix.k-1][ix.j+1][ix.i  ] -= dtodx3*(emf1D_kjp1);
+    pG->B1i[ix.k-1][ix.j  ][ix.i  ] -= dtodx3*(emf2D_ki);
+    pG->B1i[ix.k-1][ix.j  ][ix.i+1] -= dtodx3*(emf2D_kip1);
+    pG->B2i[ix.k-1][ix.j  ][ix.i  ] += dtodx3*(emf1D_kj);
+    pG->B2i[ix.k-1][ix.j+1][ix.i  ] += dtodx3*(emf1D_kjp1);
   }
   if (ix.k < pG->ke) {
-    pG->B1i[ix.k+1][ix.j  ][ix.i  ] -= dtodx3*(emf2D_kp1i);
-    pG->B1i[ix.k+1][ix.j  ][ix.i+1] -= dtodx3*(emf2D_kp1ip1);
-    pG->B2i[ix.k+1][ix.j  ][ix.i  ] += dtodx3*(emf1D_kp1j);
-    pG->B2i[ix.k+1][ix.j+1][ix.i  ] += dtodx3*(emf1D_kp1jp1);
+    pG->B1i[ix.k+1][ix.j  ][ix.i  ] += dtodx3*(emf2D_kp1i);
+    pG->B1i[ix.k+1][ix.j  ][ix.i+1] += dtodx3*(emf2D_kp1ip1);
+    pG->B2i[ix.k+1][ix.j  ][ix.i  ] -= dtodx3*(emf1D_kp1j);
+    pG->B2i[ix.k+1][ix.j+1][ix.i  ] -= dtodx3*(emf1D_kp1jp1);
   }
   
 /* Compute new cell-centered fields */
-- 
2.43.0


From 362107d14a18672050602494da05612d35b02000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:42 +0000
Subject: [PATCH 02/64] fix: keep B3i equal to B3c in the 2D relativistic MHD
 integrator

B3i was never updated, so it did not follow B3c and a restart (which sets B3c
from B3i in 2D) put the initial x3-field back.
---
 src/integrators/integrate_2d_vl_sr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index bbe3671..b7fa06c 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1024,6 +1024,15 @@ void integrate_2d_vl(DomainS *pD)
 #endif /* MHD */
 #endif /* FIRST_ORDER_FLUX_CORRECTION */
 
+#ifdef MHD
+/* For consistency, set B3i to cell-centered value.  */
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+    }
+  }
+#endif /* MHD */
+
 #ifdef STATIC_MESH_REFINEMENT
 /*=== STEP 16: With SMR, store fluxes at fine/coarse boundaries ==============*/
 
-- 
2.43.0


From ef37934d592683e3bfee3a1a8d252aeb4d2e441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:42 +0000
Subject: [PATCH 03/64] fix: allocate half-step arrays of the CTU integrators
 for cylindrical coordinates

integrate_1d_ctu() and integrate_3d_ctu() use dhalf for the geometric source terms
whether or not there is a static potential or cooling, but with cylindrical
coordinates it was only allocated in those cases: null pointer access.
1D runs with particles and an adiabatic equation of state use phalf without cooling.
---
 src/integrators/integrate_1d_ctu.c | 8 +++-----
 src/integrators/integrate_3d_ctu.c | 9 ---------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index ae9b491..0a3c96a 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -677,13 +677,11 @@ void integrate_init_1d(MeshS *pM)
   if ((Wl = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
   if ((Wr = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
+  if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
+#ifndef PARTICLES
+  if(CoolingFunc != NULL)
 #endif
   {
-    if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
-  }
-  if(CoolingFunc != NULL){
     if ((phalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
   }
 
diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index f421240..dbd7065 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3682,19 +3682,10 @@ void integrate_init_3d(MeshS *pM)
   if ((x3Flux   =(Cons1DS***)calloc_3d_array(size3,size2,size1,sizeof(Cons1DS)))
     == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-#ifndef MHD
-#ifndef PARTICLES
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
-#endif
-#endif
-#endif
-  {
   if ((dhalf = (Real***)calloc_3d_array(size3,size2,size1,sizeof(Real)))==NULL)
     goto on_error;
   if ((phalf = (Real***)calloc_3d_array(size3,size2,size1,sizeof(Real)))==NULL)
     goto on_error;
-  }
 
 #ifdef SHEARING_BOX
   if ((Flxiib = (ConsS**)calloc_2d_array(size3,size2,sizeof(ConsS)))==NULL)
-- 
2.43.0


From f22f4ce2907862dcc0e83911b17f6e79b3f6fcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:34 +0000
Subject: [PATCH 04/64] fix: use |B| in the timestep's face-field estimate

The largest face-centered field of a cell is |Bc| + |Bi-Bc|; without the absolute
value a negative field was underestimated, so the timestep depended on the sign of
B and could exceed the stability limit.
---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..361125d 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -95,11 +95,11 @@ void new_dt(MeshS *pM)
 #ifdef MHD
 
 /* Use maximum of face-centered fields (always larger than cell-centered B) */
-        b1 = pGrid->U[k][j][i].B1c 
+        b1 = fabs((double)(pGrid->U[k][j][i].B1c))
           + fabs((double)(pGrid->B1i[k][j][i] - pGrid->U[k][j][i].B1c));
-        b2 = pGrid->U[k][j][i].B2c 
+        b2 = fabs((double)(pGrid->U[k][j][i].B2c))
           + fabs((double)(pGrid->B2i[k][j][i] - pGrid->U[k][j][i].B2c));
-        b3 = pGrid->U[k][j][i].B3c 
+        b3 = fabs((double)(pGrid->U[k][j][i].B3c))
           + fabs((double)(pGrid->B3i[k][j][i] - pGrid->U[k][j][i].B3c));
         bsq = b1*b1 + b2*b2 + b3*b3;
 /* compute sound speed squared */
-- 
2.43.0


From e7e5deee408ab7c15dd183ef722741b70441ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:34 +0000
Subject: [PATCH 05/64] fix: limit the timestep by particle speed in either
 direction

Particles moving in the negative direction did not limit the timestep.
---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 361125d..4e729fe 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -157,11 +157,11 @@ void new_dt(MeshS *pM)
 #ifdef PARTICLES
     for (q=0; q<pGrid->nparticle; q++) {
       if (pGrid->Nx[0] > 1)
-        max_v1 = MAX(max_v1, pGrid->particle[q].v1);
+        max_v1 = MAX(max_v1, fabs((double)(pGrid->particle[q].v1)));
       if (pGrid->Nx[1] > 1)
-        max_v2 = MAX(max_v2, pGrid->particle[q].v2);
+        max_v2 = MAX(max_v2, fabs((double)(pGrid->particle[q].v2)));
       if (pGrid->Nx[2] > 1)
-        max_v3 = MAX(max_v3, pGrid->particle[q].v3);
+        max_v3 = MAX(max_v3, fabs((double)(pGrid->particle[q].v3)));
     }
 #endif /* PARTICLES */
 
-- 
2.43.0


From 85f3f034544568094e92abcd76d338a2d58a61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:15 +0000
Subject: [PATCH 06/64] fix: relativistic wave speeds must test |Bx|, not Bx,
 for a vanishing normal field

The quartic for the fast speeds was only solved for Bx > 0; for negative Bx the
formula for a vanishing normal field was used, so the flux depended on the sign
of B and mirrored problems evolved differently.
---
 src/rsolvers/hllc_sr.c | 2 +-
 src/rsolvers/hlld_sr.c | 2 +-
 src/rsolvers/hlle_sr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index bdc3d51..f6f5305 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -844,7 +844,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index a35afc5..bc14918 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -958,7 +958,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlle_sr.c b/src/rsolvers/hlle_sr.c
index 1310989..6325bdd 100644
--- a/src/rsolvers/hlle_sr.c
+++ b/src/rsolvers/hlle_sr.c
@@ -445,7 +445,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
-- 
2.43.0


From 962831656a2dc2f5857eaf42c88cc0d9bb2468ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:32 +0000
Subject: [PATCH 07/64] fix: use the mean state's magnetic pressure in the
 FORCE energy flux

The Lax-Wendroff energy flux used the left state's magnetic pressure.
---
 src/rsolvers/force.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsolvers/force.c b/src/rsolvers/force.c
index 13b053f..d70b10e 100644
--- a/src/rsolvers/force.c
+++ b/src/rsolvers/force.c
@@ -52,7 +52,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Real hroe;
 #endif
 #ifdef MHD
-  Real b2roe,b3roe,x,y;
+  Real b2roe,b3roe,x,y,pbc;
 #endif
   Real ev[NWAVE],al,ar;
   Real *pFl, *pFc, *pFr, *pUc, *pF;
@@ -270,7 +270,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Fc.Mz -= Bxi*Wc.Bz;
 
 #ifndef ISOTHERMAL
-  Fc.E += (pbl*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
+  pbc = 0.5*(SQR(Bxi) + SQR(Wc.By) + SQR(Wc.Bz));
+  Fc.E += (pbc*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
 #endif /* ISOTHERMAL */
 
   Fc.By = Wc.By*Wc.Vx - Bxi*Wc.Vy;
-- 
2.43.0


From 24a5f7baa2e54318f808f57ecbbb65b0865e43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:38 +0000
Subject: [PATCH 08/64] fix: keep inactive-direction face fields equal to
 corrected cell fields in RestrictCorrect

---
 src/smr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index 0b3b8f3..4f9a760 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -403,6 +403,9 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q1*(pCO->myFlx[dim][kk][jj].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q1*(pCO->myFlx[dim][kk][jj].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q1*(pCO->myFlx[dim][kk][jj].B3c - *(pRcv++));
+/* In 1D/2D the face fields along inactive directions equal cell-centered ones */
+            if (nDim == 1) pG->B2i[k][j][i] = pG->U[k][j][i].B2c;
+            if (nDim <  3) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
@@ -431,6 +434,7 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q2*(pCO->myFlx[dim][kk][ii].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q2*(pCO->myFlx[dim][kk][ii].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q2*(pCO->myFlx[dim][kk][ii].B3c - *(pRcv++));
+            if (nDim <  3) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
-- 
2.43.0


From 111387dbc6edd9810140ce8c1834731928d24e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:35 +0000
Subject: [PATCH 09/64] fix: size SMR request arrays for the number of parent
 Grids too

---
 src/smr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smr.c b/src/smr.c
index 4f9a760..59d7c94 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -2007,6 +2007,7 @@ void SMR_init(MeshS *pM)
         max2 = MAX(max2,(pG->Nx[1]+1));
         max3 = MAX(max3,(pG->Nx[2]+1));
         maxCG = MAX(maxCG,pG->NCGrid);
+        maxCG = MAX(maxCG,pG->NPGrid);  /* requests are used for parents too */
       }
     }
   }
-- 
2.43.0


From 32762f6a068ecb9478d2b5a4131ed70d7d4db042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:32 +0000
Subject: [PATCH 10/64] fix: update cell fields beside flux-only SMR boundaries

---
 src/smr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index 59d7c94..78683dd 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -536,6 +536,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                 q2*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
               pG->B1i[k][jce+1][ib] +=
                 q2*(pCO->myEMF3[dim][kk][jce-jcs+1] - SMRemf3[kk][jce-jcs+1]);
+              for (j=jcs-1; j<=jce+1; j+=(jce-jcs+2)) pG->U[k][j][i].B1c =
+                0.5*(pG->B1i[k][j][i] + pG->B1i[k][j][i+1]);
             }
           }
 
@@ -575,6 +577,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                   q3*(pCO->myEMF2[dim][0][jj] - SMRemf2[0][jj]);
                 pG->B1i[kce+1][j][ib] -=
                   q3*(pCO->myEMF2[dim][kce-kcs+1][jj] - SMRemf2[kce-kcs+1][jj]);
+                for (k=kcs-1; k<=kce+1; k+=(kce-kcs+2)) pG->U[k][j][i].B1c =
+                  0.5*(pG->B1i[k][j][i] + pG->B1i[k][j][i+1]);
               }
             }
 
@@ -646,6 +650,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                 q1*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
               pG->B2i[k][jb][ice+1] -= 
                 q1*(pCO->myEMF3[dim][kk][ice-ics+1] - SMRemf3[kk][ice-ics+1]);
+              for (i=ics-1; i<=ice+1; i+=(ice-ics+2)) pG->U[k][j][i].B2c =
+                0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]);
             }
           }
 
@@ -685,6 +691,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                   q3*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
                 pG->B2i[kce+1][jb][i] += 
                   q3*(pCO->myEMF1[dim][kce-kcs+1][ii] - SMRemf1[kce-kcs+1][ii]);
+                for (k=kcs-1; k<=kce+1; k+=(kce-kcs+2)) pG->U[k][j][i].B2c =
+                  0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]);
               }
             }
 
@@ -779,12 +787,16 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
                 q1*(pCO->myEMF2[dim][jj][0] - SMRemf2[jj][0]);
               pG->B3i[kb][j][ice+1] +=
                 q1*(pCO->myEMF2[dim][jj][ice-ics+1] - SMRemf2[jj][ice-ics+1]);
+              for (i=ics-1; i<=ice+1; i+=(ice-ics+2)) pG->U[k][j][i].B3c =
+                0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]);
             }
             for (i=ics, ii=0; i<=ice; i++, ii++) {
               pG->B3i[kb][jcs-1][i] +=
                 q2*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
               pG->B3i[kb][jce+1][i] -=
                 q2*(pCO->myEMF1[dim][jce-jcs+1][ii] - SMRemf1[jce-jcs+1][ii]);
+              for (j=jcs-1; j<=jce+1; j+=(jce-jcs+2)) pG->U[k][j][i].B3c =
+                0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]);
             }
           }
 
-- 
2.43.0


From c82d3797a9b480057abbc7e9e5f7dc90405846aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:32 +0000
Subject: [PATCH 11/64] fix: evaluate the magnetic diffusivities when a run is
 restarted

---
 src/main.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 01de31d..0e35021 100644
--- a/src/main.c
+++ b/src/main.c
@@ -426,9 +426,19 @@ int main(int argc, char *argv[])
 #ifdef OPERATOR_SPLIT_COOLING
   integrate_cooling_init(&Mesh);
 #endif
-/* For new runs, set initial timestep */
+/* For new runs, set initial timestep.  For restarts the timestep was read from
+ * the restart file, but the diffusivities set within new_dt() are still needed */
 
   if(ires == 0) new_dt(&Mesh);
+#ifdef RESISTIVITY
+  else {
+    for (nl=0; nl<(Mesh.NLevels); nl++){
+      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
+        if (Mesh.Domain[nl][nd].Grid != NULL) get_eta(Mesh.Domain[nl][nd].Grid);
+      }
+    }
+  }
+#endif
 
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
-- 
2.43.0


From a9316b45b7431362da34c7aa09b144e8d78129d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:32 +0000
Subject: [PATCH 12/64] fix: report a restart file without <par_end> instead of
 reading forever

---
 src/restart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restart.c b/src/restart.c
index bb66cef..1a26d9e 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -78,7 +78,8 @@ void restart_grids(char *res_file, MeshS *pM)
 /* Skip over the parameter file at the start of the restart file */
 
   do{
-    fgets(line,MAXLEN,fp);
+    if(fgets(line,MAXLEN,fp) == NULL)
+      ath_error("[restart_grids]: No <par_end> found in the restart file\n");
   }while(strncmp(line,"<par_end>",9) != 0);
 
 /* read nstep */
-- 
2.43.0


From d35a81dc5279ed88f8281ea2a548a1e30ffb06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 13/64] fix: size the output flags by maxout, not by its
 default

---
 src/output.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 30c419e..eefe7f2 100644
--- a/src/output.c
+++ b/src/output.c
@@ -106,6 +106,8 @@ static int out_count = 0;           /* Number of elements in the OutArray */
 static OutputS *OutArray = NULL;    /* Array of Output modes */
 static OutputS rst_out;             /* Restart Output */
 static int rst_flag = 0;            /* (0,1) -> Restart Outputs are (off,on) */
+static int *dump_flag = NULL;       /* (0,1) -> write this output now (no,yes);
+                                     * last element is for restart output */
 
 /*==============================================================================
  * PRIVATE FUNCTION PROTOTYPES:
@@ -168,6 +170,9 @@ void init_output(MeshS *pM)
   if((OutArray = (OutputS *)malloc(maxout*sizeof(OutputS))) == NULL){
     ath_error("[init_output]: Error allocating output array\n");
   }
+  if((dump_flag = (int *)malloc((maxout+1)*sizeof(int))) == NULL){
+    ath_error("[init_output]: Error allocating output flags\n");
+  }
 
 /*--- loop over maxout output blocks, reading parameters into a temporary -----*
  *--- OutputS called new_out --------------------------------------------------*/
@@ -485,7 +490,6 @@ void data_output(MeshS *pM, const int flag)
   PropFun_t mypar_prop = NULL;
 #endif
   int n;
-  int dump_flag[MAXOUT_DEFAULT+1];
   char block[80];
 
 /* Loop over all elements in output array
@@ -611,6 +615,10 @@ void data_output_destruct(void)
     OutArray = NULL;
     out_count = 0;
   }
+  if (dump_flag != NULL) {
+    free(dump_flag);
+    dump_flag = NULL;
+  }
 
   return;
 }
-- 
2.43.0


From 39ec40fbcbe1275e92ade59d0af8767c41b75751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 14/64] fix: missing argument in the message for reversed
 domain limits

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ed90b88..a746ef5 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -184,7 +184,7 @@ void init_mesh(MeshS *pM)
           ath_error("[init_mesh]: Nx%d in %s must be >= 1\n",(i+1),block);
         }
         if(root_xmax[i] < root_xmin[i]) {
-          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),block);
+          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),(i+1),block);
         }
       }
       if (nDim==1 && Nx[0]==1) {
-- 
2.43.0


From 3bd80ffc7b640122992c0cc9f22b9f5c1d897f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 15/64] fix: refuse a refined Domain that lies outside every
 parent Domain

---
 src/init_mesh.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index a746ef5..19d4a57 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -474,6 +474,24 @@ void init_mesh(MeshS *pM)
     }
   }}
 
+/* Every Domain above the root level must lie inside a Domain one level down */
+
+  for (nl=1; nl<=maxlevel; nl++){
+  for (ncd=0; ncd<pM->DomainsPerLevel[nl]; ncd++){
+    pCD = (DomainS*)&(pM->Domain[nl][ncd]);
+    for (nd=0; nd<pM->DomainsPerLevel[nl-1]; nd++){
+      pD = (DomainS*)&(pM->Domain[nl-1][nd]);
+      for (i=0; i<nDim; i++) {
+        if (pCD->Disp[i] < 2*pD->Disp[i] ||
+            pCD->Disp[i] + pCD->Nx[i] > 2*(pD->Disp[i] + pD->Nx[i])) break;
+      }
+      if (i == nDim) break;
+    }
+    if (nd == pM->DomainsPerLevel[nl-1])
+      ath_error("[init_mesh]: domain%d on level %d lies outside every Domain on level %d\n",
+        pCD->InputBlock,nl,nl-1);
+  }}
+
 /*--- Step 6: Divide each Domain into Grids, and allocate to processor(s)  ---*/
 /* Get the number of Grids in each direction.  These are given either in the
  * <domain?> block in the input file, or by automatic decomposition given the
-- 
2.43.0


From c0daa4e24fcb8989fe463c749074264939dbd8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:10 +0000
Subject: [PATCH 16/64] fix: wait for the level directories before writing
 outputs into those of rank 0

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 0e35021..1825f58 100644
--- a/src/main.c
+++ b/src/main.c
@@ -473,6 +473,10 @@ int main(int argc, char *argv[])
     sprintf(level_dir,"lev%d",nl);
     mkdir(level_dir, 0775); /* Create directories for levels > 0 */
   }
+#ifdef MPI_PARALLEL
+/* some outputs are written by other processes into directories of rank 0 */
+  MPI_Barrier(MPI_COMM_WORLD);
+#endif
 
   gettimeofday(&tvs,NULL);
   if((have_times = times(&tbuf)) > 0)
-- 
2.43.0


From 881df6ac0882f4e22e80ece1d4ba590666a80470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:10 +0000
Subject: [PATCH 17/64] fix: name of the first Domain on a level repeated the
 number of the last Domain below

---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pdf.c   | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 7 files changed, 8 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..1cb2d6b 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -94,6 +94,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..5bb6f7c 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -342,6 +342,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
           }
 #endif
 
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..4e7843f 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -73,6 +73,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
@@ -323,6 +324,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..0899632 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -94,6 +94,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..4ad2c8f 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -233,6 +233,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           sprintf(pdir,"lev%d",nl);
         }
 #endif
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..1b1b115 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -64,6 +64,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..dea1e4a 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -76,6 +76,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
-- 
2.43.0


From 73299c03d19d9d39e29cf1054b40c3f3b355a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:25 +0000
Subject: [PATCH 18/64] fix: PDF output of several Domains: array sizes,
 statistics, MPI directory and average deviation

---
 src/output_pdf.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index 4ad2c8f..55fa197 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -44,7 +44,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
   char fmt[80];
   char fid[80]; /* File "id" for the statistics table */
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL;
-  char levstr[8],domstr[8],dirstr[8];
+  char levstr[8],domstr[8],dirstr[20];
   int nl,nd,i,j,k,is,ie,js,je,ks,ke;
   int n, data_cnt;
   double dmin, dmax, delta, dpdf, dat, scl;
@@ -78,33 +78,39 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         ks = pG->ks, ke = pG->ke;
         data_cnt = (ie - is + 1)*(je - js + 1)*(ke - ks + 1);
 
-/* Are the requisite arrays allocated? */
-        if(data == NULL){
+/* Are the requisite arrays allocated, and do they fit this Domain? */
+        if(data == NULL || size_dat != data_cnt){
+          if(data != NULL) free(data);
           size_dat = data_cnt;
           data = (double *)calloc(size_dat,sizeof(double));
           if(data == NULL)
             ath_error("[output_pdf]: Failed to allocate data array\n");
+        }
 
 /* This choice for size_pdf represents a balance between
  * resolution in the PDF and "shot noise" in the data binning. */
 #ifdef MPI_PARALLEL
-          size_pdf = (int)sqrt((double)cd_data_cnt);
+        n = (int)sqrt((double)cd_data_cnt);
 #else /* MPI_PARALLEL */
-          size_pdf = (int)sqrt((double)size_dat);
+        n = (int)sqrt((double)data_cnt);
 #endif /* MPI_PARALLEL */
+        if(pdf == NULL || size_pdf != n){
+          if(pdf != NULL) free(pdf);
+          size_pdf = n;
           pdf = (int *)calloc(size_pdf,sizeof(int));
           if(pdf == NULL)
             ath_error("[output_pdf]: Failed to allocate pdf array\n");
 
 #ifdef MPI_PARALLEL
-          if(myID_Comm_Domain == 0){ /* I'm the parent */
-            cd_pdf = (int *)calloc(size_pdf,sizeof(int));
-            if(cd_pdf == NULL)
-              ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
-          }
+          if(cd_pdf != NULL) free(cd_pdf);
+          cd_pdf = (int *)calloc(size_pdf,sizeof(int));
+          if(cd_pdf == NULL)
+            ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
 #endif /* MPI_PARALLEL */
         }
 
+/* Start the statistics of this Domain */
+        mean = var = adev = sdev = skew = kurt = ep = 0.0;
 
 /* Initialize dmin, dmax */
         dmin = dmax = (*pOut->expr)(pG,is,js,ks);
@@ -154,6 +160,9 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           }
 
 #ifdef MPI_PARALLEL
+          dat = adev;
+          ierr = MPI_Allreduce(&dat,&adev,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
+
           dat = ep;
           ierr = MPI_Allreduce(&dat,&ep,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
 
@@ -213,7 +222,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
 #ifdef MPI_PARALLEL
 /* For parallel calculations, only the parent writes the output. */
-        if(myID_Comm_Domain != 0) return;
+        if(myID_Comm_Domain != 0) continue;
 #endif /* MPI_PARALLEL */
 
 /* Create filename and open file.  pdf files are always written in lev#
@@ -223,7 +232,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
           pdir = &dirstr[0];
-          sprintf(pdir,"../lev%d",nl);
+          sprintf(pdir,"../id0/lev%d",nl);
         }
 #else
         if (nl>0) {
-- 
2.43.0


From 8a731fab5e711be00ae50d0cd26d0314b0127b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:35 +0000
Subject: [PATCH 19/64] fix: Grid timestep was read uninitialised by the first
 RestrictCorrect()

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 19d4a57..b4bb450 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -666,7 +666,7 @@ void init_mesh(MeshS *pM)
       for(m=0; m<(pD->NGrid[1]); m++){
       for(l=0; l<(pD->NGrid[0]); l++){
         if (pD->GData[n][m][l].ID_Comm_world == myID_Comm_world) {
-          if ((pD->Grid = (GridS*)malloc(sizeof(GridS))) == NULL)
+          if ((pD->Grid = (GridS*)calloc(1,sizeof(GridS))) == NULL)
             ath_error("[init_mesh]: Failed to malloc a Grid for %s\n",block);
         }
       }}}
-- 
2.43.0


From eba9300fe0042b8bc2d6bdcf0ac0b6e336eb9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:53 +0000
Subject: [PATCH 20/64] fix: shearing-box MPI buffers too small for Grids with
 few x2 cells

---
 src/bvals_shear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index af9ff34..94462b9 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5500,7 +5500,7 @@ void bvals_shear_init(MeshS *pM)
 /* allocate memory for send/receive buffers in MPI parallel calculations */
 
 #ifdef MPI_PARALLEL
-  size1 = nghost*pG->Nx[1]*(pG->Nx[2]+1)*(NREMAP+NSCALARS);
+  size1 = nghost*MAX(pG->Nx[1]*(NREMAP+NSCALARS),nghost*NVAR_SHARE)*(pG->Nx[2]+1);
 #ifdef FARGO
   size2 = nfghost*(pG->Nx[0]+1)*(pG->Nx[2]+1)*(NFARGO+NSCALARS);
 #endif
-- 
2.43.0


From b5fb0a4d3187b978b5ab8e492f7fd4f26e160f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:05 +0000
Subject: [PATCH 21/64] fix: output format used after being freed, or without
 being set when only a name is given

---
 src/output.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/output.c b/src/output.c
index eefe7f2..b44e2a5 100644
--- a/src/output.c
+++ b/src/output.c
@@ -210,6 +210,7 @@ void init_output(MeshS *pM)
     sprintf(defid,"out%d",outn);
     new_out.id = par_gets_def(block,"id",defid);
 
+    fmt = "";   /* out_fmt is optional in blocks with a name */
     if(par_exist(block,"out_fmt")) 
       fmt = new_out.out_fmt = par_gets(block,"out_fmt");
 
@@ -252,7 +253,6 @@ Now use the default one.\n");
 	/* Get a pointer to the output function via its name */
 	new_out.out_fun = get_usr_out_fun(name);
 	if(new_out.out_fun == NULL){
-	  free_output(&new_out);
 	  ath_error("Unsupported output named %s in %s/out_fmt=%s\n",
 		    name,block,fmt);
 	}
@@ -319,7 +319,6 @@ Now use the default one.\n");
         /* Get a pointer to the output function via its name */
         new_out.out_fun = get_usr_out_fun(name);
         if(new_out.out_fun == NULL){
-          free_output(&new_out);
           ath_error("Unsupported output named %s in %s/out_fmt=%s\n",
                     name,block,fmt);
         }
@@ -435,7 +434,6 @@ Now use the default one.\n");
       /* Get a pointer to the output function via its name */
       new_out.out_fun = get_usr_out_fun(name);
       if(new_out.out_fun == NULL){
-	free_output(&new_out);
 	ath_error("Unsupported output named %s in %s/out_fmt=%s\n",
 		  name,block,fmt);
       }
@@ -453,7 +451,6 @@ Now use the default one.\n");
       new_out.out_fun = output_tab;
     else {
 /* unknown output format is fatal */
-      free_output(&new_out);
       ath_error("Unsupported %s/out_fmt=%s\n",block,fmt);
     }
 
-- 
2.43.0


From 00411a885d07516e43153dfd9b2bf674180fcdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:15 +0000
Subject: [PATCH 22/64] fix: timestep with SMR depended on which Grids share a
 processor

---
 src/new_dt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/new_dt.c b/src/new_dt.c
index 4e729fe..87530ad 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -82,6 +82,9 @@ void new_dt(MeshS *pM)
 #ifdef SPECIAL_RELATIVITY
     max_v1 = max_v2 = max_v3 = 1.0;
 #else
+/* maxima are taken per Grid, since each is divided by the cell size of its own
+ * Grid: otherwise dt depends on which Grids share a processor */
+    max_v1 = max_v2 = max_v3 = 0.0;
 
     for (k=pGrid->ks; k<=pGrid->ke; k++) {
     for (j=pGrid->js; j<=pGrid->je; j++) {
-- 
2.43.0


From a3b6d8b8ef1076a6d6bada9ce3c0bb279886f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:15 +0000
Subject: [PATCH 23/64] fix: refuse Grids narrower than the ghost zones they
 must exchange

---
 src/init_mesh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index b4bb450..a62536d 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -566,6 +566,9 @@ void init_mesh(MeshS *pM)
 
       for (i=0; i<3; i++) {
         xdiv[i] = div(pD->Nx[i], pD->NGrid[i]);
+        if (pD->NGrid[i] > 1 && xdiv[i].quot < nghost)
+          ath_error("[init_mesh]: %s/NGrid_x%d = %d leaves Grids with %d < nghost=%d cells\n",
+            block,(i+1),pD->NGrid[i],xdiv[i].quot,nghost);
       }
 
 /* Distribute cells in Domain to Grids.  Assign each Grid to a processor ID in
-- 
2.43.0


From 5ff80f0e32c69d06d5c7dd229f30133412fd572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 24/64] fix: parameter lines with an empty name or an empty
 value before a comment

---
 src/par.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/par.c b/src/par.c
index dc3b1b2..7f3fc2e 100644
--- a/src/par.c
+++ b/src/par.c
@@ -132,7 +132,7 @@ static int debug = 0;              /* debug level, set to 1 for debug output  */
 static void *allocate(size_t size);
 static char *my_strdup(char *in);
 static char *skipwhite(char *cp);
-static void str_term(char *cp);
+static void str_term(char *start, char *cp);
 static char *line_block_name(char *line);
 static void add_par(Block *bp, char *name, char *value, char *comment);
 static void add_par_line(Block *bp, char *line);
@@ -569,19 +569,18 @@ static char *skipwhite(char *cp)
 }
 
 /*----------------------------------------------------------------------------*/
-/*! \fn static void str_term(char *cp)
- *  \brief Terminate a string, removing any extra white space at the end
- *   of the string. Input char pointer points to the terminating character,
- *   e.g. '\0'.
+/*! \fn static void str_term(char *start, char *cp)
+ *  \brief Terminate the string beginning at start, removing any extra white
+ *   space at the end of the string. Input char pointer cp points to the
+ *   terminating character, e.g. '\0'.
  */
 
-static void str_term(char *cp)
+static void str_term(char *start, char *cp)
 {
-  do{                           /* Remove any trailing white space */
+  while(cp > start && isspace(*(cp-1))) /* Remove any trailing white space */
     cp--;
-  }while(isspace(*cp));
 
-  *(++cp) = '\0';               /* Terminate the string */
+  *cp = '\0';                   /* Terminate the string */
 
   return;
 }
@@ -602,7 +601,7 @@ static char *line_block_name(char *line)
   while (*cp != '\0' && *cp != '>')
     cp++;
   if (*cp != '>') ath_error("Blockname %s does not appear terminated\n",sp);
-  str_term(cp);      /* patch the line and remove any trailing white space */
+  str_term(sp,cp);   /* patch the line and remove any trailing white space */
 
   return sp;         /* return pointer into the now patched input string */
 }
@@ -696,18 +695,18 @@ static void add_par_line(Block *bp, char *line)
   if(equal == NULL)
     ath_error("No '=' found in line \"%s\"\n",line);
 
-  str_term(equal);                  /* Terminate the name string */
+  str_term(name,equal);             /* Terminate the name string */
 
   if(hash == NULL){
-    str_term(nul);                  /* Terminate the value string */
+    str_term(value,nul);            /* Terminate the value string */
   }
   else{
-    str_term(hash);                 /* Terminate the value string */
+    str_term(value,hash);           /* Terminate the value string */
 
     if(*comment == '\0')
       comment = NULL;               /* Comment field is empty */
     else
-      str_term(nul);                /* Terminate the comment string */
+      str_term(comment,nul);        /* Terminate the comment string */
   }
 
   add_par(bp,name,value,comment);
-- 
2.43.0


From c0b794f7aced62ece0603f8b43e8ecf39f7aaf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 25/64] fix: parameter lines longer than MAXLEN were split, and
 overflowed the MPI broadcast buffer

---
 src/par.c | 57 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/par.c b/src/par.c
index 7f3fc2e..ce1f19e 100644
--- a/src/par.c
+++ b/src/par.c
@@ -19,7 +19,6 @@
  * -     name3 = value3    # this would be the 3rd name in this block
  *
  * LIMITATIONS:
- *   - MAXLEN means static strings; could make fancier dynamic string reader
  *   - blocknames and parameters (key=val#comment) are all single-line based
  *
  * HISTORY:
@@ -60,6 +59,7 @@
  * PRIVATE FUNCTION PROTOTYPES: 
  * - allocate()       - wrapper for calloc which terminates code on failure
  * - my_strdup()      - wrapper for strdup which terminates code on failure
+ * - read_line()      - read a line of any length
  * - skipwhite()      - returns pointer to next non-whitespace
  * - str_term()       - remove whitespace at end of string
  * - line_block_name()- extract block name
@@ -115,6 +115,7 @@ static int debug = 0;              /* debug level, set to 1 for debug output  */
  * PRIVATE FUNCTION PROTOTYPES: 
  *   allocate()       - wrapper for calloc which terminates code on failure
  *   my_strdup()      - wrapper for strdup which terminates code on failure
+ *   read_line()      - read a line of any length
  *   skipwhite()      - returns pointer to next non-whitespace
  *   str_term()       - remove whitespace at end of string
  *   line_block_name()- extract block name
@@ -131,6 +132,7 @@ static int debug = 0;              /* debug level, set to 1 for debug output  */
 
 static void *allocate(size_t size);
 static char *my_strdup(char *in);
+static char *read_line(FILE *fp);
 static char *skipwhite(char *cp);
 static void str_term(char *start, char *cp);
 static char *line_block_name(char *line);
@@ -156,7 +158,7 @@ void par_debug(int level);
 void par_open(char *filename)
 {
   FILE *fp;
-  char line[MAXLEN];
+  char *line;
   char *block_name, *cp;
   Block *bp = NULL;
 
@@ -170,17 +172,19 @@ void par_open(char *filename)
   now_open = 1;
   now_filename = my_strdup(filename);
 
-  while (fgets(line,MAXLEN,fp)) {      /* dumb approach: one line per command */
+  while ((line = read_line(fp)) != NULL) { /* one line per command */
     cp = skipwhite(line);              /* skip whitespace first */
-    if (*cp == '\0') continue;         /* blank line */
-    if (*cp == '#') continue;          /* skip comments */
-    if (strncmp(cp,"<par_end>",9) == 0) break; /* end of parameter file */
+    if (strncmp(cp,"<par_end>",9) == 0) { /* end of parameter file */
+      free(line);
+      break;
+    }
     if (*cp == '<') {                   /* a new Block */
       block_name = line_block_name(cp); /* extract name from <name> */
       bp = add_block(block_name);       /* find or add a block with this name */
-      continue;
     }
-    add_par_line(bp,cp);                /* add par to this block */
+    else if (*cp != '\0' && *cp != '#') /* skip blank lines and comments */
+      add_par_line(bp,cp);              /* add par to this block */
+    free(line);
   }
   fclose(fp);
   return;
@@ -434,7 +438,7 @@ void par_close(void)
 #ifdef MPI_PARALLEL
 void par_dist_mpi(const int mytid, MPI_Comm comm)
 {
-  char line[MAXLEN];
+  char *line;
   Block *bp = NULL;
   Par *pp;
   int count;
@@ -456,6 +460,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 
     for(bp = base_block; bp != NULL; bp = bp->next){
 /* Rebuild the "<block>" string */
+      line = (char *)allocate(strlen(bp->name) + 3);
       sprintf(line,"<%s>",bp->name);
 
 /* Broadcast the block string */
@@ -464,9 +469,12 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
       if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
+      free(line);
 
       for(pp = bp->p; pp != NULL; pp = pp->next){
 /* Rebuild the "name = value # comment" string */
+	line = (char *)allocate(strlen(pp->name) + strlen(pp->value) + 7
+	  + (pp->comment == NULL ? 0 : strlen(pp->comment)));
 	if(pp->comment == NULL)
 	  sprintf(line,"%s = %s",pp->name,pp->value);
 	else
@@ -478,6 +486,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
 	  ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 	if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	  ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
+	free(line);
       }
     }
 
@@ -494,9 +503,9 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 /* printf("[tid=%d]: filename length = %d\n",mytid,count); */
-    if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
+    now_filename = (char *)allocate(count);
+    if(MPI_SUCCESS != MPI_Bcast(now_filename, count, MPI_CHAR, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
-    now_filename = my_strdup(line);
 /* printf("[tid=%d]: filename length = \"%s\"\n",mytid,now_filename); */
     now_open = 1;
     if(debug)
@@ -506,6 +515,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
     if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
       ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
     while(count > 0){
+      line = (char *)allocate(count);
       if(MPI_SUCCESS != MPI_Bcast(line, count, MPI_CHAR, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
 
@@ -515,6 +525,7 @@ void par_dist_mpi(const int mytid, MPI_Comm comm)
       }
       else
 	add_par_line(bp,line);              /* add par to this block */
+      free(line);
 
       if(MPI_SUCCESS != MPI_Bcast(&count, 1, MPI_INT, 0, comm))
 	ath_error("[par_dist_mpi]: Error on calling MPI_Bcast\n");
@@ -555,6 +566,30 @@ static char *my_strdup(char *in)
   return out;
 }
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static char *read_line(FILE *fp)
+ *  \brief Read the next line into newly allocated memory, however long it is.
+ *   Returns NULL at the end of the file.
+ */
+
+static char *read_line(FILE *fp)
+{
+  size_t size = MAXLEN, len = 0;
+  char *more, *line = (char *)allocate(size);
+
+  while(fgets(line+len,(int)(size-len),fp) != NULL){
+    len += strlen(line+len);
+    if(len + 1 < size || line[len-1] == '\n') return line;
+    size *= 2;
+    if((more = (char *)realloc(line,size)) == NULL)
+      ath_error("read_line: not enough memory for %d bytes\n",(int)size);
+    line = more;
+  }
+  if(len > 0) return line;          /* the last line has no newline */
+  free(line);
+  return NULL;
+}
+
 /*----------------------------------------------------------------------------*/
 /*! \fn static char *skipwhite(char *cp)
  *  \brief Skip whitespace, returning pointer to next location of
-- 
2.43.0


From ceb562562c75880c3f3021d9c744dc369640a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:22 +0000
Subject: [PATCH 26/64] fix: write defaults and next-output times with enough
 digits to be read back exactly

---
 src/output.c | 4 ++--
 src/par.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output.c b/src/output.c
index b44e2a5..00d8307 100644
--- a/src/output.c
+++ b/src/output.c
@@ -522,13 +522,13 @@ void data_output(MeshS *pM, const int flag)
           } else {
 	    par_seti(block,"num","%d",OutArray[n].num,"Next Output Number");
           }
-	  par_setd(block,"time","%.15e",OutArray[n].t,"Next Output Time");
+	  par_setd(block,"time","%.16e",OutArray[n].t,"Next Output Time");
 	}
       }
 /* Now do the same for the restart output block */
       sprintf(block,"output%d",rst_out.n);
       par_seti(block,"num","%d",rst_out.num+1,"Next Output Number");
-      par_setd(block,"time","%.15e",rst_out.t,"Next Output Time");
+      par_setd(block,"time","%.16e",rst_out.t,"Next Output Time");
 
 /* Write the restart file */
       (*(rst_out.res_fun))(pM,&(rst_out));
diff --git a/src/par.c b/src/par.c
index ce1f19e..d48b106 100644
--- a/src/par.c
+++ b/src/par.c
@@ -328,7 +328,7 @@ double par_getd_def(char *block, char *name, double def)
     return atof(pp);
   }
 
-  par_setd(block,name,"%.15e",def,"Default Value");
+  par_setd(block,name,"%.16e",def,"Default Value");
   return def;
 }
 
-- 
2.43.0


From 48741e43bcb5724bf71e8a6377def63d984b2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:38 +0000
Subject: [PATCH 27/64] fix: options without their argument, malformed
 wall-time limits and over-long problem_id crashed

---
 src/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1825f58..e9a9a89 100644
--- a/src/main.c
+++ b/src/main.c
@@ -144,6 +144,8 @@ int main(int argc, char *argv[])
   for (i=1; i<argc; i++) {
 /* If argv[i] is a 2 character string of the form "-?" then: */
     if(*argv[i] == '-'  && *(argv[i]+1) != '\0' && *(argv[i]+2) == '\0'){
+      if(i+1 == argc && strchr("irdt",*(argv[i]+1)) != NULL)
+	ath_error("[main]: option %s needs an argument\n",argv[i]);
       switch(*(argv[i]+1)) {
       case 'i':                      /* -i <file>   */
 	athinput = argv[++i];
@@ -170,7 +172,8 @@ int main(int argc, char *argv[])
 #ifdef MPI_PARALLEL
       case 't':                      /* -t hh:mm:ss */
 	use_wtlim = 1; /* Logical to use a wall time limit */
-	sscanf(argv[++i],"%d:%d:%d",&h,&m,&s);
+	if(sscanf(argv[++i],"%d:%d:%d",&h,&m,&s) != 3)
+	  ath_error("[main]: wall time limit %s is not hh:mm:ss\n",argv[i]);
 	wtend = MPI_Wtime() + s + 60*(m + 60*h);
 	printf("Wall time limit: %d hrs, %d min, %d sec\n",h,m,s);
 	break;
@@ -209,6 +212,8 @@ int main(int argc, char *argv[])
 
   if(myID_Comm_world != 0){
     name = par_gets("job","problem_id");
+    if(strlen(name) + 16 > MAXLEN)
+      ath_error("[main]: problem_id length = %d is too large\n",(int)strlen(name));
     sprintf(new_name,"%s-id%d",name,myID_Comm_world);
     free(name);
     par_sets("job","problem_id",new_name,NULL);
-- 
2.43.0


From 2da5a0eeac4f0651d7cf93ae14bd3aa16a2868fe Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:44:20 +0000
Subject: [PATCH 28/64] fix: history averages were scaled by the extent of the
 ignored dimensions in 1D and 2D runs

---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 5bb6f7c..fae74f0 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -174,8 +174,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
             for (i=is; i<=ie; i++) {
               dVol = 1.0; 
               if (pG->dx1 > 0.0) dVol *= pG->dx1;
-              if (pG->dx2 > 0.0) dVol *= pG->dx2;
-              if (pG->dx3 > 0.0) dVol *= pG->dx3;
+              if (pG->Nx[1] > 1) dVol *= pG->dx2;
+              if (pG->Nx[2] > 1) dVol *= pG->dx3;
 #ifndef SPECIAL_RELATIVITY
 #ifdef CYLINDRICAL
               cc_pos(pG,i,j,k,&x1,&x2,&x3);
-- 
2.43.0


From ff2ed7d50f34d11f167a757533b5a390dba2bb06 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:44:20 +0000
Subject: [PATCH 29/64] fix: zone indices ran together in tab dumps when they
 had more digits than the Grid size

---
 src/dump_tab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index 4e7843f..a5de59b 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -97,6 +97,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
 
         nmax =  pG->Nx[0] > pG->Nx[1]  ? pG->Nx[0] : pG->Nx[1];
         nmax = (pG->Nx[2] > nmax ? pG->Nx[2] : nmax);
+        nmax += 2*nghost;  /* indices count the ghost zones */
 
 #ifdef WRITE_GHOST_CELLS
         iu = pG->ie + nghost;
@@ -111,7 +112,6 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           ku = pG->ke + nghost;
           kl = pG->ks - nghost;
         }
-        nmax += 2*nghost;
 #endif
         sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
 
@@ -349,6 +349,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
 
         nmax =  pG->Nx[0] > pG->Nx[1]  ? pG->Nx[0] : pG->Nx[1];
         nmax = (pG->Nx[2] > nmax ? pG->Nx[2] : nmax);
+        nmax += 2*nghost;  /* indices count the ghost zones */
 
 #ifdef WRITE_GHOST_CELLS
         iu = pG->ie + nghost;
@@ -363,7 +364,6 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           ku = pG->ke + nghost;
           kl = pG->ks - nghost;
         }
-        nmax += 2*nghost;
 #endif
         sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
 
-- 
2.43.0


From 9ab73eeaef89e08738d70f8b2b403997a9ec04a7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 30/64] fix: single-variable vtk slices along x1 or x2 were
 given the coordinates of other axes

---
 src/output_vtk.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/output_vtk.c b/src/output_vtk.c
index eee6d5c..302d13e 100644
--- a/src/output_vtk.c
+++ b/src/output_vtk.c
@@ -145,7 +145,14 @@ static void output_vtk_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
   dx3 = (pOut->reduce_x3 == 1 ? pGrid->dx3 * pGrid->Nx[2] : pGrid->dx3);
 
   fprintf(pfile,"DATASET STRUCTURED_POINTS\n");
-  fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,nx2+1,1);
+/* the axis along which data was reduced has no extent */
+  if (pGrid->Nx[2] > 1 && pOut->reduce_x3 == 0 && pOut->reduce_x1 == 1) {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",1,nx1+1,nx2+1);
+  } else if (pGrid->Nx[2] > 1 && pOut->reduce_x3 == 0) {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,1,nx2+1);
+  } else {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,nx2+1,1);
+  }
   fprintf(pfile,"ORIGIN %e %e %e \n",x1,x2,x3);
   fprintf(pfile,"SPACING %e %e %e \n",dx1,dx2,dx3);
 
-- 
2.43.0


From 2e67c1e816ba8efe75ced0f83b26e1bfc0b8c983 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 31/64] fix: V1, V2, V3, P, cs2 and S outputs used Newtonian
 formulas in special relativity

---
 src/output.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/output.c b/src/output.c
index 00d8307..d69c608 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1166,17 +1166,29 @@ Real expr_ME(const GridS *pG, const int i, const int j, const int k) {
 /*! \fn Real expr_V1(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 1-velocity */
 Real expr_V1(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  return Cons_to_Prim(&(pG->U[k][j][i])).V1;
+#else
   return pG->U[k][j][i].M1/pG->U[k][j][i].d;
+#endif /* SPECIAL_RELATIVITY */
 }
 /*! \fn Real expr_V2(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 2-velocity */
 Real expr_V2(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  return Cons_to_Prim(&(pG->U[k][j][i])).V2;
+#else
   return pG->U[k][j][i].M2/pG->U[k][j][i].d;
+#endif /* SPECIAL_RELATIVITY */
 }
 /*! \fn Real expr_V3(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 3-velocity */
 Real expr_V3(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  return Cons_to_Prim(&(pG->U[k][j][i])).V3;
+#else
   return pG->U[k][j][i].M3/pG->U[k][j][i].d;
+#endif /* SPECIAL_RELATIVITY */
 }
 
 /*! \fn Real expr_P(const GridS *pG, const int i, const int j, const int k) 
@@ -1184,6 +1196,8 @@ Real expr_V3(const GridS *pG, const int i, const int j, const int k) {
 Real expr_P(const GridS *pG, const int i, const int j, const int k) {
 #ifdef ISOTHERMAL
   return  pG->U[k][j][i].d*Iso_csound2;
+#elif defined(SPECIAL_RELATIVITY)
+  return Cons_to_Prim(&(pG->U[k][j][i])).P;
 #else
   ConsS *gp = &(pG->U[k][j][i]);
   return Gamma_1*(gp->E 
@@ -1201,12 +1215,17 @@ Real expr_P(const GridS *pG, const int i, const int j, const int k) {
 #ifdef ADIABATIC
 Real expr_cs2(const GridS *pG, const int i, const int j, const int k)
 {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return Gamma*W.P/(W.d + Gamma/Gamma_1*W.P);
+#else
   ConsS *gp = &(pG->U[k][j][i]);
   return (Gamma*Gamma_1*(gp->E 
 #ifdef MHD
 	  - 0.5*(gp->B1c*gp->B1c + gp->B2c*gp->B2c + gp->B3c*gp->B3c)
 #endif /* MHD */
 	  - 0.5*(gp->M1*gp->M1 + gp->M2*gp->M2 + gp->M3*gp->M3)/gp->d)/gp->d);
+#endif /* SPECIAL_RELATIVITY */
 }
 #endif /* ADIABATIC */
 
@@ -1217,6 +1236,10 @@ Real expr_cs2(const GridS *pG, const int i, const int j, const int k)
 #ifdef ADIABATIC
 Real expr_S(const GridS *pG, const int i, const int j, const int k)
 {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.P/pow((double)W.d, (double)Gamma);
+#else
   ConsS *gp = &(pG->U[k][j][i]);
   Real P = Gamma_1*(gp->E 
 #ifdef MHD
@@ -1224,6 +1247,7 @@ Real expr_S(const GridS *pG, const int i, const int j, const int k)
 #endif /* MHD */
 		   - 0.5*(gp->M1*gp->M1 + gp->M2*gp->M2 + gp->M3*gp->M3)/gp->d);
   return P/pow((double)gp->d, (double)Gamma);
+#endif /* SPECIAL_RELATIVITY */
 }
 #endif /* ADIABATIC */
 
-- 
2.43.0


From 585e5636e6f249fecc1bcdd5c17bc9a42f470820 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 32/64] fix: particle history and list outputs changed the
 binned particles of later outputs

---
 src/output.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/output.c b/src/output.c
index d69c608..4dbc99c 100644
--- a/src/output.c
+++ b/src/output.c
@@ -483,8 +483,6 @@ void data_output(MeshS *pM, const int flag)
 {
 #ifdef PARTICLES
   DomainS *pD = &(pM->Domain[0][0]);
-  GridS *pG = pD->Grid;
-  PropFun_t mypar_prop = NULL;
 #endif
   int n;
   char block[80];
@@ -544,10 +542,7 @@ void data_output(MeshS *pM, const int flag)
 
 #ifdef PARTICLES
       if (OutArray[n].out_pargrid == 1)      /* binned particles are output */
-        if (OutArray[n].par_prop != mypar_prop) {
-          particle_to_grid(pD, OutArray[n].par_prop);
-          mypar_prop = OutArray[n].par_prop;
-        }
+        particle_to_grid(pD, OutArray[n].par_prop);
 #endif
       (*OutArray[n].out_fun)(pM,&(OutArray[n]));
 
-- 
2.43.0


From 701d248c87c3562e3b19bfff9fefc318983328cd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 33/64] fix: binary dumps of primitives announced particle data
 they do not contain

---
 src/dump_binary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index 1cb2d6b..882db2a 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -129,7 +129,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
         ndata[5] = 0;
 #endif
 #ifdef PARTICLES
-        ndata[6] = 1;
+        ndata[6] = pOut->out_pargrid;
 #else
         ndata[6] = 0;
 #endif
-- 
2.43.0


From de776ff56b7d4ada275a83ddc07d6ee49c9c185b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 34/64] fix: vtk dumps had a garbage ORIGIN in single precision

---
 src/dump_vtk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 0899632..070c558 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -37,7 +37,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
   int big_end = ath_big_endian();
   int ndata0,ndata1,ndata2;
   float *data;   /* points to 3*ndata0 allocated floats */
-  double x1, x2, x3;
+  Real x1, x2, x3;
 #if (NSCALARS > 0)
   int n;
 #endif
-- 
2.43.0


From e518dd73cdf349cf62c5bf5073a883feac23fbe3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 35/64] fix: open lower x3 boundary removed particles inside
 the domain

---
 src/particles/init_particle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles/init_particle.c b/src/particles/init_particle.c
index 0ea55fa..56cf48a 100644
--- a/src/particles/init_particle.c
+++ b/src/particles/init_particle.c
@@ -282,12 +282,12 @@ void grid_limit(MeshS *pM)
     x2upar = pG->MaxX[1];
 
   if ((pM->BCFlag_ix3 == 2) && (my_kproc == 0))
-    x3lpar = pG->MinX[2] + (nghost-1)*m3*pG->dx3;
+    x3lpar = pG->MinX[2] - (nghost-1)*m3*pG->dx3;
   else
     x3lpar = pG->MinX[2];
 
   if ((pM->BCFlag_ox3 == 2) && (my_kproc == pD->NGrid[2]-1))
-    x3upar = pG->MaxX[2] + (nghost-1)*m2*pG->dx3;
+    x3upar = pG->MaxX[2] + (nghost-1)*m3*pG->dx3;
   else
     x3upar = pG->MaxX[2];
 
-- 
2.43.0


From 86e774754ccc9069120e6ee7da1532ab3e793b94 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:41:23 +0000
Subject: [PATCH 36/64] fix: particles were not mirrored at a reflecting lower
 x3 boundary

---
 src/particles/bvals_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 32553ad..6a36514 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1532,7 +1532,7 @@ static void reflect_ix3_particle(GridS *pG)
   /* apply reflection boundary condition */
   for (p=n0; p<pG->nparticle; p++)
   {
-    pG->particle[p].x3 = pG->MinX[2] - pG->particle[p].x3;
+    pG->particle[p].x3 = 2.0*pG->MinX[2] - pG->particle[p].x3;
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
-- 
2.43.0


From f8c92fa2e4157b49938226ec871df1eef13a3c42 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:51:07 +0000
Subject: [PATCH 37/64] fix: particles leaving a shearing-box corner could be
 sent to the wrong process and lost

---
 src/particles/bvals_particle.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 6a36514..c3bc285 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -2435,6 +2435,7 @@ static long packing_ix1_particle_shear(GridS *pG, int reg, long numpar)
   /* x2c: y-coordinate marking the demarcation of the two regions */
   Real x20, x2c;
   double *pd;
+  Real x2len, x2shift;	/* x2 size of a Grid, shift of the packed particles */
 
 /*---------------- Step.1 -----------------------*/
   /* get the distance of shear */
@@ -2443,6 +2444,12 @@ static long packing_ix1_particle_shear(GridS *pG, int reg, long numpar)
   x20 = pG->MaxX[1];
   x2c = x20 - fmod(yshear, pG->dx2*pG->Nx[1]);
 
+  /* periodic in x2 if the Grid that gets the particles is beyond x2max */
+  x2len = pG->dx2*pG->Nx[1];
+  x2shift = yshift;
+  if (x20 + ((int)(yshift/x2len) + (reg == 1 ? 1 : 0) - 0.5)*x2len > x2max)
+    x2shift -= Lx2;
+
   /* get coordinate limits for particles to be packed*/
   ix1b = pG->MinX[0];
 
@@ -2461,8 +2468,8 @@ static long packing_ix1_particle_shear(GridS *pG, int reg, long numpar)
 
       if (((reg == 1) && (gr->x2 >= x2c)) || ((reg == 2) && (gr->x2 < x2c)))
       {         /* region I */                      /* region II */
-        /* apply the shift */
-        gr->x2 = x2min + fmod(gr->x2 - x2min + yshift, Lx2);
+        /* apply the shift, relative to the Grid which gets the particle */
+        gr->x2 += x2shift;
 
         /* pack the particle */
         packing_one_particle(gr, n, gr->pos);
@@ -2502,6 +2509,7 @@ static long packing_ox1_particle_shear(GridS *pG, int reg, long numpar)
   /* x2c: y-coordinate marking the demarcation of the two regions */
   Real x20, x2c;
   double *pd;
+  Real x2len, x2shift;	/* x2 size of a Grid, shift of the packed particles */
 
 /*---------------- Step.1 -----------------------*/
   /* get the distance of shear */
@@ -2510,6 +2518,12 @@ static long packing_ox1_particle_shear(GridS *pG, int reg, long numpar)
   x20 = pG->MinX[1];
   x2c = x20 + fmod(yshear, pG->dx2*pG->Nx[1]);
 
+  /* periodic in x2 if the Grid that gets the particles is beyond x2min */
+  x2len = pG->dx2*pG->Nx[1];
+  x2shift = -yshift;
+  if (x20 - ((int)(yshift/x2len) + (reg == 1 ? 1 : 0) - 0.5)*x2len < x2min)
+    x2shift += Lx2;
+
   /* get coordinate limits for particles to be packed*/
   ox1b = pG->MaxX[0];
 
@@ -2529,8 +2543,8 @@ static long packing_ox1_particle_shear(GridS *pG, int reg, long numpar)
       if (((reg == 1) && (gr->x2 < x2c)) || ((reg == 2) && (gr->x2 >= x2c)))
       {         /* region I */                      /* region II */
 
-        /* apply the shift */
-        gr->x2 = x2min + fmod(gr->x2 - x2min + Lx2 - yshift, Lx2);
+        /* apply the shift, relative to the Grid which gets the particle */
+        gr->x2 += x2shift;
 
         /* pack the particle */
         packing_one_particle(gr, n, gr->pos);
-- 
2.43.0


From 1c269bbfaaaabb2a4ab225de9892d1c5f91018c6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 01:53:10 +0000
Subject: [PATCH 38/64] fix: particles crossing a periodic or reflecting face
 within round-off were lost

---
 src/particles/bvals_particle.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index c3bc285..330f737 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -122,6 +122,7 @@ static long packing_ox3_particle(GridS *pG, int nlayer);
 static void packing_one_particle(GrainS *gr, long n, short pos);
 static void shift_packed_particle(double *buf, long n, int index, double shift);
 static void unpack_particle(GridS *pG, double *buf, long n);
+static Real just_below(Real x);
 
 #ifdef SHEARING_BOX
 static void shearingbox_ix1_particle(GridS *pG, DomainS *pD, long numpar);
@@ -1452,6 +1453,8 @@ static void reflect_ox1_particle(GridS *pG)
   for (p=n0; p<pG->nparticle; p++)
   {
     pG->particle[p].x1 = 2.0*pG->MaxX[0] - pG->particle[p].x1;
+    if (pG->particle[p].x1 >= pG->MaxX[0])
+      pG->particle[p].x1 = just_below(pG->MaxX[0]);
     pG->particle[p].v1 = -pG->particle[p].v1;
   }
 
@@ -1506,6 +1509,8 @@ static void reflect_ox2_particle(GridS *pG)
   for (p=n0; p<pG->nparticle; p++)
   {
     pG->particle[p].x2 = 2.0*pG->MaxX[1] - pG->particle[p].x2;
+    if (pG->particle[p].x2 >= pG->MaxX[1])
+      pG->particle[p].x2 = just_below(pG->MaxX[1]);
     pG->particle[p].v2 = -pG->particle[p].v2;
   }
 
@@ -1561,6 +1566,8 @@ static void reflect_ox3_particle(GridS *pG)
   for (p=n0; p<pG->nparticle; p++)
   {
     pG->particle[p].x3 = 2.0*pG->MaxX[2] - pG->particle[p].x3;
+    if (pG->particle[p].x3 >= pG->MaxX[2])
+      pG->particle[p].x3 = just_below(pG->MaxX[2]);
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
@@ -2107,11 +2114,38 @@ static void unpack_particle(GridS *pG, double *buf, long n)
 #ifdef MPI_PARALLEL
     gr->init_id = (int)(*(pd++));
 #endif
+
+    /* A particle which has just crossed a face can be put on or beyond the
+     * same face of its new Grid by round-off: keep it inside */
+    switch (gr->pos) {
+      case 11: if (gr->x1 >= pG->MaxX[0]) gr->x1 = just_below(pG->MaxX[0]);
+               break;
+      case 21: gr->x1 = MAX(gr->x1, pG->MinX[0]);  break;
+      case 12: if (gr->x2 >= pG->MaxX[1]) gr->x2 = just_below(pG->MaxX[1]);
+               break;
+      case 22: gr->x2 = MAX(gr->x2, pG->MinX[1]);  break;
+      case 13: if (gr->x3 >= pG->MaxX[2]) gr->x3 = just_below(pG->MaxX[2]);
+               break;
+      case 23: gr->x3 = MAX(gr->x3, pG->MinX[2]);  break;
+      default: break;
+    }
   }
 
   return;
 }
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static Real just_below(Real x)
+ *  \brief Largest number smaller than x */
+static Real just_below(Real x)
+{
+#ifdef SINGLE_PREC
+  return nextafterf(x, -HUGE_NUMBER);
+#else
+  return nextafter(x, -HUGE_NUMBER);
+#endif
+}
+
 #ifdef SHEARING_BOX
 /*----------------------------------------------------------------------------*/
 /*! \fn static void shearingbox_ix1_particle(GridS *pG, DomainS *pD,long numpar)
-- 
2.43.0


From d2e0ab40262fc2f11edf536ba08879ad61e12aee Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:15:15 +0000
Subject: [PATCH 39/64] fix: HLLD flux was NaN where the fast and slow speeds
 coincide

---
 src/rsolvers/hlld.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rsolvers/hlld.c b/src/rsolvers/hlld.c
index a9c7f5f..24f86a1 100644
--- a/src/rsolvers/hlld.c
+++ b/src/rsolvers/hlld.c
@@ -100,8 +100,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   gpbl = gpl + 2.0*pbl;
   gpbr = gpr + 2.0*pbr;
 
-  cfl = sqrt((gpbl + sqrt(SQR(gpbl)-4.0*gpl*Bxsq))/(2.0*Wl.d));
-  cfr = sqrt((gpbr + sqrt(SQR(gpbr)-4.0*gpr*Bxsq))/(2.0*Wr.d));
+  cfl = sqrt((gpbl + sqrt(MAX(SQR(gpbl)-4.0*gpl*Bxsq,0.0)))/(2.0*Wl.d));
+  cfr = sqrt((gpbr + sqrt(MAX(SQR(gpbr)-4.0*gpr*Bxsq,0.0)))/(2.0*Wr.d));
   cfmax = MAX(cfl,cfr);
 
   if(Wl.Vx <= Wr.Vx) {
@@ -453,8 +453,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   gpbl = gpl + 2.0*pbl;
   gpbr = gpr + 2.0*pbr;
 
-  cfl = sqrt((gpbl + sqrt(SQR(gpbl)-4.0*gpl*Bxsq))/(2.0*Wl.d));
-  cfr = sqrt((gpbr + sqrt(SQR(gpbr)-4.0*gpr*Bxsq))/(2.0*Wr.d));
+  cfl = sqrt((gpbl + sqrt(MAX(SQR(gpbl)-4.0*gpl*Bxsq,0.0)))/(2.0*Wl.d));
+  cfr = sqrt((gpbr + sqrt(MAX(SQR(gpbr)-4.0*gpr*Bxsq,0.0)))/(2.0*Wr.d));
 
   spd[0] = MIN(Wl.Vx-cfl,Wr.Vx-cfr);
   spd[4] = MAX(Wl.Vx+cfl,Wr.Vx+cfr);
-- 
2.43.0


From d5d383d639d06aef700b1b14dfa2d2ea4869fd5c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 40/64] fix: Roe pressure flux of supersonic leftward flow took
 the left pressure (cylindrical)

---
 src/rsolvers/roe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/roe.c b/src/rsolvers/roe.c
index 631540a..9143be8 100644
--- a/src/rsolvers/roe.c
+++ b/src/rsolvers/roe.c
@@ -223,7 +223,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   if(ev[NWAVE-1] <= 0.0){
     *pFlux = Fr;
 #if defined(CYLINDRICAL) && !defined(BAROTROPIC)
-    pFlux->Pflux = Wl.P;
+    pFlux->Pflux = Wr.P;
 #ifdef MHD
     pFlux->Pflux += pbr;
 #endif /* MHD */
-- 
2.43.0


From d0ab94b8d1578abc53bdb32f845791f65981dfda Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 41/64] fix: relativistic exact solver picked the side of a
 contact from an uninitialised variable

---
 src/rsolvers/exact_sr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/exact_sr.c b/src/rsolvers/exact_sr.c
index 5ee4f10..5e008f8 100644
--- a/src/rsolvers/exact_sr.c
+++ b/src/rsolvers/exact_sr.c
@@ -114,7 +114,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
  
   /* check if intial data states are the same */
   if ((fabs(Wl.P-Wr.P) <= TOL)  && (fabs(Wl.Vx-Wr.Vx) <= TOL)) {  
-    if (vxc >= 0.0) {
+    if (Wl.Vx >= 0.0) {
       setFluxes(Wl.Vx, Wl.Vy, Wl.Vz, Wl.P, Wl.d, pF);
       return; 
     }
-- 
2.43.0


From 3395892df811d500a415a2b2c1ca5a2689c7a617 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 42/64] fix: relativistic exact solver used the isentropic
 density behind shocks for the tangential velocity

---
 src/rsolvers/exact_sr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/exact_sr.c b/src/rsolvers/exact_sr.c
index 5e008f8..60971b7 100644
--- a/src/rsolvers/exact_sr.c
+++ b/src/rsolvers/exact_sr.c
@@ -768,7 +768,7 @@ void getVelT_Shock(const Prim1DS Wa, Real P, Real vxb, Real *pVy, Real *pVz)
   
   Ay = ha*Ga*Wa.Vy;
   Az = ha*Ga*Wa.Vz; 
-  db = Wa.d*pow((double)(P/Wa.P), (double) (1.0/Gamma));
+  getShockVars(Wa, P, 'L', NULL, NULL, &db); /* density is the same for both dir */
   hb =  1.0 + Gamma*P/((Gamma-1.0)*db);  
 
   Cz = Az*Az/(hb*hb+Az*Az);
-- 
2.43.0


From 151b56bb98cafa2e374fa0fba83f79bc9ce583e5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 43/64] fix: relativistic hydrodynamic inversion returned zero
 or wrong velocities for slow flow of hot gas

---
 src/convert_var.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/convert_var.c b/src/convert_var.c
index 3ea756b..9a0fafe 100644
--- a/src/convert_var.c
+++ b/src/convert_var.c
@@ -554,6 +554,8 @@ Prim1DS Cons1D_to_Prim1D(const Cons1DS *U, const Real *Bx)
   Real i1, i2, i3;
   Real iR, iS, iT;
   Real ix1=0.0, iB, iC, v, vOverM;
+  Real root, fv, dfv, dv;
+  int n;
 
   /* Step One: Reduce equations to a quartic polynomial in v */
 
@@ -603,6 +605,20 @@ Prim1DS Cons1D_to_Prim1D(const Cons1DS *U, const Real *Bx)
     iC = 0.5*(ix1 - sqrt(SQR(ix1) - 4.0*a0));
     v = (-iB + sqrt(SQR(iB) - 4.0*iC))/2.0;
 
+    /* The analytic root suffers from cancellation (and may be NaN), e.g. for slow
+     * flow of hot gas: polish it with Newton steps on M = (E + P(v))v, in which
+     * P(v) = Gamma_1*(E - M*v - D*sqrt(1-v^2)) */
+
+    if (!(v >= 0.0 && v < 1.0)) v = MIN(M/U->E, 1.0 - 1.0e-15);
+    for (n=0; n<20; n++) {
+      root = sqrt(1.0 - SQR(v));
+      fv  = (U->E + Gamma_1*(U->E - M*v - U->d*root))*v - M;
+      dfv = U->E + Gamma_1*(U->E - 2.0*M*v - U->d*root + U->d*SQR(v)/root);
+      dv = fv/dfv;
+      v = MIN(MAX(v - dv, 0.0), 1.0 - 1.0e-15);
+      if (fabs(dv) < 1.0e-15) break;
+    }
+
   }
 
   /* Step Three: Resolve primitives with the value of v */
-- 
2.43.0


From 5521571e69b6cdb3404b753230c39949c1761b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:39 +0000
Subject: [PATCH 44/64] fix: ath_bswap swapped only one item when the item
 length was not 1, 2, 4 or 8

---
 src/utils.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 6d52fd7..375b20c 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -101,10 +101,13 @@ void ath_bswap(void *vdat, int len, int cnt)
       dat += 8;
     }
   else {  /* the general SLOOOOOOOOOW case */
-    for(k=0; k<len/2; k++) {
-      tmp = dat[k];
-      dat[k] = dat[len-1-k];
-      dat[len-1-k] = tmp;
+    while (cnt--) {
+      for(k=0; k<len/2; k++) {
+        tmp = dat[k];
+        dat[k] = dat[len-1-k];
+        dat[len-1-k] = tmp;
+      }
+      dat += len;
     }
   }
 }
-- 
2.43.0


From 629096da109bfd885d446a3d43debb9b45cc0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:39 +0000
Subject: [PATCH 45/64] fix: odeint stored the intermediate results shifted by
 one, reading past the end of y

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 375b20c..efba79f 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -793,7 +793,7 @@ void odeint(Real ystart[], int nvar, Real x1, Real x2, Real eps, Real h1,
     if (kmax > 0 && *kount < kmax-1 && fabs(x-xsav) > fabs(dxsav)) {  /* Store intermediate results. */
       xp[++(*kount)] = x;
       for (i=1; i<=nvar; i++)
-        yp[i][*kount] = y[i];
+        yp[i][*kount] = y[i-1];
       xsav = x;
     }
     if ((x+h-x2)*(x+h-x1) > 0.0)  /* If stepsize can overshoot, decrease. */
@@ -809,7 +809,7 @@ void odeint(Real ystart[], int nvar, Real x1, Real x2, Real eps, Real h1,
       if (kmax) {
         xp[++(*kount)] = x;  /* Save final step. */
         for (i=1; i<=nvar; i++)
-          yp[i][*kount] = y[i];
+          yp[i][*kount] = y[i-1];
       }
       if (dydx  != NULL) free_1d_array(dydx);
       if (y     != NULL) free_1d_array(y);
-- 
2.43.0


From 7f206678601e757581e80e54e9d7b5c7960e58e6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:58:55 +0000
Subject: [PATCH 46/64] fix: 2D anisotropic conduction ignored the out-of-plane
 field when normalising the field direction

---
 src/microphysics/conduction.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/conduction.c b/src/microphysics/conduction.c
index 1e78ffe..a26f6bd 100644
--- a/src/microphysics/conduction.c
+++ b/src/microphysics/conduction.c
@@ -249,7 +249,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         By = 0.5*(pG->U[k][j][i-1].B2c + pG->U[k][j][i].B2c);
-        B02 = SQR(pG->B1i[k][j][i]) + SQR(By);
+        Bz = 0.5*(pG->U[k][j][i-1].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(pG->B1i[k][j][i]) + SQR(By) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
         bDotGradT = pG->B1i[k][j][i]*(Temp[k][j][i]-Temp[k][j][i-1])/pG->dx1
            + By*dTdy;
@@ -297,7 +298,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         Bx = 0.5*(pG->U[k][j-1][i].B1c + pG->U[k][j][i].B1c);
-        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]);
+        Bz = 0.5*(pG->U[k][j-1][i].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
 
         bDotGradT = pG->B2i[k][j][i]*(Temp[k][j][i]-Temp[k][j-1][i])/pG->dx2
-- 
2.43.0


From dfa5edb5ad3d50ce60b5cee158a8b6e2663032fb Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:58:55 +0000
Subject: [PATCH 47/64] fix: resistivity changed B under anisotropic viscosity,
 breaking momentum conservation at Grid boundaries

---
 src/microphysics/integrate_diffusion.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/microphysics/integrate_diffusion.c b/src/microphysics/integrate_diffusion.c
index c49d785..49954c1 100644
--- a/src/microphysics/integrate_diffusion.c
+++ b/src/microphysics/integrate_diffusion.c
@@ -30,7 +30,8 @@ void integrate_diff(MeshS *pM)
   int nl,nd;
 
 /* Call diffusion operators across Mesh hierarchy.
- * Conduction must be called first to avoid an extra call to bval_mhd().  */
+ * Conduction must be called first, and resistivity last (anisotropic viscosity
+ * needs B), to avoid an extra call to bval_mhd().  */
 
   for (nl=0; nl<(pM->NLevels); nl++){
     for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
@@ -41,14 +42,14 @@ void integrate_diff(MeshS *pM)
         conduction(&(pM->Domain[nl][nd]));
 #endif
 
-#ifdef RESISTIVITY
-        resistivity(&(pM->Domain[nl][nd]));
-#endif
-
 #ifdef VISCOSITY
         viscosity(&(pM->Domain[nl][nd]));
 #endif
 
+#ifdef RESISTIVITY
+        resistivity(&(pM->Domain[nl][nd]));
+#endif
+
       }
     }
   }
-- 
2.43.0


From 8689d082cd93ca942ab609657aa8728850b819b9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 02:58:55 +0000
Subject: [PATCH 48/64] fix: viscosity did not compile with MHD, and
 anisotropic stress overwrote the isotropic x1 energy flux

---
 src/microphysics/viscosity.c | 146 +++++++++++++++++------------------
 1 file changed, 73 insertions(+), 73 deletions(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 3ec0ef3..9af96c1 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -354,50 +354,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie+1; i++) {
 
       /* Monotonized Velocity gradient dVx/dy */
-      dVxdy = limiter4(Vel[k][j+1][i  ].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j+1][i-1].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j  ][i-1].x - Vel[k][j-1][i-1].x);
+      dVxdy = limiter4(Vel[k][j+1][i  ].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j+1][i-1].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j  ][i-1].x1 - Vel[k][j-1][i-1].x1);
       dVxdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVy/dy */
-      dVydy = limiter4(Vel[k][j+1][i  ].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j+1][i-1].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j  ][i-1].y - Vel[k][j-1][i-1].y);
+      dVydy = limiter4(Vel[k][j+1][i  ].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j+1][i-1].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j  ][i-1].x2 - Vel[k][j-1][i-1].x2);
       dVydy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVz/dy */
-      dVzdy = limiter4(Vel[k][j+1][i  ].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j+1][i-1].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j  ][i-1].z - Vel[k][j-1][i-1].z);
+      dVzdy = limiter4(Vel[k][j+1][i  ].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j+1][i-1].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j  ][i-1].x3 - Vel[k][j-1][i-1].x3);
       dVzdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVx/dz, 3D problem ONLY */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j][i  ].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k-1][j][i  ].x,
-                         Vel[k+1][j][i-1].x - Vel[k  ][j][i-1].x,
-                         Vel[k  ][j][i-1].x - Vel[k-1][j][i-1].x);
+        dVxdz = limiter4(Vel[k+1][j][i  ].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k+1][j][i-1].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k  ][j][i-1].x1 - Vel[k-1][j][i-1].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz = limiter4(Vel[k+1][j][i  ].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k-1][j][i  ].y,
-                         Vel[k+1][j][i-1].y - Vel[k  ][j][i-1].y,
-                         Vel[k  ][j][i-1].y - Vel[k-1][j][i-1].y);
+        dVydz = limiter4(Vel[k+1][j][i  ].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k+1][j][i-1].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k  ][j][i-1].x2 - Vel[k-1][j][i-1].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz = limiter4(Vel[k+1][j][i  ].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k-1][j][i  ].z,
-                         Vel[k+1][j][i-1].z - Vel[k  ][j][i-1].z,
-                         Vel[k  ][j][i-1].z - Vel[k-1][j][i-1].z);
+        dVzdz = limiter4(Vel[k+1][j][i  ].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k+1][j][i-1].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k  ][j][i-1].x3 - Vel[k-1][j][i-1].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -444,7 +444,7 @@ void ViscStress_aniso(DomainS *pD)
       x1Flux[k][j][i].Mz += VStress.Mz;
 
 #ifndef BAROTROPIC
-      x1Flux[k][j][i].E =
+      x1Flux[k][j][i].E +=
          0.5*(Vel[k][j][i-1].x1 + Vel[k][j][i].x1)*VStress.Mx +
          0.5*(Vel[k][j][i-1].x2 + Vel[k][j][i].x2)*VStress.My +
          0.5*(Vel[k][j][i-1].x3 + Vel[k][j][i].x3)*VStress.Mz;
@@ -459,50 +459,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie; i++) {
 
       /* Monotonized Velocity gradient dVx/dx */
-      dVxdx = limiter4(Vel[k][j  ][i+1].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j-1][i+1].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j-1][i  ].x - Vel[k][j-1][i-1].x);
+      dVxdx = limiter4(Vel[k][j  ][i+1].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j-1][i+1].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j-1][i  ].x1 - Vel[k][j-1][i-1].x1);
       dVxdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVy/dx */
-      dVydx = limiter4(Vel[k][j  ][i+1].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j-1][i+1].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j-1][i  ].y - Vel[k][j-1][i-1].y);
+      dVydx = limiter4(Vel[k][j  ][i+1].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j-1][i+1].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j-1][i  ].x2 - Vel[k][j-1][i-1].x2);
       dVydx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVz/dx */
-      dVzdx = limiter4(Vel[k][j  ][i+1].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j-1][i+1].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j-1][i  ].z - Vel[k][j-1][i-1].z);
+      dVzdx = limiter4(Vel[k][j  ][i+1].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j-1][i+1].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j-1][i  ].x3 - Vel[k][j-1][i-1].x3);
       dVzdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVx/dz */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j  ][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k+1][j-1][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k  ][j-1][i].x - Vel[k-1][j-1][i].x);
+        dVxdz = limiter4(Vel[k+1][j  ][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k+1][j-1][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k  ][j-1][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz =limiter4(Vel[k+1][j  ][i].y - Vel[k  ][j  ][i].y,
-                        Vel[k  ][j  ][i].y - Vel[k-1][j  ][i].y,
-                        Vel[k+1][j-1][i].y - Vel[k  ][j-1][i].y,
-                        Vel[k  ][j-1][i].y - Vel[k-1][j-1][i].y);
+        dVydz =limiter4(Vel[k+1][j  ][i].x2 - Vel[k  ][j  ][i].x2,
+                        Vel[k  ][j  ][i].x2 - Vel[k-1][j  ][i].x2,
+                        Vel[k+1][j-1][i].x2 - Vel[k  ][j-1][i].x2,
+                        Vel[k  ][j-1][i].x2 - Vel[k-1][j-1][i].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz =limiter4(Vel[k+1][j  ][i].z - Vel[k  ][j  ][i].z,
-                        Vel[k  ][j  ][i].z - Vel[k-1][j  ][i].z,
-                        Vel[k+1][j-1][i].z - Vel[k  ][j-1][i].z,
-                        Vel[k  ][j-1][i].z - Vel[k-1][j-1][i].z);
+        dVzdz =limiter4(Vel[k+1][j  ][i].x3 - Vel[k  ][j  ][i].x3,
+                        Vel[k  ][j  ][i].x3 - Vel[k-1][j  ][i].x3,
+                        Vel[k+1][j-1][i].x3 - Vel[k  ][j-1][i].x3,
+                        Vel[k  ][j-1][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -565,45 +565,45 @@ void ViscStress_aniso(DomainS *pD)
       for (i=is; i<=ie; i++) {
 
         /* Monotonized Velocity gradient dVx/dx */
-        dVxdx = limiter4(Vel[k  ][j][i+1].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k  ][j][i-1].x,
-                         Vel[k-1][j][i+1].x - Vel[k-1][j][i  ].x,
-                         Vel[k-1][j][i  ].x - Vel[k-1][j][i-1].x);
+        dVxdx = limiter4(Vel[k  ][j][i+1].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k-1][j][i+1].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k-1][j][i  ].x1 - Vel[k-1][j][i-1].x1);
         dVxdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVy/dx */
-        dVydx = limiter4(Vel[k  ][j][i+1].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k  ][j][i-1].y,
-                         Vel[k-1][j][i+1].y - Vel[k-1][j][i  ].y,
-                         Vel[k-1][j][i  ].y - Vel[k-1][j][i-1].y);
+        dVydx = limiter4(Vel[k  ][j][i+1].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k-1][j][i+1].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k-1][j][i  ].x2 - Vel[k-1][j][i-1].x2);
         dVydx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVz/dx */
-        dVzdx = limiter4(Vel[k  ][j][i+1].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k  ][j][i-1].z,
-                         Vel[k-1][j][i+1].z - Vel[k-1][j][i  ].z,
-                         Vel[k-1][j][i  ].z - Vel[k-1][j][i-1].z);
+        dVzdx = limiter4(Vel[k  ][j][i+1].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k-1][j][i+1].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k-1][j][i  ].x3 - Vel[k-1][j][i-1].x3);
         dVzdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVx/dy */
-        dVxdy = limiter4(Vel[k  ][j+1][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k-1][j+1][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k-1][j  ][i].x - Vel[k-1][j-1][i].x);
+        dVxdy = limiter4(Vel[k  ][j+1][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k-1][j+1][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k-1][j  ][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVy/dy */
-        dVydy = limiter4(Vel[k  ][j+1][i].y - Vel[k  ][j  ][i].y,
-                         Vel[k  ][j  ][i].y - Vel[k  ][j-1][i].y,
-                         Vel[k-1][j+1][i].y - Vel[k-1][j  ][i].y,
-                         Vel[k-1][j  ][i].y - Vel[k-1][j-1][i].y);
+        dVydy = limiter4(Vel[k  ][j+1][i].x2 - Vel[k  ][j  ][i].x2,
+                         Vel[k  ][j  ][i].x2 - Vel[k  ][j-1][i].x2,
+                         Vel[k-1][j+1][i].x2 - Vel[k-1][j  ][i].x2,
+                         Vel[k-1][j  ][i].x2 - Vel[k-1][j-1][i].x2);
         dVydy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVz/dy */
-        dVzdy = limiter4(Vel[k  ][j+1][i].z - Vel[k  ][j  ][i].z,
-                         Vel[k  ][j  ][i].z - Vel[k  ][j-1][i].z,
-                         Vel[k-1][j+1][i].z - Vel[k-1][j  ][i].z,
-                         Vel[k-1][j  ][i].z - Vel[k-1][j-1][i].z);
+        dVzdy = limiter4(Vel[k  ][j+1][i].x3 - Vel[k  ][j  ][i].x3,
+                         Vel[k  ][j  ][i].x3 - Vel[k  ][j-1][i].x3,
+                         Vel[k-1][j+1][i].x3 - Vel[k-1][j  ][i].x3,
+                         Vel[k-1][j  ][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdy /= pG->dx2;
         
 /* Compute field components at x3-interface */
-- 
2.43.0


From 5c47aede3a24df9e6f5b13f00a59fd31b9fca836 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 49/64] fix: multigrid gravity never converged: the coarse grid
 correction started from the potential itself

The coarse levels solve for a correction with the residual as source, but
Restriction_3d also copied the fine potential as the initial guess, so the
potential itself was (partly) added again and the V-cycle has no fixed point
at the solution of the Poisson equation.
---
 src/gravity/selfg_multigrid.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/gravity/selfg_multigrid.c b/src/gravity/selfg_multigrid.c
index eedbba3..e769dc2 100644
--- a/src/gravity/selfg_multigrid.c
+++ b/src/gravity/selfg_multigrid.c
@@ -443,7 +443,8 @@ void Jacobi(MGrid *pMG)
 
 /*----------------------------------------------------------------------------*/
 /*! \fn void Restriction_3d(MGrid *pMG_fine, MGrid *pMG_coarse) 
- *  \brief Averages fine grid solution onto coarse
+ *  \brief Averages fine grid residual onto coarse.  The coarse grid solves for
+ *   the correction, so its initial guess is zero (as allocated).
  */
 
 void Restriction_3d(MGrid *pMG_fine, MGrid *pMG_coarse)
@@ -472,11 +473,6 @@ void Restriction_3d(MGrid *pMG_fine, MGrid *pMG_coarse)
   for(k=ks; k<=pMG_coarse->ke; k++){
     for (j=js; j<=pMG_coarse->je; j++){
       for (i=is; i<=pMG_coarse->ie; i++){
-        pMG_coarse->Phi[k][j][i] =
-          (pMG_fine->Phi[2*k  ][2*j  ][2*i] + pMG_fine->Phi[2*k  ][2*j  ][2*i-1]
-         + pMG_fine->Phi[2*k  ][2*j-1][2*i] + pMG_fine->Phi[2*k  ][2*j-1][2*i-1]
-         + pMG_fine->Phi[2*k-1][2*j  ][2*i] + pMG_fine->Phi[2*k-1][2*j  ][2*i-1]
-         + pMG_fine->Phi[2*k-1][2*j-1][2*i] + pMG_fine->Phi[2*k-1][2*j-1][2*i-1])/8.0 ;
         pMG_coarse->rhs[k][j][i] =
            (error[2*k  ][2*j  ][2*i] + error[2*k  ][2*j  ][2*i-1]
           + error[2*k  ][2*j-1][2*i] + error[2*k  ][2*j-1][2*i-1]
-- 
2.43.0


From 00fa651162ad0a0975405d3d9c7decce7c0bfbc0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 50/64] fix: 2D self-gravity energy correction used the new
 potential twice in the x2 flux terms

---
 src/gravity/selfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/selfg.c b/src/gravity/selfg.c
index 4aee809..2b46ca3 100644
--- a/src/gravity/selfg.c
+++ b/src/gravity/selfg.c
@@ -175,7 +175,7 @@ void selfg_fc(DomainS *pD)
         phil_old = 0.5*(pG->Phi_old[ks][j-1][i] + pG->Phi_old[ks][j  ][i]);
         phir_old = 0.5*(pG->Phi_old[ks][j  ][i] + pG->Phi_old[ks][j+1][i]);
 
-        dphic = phic - pG->Phi[ks][j][i];
+        dphic = phic - pG->Phi_old[ks][j][i];
         dphil = phil - phil_old;
         dphir = phir - phir_old;
 
-- 
2.43.0


From aa2b516cf195c86a4a752423acde3304b05795fd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 03:11:09 +0000
Subject: [PATCH 51/64] fix: 1D self-gravity was wrong when the Domain was
 split over several MPI Grids

The periodic 1D Poisson recurrence was run on each Grid separately.
---
 src/gravity/selfg_fft.c | 51 +++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/gravity/selfg_fft.c b/src/gravity/selfg_fft.c
index c28d043..143936d 100644
--- a/src/gravity/selfg_fft.c
+++ b/src/gravity/selfg_fft.c
@@ -60,7 +60,16 @@ void selfg_fft_1d(DomainS *pD)
   int i, is = pG->is, ie = pG->ie;
   int js = pG->js;
   int ks = pG->ks;
-  Real total_Phi=0.0,drho,dx_sq = (pG->dx1*pG->dx1);
+  int n, nx = pD->Nx[0], disp = pG->Disp[0] - pD->Disp[0];
+  Real total_Phi=0.0,dx_sq = (pG->dx1*pG->dx1);
+  Real *drho,*Phi;
+#ifdef MPI_PARALLEL
+  int ierr;
+#endif
+
+  if ((drho = (Real*)calloc_1d_array(nx,sizeof(Real))) == NULL ||
+      (Phi  = (Real*)calloc_1d_array(nx,sizeof(Real))) == NULL)
+    ath_error("[selfg_fft_1d]: malloc returned a NULL pointer\n");
 
 /* Copy current potential into old */
 
@@ -68,33 +77,41 @@ void selfg_fft_1d(DomainS *pD)
     pG->Phi_old[ks][js][i] = pG->Phi[ks][js][i];
   }
 
-/* Compute new potential */
+/* The recurrence runs over the whole Domain, so collect the density on it */
 
-  pG->Phi[ks][js][is] = 0.0;
   for (i=is; i<=ie; i++) {
-    drho = (pG->U[ks][js][i].d - grav_mean_rho);
-    pG->Phi[ks][js][is] += ((float)(i-is+1))*four_pi_G*dx_sq*drho;
+    drho[i-is+disp] = (pG->U[ks][js][i].d - grav_mean_rho);
   }
-  pG->Phi[ks][js][is] /= (float)(pG->Nx[0]);
-
-  drho = (pG->U[ks][js][is].d - grav_mean_rho);
-  pG->Phi[ks][js][is+1] = 2.0*pG->Phi[ks][js][is] + four_pi_G*dx_sq*drho;
-  for (i=is+2; i<=ie; i++) {
-    drho = (pG->U[ks][js][i-1].d - grav_mean_rho);
-    pG->Phi[ks][js][i] = four_pi_G*dx_sq*drho 
-      + 2.0*pG->Phi[ks][js][i-1] - pG->Phi[ks][js][i-2];
+#ifdef MPI_PARALLEL
+  ierr = MPI_Allreduce(MPI_IN_PLACE,drho,nx,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
+  if (ierr) ath_error("[selfg_fft_1d]: MPI_Allreduce error = %d\n",ierr);
+#endif
+
+/* Compute new potential */
+
+  for (n=0; n<nx; n++) {
+    Phi[0] += ((float)(n+1))*four_pi_G*dx_sq*drho[n];
+  }
+  Phi[0] /= (float)(nx);
+
+  Phi[1] = 2.0*Phi[0] + four_pi_G*dx_sq*drho[0];
+  for (n=2; n<nx; n++) {
+    Phi[n] = four_pi_G*dx_sq*drho[n-1] + 2.0*Phi[n-1] - Phi[n-2];
   }
 
 /* Normalize so mean Phi is zero */
 
-  for (i=is; i<=ie; i++) {
-    total_Phi += pG->Phi[ks][js][i];
+  for (n=0; n<nx; n++) {
+    total_Phi += Phi[n];
   }
-  total_Phi /= (float)(pG->Nx[0]);
+  total_Phi /= (float)(nx);
 
   for (i=is; i<=ie; i++) {
-    pG->Phi[ks][js][i] -= total_Phi;
+    pG->Phi[ks][js][i] = Phi[i-is+disp] - total_Phi;
   }
+
+  free_1d_array(drho);
+  free_1d_array(Phi);
 }
 
 /*----------------------------------------------------------------------------*/
-- 
2.43.0


From 5c1f6ad862d81d507ac73b0671287bb6b05ded83 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 03:44:30 +0000
Subject: [PATCH 52/64] fix: join_vtk silently joined files that do not tile a
 box, and truncated files

Files that are missing, repeated or of another dump could be joined into a
wrong picture with exit status 0, as could files cut in the header or between
two variables.
---
 vis/vtk/join_vtk.c | 106 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 88 insertions(+), 18 deletions(-)

diff --git a/vis/vtk/join_vtk.c b/vis/vtk/join_vtk.c
index 2397fc6..99a0102 100644
--- a/vis/vtk/join_vtk.c
+++ b/vis/vtk/join_vtk.c
@@ -42,6 +42,7 @@
 static void join_error(const char *fmt, ...);
 static void init_domain_1d(void);
 static void sort_domain_1d(void);
+static void check_domain_3d(void);
 static void write_joined_vtk(const char *out_name);
 static char *my_strdup(const char *in);
 static void free_3d_array(void ***array);
@@ -155,9 +156,7 @@ int main(int argc, char* argv[]){
      }
      } */
 
-  /* TO MAKE THIS CODE MORE BULLETPROOF ADD A CALL TO SOME FUNCTION TO
-     CHECK THAT THIS DOMAIN ARRAY SATISFIES A SET OF CONSISTENCY
-     CONDITIONS LIKE Nx IS CONSTANT ALONG Y- AND Z-DIRECTIONS, ETC. */
+  check_domain_3d(); /* The files must tile a box without gaps or overlaps */
 
   /* ====================================================================== */
 
@@ -236,6 +235,7 @@ static void init_domain_1d(void){
     printf("\ndomain_1d[%d].fname = \"%s\"\n",i,domain_1d[i].fname);
 
     /* get header */
+    line[0] = '\0';
     fgets(line,256,fp);
     strip_trail_white(line);
     if(strcmp(line,"# vtk DataFile Version 3.0") != 0 /* mymhd  */ &&
@@ -267,8 +267,9 @@ static void init_domain_1d(void){
     /* I'm assuming from this point on that the header is in good shape */
 
     /* Dimensions */
-    fscanf(fp,"DIMENSIONS %d %d %d\n",
-	   &(domain_1d[i].Nx), &(domain_1d[i].Ny), &(domain_1d[i].Nz));
+    if(fscanf(fp,"DIMENSIONS %d %d %d\n",
+	      &(domain_1d[i].Nx), &(domain_1d[i].Ny), &(domain_1d[i].Nz)) != 3)
+      join_error("Bad header in file \"%s\"\n",domain_1d[i].fname);
     printf("DIMENSIONS %d %d %d\n",
 	   domain_1d[i].Nx, domain_1d[i].Ny, domain_1d[i].Nz);
 
@@ -279,19 +280,22 @@ static void init_domain_1d(void){
     if(domain_1d[i].Nz > 1) domain_1d[i].Nz--;
 
     /* Origin */
-    fscanf(fp,"ORIGIN %le %le %le\n",
-	   &(domain_1d[i].ox), &(domain_1d[i].oy), &(domain_1d[i].oz));
+    if(fscanf(fp,"ORIGIN %le %le %le\n",
+	      &(domain_1d[i].ox), &(domain_1d[i].oy), &(domain_1d[i].oz)) != 3)
+      join_error("Bad header in file \"%s\"\n",domain_1d[i].fname);
     printf("ORIGIN %e %e %e\n",
 	   domain_1d[i].ox, domain_1d[i].oy, domain_1d[i].oz);
 
     /* Spacing, dx, dy, dz */
-    fscanf(fp,"SPACING %le %le %le\n",
-	   &(domain_1d[i].dx), &(domain_1d[i].dy), &(domain_1d[i].dz));
+    if(fscanf(fp,"SPACING %le %le %le\n",
+	      &(domain_1d[i].dx), &(domain_1d[i].dy), &(domain_1d[i].dz)) != 3)
+      join_error("Bad header in file \"%s\"\n",domain_1d[i].fname);
     printf("SPACING %e %e %e\n",
 	   domain_1d[i].dx, domain_1d[i].dy, domain_1d[i].dz);
 
     /* Cell Data = Nx*Ny*Nz */
-    fscanf(fp,"CELL_DATA %d\n",&cell_dat);
+    if(fscanf(fp,"CELL_DATA %d\n",&cell_dat) != 1)
+      join_error("Bad header in file \"%s\"\n",domain_1d[i].fname);
     printf("CELL_DATA %d\n",cell_dat);
     ndat = (domain_1d[i].Nx)*(domain_1d[i].Ny)*(domain_1d[i].Nz);
     if(cell_dat != ndat)
@@ -414,6 +418,50 @@ static void sort_domain_1d(void){
 /* ========================================================================== */
 
 
+/* Is b the expected origin a, to the accuracy of the ORIGIN in the files? */
+static int same_origin(const double a, const double b, const double dx){
+  double tol = 0.1*dx + 2.0e-6*(a > 0.0 ? a : -a);
+  return (b - a <= tol && a - b <= tol);
+}
+
+
+/* Check that every file has the size, spacing and origin implied by its place
+   in the array of domains, so that they tile a box without gaps or overlaps */
+static void check_domain_3d(void){
+  int i, j, k;
+  VTK_Domain *pd, *p0 = &(domain_3d[0][0][0]), *px, *py, *pz;
+  double ox, oy, oz;
+
+  oz = p0->oz;
+  for(k=0; k<NGrid_z; k++){
+    pz = &(domain_3d[k][0][0]);
+    oy = p0->oy;
+    for(j=0; j<NGrid_y; j++){
+      py = &(domain_3d[0][j][0]);
+      ox = p0->ox;
+      for(i=0; i<NGrid_x; i++){
+	px = &(domain_3d[0][0][i]);
+	pd = &(domain_3d[k][j][i]);
+	if(pd->Nx != px->Nx || pd->Ny != py->Ny || pd->Nz != pz->Nz ||
+	   pd->dx != p0->dx || pd->dy != p0->dy || pd->dz != p0->dz ||
+	   !same_origin(ox,pd->ox,p0->dx) || !same_origin(oy,pd->oy,p0->dy) ||
+	   !same_origin(oz,pd->oz,p0->dz))
+	  join_error("File \"%s\" does not fit: files missing, repeated, or not from the same dump\n",
+		     pd->fname);
+	ox += px->Nx*p0->dx;
+      }
+      oy += py->Ny*p0->dy;
+    }
+    oz += pz->Nz*p0->dz;
+  }
+
+  return;
+}
+
+
+/* ========================================================================== */
+
+
 static void read_write_scalar(FILE *fp_out){
 
   FILE *fp;
@@ -509,6 +557,28 @@ static void read_write_vector(FILE *fp_out){
 /* ========================================================================== */
 
 
+/* The first file has no further variables; neither may any other file */
+static void check_all_read(void){
+  int n;
+  char c[2];
+  FILE *fp;
+
+  for(n=0; n<NGrid_x*NGrid_y*NGrid_z; n++){
+    if((fp = fopen(domain_3d[0][0][n].fname,"r")) == NULL)
+      join_error("Error opening file \"%s\"\n",domain_3d[0][0][n].fname);
+    fseek(fp, domain_3d[0][0][n].pos, SEEK_SET);
+    if(fscanf(fp,"%1s",c) != EOF)
+      join_error("Unread data left in file \"%s\"\n",domain_3d[0][0][n].fname);
+    fclose(fp);
+  }
+
+  return;
+}
+
+
+/* ========================================================================== */
+
+
 static void write_joined_vtk(const char *out_name){
   FILE *fp_out;
   int nxt, nyt, nzt; /* Total number of grid cells in each dir. */
@@ -576,28 +646,28 @@ static void write_joined_vtk(const char *out_name){
           fseek(domain_3d[k][j][i].fp,domain_3d[k][j][i].pos, SEEK_SET);
 
 	  if(i == 0 && j == 0 && k == 0){
-	    retval = fscanf(domain_3d[k][j][i].fp,"%s %s %s\n",
+	    retval = fscanf(domain_3d[k][j][i].fp,"%127s %127s %127s\n",
 			    type, variable, format);
 
 	    if(retval == EOF){ /* Assuming no errors, we are done... */
 	      fclose(fp_out);
+	      check_all_read();
 	      return;
 	    }
 
-	    if(strcmp(format, "float") != 0){
+	    if(retval != 3 || strcmp(format, "float") != 0){
 	      fclose(fp_out);
 	      join_error("Expected \"float\" format, found \"%s\"\n",format);
 	    }
 	  }
 	  else{
-	    retval = fscanf(domain_3d[k][j][i].fp,"%s %s %s\n",
+	    retval = fscanf(domain_3d[k][j][i].fp,"%127s %127s %127s\n",
 			    t_type, t_variable, t_format);
 
-	    if(retval == EOF){ /* This shouldn't occur... */
+	    if(retval != 3){ /* This shouldn't occur... */
 	      fclose(fp_out);
-	      fprintf(stderr,"[join_vtk_dump]: EOF returned for file \"%s\"\n",
-		      domain_3d[k][j][i].fname);
-	      return;
+	      join_error("[join_vtk_dump]: EOF returned for file \"%s\"\n",
+			 domain_3d[k][j][i].fname);
 	    }
 
 	    if(strcmp(type, t_type) != 0 ||
@@ -610,7 +680,7 @@ static void write_joined_vtk(const char *out_name){
 
 	  if(strcmp(type, "SCALARS") == 0){
 	    /* Read in the LOOKUP_TABLE (only default supported for now) */
-	    fscanf(domain_3d[k][j][i].fp,"%s %s\n", t_type, t_format);
+	    fscanf(domain_3d[k][j][i].fp,"%127s %127s\n", t_type, t_format);
 	    if(strcmp(t_type, "LOOKUP_TABLE") != 0 ||
 	       strcmp(t_format, "default") != 0 ){
 	      fclose(fp_out);
-- 
2.43.0


From 70d69467384d112b457393d6403f4a369b87b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 53/64] fix: orbital advection in 2D MHD left the out-of-plane
 field behind

Fargo() remapped B3i but copied it back to B3c only in 3D; the 2D integrators
then overwrote B3i with the B3c that had not been advected.
---
 src/bvals_shear.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index 94462b9..c4feefe 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5386,6 +5386,8 @@ void Fargo(DomainS *pD)
         pG->U[k][j][i].B2c = 0.5*(    pG->B2i[k][j][i] +     pG->B2i[k][j+1][i]);
         if (pG->Nx[2]>1) {
           pG->U[k][j][i].B3c = 0.5*(    pG->B3i[k][j][i] +     pG->B3i[k+1][j][i]);
+        } else {
+          pG->U[k][j][i].B3c = pG->B3i[k][j][i];
         }
       }
     }
-- 
2.43.0


From 537875093cc8854f6c7d453fbe17438cf58aedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 54/64] fix: 3D rotating frame applied the Coriolis force of
 every plane to the first plane

The final Coriolis update (and the time-centred momenta, and their gravity term)
used U[ks] inside the loop over k; with FARGO the file did not even compile.
---
 src/integrators/integrate_3d_ctu.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index dbd7065..79a083a 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -2811,15 +2811,15 @@ void integrate_3d_ctu(DomainS *pD)
           phir = (*StaticGravPot)((x1+0.5*pG->dx1),x2,x3);
           phil = (*StaticGravPot)((x1-0.5*pG->dx1),x2,x3);
           g = (phir-phil)/pG->dx1;
-          M1h -= hdt*pG->U[ks][j][i].d*g;
+          M1h -= hdt*pG->U[k][j][i].d*g;
 
           phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
           phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
           M2h -= q2*(phir-phil)*pG->U[k][j][i].d;
         }
 #ifdef ROTATING_FRAME
-          M1h += (pG->dt)*Omega_0*pG->U[ks][j][i].M2;
-          M2h -= (pG->dt)*Omega_0*pG->U[ks][j][i].M1;
+          M1h += (pG->dt)*Omega_0*pG->U[k][j][i].M2;
+          M2h -= (pG->dt)*Omega_0*pG->U[k][j][i].M1;
 #endif /*ROTATING_FRAME*/
 
         /* Compute geometric source term at time n+1/2 */
@@ -2848,15 +2848,15 @@ void integrate_3d_ctu(DomainS *pD)
         pG->U[k][j][i].M1 += pG->dt*( 2.0*Om*Mpav + geom_src[k][j][i]);
         pG->U[k][j][i].M2 += pG->dt*( Om*(qshear-2.0)*Mrav);
 #ifdef ROTATING_FRAME
-        pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[j][i]*Om*x1vc(pG,i));
-        pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
+        pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[k][j][i]*Om*x1vc(pG,i));
+        pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
 #endif
 #else /* FARGO */
         /* Add time-centered geometric source term for full dt */
         pG->U[k][j][i].M1 += pG->dt*geom_src[k][j][i];
 #ifdef ROTATING_FRAME
-        pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*M2h;
-        pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*M1h;
+        pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*M2h;
+        pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*M1h;
 #endif /* ROTATING_FRAME */
 #endif /* FARGO */
       }
-- 
2.43.0


From af8c5b510f60352df4c80de1826dda89d85d155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:32 +0000
Subject: [PATCH 55/64] fix: a SIGTERM arriving during the check for signals
 was lost

ath_sig_act() cleared the flag after the MPI_Allreduce whether or not its value
had taken part in it, so a signal arriving meanwhile was announced and then
forgotten, and the run went on.
---
 src/ath_signal.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ath_signal.c b/src/ath_signal.c
index 824db28..59c57e7 100644
--- a/src/ath_signal.c
+++ b/src/ath_signal.c
@@ -49,22 +49,25 @@ void ath_sig_init(void)
  *  At the moment, only response to SIGTERM is implemented.   */
 int ath_sig_act(int *piquit)
 {
-
+/* Look at the flag only once: a signal may arrive at any moment, in particular
+ * while this process waits for the others in MPI_Allreduce, and must then still
+ * be there at the next call. */
+  int caught = sig_caught;
 #ifdef MPI_PARALLEL
-  int ierr, sig = sig_caught > *piquit ? sig_caught : *piquit;
+  int ierr, sig = caught > *piquit ? caught : *piquit;
 
   ierr = MPI_Allreduce(&sig, piquit, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
 
 #else /* SERIAL */
 
-  *piquit = sig_caught > *piquit ? sig_caught : *piquit;
+  *piquit = caught > *piquit ? caught : *piquit;
 
 #endif /* MPI_PARALLEL */
 
-  if(sig_caught == SIGTERM)
+  if(caught == SIGTERM)
     ath_pout(0,"Caught SIGTERM: Terminating program execution\n");
 
-  sig_caught = 0; /* Reset the signal */
+  if(caught != 0) sig_caught = 0; /* Reset the signal */
 
   return *piquit;
 }
-- 
2.43.0


From a9fc8665038bdeea70214d37e5ca034fddba78c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:43 +0000
Subject: [PATCH 56/64] fix: rotating frame with orbital advection left out the
 Coriolis work on the gas energy

With FARGO the energy is that of the motion relative to the orbital one, on which
the Coriolis force of the orbital motion does work 2*Omega_0*Omega*r*rho*v_r.
---
 src/integrators/integrate_2d_ctu.c | 5 +++++
 src/integrators/integrate_3d_ctu.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/integrators/integrate_2d_ctu.c b/src/integrators/integrate_2d_ctu.c
index 22ae7fb..19237b8 100644
--- a/src/integrators/integrate_2d_ctu.c
+++ b/src/integrators/integrate_2d_ctu.c
@@ -1608,6 +1608,11 @@ void integrate_2d_ctu(DomainS *pD)
 #ifdef ROTATING_FRAME
       pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[j][i]*Om*x1vc(pG,i));
       pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
+#ifndef BAROTROPIC
+      /* work of the Coriolis force due to the orbital motion */
+      pG->U[ks][j][i].E += (pG->dt)*Omega_0*Om*x1vc(pG,i)*
+        (lsf*x1Flux[j][i].d + rsf*x1Flux[j][i+1].d);
+#endif
 #endif 
 #else /* FARGO*/
       /* add time-centered geometric source term for full dt */
diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index 79a083a..9122458 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -2850,6 +2850,11 @@ void integrate_3d_ctu(DomainS *pD)
 #ifdef ROTATING_FRAME
         pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[k][j][i]*Om*x1vc(pG,i));
         pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
+#ifndef BAROTROPIC
+        /* work of the Coriolis force due to the orbital motion */
+        pG->U[k][j][i].E += (pG->dt)*Omega_0*Om*x1vc(pG,i)*
+          (lsf*x1Flux[k][j][i].d + rsf*x1Flux[k][j][i+1].d);
+#endif
 #endif
 #else /* FARGO */
         /* Add time-centered geometric source term for full dt */
-- 
2.43.0


From e9aa8ac2742b27557473c10e5e64cbc2a7faf2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:53 +0000
Subject: [PATCH 57/64] fix: 2D shearing-sheet boundaries did not remap the
 out-of-plane field

In the x-y plane the ghost zones of B3c kept their periodic values instead of the
sheared ones; only the (unused) B3i was remapped.
---
 src/bvals_shear.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index c4feefe..240a349 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -496,6 +496,12 @@ void ShearingSheet_ix1(DomainS *pD)
         }
       }
     }
+  } else {
+    for (j=js; j<=je; j++) {
+      for(i=is-nghost; i<is; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
@@ -1092,6 +1098,12 @@ void ShearingSheet_ox1(DomainS *pD)
         }
       }
     }
+  } else {
+    for (j=js; j<=je; j++) {
+      for(i=ie+1; i<=ie+nghost; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
-- 
2.43.0


From f0c19f9f4eab812ab243d0cbbd0c9c6ec58e5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 58/64] fix: particle feedback at a reflecting inner x1 wall
 used the x2 index (wrong memory in 1D)

---
 src/particles/exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index aa598ef..8b6b6dd 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -1876,7 +1876,7 @@ static void reflect_ix1_exchange(GridS *pG)
   for (k=kb; k<=kt; k++) {
     for (j=jb; j<=jt; j++) {
       for (i=ib; i<pG->is; i++) {
-        ir = 2*pG->js-i-1;
+        ir = 2*pG->is-i-1;
         myCoup[k][j][i].U[0] = -myCoup[k][j][ir].U[0];
         for (n=1;n<NVar; n++)
           myCoup[k][j][i].U[n] = myCoup[k][j][ir].U[n];
-- 
2.43.0


From 872ffe545586d68823b6f3ba9b098587bb31414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:32 +0000
Subject: [PATCH 59/64] fix: SMR with MPI addressed child Grids by their world
 rank instead of their rank in the communicator

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index a62536d..19eae9a 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -805,7 +805,7 @@ void init_mesh(MeshS *pM)
             groupn++;
             Nranks++;
           } else {
-            pCD->GData[n][m][l].ID_Comm_Parent = ranks[irank];
+            pCD->GData[n][m][l].ID_Comm_Parent = irank;
           }
         }}}
       }
-- 
2.43.0


From 2a5e43663d8a971de0a8735d8b249af65a2d9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 60/64] fix: history file got an extra line of partial sums
 from rank 0 when it is not the first process of the Domain

---
 src/dump_history.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index fae74f0..4f17737 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -101,7 +101,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
   FILE *pfile;
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL,fmt[80];
   char levstr[8],domstr[8],dirstr[20];
-  int n, total_hst_cnt, mhst, myID_Comm_Domain=1;
+  int n, total_hst_cnt, mhst, myID_Comm_Domain=0;
 #ifdef MPI_PARALLEL
   double my_scal[NSCAL + NSCALARS + MAX_USR_H_COUNT]; /* My Volume averages */
   int ierr;
@@ -304,13 +304,13 @@ void dump_history(MeshS *pM, OutputS *pOut)
           MPI_DOUBLE, MPI_SUM, 0, pD->Comm_Domain);
 #endif
 
-/* Only the parent (rank=0) process computes the average and writes output.
- * For single-processor jobs, myID_Comm_world is always zero. */
+/* Only the parent (rank=0 in Comm_Domain) process computes the average and
+ * writes output.  For single-processor jobs, myID_Comm_Domain is always zero. */
 
 #ifdef MPI_PARALLEL
         ierr = MPI_Comm_rank(pD->Comm_Domain, &myID_Comm_Domain);
 #endif
-        if((myID_Comm_Domain==0) || (myID_Comm_world==0)){  /* I'm the parent */
+        if(myID_Comm_Domain==0){  /* I'm the parent */
 
 /* Compute volume averages */
 
-- 
2.43.0


From 36e2dd149f9246c84457f325ac330defe6d72826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:28 +0000
Subject: [PATCH 61/64] fix: refuse a decomposition of a refined Domain whose
 Grid edges split cells of the parent level (heap overflow)

---
 src/init_mesh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 19eae9a..a6e8336 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -645,6 +645,20 @@ void init_mesh(MeshS *pM)
         }
       }
 
+/* On refined levels, edges of Grids must lie on edges of cells one level down */
+
+      if (nl > 0) {
+        for(n=0; n<(pD->NGrid[2]); n++){
+        for(m=0; m<(pD->NGrid[1]); m++){
+        for(l=0; l<(pD->NGrid[0]); l++){
+          for (i=0; i<3; i++) {
+            if (pD->Nx[i] > 1 && (pD->GData[n][m][l].Disp[i] % 2) != 0)
+              ath_error("[init_mesh]: %s/NGrid_x%d = %d splits cells of the parent level\n",
+                block,(i+1),pD->NGrid[i]);
+          }
+        }}}
+      }
+
     }  /* end loop over ndomains */
   }    /* end loop over nlevels */
 
-- 
2.43.0


From 3d9ea0cf327c3f1add46a4608d931e72da1fd923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 62/64] fix: share FFT plans between directions only when the
 number of transforms is the same too (wrong transform on uneven MPI
 decompositions)

---
 src/fftsrc/fft_2d.c | 2 +-
 src/fftsrc/fft_3d.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftsrc/fft_2d.c b/src/fftsrc/fft_2d.c
index 22ecb69..982a3cd 100644
--- a/src/fftsrc/fft_2d.c
+++ b/src/fftsrc/fft_2d.c
@@ -327,7 +327,7 @@ struct fft_plan_2d *fft_2d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
diff --git a/src/fftsrc/fft_3d.c b/src/fftsrc/fft_3d.c
index 5c64698..ecfd7fb 100644
--- a/src/fftsrc/fft_3d.c
+++ b/src/fftsrc/fft_3d.c
@@ -411,7 +411,7 @@ struct fft_plan_3d *fft_3d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_mid_forward = plan->plan_fast_forward;
     plan->plan_mid_backward = plan->plan_fast_backward;
   }
@@ -426,11 +426,11 @@ struct fft_plan_3d *fft_3d_create_plan(
                          NULL,1,plan->length2,FFTW_BACKWARD,FFTW_ESTIMATE);
   }
 
-  if (plan->length3 == plan->length1) {
+  if (plan->length3 == plan->length1 && plan->total3 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
-  else if (plan->length3 == plan->length2) {
+  else if (plan->length3 == plan->length2 && plan->total3 == plan->total2) {
     plan->plan_slow_forward = plan->plan_mid_forward;
     plan->plan_slow_backward = plan->plan_mid_backward;
   }
-- 
2.43.0


From 02b8781b1d6f2455e757af03c22da0cd32e98e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 63/64] fix: compute_l1_error under MPI: one report with the
 summed scalar errors instead of garbage from every other process

---
 src/utils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index efba79f..3216488 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -287,7 +287,7 @@ void compute_l1_error(const char *problem, const MeshS *pM,
   int Nx1,Nx2,Nx3;
 #if defined MPI_PARALLEL
   double err[8+NSCALARS], tot_err[8+NSCALARS];
-  int mpi_err;
+  int mpi_err, myID;
 #endif
 #ifdef CYLINDRICAL
   Real x1,x2,x3;
@@ -382,7 +382,8 @@ void compute_l1_error(const char *problem, const MeshS *pM,
               mpi_err);
 
 /* If I'm the parent, copy the sum back to the total_error variable */
-  if(pD->DomNumber == 0){ /* I'm the parent */
+  MPI_Comm_rank(pD->Comm_Domain, &myID);
+  if(myID == 0){ /* I'm the parent */
     total_error.d   = tot_err[0];
     total_error.M1  = tot_err[1];
     total_error.M2  = tot_err[2];
@@ -396,7 +397,7 @@ void compute_l1_error(const char *problem, const MeshS *pM,
     total_error.E   = tot_err[7];
 #endif /* ISOTHERMAL */
 #if (NSCALARS > 0)
-  for (n=0; n<NSCALARS; n++) total_error.s[n] = err[8+n];
+  for (n=0; n<NSCALARS; n++) total_error.s[n] = tot_err[8+n];
 #endif
 
   }
-- 
2.43.0


From f87f9b23dda81de41bb2259873aab6cdf524bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:33 +0000
Subject: [PATCH 64/64] fix: join_bin, join_lis and sort_lis: refuse
 inconsistent or truncated pieces, keep the potential and particle fields,
 sort empty lists

---
 vis/matlab/join_bin/join_bin.c | 57 +++++++++++++++++++++-------------
 vis/particle/join_lis.c        | 33 +++++++++++++-------
 vis/particle/sort_lis.c        | 29 +++++++++++------
 3 files changed, 76 insertions(+), 43 deletions(-)

diff --git a/vis/matlab/join_bin/join_bin.c b/vis/matlab/join_bin/join_bin.c
index 03cec48..1935b9a 100755
--- a/vis/matlab/join_bin/join_bin.c
+++ b/vis/matlab/join_bin/join_bin.c
@@ -202,6 +202,16 @@ static void strip_trail_white(char *pc){
 }
 
 
+/* Read n items, or stop with an error if the file is too short */
+static void read_all(void *p, size_t size, int n, FILE *fp, const char *fname){
+
+  if(n < 0 || fread(p,size,n,fp) != (size_t)n)
+    join_error("[read_all]:  Error reading file \"%s\"\n",fname);
+
+  return;
+}
+
+
 static void init_domain_1d(void){
   FILE *fp=NULL;              /* A temporary copy to make the code cleaner */
   int coord_sys, Nx, Ny, Nz;  /* Temporary copies to make the code cleaner */
@@ -216,13 +226,13 @@ static void init_domain_1d(void){
     printf("domain_1d[%d].fname = \"%s\"\n",i,domain_1d[i].fname);
 
     /* Get coordinate system */
-    fread(&domain_1d[i].coord_sys,sizeof(int),1,fp);
+    read_all(&domain_1d[i].coord_sys,sizeof(int),1,fp,domain_1d[i].fname);
     coord_sys = domain_1d[i].coord_sys;
     if((coord_sys != cartesian) && (coord_sys != cylindrical) && (coord_sys != spherical))
       join_error("[init_domain_1d]:  Coordinate system \"%d\" is not supported!\n",coord_sys);
 
     /* Get number of zones and variables */
-    fread(idat,sizeof(int),7,fp);
+    read_all(idat,sizeof(int),7,fp,domain_1d[i].fname);
     Nx = domain_1d[i].Nx      = idat[0];
     Ny = domain_1d[i].Ny      = idat[1];
     Nz = domain_1d[i].Nz      = idat[2];
@@ -232,7 +242,7 @@ static void init_domain_1d(void){
     domain_1d[i].particles    = idat[6];
 
     /* Get (gamma-1), isothermal sound speed, time, dt */
-    fread(fdat,sizeof(Real),4,fp);
+    read_all(fdat,sizeof(Real),4,fp,domain_1d[i].fname);
     domain_1d[i].gamma_1    = fdat[0];
     domain_1d[i].iso_csound = fdat[1];
     domain_1d[i].time       = fdat[2];
@@ -255,9 +265,9 @@ static void init_domain_1d(void){
     }
 
     /* Read in coordinate data */
-    fread(domain_1d[i].xcoords,sizeof(Real),Nx,fp);
-    fread(domain_1d[i].ycoords,sizeof(Real),Ny,fp);
-    fread(domain_1d[i].zcoords,sizeof(Real),Nz,fp);
+    read_all(domain_1d[i].xcoords,sizeof(Real),Nx,fp,domain_1d[i].fname);
+    read_all(domain_1d[i].ycoords,sizeof(Real),Ny,fp,domain_1d[i].fname);
+    read_all(domain_1d[i].zcoords,sizeof(Real),Nz,fp,domain_1d[i].fname);
   }
 
   return;
@@ -266,26 +276,29 @@ static void init_domain_1d(void){
 
 static void chek_domain_3d(void){
   int i,j,k;
-  int warn_flag = 0;
+  int ok_flag = 1;
 
   for(k=0; k<NGrid_z; k++){
     for(j=0; j<NGrid_y; j++){
       for(i=0; i<NGrid_x; i++){
-//         warn_flag = warn_flag && (ftell(domain_3d[k][j][i].fp)    == ftell(domain_3d[0][0][0].fp)   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].coord_sys    == domain_3d[0][0][0].coord_sys   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].Nvar         == domain_3d[0][0][0].Nvar        );
-        warn_flag = warn_flag && (domain_3d[k][j][i].Nscalars     == domain_3d[0][0][0].Nscalars    );
-        warn_flag = warn_flag && (domain_3d[k][j][i].self_gravity == domain_3d[0][0][0].self_gravity);
-        warn_flag = warn_flag && (domain_3d[k][j][i].particles    == domain_3d[0][0][0].particles   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].gamma_1      == domain_3d[0][0][0].gamma_1     );
-        warn_flag = warn_flag && (domain_3d[k][j][i].iso_csound   == domain_3d[0][0][0].iso_csound  );
-        warn_flag = warn_flag && (domain_3d[k][j][i].time         == domain_3d[0][0][0].time        );
-        warn_flag = warn_flag && (domain_3d[k][j][i].dt           == domain_3d[0][0][0].dt          );
+//         ok_flag = ok_flag && (ftell(domain_3d[k][j][i].fp)    == ftell(domain_3d[0][0][0].fp)   );
+        ok_flag = ok_flag && (domain_3d[k][j][i].Nx           == domain_3d[0][0][i].Nx          );
+        ok_flag = ok_flag && (domain_3d[k][j][i].Ny           == domain_3d[0][j][0].Ny          );
+        ok_flag = ok_flag && (domain_3d[k][j][i].Nz           == domain_3d[k][0][0].Nz          );
+        ok_flag = ok_flag && (domain_3d[k][j][i].coord_sys    == domain_3d[0][0][0].coord_sys   );
+        ok_flag = ok_flag && (domain_3d[k][j][i].Nvar         == domain_3d[0][0][0].Nvar        );
+        ok_flag = ok_flag && (domain_3d[k][j][i].Nscalars     == domain_3d[0][0][0].Nscalars    );
+        ok_flag = ok_flag && (domain_3d[k][j][i].self_gravity == domain_3d[0][0][0].self_gravity);
+        ok_flag = ok_flag && (domain_3d[k][j][i].particles    == domain_3d[0][0][0].particles   );
+        ok_flag = ok_flag && (domain_3d[k][j][i].gamma_1      == domain_3d[0][0][0].gamma_1     );
+        ok_flag = ok_flag && (domain_3d[k][j][i].iso_csound   == domain_3d[0][0][0].iso_csound  );
+        ok_flag = ok_flag && (domain_3d[k][j][i].time         == domain_3d[0][0][0].time        );
+        ok_flag = ok_flag && (domain_3d[k][j][i].dt           == domain_3d[0][0][0].dt          );
       }
     }
   }
 
-  if (warn_flag)
+  if (!ok_flag)
     join_error("[chek_domain_3d]:  These file pieces are not self-consistent!\n");
   else
     printf("CONSISTENCY CHECK PASSED!\n");
@@ -410,7 +423,7 @@ static void write_joined_bin(const char *out_name){
   int nxt, nyt, nzt;  /* Total number of grid cells in each dir. */
   int idat[7];        /* Integer data for header */
   Real fdat[4];      /* Real data for the header */
-  int i,j,k,n,ig,jg,kg,nread;
+  int i,j,k,n,ig,jg,kg,nread,nfield;
   BIN_Domain *pD = &domain_3d[0][0][0];  /* to make the code cleaner */
 
   /* Count the total number of grid cells in each direction */
@@ -461,8 +474,10 @@ static void write_joined_bin(const char *out_name){
     fwrite(domain_3d[kg][0][0].zcoords,sizeof(Real),domain_3d[kg][0][0].Nz,fp_out);
   }
 
-  /* Read/write 3D scalar data */
-  for (n=0; n<pD->Nvar; n++) {
+  /* Read/write 3D scalar data: the variables, then the gravitational potential
+   * and the four particle fields (if any) */
+  nfield = pD->Nvar + (pD->self_gravity ? 1 : 0) + (pD->particles ? 4 : 0);
+  for (n=0; n<nfield; n++) {
     printf("Reading variable %d\n", n);
     for(kg=0; kg<NGrid_z; kg++){
       for(k=0; k<domain_3d[kg][0][0].Nz; k++){
diff --git a/vis/particle/join_lis.c b/vis/particle/join_lis.c
index 536d989..77679a7 100644
--- a/vis/particle/join_lis.c
+++ b/vis/particle/join_lis.c
@@ -23,6 +23,8 @@
 #include <assert.h>
 
 static void join_error(const char *fmt, ...);
+static void read_all(void *p, size_t size, long n, FILE *fid,
+                     const char *name);
 static void usage(const char *arg);
 
 /* ========================================================================== */
@@ -123,10 +125,10 @@ int main(int argc, char* argv[])
         join_error("Fail to open input file %s!\n",in_name);
 
       fseek(fidin, 12*sizeof(float), SEEK_SET);
-      fread(&ntype,sizeof(int),1,fidin);
+      read_all(&ntype,sizeof(int),1,fidin,in_name);
       fseek(fidin, ntype*sizeof(float), SEEK_CUR);
-      fread(buffer,sizeof(float),2,fidin);
-      fread(&n,sizeof(long),1,fidin);
+      read_all(buffer,sizeof(float),2,fidin,in_name);
+      read_all(&n,sizeof(long),1,fidin,in_name);
 
       ntot += n;
 
@@ -154,11 +156,11 @@ int main(int argc, char* argv[])
       fidin = fopen(in_name,"rb");
 
       /* read header */
-      fread(buffer,sizeof(float),12,fidin);
-      fread(&ntype,sizeof(int),1,fidin);
-      fread(typeinfo,sizeof(float),ntype,fidin);
-      fread(time,sizeof(float),2,fidin);
-      fread(&n,sizeof(long),1,fidin);
+      read_all(buffer,sizeof(float),12,fidin,in_name);
+      read_all(&ntype,sizeof(int),1,fidin,in_name);
+      read_all(typeinfo,sizeof(float),ntype,fidin,in_name);
+      read_all(time,sizeof(float),2,fidin,in_name);
+      read_all(&n,sizeof(long),1,fidin,in_name);
 
       /* write header */
       if (p == 0)
@@ -176,10 +178,10 @@ int main(int argc, char* argv[])
       /* read and write data */
       for (j=0; j<n; j++)
       {
-        fread(buffer,sizeof(float),7,fidin);
-        fread(&property,sizeof(int),1,fidin);
-        fread(&pid,sizeof(long),1,fidin);
-        fread(&cpuid,sizeof(int),1,fidin);
+        read_all(buffer,sizeof(float),7,fidin,in_name);
+        read_all(&property,sizeof(int),1,fidin,in_name);
+        read_all(&pid,sizeof(long),1,fidin,in_name);
+        read_all(&cpuid,sizeof(int),1,fidin,in_name);
 
         fwrite(buffer,sizeof(float),7,fidout);
         fwrite(&property,sizeof(int),1,fidout);
@@ -215,6 +217,13 @@ static void join_error(const char *fmt, ...){
   exit(1);                   /* clean up and exit */
 }
 
+/* Read n items, or stop with an error if the file is too short. */
+static void read_all(void *p, size_t size, long n, FILE *fid, const char *name)
+{
+  if (n < 0 || fread(p,size,n,fid) != (size_t)n)
+    join_error("Fail to read input file %s!\n",name);
+}
+
 static void usage(const char *arg)
 {
   fprintf(stderr,"\nUsage: %s [options] [block] ...\n", arg);
diff --git a/vis/particle/sort_lis.c b/vis/particle/sort_lis.c
index 031faa5..1dff7da 100644
--- a/vis/particle/sort_lis.c
+++ b/vis/particle/sort_lis.c
@@ -20,6 +20,8 @@
 
 static void quicksort(int *cpuid, long *pid, long *order, long ns, long ne);
 static void sort_error(const char *fmt, ...);
+static void read_all(void *p, size_t size, long n, FILE *fid,
+                     const char *name);
 static void usage(const char *arg);
 
 static void* calloc_1d_array(size_t nc, size_t size);
@@ -95,15 +97,15 @@ int main(int argc, char* argv[])
         sort_error("Fail to open output file %s!\n",fname);
 
     /* read header */
-    fread(header,sizeof(float),12,fid);
-    fread(&ntype,sizeof(int),1,fid);
+    read_all(header,sizeof(float),12,fid,fname);
+    read_all(&ntype,sizeof(int),1,fid,fname);
 
     if (i == f1)
       typeinfo = (float*)calloc_1d_array(ntype,sizeof(float));
 
-    fread(typeinfo,sizeof(float),ntype,fid);
-    fread(&time,sizeof(float),2,fid);
-    fread(&n,sizeof(long),1,fid);
+    read_all(typeinfo,sizeof(float),ntype,fid,fname);
+    read_all(&time,sizeof(float),2,fid,fname);
+    read_all(&n,sizeof(long),1,fid,fname);
 
     data  = (float**)calloc_2d_array(n,7,sizeof(float));
     property = (int*)calloc_1d_array(n,sizeof(int));
@@ -114,10 +116,10 @@ int main(int argc, char* argv[])
     /* read data */
     for (p=0; p<n; p++)
     {
-      fread(data[p],sizeof(float),7,fid);
-      fread(&(property[p]),sizeof(int),1,fid);
-      fread(&(pid[p]),sizeof(long),1,fid);
-      fread(&(cpuid[p]),sizeof(int),1,fid);
+      read_all(data[p],sizeof(float),7,fid,fname);
+      read_all(&(property[p]),sizeof(int),1,fid,fname);
+      read_all(&(pid[p]),sizeof(long),1,fid,fname);
+      read_all(&(cpuid[p]),sizeof(int),1,fid,fname);
     }
 
     fclose(fid);
@@ -216,6 +218,13 @@ static void sort_error(const char *fmt, ...){
   exit(1);                   /* clean up and exit */
 }
 
+/* Read n items, or stop with an error if the file is too short. */
+static void read_all(void *p, size_t size, long n, FILE *fid, const char *name)
+{
+  if (n < 0 || fread(p,size,n,fid) != (size_t)n)
+    sort_error("Fail to read input file %s!\n",name);
+}
+
 static void usage(const char *arg)
 {
   fprintf(stderr,"\nUsage: %s [options] [block] ...\n", arg);
@@ -251,7 +260,7 @@ static void** calloc_2d_array(size_t nr, size_t nc, size_t size)
   void **array;
   size_t i;
 
-  if((array = (void **)calloc(nr,sizeof(void*))) == NULL){
+  if((array = (void **)calloc(nr > 0 ? nr : 1,sizeof(void*))) == NULL){
     sort_error("[calloc_2d] failed to allocate memory for %d pointers\n",(int)nr);
     return NULL;
   }
-- 
2.43.0

