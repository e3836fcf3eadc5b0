From 110e96d2444250f2f1cbed147159c73c88daf887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 01/50] fix: reorient the interface triangles of the domain of
 reference 2

MMG5_bdryPerm skipped the faces between a tetra of reference 2 and a tetra of
smaller reference, thus the orientation given by the user to these triangles
was kept and the normals at the points of the interface were mixed up.
---
 src/mmg3d/hash_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index f0cfef1..6bc8289 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -2413,7 +2413,7 @@ int MMG5_bdryPerm(MMG5_pMesh mesh) {
       adj = adja[i] / 4;
       pt1 = &mesh->tetra[adj];
 
-      if ( adj && (pt->ref <= pt1->ref || pt->ref == MG_PLUS) )
+      if ( adj && pt->ref <= pt1->ref )
         continue;
 
       ia = pt->v[MMG5_idir[i][0]];
-- 
2.43.0


From bb269f5ff9496a1d526193104f3c610e46ec2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 02/50] fix: orientation of internal boundary faces in
 anisotropic mode

The metric interpolation along a boundary edge and the move of a boundary
point assume that a triangle has the orientation of the normals stored at
points, which is wrong for an internal boundary seen from the other domain.
---
 src/mmg3d/anisomovpt_3d.c    |  3 ++-
 src/mmg3d/intmet_3d.c        | 13 +++++++++++--
 src/mmg3d/libmmg3d_private.h |  1 +
 src/mmg3d/mmg3d1.c           | 20 ++++++++++++++++++++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/mmg3d/anisomovpt_3d.c b/src/mmg3d/anisomovpt_3d.c
index ceabaa2..b57eeae 100644
--- a/src/mmg3d/anisomovpt_3d.c
+++ b/src/mmg3d/anisomovpt_3d.c
@@ -246,8 +246,9 @@ int MMG5_movbdyregpt_ani(MMG5_pMesh mesh, MMG5_pSol met, MMG3D_pPROctree PROctre
 
     assert( 0<=iface && iface<4 && "unexpected local face idx");
     MMG5_tet2tri(mesh,iel,iface,&tt);
+    MMG3D_orientTri(&tt,MG_GET(pxt->ori,iface));
 
-    if(!MMG5_bezierCP(mesh,&tt,&b,MG_GET(pxt->ori,iface))){
+    if(!MMG5_bezierCP(mesh,&tt,&b,1)){
       if( !mmgErr0 ) {
         mmgErr0 = 1;
         fprintf(stderr,"\n  ## Error: %s: function MMG5_bezierCP return 0.\n",
diff --git a/src/mmg3d/intmet_3d.c b/src/mmg3d/intmet_3d.c
index 27b5fd4..4ded762 100644
--- a/src/mmg3d/intmet_3d.c
+++ b/src/mmg3d/intmet_3d.c
@@ -225,6 +225,7 @@ int MMG5_intregmet(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t i,double s,
   MMG5_pxTetra    pxt;
   MMG5_Tria       ptt;
   int             ifa0, ifa1, iloc, ier;
+  int8_t          ori;
 
   pt   = &mesh->tetra[k];
   pxt  = &mesh->xtetra[pt->xt];
@@ -237,13 +238,21 @@ int MMG5_intregmet(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t i,double s,
     MMG5_tet2tri( mesh,k,ifa0,&ptt);
     iloc = MMG5_iarfinv[ifa0][i];
     assert(iloc >= 0);
-    ier = MMG5_interpreg_ani(mesh,met,&ptt,iloc,s,mr);
+    ori  = MG_GET(pxt->ori,ifa0);
+    MMG3D_orientTri(&ptt,ori);
+    /* The reversed tria travels the edge in the opposite direction */
+    ier = MMG5_interpreg_ani(mesh,met,&ptt,(ori || !iloc) ? iloc : 3-iloc,
+                             ori ? s : 1.-s,mr);
   }
   else if ( pxt->ftag[ifa1] & MG_BDY ) {
     MMG5_tet2tri( mesh,k,ifa1,&ptt);
     iloc = MMG5_iarfinv[ifa1][i];
     assert(iloc >= 0);
-    ier = MMG5_interpreg_ani(mesh,met,&ptt,iloc,s,mr);
+    ori  = MG_GET(pxt->ori,ifa1);
+    MMG3D_orientTri(&ptt,ori);
+    /* The reversed tria travels the edge in the opposite direction */
+    ier = MMG5_interpreg_ani(mesh,met,&ptt,(ori || !iloc) ? iloc : 3-iloc,
+                             ori ? s : 1.-s,mr);
   }
 
   /* if ier = -1, then i is a boundary edge but the tet has no bdy face. Don't
diff --git a/src/mmg3d/libmmg3d_private.h b/src/mmg3d/libmmg3d_private.h
index 9c298d1..273265f 100644
--- a/src/mmg3d/libmmg3d_private.h
+++ b/src/mmg3d/libmmg3d_private.h
@@ -496,6 +496,7 @@ int MMG5_cenrad_ani(MMG5_pMesh mesh,double *ct,double *m,double *c,double *rad);
 /* mmg3d1.c */
 void MMG3D_set_geom(MMG5_pMesh,MMG5_pPoint,uint16_t,MMG5_int,MMG5_int,double[3],double[3],double[3]);
 void MMG5_tet2tri(MMG5_pMesh mesh,MMG5_int k,int8_t ie,MMG5_Tria *ptt);
+void MMG3D_orientTri(MMG5_Tria *ptt,int8_t ori);
 int  MMG3D_dichoto(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int *vx);
 int  MMG3D_dichoto1b(MMG5_pMesh mesh,MMG5_pSol met,int64_t *list,int ret,MMG5_int);
 int8_t MMG5_chkedg(MMG5_pMesh mesh,MMG5_Tria *pt,int8_t ori,double,double,int);
diff --git a/src/mmg3d/mmg3d1.c b/src/mmg3d/mmg3d1.c
index dc005e3..bd37122 100644
--- a/src/mmg3d/mmg3d1.c
+++ b/src/mmg3d/mmg3d1.c
@@ -127,6 +127,26 @@ void MMG5_tet2tri(MMG5_pMesh mesh,MMG5_int k,int8_t ie,MMG5_Tria *ptt) {
   }
 }
 
+/**
+ * \param ptt pointer to the triangle built from the face of a tetra.
+ * \param ori orientation of the face in this tetra (bit of the \a ori field of
+ * the xtetra).
+ *
+ * Reverse the triangle if it is seen from the wrong side of the surface (\a ori
+ * is 0), so that its normal matches the normals stored at points.
+ *
+ */
+void MMG3D_orientTri(MMG5_Tria *ptt,int8_t ori) {
+  MMG5_int itmp;
+  uint16_t tag;
+
+  if ( ori ) return;
+
+  itmp = ptt->v[1];   ptt->v[1]   = ptt->v[2];   ptt->v[2]   = itmp;
+  itmp = ptt->edg[1]; ptt->edg[1] = ptt->edg[2]; ptt->edg[2] = itmp;
+  tag  = ptt->tag[1]; ptt->tag[1] = ptt->tag[2]; ptt->tag[2] = tag;
+}
+
 /**
  * \param mesh pointer to the mesh structure.
  * \param met pointer to the metric structure.
-- 
2.43.0


From 4027ccfd8f364656c1c4a906a7d7a6247f98d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 03/50] fix: store interior required edges only once when
 packing 2D meshes

---
 src/mmg2d/hash_2d.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 8d688fa..24a8651 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -598,7 +598,11 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
       if ( (!iel) || (pt->ref > pt1->ref) ) {
         ++mesh->na;
       }
-      else if ( (pt->ref==pt1->ref) && MG_SIN(pt->tag[i]) ) {
+      else if ( (pt->ref<pt1->ref) || (iel < k) ) {
+        /* Edge already stored from the adjacent element */
+        continue;
+      }
+      else if ( MG_SIN(pt->tag[i]) ) {
         ++mesh->na;
       }
       else if ( mesh->info.opnbdy ) {
@@ -627,7 +631,11 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
       if ( (!iel) || (pq->ref > pq1->ref) ) {
         ++mesh->na;
       }
-      else if ( (pq->ref==pq1->ref) && MG_SIN(pq->tag[i]) ) {
+      else if ( (pq->ref<pq1->ref) || (iel < k) ) {
+        /* Edge already stored from the adjacent element */
+        continue;
+      }
+      else if ( MG_SIN(pq->tag[i]) ) {
         ++mesh->na;
       }
       else if ( mesh->info.opnbdy ) {
@@ -676,8 +684,9 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
           iel = adja[i] / 3;
           pt1 = &mesh->tria[iel];
           if ( !iel || (pt->ref > pt1->ref) ||
-               ((pt->ref==pt1->ref) && MG_SIN(pt->tag[i])) ||
-               (mesh->info.opnbdy && ((pt->tag[i] & MG_REF) || (pt->tag[i] & MG_BDY)))) {
+               ((pt->ref==pt1->ref) && (k < iel) &&
+                (MG_SIN(pt->tag[i]) ||
+                 (mesh->info.opnbdy && (pt->tag[i] & (MG_REF+MG_BDY))))) ) {
             ++ned;
             ped = &mesh->edge[ned];
             ped->a = pt->v[i1];
@@ -712,8 +721,9 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
 
           pq1 = &mesh->quadra[iel];
           if ( !iel || (pq->ref > pq1->ref) ||
-               ((pq->ref==pq1->ref) && MG_SIN(pq->tag[i])) ||
-               (mesh->info.opnbdy && ((pq->tag[i] & MG_REF) || (pq->tag[i] & MG_BDY)))) {
+               ((pq->ref==pq1->ref) && (k < iel) &&
+                (MG_SIN(pq->tag[i]) ||
+                 (mesh->info.opnbdy && (pq->tag[i] & (MG_REF+MG_BDY))))) ) {
             ++ned;
             ped = &mesh->edge[ned];
             ped->a = pq->v[i1];
-- 
2.43.0


From 491720b2fe21f70894a9fecebe4ba1d6f4206d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 04/50] fix: store non-manifold edges only once when packing
 surface meshes

---
 src/mmgs/libmmgs.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index e86930d..9abe634 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -93,6 +93,7 @@ static inline
 int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   MMG5_pTria    pt,ptnew;
   MMG5_pPoint   ppt,pptnew;
+  MMG5_Hash     hash;
   MMG5_int      iadr,iadrnew,iadrv,*adjav,*adja,*adjanew,voy;
   MMG5_int      k,nt,np,na,jel,nc,nr,nbl;
   int           imet,imetnew,i;
@@ -235,6 +236,11 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
 
   if ( na ) {
     MMG5_SAFE_CALLOC(mesh->edge,na+1,MMG5_Edge,return 0);
+
+    /* Non-manifold edges are seen from more than 2 trias: hash them to store them
+     * only once */
+    if ( !MMG5_hashNew(mesh,&hash,na,3*na) ) return 0;
+
     for (k=1; k<=mesh->nt; k++) {
       pt = &mesh->tria[k];
       if ( MG_EOK(pt) ) {
@@ -257,6 +263,13 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
 
           i1 = MMG5_inxt2[i];
           i2 = MMG5_inxt2[i1];
+          if ( (!jel) || (pt->tag[i] & MG_NOM) ) {
+            if ( MMG5_hashGet(&hash,pt->v[i1],pt->v[i2]) ) continue;
+            if ( !MMG5_hashEdge(mesh,&hash,pt->v[i1],pt->v[i2],k) ) {
+              MMG5_DEL_MEM(mesh,hash.item);
+              return 0;
+            }
+          }
           mesh->na++;
           mesh->edge[mesh->na].a    = mesh->point[pt->v[i1]].tmp;
           mesh->edge[mesh->na].b    = mesh->point[pt->v[i2]].tmp;
@@ -266,6 +279,7 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
         }
       }
     }
+    MMG5_DEL_MEM(mesh,hash.item);
   }
 
   for(k=1 ; k<=mesh->np ; k++)
-- 
2.43.0


From e24b33dd3e68baeb947703d714b270fe99f898c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 05/50] fix: null second normal along the boundary of open
 surfaces

---
 src/common/mettools.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/mettools.c b/src/common/mettools.c
index 55e5ecf..5bfe9fe 100644
--- a/src/common/mettools.c
+++ b/src/common/mettools.c
@@ -697,7 +697,9 @@ int MMG5_buildridmet(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int np0,
   ps1 = ux*n1[0] + uy*n1[1] + uz*n1[2];
   ps2 = ux*n2[0] + uy*n2[1] + uz*n2[2];
 
-  if ( fabs(ps2)<fabs(ps1) ) {
+  /* Remark: there is no second normal along the boundary of an open surface */
+  if ( fabs(ps2)<fabs(ps1)
+       && ( n2[0]*n2[0] + n2[1]*n2[1] + n2[2]*n2[2] > 0. ) ) {
     n1 = &go->n2[0];
     dv = m[2];
     dn = m[4];
-- 
2.43.0


From 1357170e39743de56fd76e6d0dc3a7361adc6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 06/50] fix: use of uninitialized face tags in the split of 6
 edges

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index d48af88..890f4c4 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4518,7 +4518,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
 
   /* Store face tags and refs from split tetra*/
   for (i=0; i<4; i++) {
-    ftag[i] = (xt.ftag[i] & ~MG_REF);
+    ftag[i] = (xt0.ftag[i] & ~MG_REF);
   }
 
   /* Modify first tetra */
-- 
2.43.0


From 2094a175b7d51ac68e70dc937232f90ca2a9616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 07/50] fix: detection of the face carrying the ridge in
 anatets_iso

---
 src/mmg3d/mmg3d1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/mmg3d1.c b/src/mmg3d/mmg3d1.c
index bd37122..b1884b9 100644
--- a/src/mmg3d/mmg3d1.c
+++ b/src/mmg3d/mmg3d1.c
@@ -2532,9 +2532,9 @@ MMG3D_anatets_iso(MMG5_pMesh mesh,MMG5_pSol met,int8_t typchk) {
          * ensure the computation of n2) */
         if ( pt->xt ) {
           if ( pxt->tag[ia] & MG_GEO && (!(pxt->tag[ia] & MG_NOM) ) ) {
-            int ifac2 = (MMG5_ifar[ia][0]!=i)? MMG5_ifar[ia][1] : MMG5_ifar[ia][0];
+            int ifac2 = (MMG5_ifar[ia][0]==i)? MMG5_ifar[ia][1] : MMG5_ifar[ia][0];
             if ( (!(pxt->ftag[i] & MG_BDY) ) && (pxt->ftag[ifac2] & MG_BDY) ) {
-              assert ( ifac2 > i && "lower face is already processed" );
+              /* If ifac2 is lower than i, the edge has already been processed */
               continue;
             }
           }
-- 
2.43.0


From f91fe7d06f0b71c0624dd9c6e5d1cf4f67ffa92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 08/50] fix: required triangles along non-manifold edges in
 nosurf mode

---
 src/mmg3d/hash_3d.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index 6bc8289..3315d66 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -1238,6 +1238,12 @@ int MMG5_hGeom(MMG5_pMesh mesh) {
         i2 = MMG5_iprv2[i];
         MMG5_hGet(&mesh->htab,pt->v[i1],pt->v[i2],&edg,&tag);
         pt->edg[i]  = edg;
+
+        /* A truly required edge must not be marked as required by the nosurf
+         * option due to the hash of the edge from another triangle */
+        if ( (pt->tag[i] & MG_REQ) && !(pt->tag[i] & MG_NOSURF) )
+          tag &= ~MG_NOSURF;
+
         pt->tag[i] |= tag;
       }
     }
-- 
2.43.0


From de3fc09356fbc4bc2887e937a1f373db9da83540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 09/50] fix: vertices of required tetra moved by the
 coordinates regularization

---
 src/mmg3d/analys_3d.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmg3d/analys_3d.c b/src/mmg3d/analys_3d.c
index 7f3c94d..69213e9 100644
--- a/src/mmg3d/analys_3d.c
+++ b/src/mmg3d/analys_3d.c
@@ -984,6 +984,12 @@ int MMG3D_regver(MMG5_pMesh mesh) {
     for (i=0; i<4; i++) {
       ppt = &mesh->point[ptet->v[i]];
       if ( !ppt->flag )  ppt->flag = k;
+
+      /* vertices of required tetra can't be moved */
+      if ( ptet->tag & MG_REQ ) {
+        ppt->tag |= MG_REQ;
+        ppt->tag &= ~MG_NOSURF;
+      }
     }
   }
 
-- 
2.43.0


From 01c7a6617012ea0e3c118a296d9e45e2a579abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 10/50] fix: quadrilateral and prism getters shared their
 cursor between meshes

---
 src/common/libmmgtypes.h       |  1 +
 src/common/mmgcommon_private.h |  2 ++
 src/mmg2d/API_functions_2d.c   | 24 ++++++++++-----------
 src/mmg3d/API_functions_3d.c   | 39 +++++++++++++++++-----------------
 4 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/common/libmmgtypes.h b/src/common/libmmgtypes.h
index fe75d61..f126a75 100644
--- a/src/common/libmmgtypes.h
+++ b/src/common/libmmgtypes.h
@@ -619,6 +619,7 @@ typedef struct {
   int       type; /*!< Type of the mesh */
   MMG5_int  npi,nti,nai,nei,np,na,nt,ne,npmax,namax,ntmax,nemax,xpmax,xtmax;
   MMG5_int  nquad,nprism; /*!< number of quadrangles and prisms */
+  MMG5_int  nqi,npri; /*!< cursors of the quadrangle and prism getters (internal use only) */
   int       nsols; /*!< number of solutions (metric excluded) in the solution file (lower than \a NSOLS_MAX)*/
   MMG5_int  nc1;
   MMG5_int  base; /*!< Used with \a flag to know if an entity has been
diff --git a/src/common/mmgcommon_private.h b/src/common/mmgcommon_private.h
index 36b4429..c4d73d8 100644
--- a/src/common/mmgcommon_private.h
+++ b/src/common/mmgcommon_private.h
@@ -203,6 +203,8 @@ extern "C" {
     mesh->nti = mesh->nt;                        \
     mesh->nai = mesh->na;                        \
     mesh->nei = mesh->ne;                        \
+    mesh->nqi = mesh->nquad;                     \
+    mesh->npri = mesh->nprism;                   \
     mesh->xt  = 0;                               \
     if ( sol ) { sol->npi  = sol->np; }          \
     if ( met ) { met->npi  = met->np; }          \
diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 3205094..63967ce 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -497,6 +497,7 @@ int MMG2D_Set_meshSize(MMG5_pMesh mesh, MMG5_int np, MMG5_int nt, MMG5_int nquad
   mesh->npi = mesh->np;
   mesh->nti = mesh->nt;
   mesh->nai = mesh->na;
+  mesh->nqi = mesh->nquad;
 
   /*tester si -m definie : renvoie 0 si pas ok et met la taille min dans info.mem */
   if( mesh->info.mem > 0) {
@@ -1138,10 +1139,9 @@ int MMG2D_Set_quadrilateral(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int
 
 int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                             MMG5_int* ref, int* isRequired) {
-  static MMG5_int nqi = 0;
 
-  if ( nqi == mesh->nquad ) {
-    nqi = 0;
+  if ( mesh->nqi == mesh->nquad ) {
+    mesh->nqi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter of"
               " quadrilaterals.\n",__func__);
@@ -1152,27 +1152,27 @@ int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
     }
   }
 
-  ++nqi;
+  ++mesh->nqi;
 
-  if ( nqi > mesh->nquad ) {
+  if ( mesh->nqi > mesh->nquad ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get quadra.\n",__func__);
     fprintf(stderr,"    The number of call of MMG2D_Get_quadrilateral function");
     fprintf(stderr," can not exceed the number of quadra: %" MMG5_PRId "\n ",mesh->nquad);
     return 0;
   }
 
-  *v0  = mesh->quadra[nqi].v[0];
-  *v1  = mesh->quadra[nqi].v[1];
-  *v2  = mesh->quadra[nqi].v[2];
-  *v3  = mesh->quadra[nqi].v[3];
+  *v0  = mesh->quadra[mesh->nqi].v[0];
+  *v1  = mesh->quadra[mesh->nqi].v[1];
+  *v2  = mesh->quadra[mesh->nqi].v[2];
+  *v3  = mesh->quadra[mesh->nqi].v[3];
 
   if ( ref != NULL ) {
-    *ref = mesh->quadra[nqi].ref;
+    *ref = mesh->quadra[mesh->nqi].ref;
   }
 
   if ( isRequired != NULL ) {
-    if ( ( mesh->quadra[nqi].tag[0] & MG_REQ) && ( mesh->quadra[nqi].tag[1] & MG_REQ) &&
-         ( mesh->quadra[nqi].tag[2] & MG_REQ) && ( mesh->quadra[nqi].tag[3] & MG_REQ) ) {
+    if ( ( mesh->quadra[mesh->nqi].tag[0] & MG_REQ) && ( mesh->quadra[mesh->nqi].tag[1] & MG_REQ) &&
+         ( mesh->quadra[mesh->nqi].tag[2] & MG_REQ) && ( mesh->quadra[mesh->nqi].tag[3] & MG_REQ) ) {
       *isRequired = 1;
     }
     else
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index d862907..2720f2b 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -257,6 +257,8 @@ int MMG3D_setMeshSize_initData(MMG5_pMesh mesh, MMG5_int np, MMG5_int ne, MMG5_i
   mesh->nei = mesh->ne;
   mesh->nti = mesh->nt;
   mesh->nai = mesh->na;
+  mesh->nqi = mesh->nquad;
+  mesh->npri = mesh->nprism;
 
   return 1;
 }
@@ -756,10 +758,8 @@ int MMG3D_Set_prism(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int v2,
 
 int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                     MMG5_int* v4, MMG5_int* v5, MMG5_int* ref, int* isRequired) {
-  static MMG5_int npri = 0;
-
-  if ( npri == mesh->nprism ) {
-    npri = 0;
+  if ( mesh->npri == mesh->nprism ) {
+    mesh->npri = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter of prisms.\n",
               __func__);
@@ -770,28 +770,28 @@ int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, M
     }
   }
 
-  ++npri;
+  ++mesh->npri;
 
-  if ( npri > mesh->nprism ) {
+  if ( mesh->npri > mesh->nprism ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get prism.\n",__func__);
     fprintf(stderr,"    The number of call of MMG3D_Get_prism function");
     fprintf(stderr," can not exceed the number of prism: %" MMG5_PRId "\n ",mesh->nprism);
     return 0;
   }
 
-  *v0  = mesh->prism[npri].v[0];
-  *v1  = mesh->prism[npri].v[1];
-  *v2  = mesh->prism[npri].v[2];
-  *v3  = mesh->prism[npri].v[3];
-  *v4  = mesh->prism[npri].v[4];
-  *v5  = mesh->prism[npri].v[5];
+  *v0  = mesh->prism[mesh->npri].v[0];
+  *v1  = mesh->prism[mesh->npri].v[1];
+  *v2  = mesh->prism[mesh->npri].v[2];
+  *v3  = mesh->prism[mesh->npri].v[3];
+  *v4  = mesh->prism[mesh->npri].v[4];
+  *v5  = mesh->prism[mesh->npri].v[5];
 
   if ( ref != NULL ) {
-    *ref = mesh->prism[npri].ref;
+    *ref = mesh->prism[mesh->npri].ref;
   }
 
   if ( isRequired != NULL ) {
-    if ( mesh->prism[npri].tag & MG_REQ )
+    if ( mesh->prism[mesh->npri].tag & MG_REQ )
       *isRequired = 1;
     else
       *isRequired = 0;
@@ -1009,10 +1009,9 @@ int MMG3D_Set_quadrilateral(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int
 int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                             MMG5_int* ref,int* isRequired) {
   MMG5_pQuad       pq;
-  static MMG5_int  nqi = 0;
 
-  if ( nqi == mesh->nquad ) {
-    nqi = 0;
+  if ( mesh->nqi == mesh->nquad ) {
+    mesh->nqi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter"
               " of quadrilaterals.\n",__func__);
@@ -1023,16 +1022,16 @@ int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
     }
   }
 
-  nqi++;
+  mesh->nqi++;
 
-  if ( nqi > mesh->nquad ) {
+  if ( mesh->nqi > mesh->nquad ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get quadrilateral.\n",__func__);
     fprintf(stderr,"    The number of call of MMG3D_Get_quadrilateral function");
     fprintf(stderr," can not exceed the number of quadrilaterals: %" MMG5_PRId "\n ",mesh->nquad);
     return 0;
   }
 
-  pq = &mesh->quadra[nqi];
+  pq = &mesh->quadra[mesh->nqi];
   *v0  = pq->v[0];
   *v1  = pq->v[1];
   *v2  = pq->v[2];
-- 
2.43.0


From d9cf3ac0257c5bf8ef746304e2499fbdc40a2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 11/50] fix: leak of vertices in the split of bad elements
 (optimLES)

---
 src/mmg3d/split_3d.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 890f4c4..0e7bb20 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4998,7 +4998,10 @@ MMG5_int MMG5_splitedg(MMG5_pMesh mesh, MMG5_pSol met,MMG5_int iel, int iar, dou
 
   ier = MMG3D_simbulgept(mesh,met,list,lon,ip);
   assert ( (!mesh->info.ddebug) || (mesh->info.ddebug && ier != -1) );
-  if ( ier <= 0 || ier == 2 ) return 0;
+  if ( ier <= 0 || ier == 2 ) {
+    MMG3D_delPt(mesh,ip);
+    return 0;
+  }
 
   ier = MMG3D_chksplit(mesh,met,ip,&list[0],lon,crit);
   if(!ier) return 0;
-- 
2.43.0


From 681f3de56e31ab5f9b2cc4c29f1630e3f1ef5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 12/50] fix: MMG3D_Get_prisms swapped two vertices of each
 prism

---
 src/mmg3d/API_functions_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 2720f2b..c943e2d 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -839,8 +839,8 @@ int  MMG3D_Get_prisms(MMG5_pMesh mesh, MMG5_int *prisms, MMG5_int *refs, int * a
     j = (i-1)*6;
     pp = &mesh->prism[i];
     prisms[j]   = pp->v[0];
-    prisms[j+2] = pp->v[1];
-    prisms[j+1] = pp->v[2];
+    prisms[j+1] = pp->v[1];
+    prisms[j+2] = pp->v[2];
     prisms[j+3] = pp->v[3];
     prisms[j+4] = pp->v[4];
     prisms[j+5] = pp->v[5];
-- 
2.43.0


From 6d24232b869c7c58fe564395adcc4e357982699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 13/50] fix: MMG3D_Add_vertex ignored the reference of the
 vertex

---
 src/mmg3d/API_functions_3d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index c943e2d..035dad5 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -2106,6 +2106,8 @@ MMG5_int MMG3D_Add_vertex(MMG5_pMesh mesh,double c0,double c1,double c2,MMG5_int
       return 0;
     }
   }
+  mesh->point[ip].ref = ref;
+
   return ip;
 }
 
-- 
2.43.0


From 496d0eeca822f6ef827ad2a5aaf81f2ddcd39973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 14/50] fix: level-set base references can be set again in
 mmg3d

---
 src/mmg3d/API_functions_3d.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 035dad5..1b26e5d 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -2248,8 +2248,14 @@ int MMG3D_Set_iparameter(MMG5_pMesh mesh, MMG5_pSol sol, int iparam,MMG5_int val
 
     break;
   case MMG3D_IPARAM_numberOfLSBaseReferences :
-    mesh->info.nbr = val;
-    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(int),"References",
+    if ( mesh->info.br ) {
+      MMG5_DEL_MEM(mesh,mesh->info.br);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug )
+        fprintf(stderr,"\n  ## Warning: %s: new level-set based references values\n",__func__);
+    }
+    mesh->info.nbr   = val;
+    mesh->info.nbri  = 0;
+    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(MMG5_int),"References",
                  printf("  Exit program.\n");
                  return 0);
     MMG5_SAFE_CALLOC(mesh->info.br,mesh->info.nbr,MMG5_int,return 0);
-- 
2.43.0


From 7409d24e6db4ade1ea8e891fe826b0d1bf9b9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 15/50] fix: memory accounting of MMG3D_skipIso

---
 src/mmg3d/API_functions_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 1b26e5d..8484d2c 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1954,7 +1954,7 @@ int MMG3D_skipIso(MMG5_pMesh mesh) {
     if( !mesh->nti )
       MMG5_DEL_MEM(mesh,mesh->tria);
     else {
-      MMG5_ADD_MEM(mesh,mesh->nti-mesh->nt,"triangles",return 0);
+      MMG5_ADD_MEM(mesh,(mesh->nti-mesh->nt)*sizeof(MMG5_Tria),"triangles",return 0);
       MMG5_SAFE_RECALLOC(mesh->tria,mesh->nt+1,(mesh->nti+1),MMG5_Tria,
                           "triangles",return 0);
     }
@@ -1987,7 +1987,7 @@ int MMG3D_skipIso(MMG5_pMesh mesh) {
       if( !mesh->nai )
         MMG5_DEL_MEM(mesh,mesh->edge);
       else {
-        MMG5_ADD_MEM(mesh,mesh->nai-mesh->na,"Edges",return 0);
+        MMG5_ADD_MEM(mesh,(mesh->nai-mesh->na)*sizeof(MMG5_Edge),"Edges",return 0);
         MMG5_SAFE_RECALLOC(mesh->edge,mesh->na+1,(mesh->nai+1),MMG5_Edge,
                             "edges",return 0);
       }
-- 
2.43.0


From 6086d17129ab163c34c3d397d21f3c64d8be3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 16/50] fix: required vertices lost their status in nosurf mode
 (mmg2d)

---
 src/mmg2d/analys_2d.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/analys_2d.c b/src/mmg2d/analys_2d.c
index ded88b6..e574566 100644
--- a/src/mmg2d/analys_2d.c
+++ b/src/mmg2d/analys_2d.c
@@ -122,8 +122,17 @@ int MMG2D_setadj(MMG5_pMesh mesh, int8_t init_cc) {
 
         /* Transfer tags if i is already an edge (e.g. supplied by the user) */
         if ( MG_EDG(pt->tag[i]) || (pt->tag[i] & MG_REQ) ) {
-          mesh->point[ip1].tag |= pt->tag[i];
-          mesh->point[ip2].tag |= pt->tag[i];
+          /* Points that are truly required must not be marked as required by
+           * the nosurf option */
+          tag = pt->tag[i];
+          if ( (mesh->point[ip1].tag & MG_REQ) && !(mesh->point[ip1].tag & MG_NOSURF) )
+            tag &= ~MG_NOSURF;
+          mesh->point[ip1].tag |= tag;
+
+          tag = pt->tag[i];
+          if ( (mesh->point[ip2].tag & MG_REQ) && !(mesh->point[ip2].tag & MG_NOSURF) )
+            tag &= ~MG_NOSURF;
+          mesh->point[ip2].tag |= tag;
         }
 
         /* Case of an external boundary */
-- 
2.43.0


From c9ba9851a0548ea1ff5c2a6f9762b0d9372d2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:49 +0000
Subject: [PATCH 17/50] fix: repeated split of the non-manifold edges (mmgs)

---
 src/mmgs/mmgs1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmgs/mmgs1.c b/src/mmgs/mmgs1.c
index e619e85..f5089ea 100644
--- a/src/mmgs/mmgs1.c
+++ b/src/mmgs/mmgs1.c
@@ -284,13 +284,13 @@ int chkedg(MMG5_pMesh mesh,MMG5_int iel) {
       MG_SET(pt->flag,i);
       continue;
     }
-    else if ( !MG_EDG(pt->tag[i]) && p[i1]->tag > MG_NOTAG && p[i2]->tag > MG_NOTAG ) {
+    else if ( !MG_EDG_OR_NOM(pt->tag[i]) && p[i1]->tag > MG_NOTAG && p[i2]->tag > MG_NOTAG ) {
       MG_SET(pt->flag,i);
       continue;
     }
 
     /* Hausdorff w/r tangent direction */
-    if ( MG_EDG(pt->tag[i]) ) {
+    if ( MG_EDG_OR_NOM(pt->tag[i]) ) {
       if ( MS_SIN(p[i1]->tag) ) {
         li = 1.0 / sqrt(ll);
         t1[0] = li*ux;
-- 
2.43.0


From 132dd9555bc0974a2918beb445021bef139e2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:49 +0000
Subject: [PATCH 18/50] fix: collapse refused depending on the vertex numbering
 (mmgs)

---
 src/mmgs/colver_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/colver_s.c b/src/mmgs/colver_s.c
index 2637f4f..1d8feff 100644
--- a/src/mmgs/colver_s.c
+++ b/src/mmgs/colver_s.c
@@ -495,7 +495,7 @@ int litcol(MMG5_pMesh mesh,MMG5_int k,int8_t i,double kali) {
 #endif
 
   /* collect all triangles around vertex i1 */
-  if ( pt->v[i1] & MG_NOM )  return 0;
+  if ( mesh->point[pt->v[i1]].tag & MG_NOM )  return 0;
 
   ilist = MMG5_boulet(mesh,k,i1,list,1,&open);
 
-- 
2.43.0


From 55f40ab923b432b3172dba8735884e36894453b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:49 +0000
Subject: [PATCH 19/50] fix: metric at ridge points returned in the internal
 storage

---
 src/common/inout.c             | 27 +++++++++++++++++++++++++++
 src/common/mmgcommon_private.h |  1 +
 src/mmg3d/libmmg3d.c           |  4 ++++
 src/mmgs/libmmgs.c             |  4 ++++
 4 files changed, 36 insertions(+)

diff --git a/src/common/inout.c b/src/common/inout.c
index bef21a1..b3ed14f 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -1569,6 +1569,33 @@ void  MMG5_build3DMetric(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,
   }
 }
 
+/**
+ * \param mesh pointer to the mesh structure
+ * \param met pointer to the metric structure.
+ *
+ * Replace the specific storage of the anisotropic metric at ridge points (used
+ * during the remeshing) by the classical one, so that the metric can be
+ * recovered from the API or provided to a new call to the library.
+ *
+ */
+void MMG5_unset_metRidTyp(MMG5_pMesh mesh,MMG5_pSol met) {
+  double   dbuf[6];
+  MMG5_int k;
+  int      i;
+
+  if ( (!mesh->info.metRidTyp) || (!met) || (!met->m) || met->size!=6 ) {
+    return;
+  }
+
+  for ( k=1; k<=mesh->np; k++ ) {
+    if ( !MG_VOK(&mesh->point[k]) ) continue;
+
+    MMG5_build3DMetric(mesh,met,k,dbuf);
+    for ( i=0; i<6; i++ ) met->m[6*k+i] = dbuf[i];
+  }
+  mesh->info.metRidTyp = 0;
+}
+
 /**
  * \param mesh pointer to the mesh structure.
  * \param sol pointer to an array of solutions.
diff --git a/src/common/mmgcommon_private.h b/src/common/mmgcommon_private.h
index c4d73d8..d1804db 100644
--- a/src/common/mmgcommon_private.h
+++ b/src/common/mmgcommon_private.h
@@ -735,6 +735,7 @@ typedef struct MMG5_iNode_s {
  int           MMG5_writeLocalParamAtTri( MMG5_pMesh,MMG5_iNode *,FILE*);
  double        MMG2D_quickarea(double a[2],double b[2],double c[2]);
  void          MMG5_build3DMetric(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,double dbuf[6]);
+void          MMG5_unset_metRidTyp(MMG5_pMesh mesh,MMG5_pSol met);
  int           MMG5_loadVtuMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename);
  int           MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
                                       FILE **inm,long *posNodes, long *posElts,
diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index aab1443..f27578c 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -931,6 +931,10 @@ int MMG3D_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   /* update prisms and quads vertex indices */
   if ( !MMG3D_pack_prismsAndQuads(mesh) ) return 0;
 
+  /* recover the classical storage of the metric at ridge points */
+  MMG5_unset_metRidTyp(mesh,met);
+  MMG5_unset_metRidTyp(mesh,sol);
+
   /* compact solutions (metric, level-set, displacement...) */
   if ( met && met->m )
     if ( !MMG3D_pack_sol(mesh,met) ) return 0;
diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index 9abe634..4e56e5f 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -168,6 +168,10 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   }
   mesh->nt = nt;
 
+  /* recover the classical storage of the metric at ridge points */
+  MMG5_unset_metRidTyp(mesh,met);
+  MMG5_unset_metRidTyp(mesh,sol);
+
   /* compact solutions (metric, level-set, displacement...) */
   if ( met && met->m ) {
     nbl = 1;
-- 
2.43.0


From 57de7b1771c50db8c48e259f700677ed7ab946a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 20/50] fix: metric of points created on non-manifold ridges
 (mmgs)

The metric of a non-manifold point is a full tensor, but intmet_ani stored the
one of a point created on a non-manifold ridge in the ridge format.
---
 src/mmgs/intmet_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/intmet_s.c b/src/mmgs/intmet_s.c
index 36e0a4b..67145c8 100644
--- a/src/mmgs/intmet_s.c
+++ b/src/mmgs/intmet_s.c
@@ -116,7 +116,7 @@ int intmet_ani(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int8_t i,MMG5_int ip,dou
   ip2 = pt->v[i2];
 
   m  = &met->m[6*ip];
-  if ( pt->tag[i] & MG_GEO ) {
+  if ( (pt->tag[i] & MG_GEO) && !(pt->tag[i] & MG_NOM) ) {
     ppt = &mesh->point[ip];
     assert(ppt->xp);
     go = &mesh->xpoint[ppt->xp];
-- 
2.43.0


From de3eaafbbf3cc5599410aa095a318e6b57d29065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 21/50] fix: metric of the points inserted on ridges (mmg3d)

MMG5_intridmet pairs the sizes with the normals of the new point, but the splits
of surface edges interpolated the metric before these normals were stored: the
sizes along and across the ridge faces were exchanged.
---
 src/mmg3d/mmg3d1.c        | 13 +++++++------
 src/mmg3d/mmg3d1_delone.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/mmg3d/mmg3d1.c b/src/mmg3d/mmg3d1.c
index b1884b9..8babe68 100644
--- a/src/mmg3d/mmg3d1.c
+++ b/src/mmg3d/mmg3d1.c
@@ -2030,6 +2030,13 @@ int MMG3D_splsurfedge( MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,
                         return 2;
                         ,o,tag,src);
   }
+  /* The metric interpolation along a ridge needs the normals at the new point and
+   * simbulgept needs a valid tangent at ridge point (to build ridge metric in
+   * order to comute edge lengths). Thus we need to store the geometric info of
+   * point here. */
+  ppt = &mesh->point[ip];
+  MMG3D_set_geom(mesh,ppt,tag,ref,pxt->ref[i],no1,no2,to);
+
   if ( met && met->m ) {
     if ( typchk == 1 && (met->size>1) ) {
       ier = MMG3D_intmet33_ani(mesh,met,k,imax,ip,0.5);
@@ -2047,12 +2054,6 @@ int MMG3D_splsurfedge( MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,
     }
   }
 
-  /* simbulgept needs a valid tangent at ridge point (to build ridge metric in
-   * order to comute edge lengths). Thus we need to store the geometric info of
-   * point here. */
-  ppt = &mesh->point[ip];
-  MMG3D_set_geom(mesh,ppt,tag,ref,pxt->ref[i],no1,no2,to);
-
   ier = MMG3D_simbulgept(mesh,met,list,ilist,ip);
 
 #ifndef NDEBUG
diff --git a/src/mmg3d/mmg3d1_delone.c b/src/mmg3d/mmg3d1_delone.c
index 6291111..edc20c9 100644
--- a/src/mmg3d/mmg3d1_delone.c
+++ b/src/mmg3d/mmg3d1_delone.c
@@ -150,6 +150,13 @@ int MMG3D_mmg3d1_delone_split(MMG5_pMesh mesh, MMG5_pSol met,
     /* Mark edge as bdy to avoid issue in intmet */
     pxt->tag[imax] |= MG_BDY;
 
+    /* The metric interpolation along a ridge needs the normals at the new point
+     * and simbulgept needs a valid tangent at ridge point (to build ridge metric
+     * in order to comute edge lengths). Thus we need to store the geometric info
+     * of point here. */
+    ppt = &mesh->point[ip];
+    MMG3D_set_geom(mesh,ppt,tag,ref,pxt->ref[i],no1,no2,to);
+
     if ( met && met->m ) {
       ier = MMG5_intmet(mesh,met,k,imax,ip,0.5);
     }
@@ -159,12 +166,6 @@ int MMG3D_mmg3d1_delone_split(MMG5_pMesh mesh, MMG5_pSol met,
     }
 
     /* Simulation only if intmet call is successful */
-    /* simbulgept needs a valid tangent at ridge point (to build ridge metric in
-     * order to comute edge lengths). Thus we need to store the geometric info of
-     * point here. */
-    ppt = &mesh->point[ip];
-    MMG3D_set_geom(mesh,ppt,tag,ref,pxt->ref[i],no1,no2,to);
-
     ier = MMG3D_simbulgept(mesh,met,list,ilist,ip);
 
     if ( ier == 2 || ier < 0 ) {
-- 
2.43.0


From 439f5b75eef3745755b539249e311da9d4bdb238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 22/50] fix: MMGS_Set_edges reads the reference of each edge
 from its own index

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 71cefa6..52da79a 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -670,7 +670,7 @@ int MMGS_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].a    = edges[j];
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
-      mesh->edge[i].ref  = refs[i];
+      mesh->edge[i].ref  = refs[i-1];
     mesh->edge[i].tag |= MG_REF;
   }
 
-- 
2.43.0


From a722eacb5015894299bd4f7a377fa7434341d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 23/50] fix: Set/Get_ithSol(s)_inSolsAtVertices report the
 failures for vector and tensor fields

---
 src/mmg2d/API_functions_2d.c | 16 ++++++++--------
 src/mmg3d/API_functions_3d.c | 16 ++++++++--------
 src/mmgs/API_functions_s.c   | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 63967ce..69375cb 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1756,11 +1756,11 @@ int  MMG2D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSols(psl,s);
+    return MMG2D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSols(psl,s);
+    return MMG2D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1784,11 +1784,11 @@ int  MMG2D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSols(psl,s);
+    return MMG2D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSols(psl,s);
+    return MMG2D_Get_tensorSols(psl,s);
     break;
 
   default:
@@ -1812,11 +1812,11 @@ int  MMG2D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
+    return MMG2D_Set_vectorSol(psl,s[0],s[1],pos);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
+    return MMG2D_Set_tensorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   default:
@@ -1841,11 +1841,11 @@ int  MMG2D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
+    return MMG2D_Get_vectorSol(psl,&s[0],&s[1]);
     break;
 
   case MMG5_Tensor:
-    MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG2D_Get_tensorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   default:
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 8484d2c..58eed62 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -1762,11 +1762,11 @@ int  MMG3D_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMG3D_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMG3D_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1791,11 +1791,11 @@ int  MMG3D_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int p
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMG3D_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMG3D_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
@@ -1819,11 +1819,11 @@ int  MMG3D_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Set_vectorSols(psl,s);
+    return MMG3D_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Set_tensorSols(psl,s);
+    return MMG3D_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1847,11 +1847,11 @@ int  MMG3D_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMG3D_Get_vectorSols(psl,s);
+    return MMG3D_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMG3D_Get_tensorSols(psl,s);
+    return MMG3D_Get_tensorSols(psl,s);
     break;
 
   default:
diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 52da79a..c9e2f88 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1155,11 +1155,11 @@ int  MMGS_Set_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double* s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
+    return MMGS_Set_vectorSol(psl,s[0],s[1],s[2],pos);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
+    return MMGS_Set_tensorSol(psl,s[0],s[1],s[2],s[3],s[4],s[5],pos);
     break;
 
   default:
@@ -1184,11 +1184,11 @@ int  MMGS_Get_ithSol_inSolsAtVertices(MMG5_pSol sol,int i, double *s,MMG5_int po
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
+    return MMGS_Get_vectorSol(psl,&s[0],&s[1],&s[2]);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
+    return MMGS_Get_tensorSol(psl,&s[0],&s[1],&s[2],&s[3],&s[4],&s[5]);
     break;
 
   default:
@@ -1212,11 +1212,11 @@ int  MMGS_Set_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Set_vectorSols(psl,s);
+    return MMGS_Set_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Set_tensorSols(psl,s);
+    return MMGS_Set_tensorSols(psl,s);
     break;
 
   default:
@@ -1240,11 +1240,11 @@ int  MMGS_Get_ithSols_inSolsAtVertices(MMG5_pSol sol,int i, double *s) {
     break;
 
   case MMG5_Vector:
-    MMGS_Get_vectorSols(psl,s);
+    return MMGS_Get_vectorSols(psl,s);
     break;
 
   case MMG5_Tensor:
-    MMGS_Get_tensorSols(psl,s);
+    return MMGS_Get_tensorSols(psl,s);
     break;
 
   default:
-- 
2.43.0


From 130f49a2cbb47d38c0c9e2f9924c8fbf708bc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 24/50] fix: boundary level-set discretisation with a non zero
 level (mmg3d)

MMG3D_mmg3d2 already subtracts the level to discretise from the solution:
subtracting it again shifts the surface level-set.
---
 src/mmg3d/mmg3d2s.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index e3919cd..10c7b3d 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -130,15 +130,15 @@ int MMG3D_snpval_lssurf(MMG5_pMesh mesh,MMG5_pSol sol) {
   for (k=1; k<=mesh->np; k++) {
     p0 = &mesh->point[k];
     if ( !MG_VOK(p0) ) continue;
-    if ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPS ) {
+    if ( fabs(sol->m[k]) < MMG5_EPS ) {
       if ( mesh->info.ddebug )
         fprintf(stderr,"  ## Warning: %s: snapping value %" MMG5_PRId "; "
                 "previous value: %E.\n",__func__,k,fabs(sol->m[k]));
 
-      tmp[k] = ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPSD ) ?
-        (mesh->info.ls-100.0*MMG5_EPS) : sol->m[k];
+      tmp[k] = ( fabs(sol->m[k]) < MMG5_EPSD ) ?
+        (-100.0*MMG5_EPS) : sol->m[k];
       p0->flag = 1;
-      sol->m[k] = mesh->info.ls;
+      sol->m[k] = 0.0;
       ns++;
     }
   }
@@ -190,8 +190,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         if ( p0->flag && p1->flag )  continue;
 
-        v0  = sol->m[ip0]-mesh->info.ls;
-        v1  = sol->m[ip1]-mesh->info.ls;
+        v0  = sol->m[ip0];
+        v1  = sol->m[ip1];
 
         if ( fabs(v0) > MMG5_EPSD2 && fabs(v1) > MMG5_EPSD2 && v0*v1 < 0.0 ) {
           nb ++;
@@ -258,8 +258,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         p0 = &mesh->point[ip0];
         p1 = &mesh->point[ip1];
-        v0 = sol->m[ip0]-mesh->info.ls;
-        v1 = sol->m[ip1]-mesh->info.ls;
+        v0 = sol->m[ip0];
+        v1 = sol->m[ip1];
         if ( fabs(v0) < MMG5_EPSD2 || fabs(v1) < MMG5_EPSD2 )  continue;
         else if ( MG_SMSGN(v0,v1) )  continue;
         else if ( !p0->flag || !p1->flag )  continue;
@@ -311,7 +311,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
           }
         }
 
-        sol->m[np] = mesh->info.ls;
+        sol->m[np] = 0.0;
 
         /* If user provide a metric, interpolate it at the new point */
         if ( met && met->m ) {
@@ -439,7 +439,7 @@ int MMG3D_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol) {
       /* Set face ref */
       for (j=0; j<3; j++) {
         ip = pt->v[MMG5_idir[i][j]];
-        v  = sol->m[ip]-mesh->info.ls;
+        v  = sol->m[ip];
         if ( v > 0.0 )
           npls++;
         else if ( v < 0.0 )
-- 
2.43.0


From 704c57bab4b050b12d78d7345f53a95e43fd8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 25/50] fix: vertices of the boundary level-set take the user
 interface reference (2D, surface)

---
 src/common/mmg2s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mmg2s.c b/src/common/mmg2s.c
index 27ecf1f..1bbd49d 100644
--- a/src/common/mmg2s.c
+++ b/src/common/mmg2s.c
@@ -208,7 +208,7 @@ int MMG5_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol){
   for (k=1; k<=mesh->np; k++) {
     v = sol->m[k];
     if ( v == 0.0 ) {
-      mesh->point[k].ref = MG_ISO;
+      mesh->point[k].ref = mesh->info.isoref;
     }
   }
 
-- 
2.43.0


From 5657a1ed510575c8b1c974643f09c58b23055130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 26/50] fix: signs seen around the vertices of the level-set
 (2D, surface)

---
 src/common/mmg2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index c278029..1ce436c 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -579,7 +579,7 @@ int MMG5_snpval_ls(MMG5_pMesh mesh,MMG5_pSol sol) {
         iel = list[kk] / 3;
         j = list[kk] % 3;
         j1 = MMG5_inxt2[j];
-        j2 = MMG5_iprv2[i];
+        j2 = MMG5_iprv2[j];
         pt1 = &mesh->tria[iel];
         ip1 = pt1->v[j1];
         ip2 = pt1->v[j2];
-- 
2.43.0


From 0faa287c3e74d32942fc15b32f0f2f011f0faf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 27/50] fix: MMG2D_Set_edge(s) mark the edges as boundary
 references, as the file loader does

---
 src/mmg2d/API_functions_2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 69375cb..5192dcd 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1260,7 +1260,7 @@ int MMG2D_Set_edge(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int ref, MMG5
   pt->a = v0;
   pt->b = v1;
   pt->ref  = ref;
-  pt->tag &= MG_REF + MG_BDY;
+  pt->tag = MG_REF + MG_BDY;
 
   mesh->point[pt->a].tag &= ~MG_NUL;
   mesh->point[pt->b].tag &= ~MG_NUL;
@@ -1377,7 +1377,7 @@ int MMG2D_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
       mesh->edge[i].ref  = refs[i-1];
-    mesh->edge[i].tag &= MG_REF+MG_BDY;
+    mesh->edge[i].tag = MG_REF+MG_BDY;
 
     mesh->point[mesh->edge[i].a].tag &= ~MG_NUL;
     mesh->point[mesh->edge[i].b].tag &= ~MG_NUL;
-- 
2.43.0


From 7b74dd02741d3feb1b108c28838d9985380b540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 28/50] fix: no abort when an isolated mesh edge has 0
 level-set values (2D, surface)

---
 src/common/mmg2.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index 1ce436c..04a9574 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -671,10 +671,9 @@ int MMG5_ismaniball(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_int start, int8_t istar
 
   if ( k==start ) {
     /* Complete ball has been travelled without crossing a boundary or finding a
-     * sign change: we are in the special case where v1 = v2 = v[istart] = 0 in
-     * tria start. In this case, test MG_SMSGN(v1,v2) returns 0 while smsgn is
-     * computed to 1, which is non consistent.  */
-    assert ( smsgn );
+     * sign change outside of tria start: either v1 = v2 = v[istart] = 0 in tria
+     * start or the ball contains a unique other vertex with a 0 value, all the
+     * remaining ones having the same sign. */
     return 0;
   }
 
-- 
2.43.0


From 1e7f3e657f5ccca7b75bbbb988729f728f1b1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 29/50] fix: no failure when the level-set only crosses
 materials that are not split

---
 src/mmg2d/mmg2d6.c  | 2 +-
 src/mmg3d/mmg3d2.c  | 2 +-
 src/mmg3d/mmg3d2s.c | 2 +-
 src/mmgs/mmgs2.c    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmg2d/mmg2d6.c b/src/mmg2d/mmg2d6.c
index 23e32bb..a1b17b1 100644
--- a/src/mmg2d/mmg2d6.c
+++ b/src/mmg2d/mmg2d6.c
@@ -196,7 +196,7 @@ int MMG2D_cuttri(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 
 }
 
diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 094f96b..4d2904b 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1242,7 +1242,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 }
 
 
diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index 10c7b3d..9e674ea 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -405,7 +405,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 }
 
 /**
diff --git a/src/mmgs/mmgs2.c b/src/mmgs/mmgs2.c
index 0b68f15..5d963ce 100644
--- a/src/mmgs/mmgs2.c
+++ b/src/mmgs/mmgs2.c
@@ -224,7 +224,7 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     mesh->point[k].flag = 0;
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 
 }
 
-- 
2.43.0


From 5bbc5f49f6250f527c9ed231d2f0db3484c37b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:33 +0000
Subject: [PATCH 30/50] fix: isotropic metric together with the anisotropic
 sizes parameter is not read as tensors

---
 src/mmg2d/libmmg2d_tools.c | 4 +++-
 src/mmg3d/libmmg3d_tools.c | 4 +++-
 src/mmgs/libmmgs_tools.c   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 0ebf7e9..33ca5f4 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -36,7 +36,9 @@
 #include "mmgexterns_private.h"
 
 void MMG2D_setfunc(MMG5_pMesh mesh,MMG5_pSol met) {
-  if ( mesh->info.ani || (met && met->size==3 ) ) {
+  /* An isotropic metric provided by the user prevails over the ask for an
+   * anisotropic one (as with the -A command line option) */
+  if ( (mesh->info.ani && !(met && met->m && met->size==1)) || (met && met->size==3 ) ) {
     /* Force data consistency: if aniso metric is provided, met->size==3 and
      * info.ani==0; with -A option, met->size==1 and info.ani==1 */
     met->size = 3;
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index 43fa2b7..6eaec0b 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -47,7 +47,9 @@ void MMG5_argv_cleanup( char **mmgArgv, int mmgArgc )
 
 void MMG3D_setfunc(MMG5_pMesh mesh,MMG5_pSol met) {
 
-  if ( mesh->info.ani || (met && met->size == 6) ) {
+  /* An isotropic metric provided by the user prevails over the ask for an
+   * anisotropic one (as with the -A command line option) */
+  if ( (mesh->info.ani && !(met && met->m && met->size == 1)) || (met && met->size == 6) ) {
     /* Force data consistency: if aniso metric is provided, met->size==6 and
      * info.ani==0; with -A option, met->size==1 and info.ani==1 */
     met->size = 6;
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index 89f3e88..95863e1 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -41,7 +41,9 @@
 
 
 void MMGS_setfunc(MMG5_pMesh mesh,MMG5_pSol met) {
-  if ( (!mesh->info.ani) && ((!met) || (met->size < 6)) ) {
+  /* An isotropic metric provided by the user prevails over the ask for an
+   * anisotropic one (as with the -A command line option) */
+  if ( ((!mesh->info.ani) || (met && met->m && met->size == 1)) && ((!met) || (met->size < 6)) ) {
     MMG5_calelt      = MMG5_caltri_iso;
     MMGS_doSol       = MMGS_doSol_iso;
     MMG5_lenSurfEdg  = MMG5_lenSurfEdg_iso;
-- 
2.43.0


From 9a43cd235b8ba26730b9b0e8646da2b1c6d37bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:56 +0000
Subject: [PATCH 31/50] fix: crash of the boundary level-set discretisation
 with anisotropic sizes and no metric (mmg3d)

---
 src/mmg3d/split_3d.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index 0e7bb20..ed2f814 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -3013,24 +3013,9 @@ int MMG5_split3op(MMG5_pMesh mesh, MMG5_pSol met, MMG5_int k, MMG5_int vx[6],int
   }
 
   /* Quality update */
-  if ( (!metRidTyp) && met->m && met->size>1 ) {
-    pt[0]->qual=MMG5_caltet33_ani(mesh,met,pt[0]);
-    pt[1]->qual=MMG5_caltet33_ani(mesh,met,pt[1]);
-    pt[2]->qual=MMG5_caltet33_ani(mesh,met,pt[2]);
-    pt[3]->qual=MMG5_caltet33_ani(mesh,met,pt[3]);
-    if ( !((imin12 == ip1) && (imin03 == ip3)) ) {
-      pt[4]->qual=MMG5_caltet33_ani(mesh,met,pt[4]);
-    }
-  }
-  else {
-    pt[0]->qual=MMG5_orcal(mesh,met,newtet[0]);
-    pt[1]->qual=MMG5_orcal(mesh,met,newtet[1]);
-    pt[2]->qual=MMG5_orcal(mesh,met,newtet[2]);
-    pt[3]->qual=MMG5_orcal(mesh,met,newtet[3]);
-    if ( !((imin12 == ip1) && (imin03 == ip3)) ) {
-      pt[4]->qual=MMG5_orcal(mesh,met,newtet[4]);
-    }
-  }
+  MMG3D_update_qual(mesh,met,((imin12 == ip1) && (imin03 == ip3)) ? 4 : 5,
+                    newtet,pt,metRidTyp);
+
   return 1;
 }
 
-- 
2.43.0


From c9eb90b8799592854c96a61a1626a9cbd7715e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 32/50] fix: component areas are measured on the surface for
 the removal of small components (mmgs)

---
 src/common/mmg2.c | 62 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index 04a9574..8b4eac2 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -733,6 +733,37 @@ int MMG5_ismaniball(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_int start, int8_t istar
   return 1;
 }
 
+/**
+ * \param dim dimension of the space
+ * \param a coordinates of the first vertex of the triangle
+ * \param b coordinates of the second vertex of the triangle
+ * \param c coordinates of the third vertex of the triangle
+ * \return area of the triangle
+ *
+ * Calculate the area of a triangle (in the plane or in space) given by the
+ * coordinates of its vertices
+ *
+ **/
+static inline
+double MMG5_areatri(int dim,const double *a,const double *b,const double *c) {
+  double ux,uy,uz,vx,vy,vz,n[3];
+
+  ux = b[0] - a[0];
+  uy = b[1] - a[1];
+  vx = c[0] - a[0];
+  vy = c[1] - a[1];
+
+  n[2] = ux*vy - uy*vx;
+  if ( dim == 2 ) return 0.5*fabs(n[2]);
+
+  uz = b[2] - a[2];
+  vz = c[2] - a[2];
+  n[0] = uy*vz - uz*vy;
+  n[1] = uz*vx - ux*vz;
+
+  return 0.5*sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]);
+}
+
 /**
  * \param mesh pointer to the mesh structure.
  * \param ip0 First vertex of the triangle
@@ -746,16 +777,11 @@ int MMG5_ismaniball(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_int start, int8_t istar
 static inline
 double MMG5_voltri(MMG5_pMesh mesh,MMG5_int ip0,MMG5_int ip1,MMG5_int ip2) {
   MMG5_pPoint    p0,p1,p2;
-  double         vol;
-
   p0 = &mesh->point[ip0];
   p1 = &mesh->point[ip1];
   p2 = &mesh->point[ip2];
 
-  vol = (p1->c[0]-p0->c[0])*(p2->c[1]-p0->c[1]) - (p1->c[1]-p0->c[1])*(p2->c[0]-p0->c[0]);
-  vol = 0.5*fabs(vol);
-
-  return vol;
+  return MMG5_areatri(mesh->dim,p0->c,p1->c,p2->c);
 }
 
 /**
@@ -774,7 +800,7 @@ static inline
 double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
   MMG5_pTria    pt;
   MMG5_pPoint   ppt[3];
-  double        v[3],vfp,vfm,lam,area,eps,o1[2],o2[2];
+  double        v[3],vfp,vfm,lam,area,eps,o1[3],o2[3];
   MMG5_int      ip[3],nplus,nminus,nzero;
   int8_t        i,i0,i1,i2,imin1,iplus1,iz;
 
@@ -817,16 +843,14 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
 
   /* Whole triangle is positive */
   if ( nminus == 0 ) {
-    vfp = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-    vfp = 0.5*fabs(vfp);
+    vfp = MMG5_areatri(mesh->dim,ppt[0]->c,ppt[1]->c,ppt[2]->c);
     if ( pm == 1 ) return vfp;
     else           return 0.0;
   }
 
   /* Whole triangle is negative */
   if ( nplus == 0 ) {
-    vfm = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-    vfm = 0.5*fabs(vfm);
+    vfm = MMG5_areatri(mesh->dim,ppt[0]->c,ppt[1]->c,ppt[2]->c);
     if ( pm == -1 ) return vfm;
     else            return 0.0;
   }
@@ -840,18 +864,18 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
     lam = v[i0] / (v[i0]-v[i1]);
     o1[0] = ppt[i0]->c[0] + lam*(ppt[i1]->c[0]-ppt[i0]->c[0]);
     o1[1] = ppt[i0]->c[1] + lam*(ppt[i1]->c[1]-ppt[i0]->c[1]);
+    o1[2] = ppt[i0]->c[2] + lam*(ppt[i1]->c[2]-ppt[i0]->c[2]);
 
     lam = v[i0] / (v[i0]-v[i2]);
     o2[0] = ppt[i0]->c[0] + lam*(ppt[i2]->c[0]-ppt[i0]->c[0]);
     o2[1] = ppt[i0]->c[1] + lam*(ppt[i2]->c[1]-ppt[i0]->c[1]);
+    o2[2] = ppt[i0]->c[2] + lam*(ppt[i2]->c[2]-ppt[i0]->c[2]);
 
-    vfm = (o1[0]-ppt[i0]->c[0])*(o2[1]-ppt[i0]->c[1]) - (o1[1]-ppt[i0]->c[1])*(o2[0]-ppt[i0]->c[0]);
-    vfm = 0.5*fabs(vfm);
+    vfm = MMG5_areatri(mesh->dim,ppt[i0]->c,o1,o2);
 
     if ( pm == -1 ) return vfm;
     else {
-      area = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-      area = 0.5*fabs(area);
+      area = MMG5_areatri(mesh->dim,ppt[0]->c,ppt[1]->c,ppt[2]->c);
       vfp = area-vfm;
       return vfp;
     }
@@ -866,18 +890,18 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
     lam = v[i0] / (v[i0]-v[i1]);
     o1[0] = ppt[i0]->c[0] + lam*(ppt[i1]->c[0]-ppt[i0]->c[0]);
     o1[1] = ppt[i0]->c[1] + lam*(ppt[i1]->c[1]-ppt[i0]->c[1]);
+    o1[2] = ppt[i0]->c[2] + lam*(ppt[i1]->c[2]-ppt[i0]->c[2]);
 
     lam = v[i0] / (v[i0]-v[i2]);
     o2[0] = ppt[i0]->c[0] + lam*(ppt[i2]->c[0]-ppt[i0]->c[0]);
     o2[1] = ppt[i0]->c[1] + lam*(ppt[i2]->c[1]-ppt[i0]->c[1]);
+    o2[2] = ppt[i0]->c[2] + lam*(ppt[i2]->c[2]-ppt[i0]->c[2]);
 
-    vfp = (o1[0]-ppt[i0]->c[0])*(o2[1]-ppt[i0]->c[1]) - (o1[1]-ppt[i0]->c[1])*(o2[0]-ppt[i0]->c[0]);
-    vfp = 0.5*fabs(vfp);
+    vfp = MMG5_areatri(mesh->dim,ppt[i0]->c,o1,o2);
 
     if ( pm == 1 ) return vfp;
     else {
-      area = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-      area = 0.5*fabs(area);
+      area = MMG5_areatri(mesh->dim,ppt[0]->c,ppt[1]->c,ppt[2]->c);
       vfm = area-vfp;
       return vfm;
     }
-- 
2.43.0


From 681315065411bddb675c8a0a019e19d7dbd09d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 33/50] fix: references of the boundaries between materials in
 open boundary mode (mmg3d level-set)

---
 src/mmg3d/mmg3d2.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 4d2904b..36c5076 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1311,7 +1311,7 @@ int MMG3D_update_xtetra ( MMG5_pMesh mesh ) {
   MMG5_pTetra   pt,pt1,ptmax,ptmin;
   MMG5_pxTetra  pxt;
   int           i,j,imax,imin;
-  MMG5_int      *adja,k,jel;
+  MMG5_int      *adja,k,jel,ref;
 
   if ( (!mesh->info.iso) || (!mesh->info.opnbdy) ) {
     /* In non opnbdy mode, info stored in xtetra is not used */
@@ -1367,6 +1367,22 @@ int MMG3D_update_xtetra ( MMG5_pMesh mesh ) {
         imin  = i;
       }
 
+      /* Reference of the new boundary face: interface reference along the
+       * level-set. Elsewhere (boundary between materials), the user-defined
+       * reference if any or else, the min ref of the tetra. */
+      if ( MMG5_isLevelSet(mesh,pt->ref,pt1->ref) ) {
+        ref = mesh->info.isoref;
+      }
+      else if ( pt->xt && (mesh->xtetra[pt->xt].ftag[i] & MG_BDY) ) {
+        ref = mesh->xtetra[pt->xt].ref[i];
+      }
+      else if ( pt1->xt && (mesh->xtetra[pt1->xt].ftag[j] & MG_BDY) ) {
+        ref = mesh->xtetra[pt1->xt].ref[j];
+      }
+      else {
+        ref = MG_MIN(pt->ref,pt1->ref);
+      }
+
       /* Update the xtetra array for both tetra */
       /* Tetra ptmax */
       if ( !ptmax->xt ) {
@@ -1381,7 +1397,7 @@ int MMG3D_update_xtetra ( MMG5_pMesh mesh ) {
       }
 
       pxt = &mesh->xtetra[ptmax->xt];
-      pxt->ref[imax]   = mesh->info.isoref;
+      pxt->ref[imax]   = ref;
       pxt->ftag[imax] |= MG_BDY;
       MG_SET(pxt->ori,imax);
 
@@ -1398,7 +1414,7 @@ int MMG3D_update_xtetra ( MMG5_pMesh mesh ) {
       }
 
       pxt = &mesh->xtetra[ptmin->xt];
-      pxt->ref[imin]   = mesh->info.isoref;
+      pxt->ref[imin]   = ref;
       pxt->ftag[imin] |= MG_BDY;
       MG_CLR(pxt->ori,imin);
     }
-- 
2.43.0


From 264cee565000ef956ac780daee8a6c5f126edb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 34/50] fix: do not write line breaks between the values of
 binary solution files

---
 src/mmg2d/inout_2d.c | 12 +++++++++---
 src/mmg3d/inout_3d.c | 12 +++++++++---
 src/mmgs/inout_s.c   | 12 +++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 685264e..46ac3d2 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -1650,7 +1650,9 @@ int MMG2D_saveSol(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
     if ( !MG_VOK(ppt) )  continue;
 
     MMG2D_writeDoubleSol(sol,inm,bin,k,gmsh);
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   /* End file */
@@ -1741,7 +1743,9 @@ int MMG2D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename) {
         MMG2D_writeDoubleSol(psl,inm,bin,k,gmsh);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   MMG5_saveSolAtTrianglesHeader( mesh,inm,(*sol)[0].ver,bin,&bpos,mesh->nsols,
@@ -1757,7 +1761,9 @@ int MMG2D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename) {
         MMG2D_writeDoubleSol(psl,inm,bin,k,gmsh);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   MMG5_SAFE_FREE(type);
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 84701a8..95ae835 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -2335,7 +2335,9 @@ int MMG3D_saveSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
     if ( !MG_VOK(ppt) ) continue;
 
     MMG5_writeDoubleSol3D(mesh,met,inm,bin,k,1);
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   /* End file */
@@ -2403,7 +2405,9 @@ int MMG3D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   MMG5_saveSolAtTetrahedraHeader( mesh,inm,(*sol)[0].ver,bin,&bpos,mesh->nsols,
@@ -2419,7 +2423,9 @@ int MMG3D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
 
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index 222717b..802e470 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -1503,7 +1503,9 @@ int MMGS_saveSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
     if ( !MG_VOK(ppt) ) continue;
 
     MMG5_writeDoubleSol3D(mesh,met,inm,bin,k,1);
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   /* end of file */
@@ -1572,7 +1574,9 @@ int MMGS_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   MMG5_saveSolAtTrianglesHeader( mesh,inm,(*sol)[0].ver,bin,&bpos,mesh->nsols,
@@ -1588,7 +1592,9 @@ int MMGS_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin ) {
+      fprintf(inm,"\n");
+    }
   }
 
   MMG5_SAFE_FREE(type);
-- 
2.43.0


From 5c37cdf6660a3b6c915aaceca75448867d1adc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:59 +0000
Subject: [PATCH 35/50] fix: count the required quadrangles of a 2D mesh once
 when saving it

---
 src/mmg2d/inout_2d.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 46ac3d2..579effb 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -1473,10 +1473,6 @@ int MMG2D_saveMesh(MMG5_pMesh mesh,const char *filename) {
         fwrite(&mesh->point[pq->v[3]].tmp,MMG5_SW,1,inm);
         fwrite(&pq->ref,MMG5_SW,1,inm);
       }
-      if ( pq->tag[0] & MG_REQ && pq->tag[1] & MG_REQ &&
-           pq->tag[2] & MG_REQ && pq->tag[3] & MG_REQ ) {
-        nqreq++;
-      }
     }
     if ( nqreq ) {
       if(!bin) {
-- 
2.43.0


From 94aac8099d484cc298b8f18a7a641fef642fe1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:18 +0000
Subject: [PATCH 36/50] fix: number the tangents of a binary 3D mesh file by
 their own counter

---
 src/mmg3d/inout_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 95ae835..bc55128 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -1721,7 +1721,7 @@ int MMG3D_saveMesh(MMG5_pMesh mesh, const char *filename) {
           } else {
             fwrite(&ppt->tmp,MMG5_SW,1,inm);
             ++nt;
-            fwrite(&(nn),MMG5_SW,1,inm);
+            fwrite(&nt,MMG5_SW,1,inm);
           }
         }
       }
-- 
2.43.0


From 1a9bd42e3033fcd52b0885a1534edfd6b3324d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:05 +0000
Subject: [PATCH 37/50] fix: store 2D vector solutions where the files and the
 other modules expect them

---
 src/mmg2d/API_functions_2d.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 5192dcd..a63fcab 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1559,7 +1559,7 @@ int MMG2D_Set_vectorSol(MMG5_pSol met, double vx,double vy, MMG5_int pos) {
     return 0;
   }
 
-  isol = (pos-1) * met->size + 1;
+  isol = pos * met->size;
 
   met->m[isol]   = vx;
   met->m[isol+1] = vy;
@@ -1593,8 +1593,8 @@ int MMG2D_Get_vectorSol(MMG5_pSol met, double* vx, double* vy) {
     return 0;
   }
 
-  *vx = met->m[met->size*(met->npi-1)+1];
-  *vy = met->m[met->size*(met->npi-1)+2];
+  *vx = met->m[met->size*met->npi];
+  *vy = met->m[met->size*met->npi+1];
 
   return 1;
 }
@@ -1613,9 +1613,9 @@ int MMG2D_Set_vectorSols(MMG5_pSol met, double *sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
-    m[1] = sols[j];
-    m[2] = sols[j+1];
+    m = &met->m[j+2];
+    m[0] = sols[j];
+    m[1] = sols[j+1];
   }
 
   return 1;
@@ -1627,10 +1627,10 @@ int MMG2D_Get_vectorSols(MMG5_pSol met, double* sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
+    m = &met->m[j+2];
 
-    sols[j]   = m[1];
-    sols[j+1] = m[2];
+    sols[j]   = m[0];
+    sols[j+1] = m[1];
   }
 
   return 1;
-- 
2.43.0


From c56dddccc2dc46464ded0b8872cc3e6d41b3c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:05 +0000
Subject: [PATCH 38/50] fix: swap the bytes of doubles in 2D solution files of
 the other endianness

---
 src/mmg2d/inout_2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 579effb..8b62fb4 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -886,7 +886,7 @@ int MMG2D_readDoubleSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
     }
     else {
       MMG_FREAD(&dbuf,MMG5_SD,1,inm);
-      if ( iswp ) dbuf=MMG5_swapf(dbuf);
+      if ( iswp ) dbuf=MMG5_swapd(dbuf);
       sol->m[sol->size*pos+i] = (double)dbuf;
     }
   }
-- 
2.43.0


From e0a056d9e7f07adb6e241f95cbb089caa2f85742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:13 +0000
Subject: [PATCH 39/50] fix: read the third component of the vectors of 2D Gmsh
 files

---
 src/common/inout.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index b3ed14f..960a037 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -1349,23 +1349,23 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           }
         }
       }
-      /* vector displacement only */
+      /* vector displacement only (stored with 3 components, even in 2D) */
       else if ( psl->size == psl->dim ) {
         if ( psl->ver == 1 ) {
           for (k=1; k<=psl->np; k++) {
             if(!bin){
               MMG_FSCANF((*inm),"%d ",&idx);
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FSCANF((*inm),"%f ",&fbuf[0]);
-                psl->m[psl->dim*idx+i] = fbuf[0];
+                if ( i<psl->dim )  psl->m[psl->dim*idx+i] = fbuf[0];
               }
             } else {
               MMG_FREAD(&idx,MMG5_SW,1, (*inm));
               if(iswp) idx = MMG5_swapbin(idx);
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FREAD(&fbuf[0],MMG5_SW,1,(*inm));
                 if(iswp) fbuf[0]=MMG5_swapf(fbuf[0]);
-                psl->m[psl->dim*idx+i] = fbuf[0];
+                if ( i<psl->dim )  psl->m[psl->dim*idx+i] = fbuf[0];
               }
             }
           }
@@ -1375,19 +1375,19 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
             if(!bin){
               MMG_FSCANF((*inm),"%d ",&idx);
 
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FSCANF((*inm),"%lf ",&dbuf[0]);
-                psl->m[psl->dim*idx+i] = dbuf[0];
+                if ( i<psl->dim )  psl->m[psl->dim*idx+i] = dbuf[0];
               }
 
             } else {
               MMG_FREAD(&idx,MMG5_SW,1, (*inm));
               if(iswp) idx = MMG5_swapbin(idx);
 
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FREAD(&dbuf[0],MMG5_SD,1,(*inm));
                 if(iswp) dbuf[0]=MMG5_swapd(dbuf[0]);
-                psl->m[psl->dim*idx+i] = dbuf[0];
+                if ( i<psl->dim )  psl->m[psl->dim*idx+i] = dbuf[0];
               }
 
             }
-- 
2.43.0


From 060af4d304b30efd4e7d085bba06faa5466bb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:36 +0000
Subject: [PATCH 40/50] fix: read the third coordinate of the nodes of 2D
 single precision Gmsh files

---
 src/common/inout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 960a037..2fff290 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -692,7 +692,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       if ( !bin ) {
         MMG_FSCANF((*inm),"%d ",&idx);
         ppt = &mesh->point[idx];
-        for (i=0 ; i<mesh->dim ; i++) {
+        for (i=0 ; i<3 ; i++) {
           MMG_FSCANF((*inm),"%f ",&fc);
           ppt->c[i] = (double) fc;
         }
@@ -701,7 +701,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         MMG_FREAD(&idx,MMG5_SW,1,(*inm));
         if ( iswp ) idx = MMG5_swapbin(idx);
         ppt = &mesh->point[idx];
-        for (i=0 ; i<mesh->dim ; i++) {
+        for (i=0 ; i<3 ; i++) {
           MMG_FREAD(&fc,MMG5_SW,1,(*inm));
           if(iswp) fc=MMG5_swapf(fc);
           ppt->c[i] = (double) fc;
-- 
2.43.0


From ccc382f1ddb58e4895aad675168ba093480e1a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:59 +0000
Subject: [PATCH 41/50] fix: hand a terminated list of solutions to the VTK
 writers

---
 src/mmg2d/inoutcpp_2d.cpp | 18 +++++++++++++++---
 src/mmg3d/inoutcpp_3d.cpp | 12 ++++++++++--
 src/mmgs/inoutcpp_s.cpp   | 18 +++++++++++++++---
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/mmg2d/inoutcpp_2d.cpp b/src/mmg2d/inoutcpp_2d.cpp
index 8f6a6d0..66bd3b4 100644
--- a/src/mmg2d/inoutcpp_2d.cpp
+++ b/src/mmg2d/inoutcpp_2d.cpp
@@ -340,8 +340,12 @@ int MMG2D_saveVtuMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkUnstructuredGrid,vtkXMLUnstructuredGridWriter,
-                          vtkXMLPUnstructuredGridWriter>(mesh,&sol,filename,1,1);
+                          vtkXMLPUnstructuredGridWriter>(mesh,allSol,filename,1,1);
 
 #endif
 }
@@ -375,8 +379,12 @@ int MMG2D_saveVtkMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkUnstructuredGrid,vtkDataSetWriter,
-                          vtkPDataSetWriter>(mesh,&sol,filename,1,0);
+                          vtkPDataSetWriter>(mesh,allSol,filename,1,0);
 
 #endif
 }
@@ -410,8 +418,12 @@ int MMG2D_saveVtpMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkPolyData,vtkXMLPolyDataWriter,
-                          vtkXMLPPolyDataWriter>(mesh,&sol,filename,1,1);
+                          vtkXMLPPolyDataWriter>(mesh,allSol,filename,1,1);
 
 #endif
 
diff --git a/src/mmg3d/inoutcpp_3d.cpp b/src/mmg3d/inoutcpp_3d.cpp
index 4aab9b2..052f4e8 100644
--- a/src/mmg3d/inoutcpp_3d.cpp
+++ b/src/mmg3d/inoutcpp_3d.cpp
@@ -237,8 +237,12 @@ int MMG3D_saveVtuMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   return -1;
 
 #else
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkUnstructuredGrid,vtkXMLUnstructuredGridWriter,
-                          vtkXMLPUnstructuredGridWriter>(mesh,&sol,filename,1,1);
+                          vtkXMLPUnstructuredGridWriter>(mesh,allSol,filename,1,1);
 
 #endif
 }
@@ -272,8 +276,12 @@ int MMG3D_saveVtkMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkUnstructuredGrid,vtkDataSetWriter,
-                          vtkPDataSetWriter>(mesh,&sol,filename,1,0);
+                          vtkPDataSetWriter>(mesh,allSol,filename,1,0);
 
 #endif
 }
diff --git a/src/mmgs/inoutcpp_s.cpp b/src/mmgs/inoutcpp_s.cpp
index fb89323..db193d8 100644
--- a/src/mmgs/inoutcpp_s.cpp
+++ b/src/mmgs/inoutcpp_s.cpp
@@ -321,8 +321,12 @@ int MMGS_saveVtuMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkUnstructuredGrid,vtkXMLUnstructuredGridWriter,
-                          vtkXMLPUnstructuredGridWriter>(mesh,&sol,filename,1,1);
+                          vtkXMLPUnstructuredGridWriter>(mesh,allSol,filename,1,1);
 
 #endif
 }
@@ -356,8 +360,12 @@ int MMGS_saveVtkMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkUnstructuredGrid,vtkDataSetWriter,
-                          vtkPDataSetWriter>(mesh,&sol,filename,1,0);
+                          vtkPDataSetWriter>(mesh,allSol,filename,1,0);
 
 #endif
 }
@@ -391,8 +399,12 @@ int MMGS_saveVtpMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
 
 #else
 
+  MMG5_pSol allSol[2];
+  allSol[0] = sol;
+  allSol[1] = NULL;
+
   return MMG5_saveVtkMesh<vtkPolyData,vtkXMLPolyDataWriter,
-                          vtkXMLPPolyDataWriter>(mesh,&sol,filename,1,1);
+                          vtkXMLPPolyDataWriter>(mesh,allSol,filename,1,1);
 
 #endif
 }
-- 
2.43.0


From 9f306c25a958bf80355e4676d25b5eafd96eca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 42/50] fix: accept several fields when loading all data of a
 2D vtu file

---
 src/mmg2d/inoutcpp_2d.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mmg2d/inoutcpp_2d.cpp b/src/mmg2d/inoutcpp_2d.cpp
index 66bd3b4..85f8ac0 100644
--- a/src/mmg2d/inoutcpp_2d.cpp
+++ b/src/mmg2d/inoutcpp_2d.cpp
@@ -308,12 +308,6 @@ int MMG2D_loadVtuMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
                                &nsols,&metricData,&lsData);
   if ( ier < 1 ) return ier;
 
-  /* Check element count */
-  if ( nsols>1 ) {
-    fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
-    return -1;
-  }
-
   mesh->nsols = nsols;
   if ( *sol )  MMG5_DEL_MEM(mesh,*sol);
 
-- 
2.43.0


From dbe39bb0e22457c1dc90714723cb79b3558a0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 43/50] fix: do not take a vertex of the quadrangle for one of
 the triangle in MMG2D_cutEdge

---
 src/mmg2d/locate_2d.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/locate_2d.c b/src/mmg2d/locate_2d.c
index 3b95a91..45c745a 100644
--- a/src/mmg2d/locate_2d.c
+++ b/src/mmg2d/locate_2d.c
@@ -100,13 +100,15 @@ int MMG2D_cutEdge(MMG5_pMesh mesh,MMG5_pTria pt,MMG5_pPoint ppa,MMG5_pPoint ppb)
   if ( !ier ) return 0;
   lb[2] = 1.0-(lb[0]+lb[1]);
 
-  /* Check whether ppa or ppb is a vertex of pt */
+  /* Check whether ppa or ppb is a vertex of pt (one barycentric coordinate is 1
+   * and the others vanish: the fourth vertex of a parallelogram has a coordinate
+   * equal to 1 too) */
   for (i=0; i<3; i++) {
-    if ( fabs(la[i]-1.0) < 1.0e-12 ) {
+    if ( fabs(la[i]-1.0) < 1.0e-12 && fabs(la[MMG5_inxt2[i]]) < 1.0e-12 ) {
       if ( lb[i] < 0.0 ) return i+1;
       else return 0;
     }
-    if ( fabs(lb[i]-1.0) < 1.0e-12) {
+    if ( fabs(lb[i]-1.0) < 1.0e-12 && fabs(lb[MMG5_inxt2[i]]) < 1.0e-12 ) {
       if ( la[i] < 0.0 ) return i+1;
       else return 0;
     }
-- 
2.43.0


From 8fccb8bf5f04c3ea4da7f7d289ecd483f0aa2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 44/50] fix: update the adjacencies when only one subdomain is
 meshed in MMG2D_markSD

---
 src/mmg2d/mmg2d2.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mmg2d/mmg2d2.c b/src/mmg2d/mmg2d2.c
index ff211ad..8a40dfe 100644
--- a/src/mmg2d/mmg2d2.c
+++ b/src/mmg2d/mmg2d2.c
@@ -463,6 +463,15 @@ int MMG2D_markSD(MMG5_pMesh mesh) {
       pt = &mesh->tria[k];
       if ( !MG_EOK(pt) ) continue;
       if ( pt->ref == nsd ) continue;
+      /*update adjacencies*/
+      iadr = 3*(k-1)+1;
+      adja = &mesh->adja[iadr];
+      for(i=0; i<3; i++) {
+        if ( !adja[i] ) continue;
+        iel = adja[i] / 3;
+        voy = adja[i] % 3;
+        (&mesh->adja[3*(iel-1)+1])[voy] = 0;
+      }
       MMG2D_delElt(mesh,k);
     }
   }
-- 
2.43.0


From d8d3c82e31b4cbd3d3d071f0e3fb33c1b82729af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 45/50] fix: reset the flags and forget the unused points when
 only one subdomain is kept

---
 src/common/tools.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/tools.c b/src/common/tools.c
index 7578d6f..4523863 100644
--- a/src/common/tools.c
+++ b/src/common/tools.c
@@ -997,7 +997,11 @@ void MMG5_mark_verticesAsUnused ( MMG5_pMesh mesh ) {
 
   for ( k=1; k<=mesh->np; k++ ) {
     ppt = &mesh->point[k];
-    if ( !MG_VOK(ppt) )  continue;
+    if ( !MG_VOK(ppt) ) {
+      /* points that are already unused must not be seen as isolated points */
+      ppt->flag = 1;
+      continue;
+    }
 
     /* reset ppt->flag to detect isolated points in keep_subdomainElts */
     ppt->flag = 0;
@@ -1058,6 +1062,11 @@ void MMG5_mark_usedVertices ( MMG5_pMesh mesh,void (*delPt)(MMG5_pMesh,MMG5_int)
     delPt(mesh,mesh->np);
   }
 
+  /* Reset the marks, flags are expected to be lower than mesh->base */
+  for ( k=1; k<=mesh->np; k++ ) {
+    mesh->point[k].flag = 0;
+  }
+
   return;
 }
 
-- 
2.43.0


From c7e721bfbb95ef5c78c521d8c69ea8796ad4a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 46/50] fix: stay inside of the list of triangles when
 enforcing an edge in MMG2D_bdryenforcement

---
 src/mmg2d/enforcement_2d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmg2d/enforcement_2d.c b/src/mmg2d/enforcement_2d.c
index 490c792..e39a012 100644
--- a/src/mmg2d/enforcement_2d.c
+++ b/src/mmg2d/enforcement_2d.c
@@ -195,7 +195,8 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
         while ( l++ < lon ) {
           pt = &mesh->tria[k];
           if ( pt->base == mesh->base+1 ) break;
-          k = list[(++rnd)%lon] / 3;
+          rnd = (rnd+1)%lon;
+          k   = list[rnd] / 3;
         }
 
         assert ( l <= lon );
-- 
2.43.0


From 6ff236de2adee64a03c118203212cc6bf4085d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 47/50] fix: enforce the edges in an order that doesn't depend
 on the time of day

---
 src/mmg2d/enforcement_2d.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/enforcement_2d.c b/src/mmg2d/enforcement_2d.c
index e39a012..74dfe07 100644
--- a/src/mmg2d/enforcement_2d.c
+++ b/src/mmg2d/enforcement_2d.c
@@ -39,6 +39,7 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_int        k,l,kk,nex,kdep,lon,iel;
   int             iare,ied;
   MMG5_int        ia,ib,ilon,rnd,idep,*adja,ir,adj;
+  unsigned int    seed;
   int8_t          i,i1,i2,j;
 //  int       iadr2,*adja2,ndel,iadr,ped0,ped1;
   static int8_t   mmgWarn0=0,mmgWarn1=0,mmgWarn2=0,mmgWarn3=0;
@@ -183,10 +184,12 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
 
       /* Randomly swap edges in the list, while... */
       ilon = lon;
-      srand(time(NULL));
+      seed = 1;
 
       while ( ilon > 0 ) {
-        rnd = ( rand() % lon );
+        /* Own generator: the result must depend on the input only */
+        seed = 1664525u*seed + 1013904223u;
+        rnd  = ( (seed >> 8) % lon );
         k   = list[rnd] / 3;
 
         /* Check for triangle k in the pipe until one triangle with base+1 is met (indicating that it is
-- 
2.43.0


From 1d92d47a06fdfe9c6b4b26eff08f0af7a2a600cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 48/50] fix: make the renumbering independent of the previous
 calls and of the threads of scotch

---
 src/common/librnbg.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/common/librnbg.c b/src/common/librnbg.c
index 65ed816..6f93ce2 100644
--- a/src/common/librnbg.c
+++ b/src/common/librnbg.c
@@ -58,6 +58,11 @@ int MMG5_kPartBoxCompute(SCOTCH_Graph *graf, MMG5_int vertNbr, MMG5_int boxVertN
   SCOTCH_Num   *sortPartTb;
   SCOTCH_Strat strat ;
   SCOTCH_Arch  arch;
+#if defined(SCOTCH_VERSION) && SCOTCH_VERSION >= 7
+  SCOTCH_Context ctx;
+  SCOTCH_Graph   ctxgraf;
+#endif
+  int          ier;
 
   /* Computing the number of boxes */
   boxNbr = vertNbr / boxVertNbr;
@@ -80,8 +85,23 @@ int MMG5_kPartBoxCompute(SCOTCH_Graph *graf, MMG5_int vertNbr, MMG5_int boxVertN
   MMG5_ADD_MEM(mesh,2*vertNbr*sizeof(SCOTCH_Num),"sortPartTb",return 1);
   MMG5_SAFE_CALLOC(sortPartTb,2*vertNbr,SCOTCH_Num,return 0);
 
-  /* Partionning the graph */
-  if ( 0!=SCOTCH_graphMap(graf, &arch, &strat, sortPartTb) ) {
+  /* Partionning the graph from the initial state of the random generator of
+   * scotch and with one thread: the result must depend neither on the previous
+   * calls nor on the scheduling of the threads */
+#if defined(SCOTCH_VERSION) && SCOTCH_VERSION >= 7
+  CHECK_SCOTCH(SCOTCH_contextInit(&ctx), "scotch_contextInit", 0) ;
+  CHECK_SCOTCH(SCOTCH_contextThreadSpawn(&ctx, 1, NULL), "scotch_contextThreadSpawn", 0) ;
+  SCOTCH_contextRandomReset(&ctx);
+  CHECK_SCOTCH(SCOTCH_graphInit(&ctxgraf), "scotch_graphInit", 0) ;
+  CHECK_SCOTCH(SCOTCH_contextBindGraph(&ctx, graf, &ctxgraf), "scotch_contextBindGraph", 0) ;
+  ier = SCOTCH_graphMap(&ctxgraf, &arch, &strat, sortPartTb);
+  SCOTCH_graphExit(&ctxgraf) ;
+  SCOTCH_contextExit(&ctx) ;
+#else
+  SCOTCH_randomReset();
+  ier = SCOTCH_graphMap(graf, &arch, &strat, sortPartTb);
+#endif
+  if ( 0!=ier ) {
     perror("scotch_graphMap");
     MMG5_DEL_MEM(mesh,sortPartTb);
     return 0;
-- 
2.43.0


From 376809d49ae8f37f867d5d39647367f498963304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:43 +0000
Subject: [PATCH 49/50] fix: give the references of the VTK vertex cells to the
 points of these cells

---
 src/common/vtkparser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/vtkparser.cpp b/src/common/vtkparser.cpp
index f4d7c2a..126acec 100644
--- a/src/common/vtkparser.cpp
+++ b/src/common/vtkparser.cpp
@@ -153,7 +153,6 @@ int MMG5_count_vtkEntities ( vtkDataSet *dataset, MMG5_pMesh mesh,
       }
     }
   }
-  assert ( mesh->npi == mesh->np || !mesh->npi );
   mesh->npi = 0;
 
   // Count the number of point data and detect point references
@@ -416,7 +415,6 @@ int MMG5_loadVtkMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,vtkDataSet **dataset,
   assert ( !mesh->nei );
   assert ( !mesh->nti );
   assert ( !mesh->nai );
-  assert ( (mesh->npi == mesh->np) || !mesh->npi );
 
   mesh->npi = 0;
   MMG5_int nqi   = 0;
@@ -461,7 +459,9 @@ int MMG5_loadVtkMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,vtkDataSet **dataset,
 
     switch ( typ ) {
     case ( VTK_VERTEX ):
-      ppt = &mesh->point[++mesh->npi];
+      /* There isn't always one vertex cell per point, in the same order */
+      if ( !(*dataset)->GetCell(k)->GetNumberOfPoints() )  break;
+      ppt = &mesh->point[(*dataset)->GetCell(k)->GetPointId(0)+1];
       ppt->ref = car ? car->GetTuple1(k) : 0;
       if ( ppt->ref < 0 ) {
         ppt->ref = -ppt->ref;
-- 
2.43.0


From 911ccf477b6bbff8e8f14daeb4ec2fdd948efea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:43 +0000
Subject: [PATCH 50/50] fix: close the files and do not use undefined data when
 a file that is read is cut short

---
 src/common/inout.c   |  31 ++++++++-
 src/mmg2d/inout_2d.c | 146 +++++++++++++++++++++++++++++-------------
 src/mmg3d/inout_3d.c |  57 +++++++++++++----
 src/mmgs/inout_s.c   | 148 +++++++++++++++++++++++++++++--------------
 4 files changed, 279 insertions(+), 103 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 2fff290..19bd9ca 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -297,6 +297,9 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
   mesh->np = mesh->nt = mesh->ne = 0;
   nt = na = nq = ne = npr = np = 0;
 
+  *inm         = NULL;
+  *posNodeData = NULL;
+
   MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
 
   /* Allocation of the posNodeData array: we assume that we have less than 20
@@ -473,6 +476,7 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
       else {
         if ( !MMG5_countBinaryElts(inm,*nelts,*iswp,&np,&na,&nt,&nq,&ne,&npr) ) {
           fclose(*inm);
+          *inm = NULL;
           MMG5_SAFE_FREE(*posNodeData);
           return -1;
         }
@@ -489,6 +493,7 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
     fprintf(stderr,"     Check that your mesh contains points and elements.\n");
     fprintf(stderr,"     Exit program.\n");
     fclose(*inm);
+    *inm = NULL;
     MMG5_SAFE_FREE(*posNodeData);
     return -1;
   }
@@ -506,6 +511,7 @@ int MMG5_loadMshMesh_part1(MMG5_pMesh mesh,const char *filename,
     fprintf(stderr,"     Check that your mesh contains points.\n");
     fprintf(stderr,"     Exit program.\n");
     fclose(*inm);
+    *inm = NULL;
     MMG5_SAFE_FREE(*posNodeData);
     return -1;
   }
@@ -749,6 +755,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         fprintf(stderr,"\n  ## Error: %s: elt %d (type %d): Expected at least 2 tags (%d given).\n",
                 __func__,k,typ,tagNum);
         fclose(*inm);
+        *inm = NULL;
         return -1;
       }
       MMG_FSCANF((*inm),"%d %d ",&ref,&i);
@@ -879,6 +886,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
 
@@ -939,6 +947,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
 
@@ -991,6 +1000,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
 
@@ -1034,6 +1044,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
 
@@ -1081,6 +1092,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
 
@@ -1129,6 +1141,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           fprintf(stderr,"\n  ## Error: %s: Expected at least 2 tags per element (%d given).\n",
                   __func__,tagNum);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
 
@@ -1160,6 +1173,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         fprintf(stderr,"\n  ## Error: %s: unexpected type of element (%d)\n",
                 __func__,typ);
         fclose(*inm);
+        *inm = NULL;
         return -1;
       }
     }
@@ -1179,6 +1193,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         MMG5_ADD_MEM(mesh,(nt-mesh->nt)*sizeof(MMG5_Tria),"triangles",
                      fprintf(stderr,"  Exit program.\n");
                      fclose(*inm);
+                     *inm = NULL;
                      return -1);
         MMG5_SAFE_RECALLOC(mesh->tria,mesh->nt+1,(nt+1),MMG5_Tria,"triangles",
                            return -1);
@@ -1192,6 +1207,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         MMG5_ADD_MEM(mesh,(na-mesh->na)*sizeof(MMG5_Edge),"edges",
                      fprintf(stderr,"  Exit program.\n");
                      fclose(*inm);
+                     *inm = NULL;
                      return -1);
         MMG5_SAFE_RECALLOC(mesh->edge,mesh->na+1,(na+1),MMG5_Edge,"edges",
                            return -1);
@@ -1265,6 +1281,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
         fprintf(stderr,"   Error: %s: node data: Expected at least 3 tags (%d given).\n",
                 __func__,tagNum);
         fclose(*inm);
+        *inm = NULL;
         return -1;
       }
 
@@ -1281,6 +1298,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
                 "THE MESH (%" MMG5_PRId ") DIFFERS FROM THE NUMBER OF VERTICES IN "
                 "THE SOLUTION (%" MMG5_PRId ") \n",mesh->np,psl->np);
         fclose(*inm);
+        *inm = NULL;
         return -1;
       }
 
@@ -1305,6 +1323,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       else {
         fprintf(stderr,"  ** DATA TYPE IGNORED %d \n",typ);
         fclose(*inm);
+        *inm = NULL;
         return -1;
       }
 
@@ -1315,6 +1334,7 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
       MMG5_ADD_MEM(mesh,(psl->size*(psl->npmax+1))*sizeof(double),"initial solution",
                    fprintf(stderr,"  Exit program.\n");
                    fclose(*inm);
+                   *inm = NULL;
                    return -1);
       MMG5_SAFE_CALLOC(psl->m,psl->size*(psl->npmax+1),double,return -1);
 
@@ -1507,7 +1527,8 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
     }
   }
 
-  fclose((*inm));
+  fclose(*inm);
+  *inm = NULL;
 
   return 1;
 }
@@ -2107,6 +2128,11 @@ int MMG5_loadSolHeader( const char *filename,int meshDim,FILE **inm,int *ver,
   int         bpos,i;
   char        *ptr,*data,chaine[MMG5_FILESTR_LGTH];
 
+  *inm   = NULL;
+  *type  = NULL;
+  *np    = 0;
+  *nsols = 0;
+  *dim   = 0;
   *posnp = 0;
   *bin   = 0;
   *iswp  = 0;
@@ -2168,6 +2194,7 @@ int MMG5_loadSolHeader( const char *filename,int meshDim,FILE **inm,int *ver,
         if ( *dim!=meshDim ) {
           fprintf(stderr,"BAD SOL DIMENSION: %d\n",*dim);
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
         continue;
@@ -2188,6 +2215,7 @@ int MMG5_loadSolHeader( const char *filename,int meshDim,FILE **inm,int *ver,
     else if(binch!=1) {
       fprintf(stdout,"BAD FILE ENCODING\n");
       fclose(*inm);
+      *inm = NULL;
       return -1;
     }
     MMG_FREAD(ver,MMG5_SW,1,*inm);
@@ -2204,6 +2232,7 @@ int MMG5_loadSolHeader( const char *filename,int meshDim,FILE **inm,int *ver,
           fprintf(stderr,"BAD SOL DIMENSION: %d\n",*dim);
           printf("  Exit program.\n");
           fclose(*inm);
+          *inm = NULL;
           return -1;
         }
         continue;
diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 8b62fb4..3b07b54 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -25,8 +25,18 @@
 #include "libmmg2d_private.h"
 
 /* read mesh data */
-int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
-  FILE        *inm;
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param inm stream of the opened file.
+ * \param bin 1 if the file is binary.
+ *
+ * \return -1 if we fail, 1 otherwise.
+ *
+ * Read mesh data in an opened file (that is closed by the caller).
+ *
+ */
+static
+int MMG2D_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pPoint  ppt;
   MMG5_pEdge   ped;
   MMG5_pTria   pt;
@@ -34,52 +44,19 @@ int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
   float        fc;
   long         posnp,posnt,posncor,posned,posnq,posreq,posreqed,posntreq,posnqreq;
   MMG5_int     k,tmp,ncor,norient,nreq,ntreq,nreqed,nqreq,nref;
-  int          bin,iswp;
+  int          iswp;
   double       air,dtmp;
   int          bdim,binch,bpos;
   MMG5_int     ref,i;
-  char         *ptr,*data;
   char         chaine[MMG5_FILESTR_LGTH],strskip[MMG5_FILESTR_LGTH];
 
   posnp = posnt = posncor = posned = posnq = posreq = posreqed = posntreq = posnqreq = 0;
   ncor = nreq = nreqed = ntreq = nqreq = 0;
-  bin = 0;
   iswp = 0;
   bpos = 0;
   mesh->np = mesh->nt = mesh->na = mesh->xp = 0;
   nref = 0;
 
-  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
-  strcpy(data,filename);
-  ptr = strstr(data,".mesh");
-  if ( !ptr ) {
-    strcat(data,".meshb");
-    if (!(inm = fopen(data,"rb")) ) {
-      ptr  = strstr(data,".mesh");
-      *ptr = '\0';
-      strcat(data,".mesh");
-      if (!(inm = fopen(data,"rb")) ) {
-        MMG5_SAFE_FREE(data);
-        return 0;
-      }
-    }
-    else  bin = 1;
-  }
-  else {
-    ptr = strstr(data,".meshb");
-
-    if ( ptr )  bin = 1;
-
-    if( !(inm = fopen(data,"rb")) ) {
-      MMG5_SAFE_FREE(data);
-      return 0;
-    }
-  }
-  if ( mesh->info.imprim >= 0 ) {
-    fprintf(stdout,"  %%%% %s OPENED\n",data);
-  }
-  MMG5_SAFE_FREE(data);
-
   if (!bin) {
     strcpy(chaine,"D");
     while(fscanf(inm,"%127s",&chaine[0])!=EOF && strncmp(chaine,"End",strlen("End")) ) {
@@ -558,7 +535,6 @@ int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
     }
   }
 
-  fclose(inm);
 
   if ( nref ) {
     fprintf(stdout,"\n     $$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$ \n");
@@ -594,6 +570,50 @@ int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
   return 1;
 }
 
+int MMG2D_loadMesh(MMG5_pMesh mesh,const char *filename) {
+  FILE        *inm;
+  int         bin,ier;
+  char        *ptr,*data;
+
+  bin = 0;
+
+  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
+  strcpy(data,filename);
+  ptr = strstr(data,".mesh");
+  if ( !ptr ) {
+    strcat(data,".meshb");
+    if (!(inm = fopen(data,"rb")) ) {
+      ptr  = strstr(data,".mesh");
+      *ptr = '\0';
+      strcat(data,".mesh");
+      if (!(inm = fopen(data,"rb")) ) {
+        MMG5_SAFE_FREE(data);
+        return 0;
+      }
+    }
+    else  bin = 1;
+  }
+  else {
+    ptr = strstr(data,".meshb");
+
+    if ( ptr )  bin = 1;
+
+    if( !(inm = fopen(data,"rb")) ) {
+      MMG5_SAFE_FREE(data);
+      return 0;
+    }
+  }
+  if ( mesh->info.imprim >= 0 ) {
+    fprintf(stdout,"  %%%% %s OPENED\n",data);
+  }
+  MMG5_SAFE_FREE(data);
+
+  ier = MMG2D_loadMesh_opened(mesh,inm,bin);
+  fclose(inm);
+
+  return ier;
+}
+
 int MMG2D_loadGenericMesh(MMG5_pMesh mesh, MMG5_pSol met, MMG5_pSol sol, const char *filename) {
   int ier=0;
   const char *filenameptr,*solnameptr;
@@ -715,7 +735,11 @@ int MMG2D_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   ier = MMG5_loadMshMesh_part1(mesh,filename,&inm,
                                &posNodes,&posElts,&posNodeData,
                                &bin,&iswp,&nelts,&nsols);
-  if ( ier < 1 )  return (ier);
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(posNodeData);
+    return ier;
+  }
 
   if ( nsols>1 ) {
     fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
@@ -749,6 +773,10 @@ int MMG2D_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   ier = MMG5_loadMshMesh_part2( mesh,&sol,&inm,
                                 posNodes,posElts,posNodeData,
                                 bin,iswp,nelts,nsols);
+  if ( ier < 1 && inm ) {
+    fclose(inm);
+    inm = NULL;
+  }
 
   MMG5_SAFE_FREE(posNodeData);
   if ( ier < 1 ) return ier;
@@ -781,7 +809,11 @@ int MMG2D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
   ier = MMG5_loadMshMesh_part1(mesh,filename,&inm,
                                &posNodes,&posElts,&posNodeData,
                                &bin,&iswp,&nelts,&nsols);
-  if ( ier < 1 )  return (ier);
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(posNodeData);
+    return ier;
+  }
 
   mesh->nsols = nsols;
   if ( *sol )  MMG5_DEL_MEM(mesh,*sol);
@@ -817,6 +849,10 @@ int MMG2D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
   ier = MMG5_loadMshMesh_part2( mesh,sol,&inm,
                                 posNodes,posElts,posNodeData,
                                 bin,iswp,nelts,nsols);
+  if ( ier < 1 && inm ) {
+    fclose(inm);
+    inm = NULL;
+  }
 
   MMG5_SAFE_FREE(posNodeData);
   if ( ier < 1 ) {
@@ -921,7 +957,11 @@ int MMG2D_loadSol(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   /* correction for the -msh mode */
   sol->dim = 2;
 
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(type);
+    return ier;
+  }
 
   if ( nsols!=1 ) {
     fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
@@ -966,13 +1006,19 @@ int MMG2D_loadSol(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   if ( sol->ver == 1 ) {
     /* Single precision */
     for (k=1; k<=sol->np; k++) {
-      if ( MMG2D_readFloatSol(sol,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG2D_readFloatSol(sol,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
   else {
     for (k=1; k<=sol->np; k++) {
       /* Double precision */
-      if ( MMG2D_readDoubleSol(sol,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG2D_readDoubleSol(sol,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
 
@@ -1012,7 +1058,11 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
 
   ier =  MMG5_loadSolHeader(filename,meshDim,&inm,&ver,&bin,&iswp,&np,&dim,&nsols,
                             &type,&posnp,mesh->info.imprim);
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(type);
+    return ier;
+  }
 
   if ( mesh->np != np ) {
     fprintf(stderr,"  ** MISMATCHES DATA: THE NUMBER OF VERTICES IN "
@@ -1077,7 +1127,10 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol+j;
-        if ( MMG2D_readFloatSol(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG2D_readFloatSol(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
@@ -1086,7 +1139,10 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol+j;
-        if ( MMG2D_readDoubleSol(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG2D_readDoubleSol(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index bc55128..7819785 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -1053,10 +1053,9 @@ int MMG3D_loadMesh(MMG5_pMesh mesh,const char *filename) {
   ier = MMG3D_openMesh(mesh->info.imprim,filename,&inm,&bin,"rb","rb");
   if( ier < 1 ) return ier;
   ier = MMG3D_loadMesh_opened(mesh,inm,bin);
-  if( ier < 1 ) return ier;
-
   fclose(inm);
-  return 1;
+
+  return ier;
 }
 
 
@@ -1073,7 +1072,11 @@ int MMG3D_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   ier = MMG5_loadMshMesh_part1(mesh,filename,&inm,
                                &posNodes,&posElts,&posNodeData,
                                &bin,&iswp,&nelts,&nsols);
-  if ( ier < 1 ) return (ier);
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(posNodeData);
+    return ier;
+  }
 
   if ( nsols>1 ) {
     fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
@@ -1106,6 +1109,10 @@ int MMG3D_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   ier =  MMG5_loadMshMesh_part2( mesh, &sol,&inm,
                                  posNodes,posElts,posNodeData,
                                  bin,iswp,nelts,nsols);
+  if ( ier < 1 && inm ) {
+    fclose(inm);
+    inm = NULL;
+  }
   MMG5_SAFE_FREE(posNodeData);
   if ( ier < 1 ) {
     fprintf(stderr,"  ** ERROR WHEN PARSING THE INPUT FILE\n");
@@ -1142,7 +1149,11 @@ int MMG3D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
   ier = MMG5_loadMshMesh_part1(mesh,filename,&inm,
                                &posNodes,&posElts,&posNodeData,
                                &bin,&iswp,&nelts,&nsols);
-  if ( ier < 1 ) return (ier);
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(posNodeData);
+    return ier;
+  }
 
   mesh->nsols = nsols;
   if ( *sol )  MMG5_DEL_MEM(mesh,*sol);
@@ -1177,6 +1188,10 @@ int MMG3D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
   ier =  MMG5_loadMshMesh_part2( mesh, sol,&inm,
                                  posNodes,posElts,posNodeData,
                                  bin,iswp,nelts,nsols);
+  if ( ier < 1 && inm ) {
+    fclose(inm);
+    inm = NULL;
+  }
 
   if ( ier < 1 ) {
     fprintf(stderr,"  ** ERROR WHEN PARSING THE INPUT FILE\n");
@@ -2149,7 +2164,11 @@ int MMG3D_loadSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
   /** Read the file header */
   ier =  MMG5_loadSolHeader(filename,3,&inm,&ver,&bin,&iswp,&np,&dim,&nsols,
                              &type,&posnp,mesh->info.imprim);
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(type);
+    return ier;
+  }
 
   if ( nsols!=1 ) {
     fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
@@ -2195,13 +2214,19 @@ int MMG3D_loadSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
   if ( met->ver == 1 ) {
     /* Single precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
   else {
     /* Double precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
 
@@ -2225,7 +2250,11 @@ int MMG3D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
   /** Read the file header */
   ier =  MMG5_loadSolHeader(filename,3,&inm,&ver,&bin,&iswp,&np,&dim,&nsols,
                             &type,&posnp,mesh->info.imprim);
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(type);
+    return ier;
+  }
 
   if ( mesh->np != np ) {
     fprintf(stderr,"  ** MISMATCHES DATA: THE NUMBER OF VERTICES IN "
@@ -2290,7 +2319,10 @@ int MMG3D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
@@ -2299,7 +2331,10 @@ int MMG3D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index 802e470..069802b 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -38,8 +38,18 @@
 #include "libmmgs_private.h"
 #include <math.h>
 
-int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
-  FILE        *inm;
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param inm stream of the opened file.
+ * \param bin 1 if the file is binary.
+ *
+ * \return -1 if we fail, 1 otherwise.
+ *
+ * Read mesh data in an opened file (that is closed by the caller).
+ *
+ */
+static
+int MMGS_loadMesh_opened(MMG5_pMesh mesh,FILE *inm,int bin) {
   MMG5_pTria  pt1,pt2;
   MMG5_pPoint ppt;
   double      *norm,*n,dd;
@@ -49,54 +59,20 @@ int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
   MMG5_int    k,ia,nq,nri,ip,idn,ng,npreq,nref;
   int         i;
   MMG5_int    ncor,nedreq,ntreq,posnedreq,bpos;
-  int         binch,bin,iswp,bdim;
+  int         binch,iswp,bdim;
   MMG5_int    na;
-  char        *ptr,*data;
   char        chaine[MMG5_FILESTR_LGTH],strskip[MMG5_FILESTR_LGTH];
 
   posnp = posnt = posne = posncor = posnq = 0;
   posned = posnr = posnpreq = posntreq = posnc1 = npreq = 0;
   posnedreq = posnormal = 0;
   ncor = nri = ng = nedreq = nq = ntreq = 0;
-  bin = 0;
   iswp = 0;
   bpos = ia = idn = ip = 0;
   mesh->np = mesh->nt = mesh->nti = mesh->npi = 0;
 
   nref = 0;
 
-  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
-
-  strcpy(data,filename);
-  ptr = strstr(data,".mesh");
-  if ( !ptr ) {
-    /* data contains the filename without extension */
-    strcat(data,".meshb");
-    if( !(inm = fopen(data,"rb")) ) {
-      /* our file is not a .meshb file, try with .mesh ext */
-      ptr = strstr(data,".mesh");
-      *ptr = '\0';
-      strcat(data,".mesh");
-      if( !(inm = fopen(data,"rb")) ) {
-        MMG5_SAFE_FREE(data);
-        return 0;
-      }
-    }
-    else  bin = 1;
-  }
-  else {
-    ptr = strstr(data,".meshb");
-    if ( ptr )  bin = 1;
-    if( !(inm = fopen(data,"rb")) ) {
-      MMG5_SAFE_FREE(data);
-      return 0;
-    }
-  }
-
-  if ( mesh->info.imprim >= 0 )
-    fprintf(stdout,"  %%%% %s OPENED\n",data);
-  MMG5_SAFE_FREE(data);
-
   if (!bin) {
     strcpy(chaine,"D");
     while(fscanf(inm,"%127s",&chaine[0])!=EOF && strncmp(chaine,"End",strlen("End")) ) {
@@ -638,10 +614,54 @@ int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
     if ( mesh->na )
       fprintf(stdout,"     NUMBER OF EDGES      %8" MMG5_PRId "  RIDGES %6" MMG5_PRId "\n",mesh->na,nri);
   }
-  fclose(inm);
   return 1;
 }
 
+int MMGS_loadMesh(MMG5_pMesh mesh, const char *filename) {
+  FILE        *inm;
+  int         bin,ier;
+  char        *ptr,*data;
+
+  bin = 0;
+
+  MMG5_SAFE_CALLOC(data,strlen(filename)+7,char,return -1);
+
+  strcpy(data,filename);
+  ptr = strstr(data,".mesh");
+  if ( !ptr ) {
+    /* data contains the filename without extension */
+    strcat(data,".meshb");
+    if( !(inm = fopen(data,"rb")) ) {
+      /* our file is not a .meshb file, try with .mesh ext */
+      ptr = strstr(data,".mesh");
+      *ptr = '\0';
+      strcat(data,".mesh");
+      if( !(inm = fopen(data,"rb")) ) {
+        MMG5_SAFE_FREE(data);
+        return 0;
+      }
+    }
+    else  bin = 1;
+  }
+  else {
+    ptr = strstr(data,".meshb");
+    if ( ptr )  bin = 1;
+    if( !(inm = fopen(data,"rb")) ) {
+      MMG5_SAFE_FREE(data);
+      return 0;
+    }
+  }
+
+  if ( mesh->info.imprim >= 0 )
+    fprintf(stdout,"  %%%% %s OPENED\n",data);
+  MMG5_SAFE_FREE(data);
+
+  ier = MMGS_loadMesh_opened(mesh,inm,bin);
+  fclose(inm);
+
+  return ier;
+}
+
 int MMGS_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   FILE*       inm;
   long        posNodes,posElts,*posNodeData;
@@ -653,7 +673,11 @@ int MMGS_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   ier = MMG5_loadMshMesh_part1(mesh,filename,&inm,
                                &posNodes,&posElts,&posNodeData,
                                &bin,&iswp,&nelts,&nsols);
-  if ( ier < 1 )  return (ier);
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(posNodeData);
+    return ier;
+  }
 
   if ( nsols > 1 ) {
     fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
@@ -689,6 +713,10 @@ int MMGS_loadMshMesh(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   ier = MMG5_loadMshMesh_part2( mesh, &sol,&inm,
                                 posNodes,posElts,posNodeData,
                                 bin,iswp,nelts,nsols);
+  if ( ier < 1 && inm ) {
+    fclose(inm);
+    inm = NULL;
+  }
   MMG5_SAFE_FREE(posNodeData);
   if ( ier < 1 ) {
     fprintf(stderr,"  ** ERROR WHEN PARSING THE INPUT FILE\n");
@@ -714,7 +742,11 @@ int MMGS_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *file
   ier = MMG5_loadMshMesh_part1(mesh,filename,&inm,
                                &posNodes,&posElts,&posNodeData,
                                &bin,&iswp,&nelts,&nsols);
-  if ( ier < 1 )  return (ier);
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(posNodeData);
+    return ier;
+  }
 
   mesh->nsols = nsols;
   if ( *sol )  MMG5_DEL_MEM(mesh,*sol);
@@ -751,6 +783,10 @@ int MMGS_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *file
   ier = MMG5_loadMshMesh_part2( mesh, sol,&inm,
                                 posNodes,posElts,posNodeData,
                                 bin,iswp,nelts,nsols);
+  if ( ier < 1 && inm ) {
+    fclose(inm);
+    inm = NULL;
+  }
 
   if ( ier < 1 ) {
     fprintf(stderr,"  ** ERROR WHEN PARSING THE INPUT FILE\n");
@@ -1320,7 +1356,11 @@ int MMGS_loadSol(MMG5_pMesh mesh,MMG5_pSol met,const char* filename) {
   ier =  MMG5_loadSolHeader(filename,3,&inm,&ver,&bin,&iswp,&np,&dim,&nsols,
                             &type,&posnp,mesh->info.imprim);
 
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(type);
+    return ier;
+  }
 
   if ( nsols!=1 ) {
     fprintf(stderr,"Error: SEVERAL SOLUTIONS FOUND (%d)\n",nsols);
@@ -1366,13 +1406,19 @@ int MMGS_loadSol(MMG5_pMesh mesh,MMG5_pSol met,const char* filename) {
   if ( met->ver == 1 ) {
     /* Simple precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readFloatSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
   else {
     /* Double precision */
     for (k=1; k<=mesh->np; k++) {
-      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG5_readDoubleSol3D(met,inm,bin,iswp,k) < 0 ) {
+        fclose(inm);
+        return -1;
+      }
     }
   }
 
@@ -1396,7 +1442,11 @@ int MMGS_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
   /** Read the file header */
   ier =  MMG5_loadSolHeader(filename,3,&inm,&ver,&bin,&iswp,&np,&dim,&nsols,
                             &type,&posnp,mesh->info.imprim);
-  if ( ier < 1 ) return ier;
+  if ( ier < 1 ) {
+    if ( inm )  fclose(inm);
+    MMG5_SAFE_FREE(type);
+    return ier;
+  }
 
   if ( mesh->np != np ) {
     fprintf(stderr,"  ** MISMATCHES DATA: THE NUMBER OF VERTICES IN "
@@ -1459,7 +1509,10 @@ int MMGS_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readFloatSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
@@ -1468,7 +1521,10 @@ int MMGS_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol + j;
-        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG5_readDoubleSol3D(psl,inm,bin,iswp,k) < 0 ) {
+          fclose(inm);
+          return -1;
+        }
       }
     }
   }
-- 
2.43.0

