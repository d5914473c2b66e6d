From e34710cc16890a8544aed6525fdca5e4cf9a3f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 01/27] fix: permute volume markers along with cells when
 reordering

---
 src/mesh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..284c760 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -88,11 +88,14 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
-- 
2.43.0


From 6f803c52392174e98a546c1465dcf1a42c6b67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 02/27] fix: detect connectivity faces all of whose points are
 on physical boundaries

---
 src/mesh/meshpartitioning.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..2eb641c 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -301,6 +301,10 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 	//  it stores the connectivity faces' index w.r.t. the element (their EIndex) in this subdomain
 	std::vector<std::vector<EIndex>> connElemLocalFace(lm.nelem);
 
+	// Physical boundary faces of this subdomain, as (element, face EIndex) pairs
+	std::vector<std::pair<fint,EIndex>> phyBFaces = lm.compute_phyBFaceNeighboringElements();
+	std::sort(phyBFaces.begin(), phyBFaces.end());
+
 	for(fint iel = 0; iel < lm.nelem; iel++)
 	{
 		// Check whether face points are physical boundary points to identify connectivity faces
@@ -320,6 +324,13 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 						break;
 					}
 				}
+				/* If all its points are on physical boundaries, this face can still be an interior face
+				 * of the global mesh. It's a connectivity face unless it's a boundary face itself.
+				 */
+				if(!isconnface) {
+					isconnface = !std::binary_search(phyBFaces.begin(), phyBFaces.end(),
+					                                 std::pair<fint,EIndex>(iel,iface));
+				}
 				if(isconnface) {
 					connElemLocalFace[iel].push_back(iface);
 				}
-- 
2.43.0


From 3e36d223bf2aa1cfefb35e6fa187c01dca6b7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 03/27] fix: derivatives of the spectral radius in the exact
 LLF Jacobian

---
 src/spatial/anumericalflux.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spatial/anumericalflux.cpp b/src/spatial/anumericalflux.cpp
index 834f93c..1ac03cf 100644
--- a/src/spatial/anumericalflux.cpp
+++ b/src/spatial/anumericalflux.cpp
@@ -145,10 +145,10 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 	j_real dedu[NVARS];
 
 	if(leftismax) {
-		dedu[0] = -fabs(vni/(ul[0]*ul[0])) + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
+		dedu[0] = -fabs(vni)/ul[0] + ctermi*g*(g-1)*( -ul[3]/(ul[0]*ul[0])
 				+ (ul[1]*ul[1]+ul[2]*ul[2])/(ul[0]*ul[0]*ul[0]) );
-		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/ul[0]);
-		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/ul[0]);
+		dedu[1] = (vni>0 ? n[0]/ul[0] : -n[0]/ul[0]) + ctermi*g*(g-1)*(-ul[1]/(ul[0]*ul[0]));
+		dedu[2] = (vni>0 ? n[1]/ul[0] : -n[1]/ul[0]) + ctermi*g*(g-1)*(-ul[2]/(ul[0]*ul[0]));
 		dedu[3] = ctermi*g*(g-1)/ul[0];
 	}
 	else {
@@ -168,10 +168,10 @@ void LocalLaxFriedrichsFlux<scalar,j_real>::get_jacobian_2(const j_real *const u
 		for(int i = 0; i < NVARS; i++)
 			dedu[i] = 0;
 	} else {
-		dedu[0] = -fabs(vnj/(ur[0]*ur[0])) + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
+		dedu[0] = -fabs(vnj)/ur[0] + ctermj*g*(g-1)*( -ur[3]/(ur[0]*ur[0])
 				+ (ur[1]*ur[1]+ur[2]*ur[2])/(ur[0]*ur[0]*ur[0]) );
-		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/ur[0]);
-		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/ur[0]);
+		dedu[1] = (vnj>0 ? n[0]/ur[0] : -n[0]/ur[0]) + ctermj*g*(g-1)*(-ur[1]/(ur[0]*ur[0]));
+		dedu[2] = (vnj>0 ? n[1]/ur[0] : -n[1]/ur[0]) + ctermj*g*(g-1)*(-ur[2]/(ur[0]*ur[0]));
 		dedu[3] = ctermj*g*(g-1)/ur[0];
 	}
 
-- 
2.43.0


From 57e9ce8b86637c7527d620dbe5acb95d4b94956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 04/27] fix: outgoing Riemann invariant and flow direction at
 subsonic inflow boundaries

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..2f880c4 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - 2.0*ci/(phy.g - 1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -167,9 +167,9 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
 	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
 
-	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
+	// Get velocity components of ghost state assuming it's anti-parallel to the (outward) face normal
 	scalar vg[NDIM];
-	getComponentsCartesian<scalar>(vgmag, n, vg);
+	getComponentsCartesian<scalar>(-vgmag, n, vg);
 	for(int i = 0; i < NDIM; i++)
 		gs[i+1] = gs[0]*vg[i];
 	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
-- 
2.43.0


From 25d76bf15dfa4e1a4f4d7b94aca182fa7eb3cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 05/27] fix: index of the wall velocity in the Cartesian
 adiabatic wall condition

---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 2f880c4..794fbb7 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -316,7 +316,7 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 {
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
 }
 
@@ -333,9 +333,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	dgs[0] = 1.0;
 
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-- 
2.43.0


From e06223277201267c3d727f8911dc1f1b1bd92ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 06/27] fix: ghost state and Jacobian of the isothermal wall
 agree with its ghost state

---
 src/spatial/abc.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 794fbb7..ae3b979 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -377,8 +377,6 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -392,19 +390,26 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
 
-	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
-	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
-	dvmag2[NDIM+1] = 0;
-
-	// dummy dT for the next function call
+	// temperature in the ghost cell and its derivatives
+	const j_real p = jphy.getPressureFromConserved(ins);
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperature(ins[0],p);
 	j_real dT[NVARS];
 	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
+
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, ins[0], vmag2);
+
+	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
+	dvmag2[0] = 0;
+	for(int i = 1; i < NDIM+1; i++) {
+		dvmag2[0] += 2.0*gs[i]*ins[i]/(ins[0]*ins[0]*ins[0]);
+		dvmag2[i] = -2.0*gs[i]/(ins[0]*ins[0]);
+	}
+	dvmag2[NDIM+1] = 0;
 
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From f95a339a7992f71bac94146a76b9ffadb3caa2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 07/27] fix: keep the temperature continuous at moving
 adiabatic walls

---
 src/spatial/abc.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index ae3b979..71ed16b 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -276,7 +276,9 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostState(const scalar *const ins,
 	gs[0] = ins[0];
 	gs[1] =  2.0*tangMomentum*n[1] - ins[1];
 	gs[2] = -2.0*tangMomentum*n[0] - ins[2];
-	gs[3] = ins[3];
+	// same temperature as in the interior
+	gs[NDIM+1] = ins[NDIM+1]
+		+ 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
 }
 
 template <typename scalar, typename j_real>
@@ -300,8 +302,15 @@ void Adiabaticwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real *
 	dgs[2*NVARS+0] = -2.0*tangvel*n[0];
 	dgs[2*NVARS+2] = -1.0;
 
-	gs[3] = ins[3];
-	dgs[3*NVARS+3] = 1.0;
+	// same temperature as in the interior
+	gs[NDIM+1] = ins[NDIM+1]
+		+ 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
+	dgs[(NDIM+1)*NVARS] = -0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/(ins[0]*ins[0]);
+	for(int i = 1; i < NDIM+1; i++) {
+		dgs[(NDIM+1)*NVARS] += gs[i]*dgs[i*NVARS]/ins[0];
+		dgs[(NDIM+1)*NVARS+i] = -(gs[i]+ins[i])/ins[0];
+	}
+	dgs[(NDIM+1)*NVARS+NDIM+1] = 1.0;
 }
 
 template <typename scalar, typename j_real>
@@ -317,7 +326,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
 		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
-	gs[NDIM+1] = ins[NDIM+1];
+	// same temperature as in the interior
+	gs[NDIM+1] = ins[NDIM+1]
+		+ 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
 }
 
 template <typename scalar, typename j_real>
@@ -339,8 +350,15 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-	gs[NVARS-1] = ins[NVARS-1];
-	dgs[NVARS*NVARS-1] = 1.0;
+	// same temperature as in the interior
+	gs[NDIM+1] = ins[NDIM+1]
+		+ 0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/ins[0];
+	dgs[(NDIM+1)*NVARS] = -0.5*(dimDotProduct(&gs[1],&gs[1])-dimDotProduct(&ins[1],&ins[1]))/(ins[0]*ins[0]);
+	for(int i = 1; i < NDIM+1; i++) {
+		dgs[(NDIM+1)*NVARS] += gs[i]*dgs[i*NVARS]/ins[0];
+		dgs[(NDIM+1)*NVARS+i] = -(gs[i]+ins[i])/ins[0];
+	}
+	dgs[(NDIM+1)*NVARS+NDIM+1] = 1.0;
 }
 
 template <typename scalar, typename j_real>
-- 
2.43.0


From 1ef962ced1ab87c71bad34ee22346c2cd2d89d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 08/27] fix: cell-neighbour limiters read the state of boundary
 ghost cells beyond the end of the cell-state array

---
 src/spatial/limitedlinearreconstruction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..6b4bf46 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -132,7 +132,9 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells are numbered after the connectivity ghost cells
+				const fint jbface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar dui = (jbface >= 0 ? ug(jbface,ivar) : u(jel,ivar)) - u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -227,7 +229,9 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells are numbered after the connectivity ghost cells
+				const fint jbface = jel - (m->gnelem()+m->gnConnFace());
+				const scalar dui = (jbface >= 0 ? ug(jbface,ivar) : u(jel,ivar)) - u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From 367b633af99d4969bbe36089d945760a6d0c65fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 09/27] fix: Dirichlet boundary term of the diffusion Jacobian
 ignored the dependence of the ghost state on the interior state

---
 src/spatial/diffusion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..5adaf0a 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -315,8 +315,10 @@ void DiffusionMA<nvars>
 	for(int ivar = 0; ivar < nvars; ivar++)
 	{
 		// compute nu*(d(-grad u)/du_l . n) * l
+		//  - the ghost state is 2*bval - ul, so it contributes as well
 		for(int idim = 0; idim < NDIM; idim++)
-			L(ivar,ivar) += dgradl[idim][ivar][ivar]*m->gfacemetric(iface,idim);
+			L(ivar,ivar) += (dgradl[idim][ivar][ivar] - dgradr[idim][ivar][ivar])
+				*m->gfacemetric(iface,idim);
 		L(ivar,ivar) *= (diffusivity*len);
 	}
 }
-- 
2.43.0


From ab1b8693076565218a30673d2512ebf843e417a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 10/27] fix: system matrix preallocation asked for more blocks
 per row than small (sub)domains have

---
 src/linalg/alinalg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 344fa4c..4972301 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -1,4 +1,5 @@
 #include "alinalg.hpp"
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <cstring>
@@ -49,7 +50,8 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		std::vector<PetscInt> dnnz(m->gnelem());
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
-			dnnz[iel] = m->gnfael(iel)+1;
+			// a (sub)domain may have fewer cells than a cell has neighbours
+			dnnz[iel] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem());
 		}
 
 		std::vector<PetscInt> onnz(m->gnelem(),0);
@@ -66,7 +68,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
 			for(int i = 0; i < nvars; i++) {
-				dnnz[iel*nvars+i] = (m->gnfael(iel)+1)*nvars;
+				dnnz[iel*nvars+i] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem())*nvars;
 			}
 		}
 
-- 
2.43.0


From b1542ed0b356dd5d47d907ace05c3a04495ab486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 11/27] fix: Green-Gauss gradients: two boundary faces of a
 cell could update its gradient at the same time

---
 src/spatial/agradientschemes.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..337a124 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,7 +113,14 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
+				}
 			}
 		}
 
@@ -206,6 +213,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From 9297b4a25ddb922e6614f708a6bdfc23acd573b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 12/27] fix: TVD Runge-Kutta solver marched backward in time,
 evaluated every stage at the old solution and used a different time step on
 each process

---
 src/ode/aodesolver.cpp | 72 +++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..41ee080 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -676,28 +676,22 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int mpirank;
 	MPI_Comm_rank(PETSC_COMM_WORLD, &mpirank);
 
-	PetscInt locnelem; PetscScalar *uarr; PetscScalar *rarr;
+	PetscInt locnelem;
 	ierr = VecGetLocalSize(uvec, &locnelem); CHKERRQ(ierr);
 	assert(locnelem % nvars == 0);
 	locnelem /= nvars;
 	assert(locnelem == m->gnelem());
 
-	ierr = VecGetArray(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> u(uarr, locnelem, nvars);
-	ierr = VecGetArray(rvec, &rarr); CHKERRQ(ierr);
-	Eigen::Map<MVector<freal>> residual(rarr, locnelem, nvars);
-
-
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
 	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
-	
+	Vec stagevec;
+	ierr = VecDuplicate(uvec, &stagevec); CHKERRQ(ierr);
+	ierr = VecCopy(uvec, stagevec); CHKERRQ(ierr);
+	ierr = VecGhostUpdateBegin(stagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+	ierr = VecGhostUpdateEnd(stagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
 	double initialwtime = (double)time1.tv_sec + (double)time1.tv_usec * 1.0e-6;
@@ -709,44 +703,56 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 
 		for(int istage = 0; istage < order; istage++)
 		{
+			{
+				MutableGhostedVecHandler<PetscScalar> rh(rvec);
+				PetscScalar *const rarr = rh.getArray();
 #pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++) {
-				for(int i = 0; i < nvars; i++)
-					residual(iel,i) = 0;
+				for(fint i = 0; i < (m->gnelem()+m->gnConnFace())*nvars; i++)
+					rarr[i] = 0;
 			}
 
 			// update residual
-			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
+			ierr = space->compute_residual(stagevec, rvec, true, dtmvec); CHKERRQ(ierr);
 
 			// update time step for the first stage of each time step
 			if(istage == 0)
 			{
 				const PetscScalar *dtm;
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
-				dtmin = *std::min_element(dtm, dtm+m->gnelem());
+				const freal locdtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				MPI_Allreduce(&locdtmin, &dtmin, 1, FVENS_MPI_REAL, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
 				throw Numerical_error("TVDRK solver diverged - dtmin is Nan or inf!");
 
-#pragma omp parallel for simd default(shared)
-			for(fint iel = 0; iel < m->gnelem(); iel++)
 			{
-				for(int i = 0; i < nvars; i++)
+				ConstVecHandler<PetscScalar> uh(uvec);
+				Eigen::Map<const MVector<freal>> u(uh.getArray(), locnelem, nvars);
+				ConstVecHandler<PetscScalar> rh(rvec);
+				Eigen::Map<const MVector<freal>> residual(rh.getArray(), locnelem, nvars);
+				MutableVecHandler<PetscScalar> sh(stagevec);
+				Eigen::Map<MVector<freal>> ustage(sh.getArray(), locnelem, nvars);
+
+				// NOTE: the spatial discretization returns the residual r in M du/dt = r(u)
+#pragma omp parallel for simd default(shared)
+				for(fint iel = 0; iel < m->gnelem(); iel++)
 				{
-					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
-						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					for(int i = 0; i < nvars; i++)
+					{
+						ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
+						              + tvdcoeffs(istage,1)*ustage(iel,i)
+						              + tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					}
 				}
 			}
-		}
 
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
+			ierr = VecGhostUpdateBegin(stagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(stagevec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		}
 
+		ierr = VecCopy(stagevec, uvec); CHKERRQ(ierr);
 
 		if(step % 10 == 0)
 			if(mpirank == 0)
@@ -756,7 +762,11 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		step++;
 		time += dtmin*cfl;
 	}
-	
+
+	ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+	ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+	ierr = VecDestroy(&stagevec); CHKERRQ(ierr);
+
 	gettimeofday(&time2, NULL);
 	double finalwtime = (double)time2.tv_sec + (double)time2.tv_usec * 1.0e-6;
 	double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
@@ -779,8 +789,6 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 		outf.close();
 	}
 
-	ierr = VecRestoreArray(uvec, &uarr); CHKERRQ(ierr);
-	ierr = VecRestoreArray(rvec, &rarr); CHKERRQ(ierr);
 	return ierr;
 }
 
-- 
2.43.0


From 509a537adc97cadd94133eab61f328f9a1c9b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 13/27] fix: steady solvers reported failure when the tolerance
 was met on the last allowed step or the initial state was steady

---
 src/ode/aodesolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 41ee080..917c696 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -260,7 +260,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 		writeStepToConvergenceHistory(convstep, std::cout);
 
 	tdata.converged = true;
-	if(step == config.maxiter) {
+	if(resi/initres > config.tol) {
 		tdata.converged = false;
 		if(mpirank == 0)
 			std::cout << "! SteadyForwardEulerSolver: solve(): Exceeded max iterations!\n";
@@ -616,7 +616,8 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	tdata.lin_cputime = linctime;
 
 	tdata.converged = false;
-	if(step < config.maxiter && (resi/initres <= config.tol))
+	// (the residual is finite here; an initial residual of exactly zero means the solution is steady)
+	if(!(resi/initres > config.tol))
 		tdata.converged = true;
 	else if (step >= config.maxiter){
 		if(mpirank == 0) {
-- 
2.43.0


From 067eaae3cfb3e9be045765dab59ccca62a872823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 14/27] fix: backward Euler solver crashed writing the final
 linear system when no step was needed

---
 src/ode/aodesolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 917c696..6ea890c 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -580,7 +580,8 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	}
 
 	// If requested, write out final linear system
-	if(config.write_final_lin_sys)
+	// (there is none if the initial state already satisfied the tolerance)
+	if(config.write_final_lin_sys && step > 0)
 	{
 		if(mpirank == 0)
 			std::cout << " Writing final linear system to files in PETSc format." << std::endl;
-- 
2.43.0


From efeb0770388e13b5edee16ab2b933732a9751a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 15/27] fix: nodal averages of the flow variables were divided
 by the number of variables

---
 src/spatial/aoutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From cd86b5a18589f02f3ea4e7ec92ccd4bd00d17eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 16/27] fix: nodal averages of scalar fields read beyond the
 end of the solution vector

---
 src/spatial/diffusion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 5adaf0a..37950a7 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -354,16 +354,16 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < nvars; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
-			}
+			areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 5db966e927766cabd970b02520bdc23ebc2c35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 17/27] fix: cell offsets in VTU files of hybrid meshes

---
 src/spatial/aoutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 66e006b..cb64714 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -586,8 +586,11 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
-	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	int totalcells = 0;
+	for(int i = 0; i < m.gnelem(); i++) {
+		totalcells += m.gnnode(i);
+		out << "\t\t\t\t" << totalcells << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
-- 
2.43.0


From d9a187164db58bc63427a56fc5a1f30e17e0b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 18/27] fix: skin friction coefficient used Sutherland's
 viscosity in constant-viscosity simulations

---
 src/spatial/flow_spatial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..f4db9f2 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -223,7 +223,8 @@ FlowFV_base<scalar>::computeSurfaceData (const amat::Array2dView<scalar> u,
 			 */
 
 			// non-dim viscosity / Re_inf
-			const scalar muhat = physics.getViscosityCoeffFromConserved(urec);
+			const scalar muhat = pconfig.const_visc ? physics.getConstantViscosityCoeff()
+				: physics.getViscosityCoeffFromConserved(urec);
 
 			// velocity gradient tensor
 			scalar gradu[NDIM][NDIM];
-- 
2.43.0


From f53c3fc9182145df76db50bb4a7714e11579a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 19/27] fix: steady cases without output walls, or with more
 wall faces than cells, accessed memory out of bounds

---
 src/utilities/casesolvers.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..0730e77 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -147,15 +147,16 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 			std::cout << "FlowCase: Files will not be written in multi-process runs.\n";
 	}
 	
-	MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
+	MVector<freal> output; output.resize(m.gnbface(),NDIM+2);
 	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
 	grad.resize(m.gnelem());
 	prob->getGradients(u, &grad[0]);
 
 	ConstVecHandler<freal> uh(u);
 	const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
-	const std::tuple<freal,freal,freal> fnls 
-		{ prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output)};
+	std::tuple<freal,freal,freal> fnls {0,0,0};
+	if(!opts.lwalls.empty())
+		fnls = prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output);
 
 	delete prob;
 
-- 
2.43.0


From 9512c1632fe08ddf9e52de981b58eee188917ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 20/27] fix: control file parser left options that the file
 does not set uninitialised

---
 src/utilities/controlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..ae37582 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -66,7 +66,7 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 		std::abort();
 	}
 
-	FlowParserOptions opts;
+	FlowParserOptions opts{};
 
 	// set some default values
 	opts.useconstvisc = false;
-- 
2.43.0


From 4e5d9a1c53c30bfd5a7e2f8b0ab10be89f0211f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 21/27] fix: option strings of exactly the maximum length lost
 their last character

---
 src/utilities/aoptionparser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/utilities/aoptionparser.cpp b/src/utilities/aoptionparser.cpp
index c2b586b..47fc192 100644
--- a/src/utilities/aoptionparser.cpp
+++ b/src/utilities/aoptionparser.cpp
@@ -9,6 +9,7 @@
 #include "mpiutils.hpp"
 #include <iostream>
 #include <cstdlib>
+#include <vector>
 #include <boost/program_options/cmdline.hpp>
 #include <boost/program_options/parsers.hpp>
 #include <petscsys.h>
@@ -107,15 +108,13 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set);
+	std::vector<char> tt(p_strlen+1, '\0');
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.c_str(), &tt[0], p_strlen+1, &set);
 	petsc_throw(ierr, std::string("Could not get string ") + std::string(optionname));
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
-	return stropt;
+	return std::string(&tt[0]);
 }
 
 /** Ideally, we would have single function template for int and real, but for that we need
-- 
2.43.0


From 6d4ee71de8c431bc85613084aa1d25a4f0b3f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 22/27] fix: lists in control files lost all but the first
 entry unless quoted, and boundary conditions with too few values were read
 out of bounds

---
 src/utilities/controlparser.cpp | 57 ++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index ae37582..7d5aabc 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -53,6 +53,46 @@ std::vector<T> parseStringToVector(const std::string str)
 	return vec;
 }
 
+/// Returns the text of a list-valued option in a section of the control file, if it is present
+/** The INFO parser ends an unquoted value at the first space and takes the remaining words of the line
+ * to be further keys (and their values). Collect those so that lists need not be quoted.
+ */
+static boost::optional<std::string> get_optionalListString(const pt::ptree& section,
+                                                           const std::string key)
+{
+	auto it = section.begin();
+	while(it != section.end() && it->first != key)
+		++it;
+	if(it == section.end())
+		return boost::none;
+
+	std::string list = it->second.data();
+	for(++it; it != section.end(); ++it)
+	{
+		std::stringstream ss(it->first);
+		freal number;
+		if(!(ss >> number) || !ss.eof() || !it->second.empty())
+			break;
+		list += " " + it->first + " " + it->second.data();
+	}
+	return list;
+}
+
+/// Returns the text of a list-valued option in a section of the control file
+/** Throws if the option is not present or if it has too few entries.
+ */
+template <typename T> static
+std::vector<T> get_list(const pt::ptree& section, const std::string key, const size_t min_length)
+{
+	const boost::optional<std::string> str = get_optionalListString(section, key);
+	if(!str)
+		throw InputNotGivenError("Control file option " + key + " not given");
+	const std::vector<T> list = parseStringToVector<T>(*str);
+	if(list.size() < min_length)
+		throw InputNotGivenError("Control file option " + key + " has too few entries");
+	return list;
+}
+
 /// Parse options related to boundary conditions
 static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
                                                   const std::string bc_keyword);
@@ -139,12 +179,14 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 
 	opts.bcconf = parse_BC_options(infopts, c_bcs);
 
-	auto optlwalls = infopts.get_optional<std::string>(c_bcs+".listof_output_wall_boundaries");
+	const pt::ptree bcopts = infopts.get_child(c_bcs, pt::ptree());
+
+	auto optlwalls = get_optionalListString(bcopts, "listof_output_wall_boundaries");
 	if(optlwalls)
 		opts.lwalls = parseStringToVector<int>(*optlwalls);
 	opts.num_out_walls = static_cast<int>(opts.lwalls.size());
 
-	auto optlothers= infopts.get_optional<std::string>(c_bcs+".listof_output_other_boundaries");
+	auto optlothers= get_optionalListString(bcopts, "listof_output_other_boundaries");
 	if(optlothers)
 		opts.lothers = parseStringToVector<int>(*optlothers);
 	opts.num_out_others = static_cast<int>(opts.lothers.size());
@@ -267,16 +309,15 @@ static std::vector<FlowBCConfig> parse_BC_options(const pt::ptree& infopts,
 			if(bconf.bc_type == ADIABATIC_WALL_BC  ||
 			   bconf.bc_type == ISOTHERMAL_WALL_BC ||
 			   bconf.bc_type == SUBSONIC_INFLOW_BC)   {
-				std::string bvals = infopts.get<std::string>(c_bcs+".bc"+std::to_string(ibc)+
-				                                             ".boundary_values");
-				bconf.bc_vals = parseStringToVector<freal>(bvals);
+				bconf.bc_vals = get_list<freal>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                                "boundary_values",
+				                                bconf.bc_type == ADIABATIC_WALL_BC ? 1 : 2);
 			}
 
 			// array of options
 			if(bconf.bc_type == PERIODIC_BC) {
-				std::string bcopts = infopts.get<std::string>(c_bcs +".bc"+std::to_string(ibc)+
-				                                              ".options");
-				bconf.bc_opts = parseStringToVector<int>(bcopts);
+				bconf.bc_opts = get_list<int>(infopts.get_child(c_bcs+".bc"+std::to_string(ibc)),
+				                              "options", 2);
 			}
 
 			bcvec.push_back(bconf);
-- 
2.43.0


From 576ed1c045146fad82a96ade9fe802d567595928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 23/27] fix: convertformat dereferenced missing arguments after
 printing its usage

---
 src/utilities/convertformat.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/convertformat.cpp b/src/utilities/convertformat.cpp
index 9bedaf5..6cf0330 100644
--- a/src/utilities/convertformat.cpp
+++ b/src/utilities/convertformat.cpp
@@ -10,6 +10,7 @@ int main(int argc, char* argv[])
 {
 	if(argc < 4) {
 		cout << "Need: 1. Input mesh file, 2. Output mesh file 3. Output format.\n" << endl;
+		return -1;
 	}
 	string confilename(argv[1]);
 	string inmesh = argv[1], outmesh = argv[2], outformat = argv[3];
-- 
2.43.0


From 9cac510ad3c836b07356d89900ef46a017f2adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 24/27] fix: mesh size reported by parallel runs was that of
 one process's subdomain

---
 src/spatial/aoutput.cpp       | 2 +-
 src/utilities/casesolvers.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index cb64714..d8a58d5 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -50,7 +50,7 @@ freal FlowOutput::compute_entropy_cell(const Vec uvec) const
 	mpi_all_reduce<freal>(&error, 1, MPI_SUM, PETSC_COMM_WORLD);
 	error = sqrt(error);
 
-	const freal h = 1.0/sqrt(m->gnelem());
+	const freal h = 1.0/sqrt(m->gnelemglobal());
 
 	if(mpirank == 0)
 		std::cout << "FlowOutput: log mesh size and log entropy:   " << log10(h) << "  " 
diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 0730e77..1bef934 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -93,7 +93,7 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 
 	const FlowFV_base<freal> *const prob = createFlowSpatial(opts, m);
 
-	const freal h = 1.0 / ( std::pow((freal)m.gnelem(), 1.0/NDIM) );
+	const freal h = 1.0 / ( std::pow((freal)m.gnelemglobal(), 1.0/NDIM) );
 
 	try {
 		ierr = execute(prob, opts.lognres, u);
-- 
2.43.0


From 086de2ac55772ba851e609eb4caa870f6b0fbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 25/27] fix: lift, drag and skin-friction totals were not
 summed over the processes of a parallel run

---
 src/ode/aodesolver.cpp     | 2 +-
 src/utilities/mpiutils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 6ea890c..0c37885 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -525,7 +525,7 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 			}
 		}
 
-		MPI_Allreduce(&resnorm2, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
+		MPI_Allreduce(MPI_IN_PLACE, &resnorm2, 1, FVENS_MPI_REAL, MPI_SUM, PETSC_COMM_WORLD);
 		resiold = resi;
 		resi = sqrt(resnorm2);
 
diff --git a/src/utilities/mpiutils.cpp b/src/utilities/mpiutils.cpp
index 8b4f7ad..33bdc84 100644
--- a/src/utilities/mpiutils.cpp
+++ b/src/utilities/mpiutils.cpp
@@ -14,7 +14,7 @@ namespace fvens {
 template <>
 void mpi_all_reduce(freal *const arr, const fint count, MPI_Op op, MPI_Comm comm)
 {
-	MPI_Allreduce(arr, arr, count, FVENS_MPI_REAL, op, comm);
+	MPI_Allreduce(MPI_IN_PLACE, arr, count, FVENS_MPI_REAL, op, comm);
 }
 
 void wait_for_debugger()
-- 
2.43.0


From 705eb8fcd36d0f6a32713a9ee89383b9e407f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 26/27] fix: initialize the Scotch graph before it is built

---
 src/mesh/meshpartitioning.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2eb641c..84c89e5 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -450,8 +450,9 @@ void ScotchRGMPartitioner::compute_partition()
 	if(rank == 0) {
 		printf(" Using Scotch to compute a partition..\n");
 		SCOTCH_Graph *sgraph = SCOTCH_graphAlloc();
+		int ierr = SCOTCH_graphInit(sgraph); fvens_throw(ierr, "Scotch could not initialize the graph!");
 		const ListOfArrays<fint> loa = getCellAdjLists(gm);
-		int ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
+		ierr = SCOTCH_graphBuild(sgraph, 0, gm.gnelem(), &loa.ptrs[0], NULL, NULL, NULL,
 		                             loa.ptrs.back(), &loa.store[0], NULL);
 		fvens_throw(ierr, "Scotch could not build the global graph!");
 		ierr = SCOTCH_graphCheck(sgraph); fvens_throw(ierr, "Scotch graph is not consistent!");
-- 
2.43.0


From 5001e796650a8fe04cf9634fe17cfc030d6f6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 27/27] fix: a solve that takes no step printed an
 uninitialised history line and averaged linear iterations over zero steps

---
 src/ode/aodesolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 0c37885..d283b25 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -256,7 +256,7 @@ StatusCode SteadyForwardEulerSolver<nvars>::solve(Vec uvec)
 	tdata.ode_walltime += (finalwtime-initialwtime); tdata.ode_cputime += (finalctime-initialctime);
 	tdata.num_timesteps = step;
 
-	if(mpirank==0)
+	if(mpirank==0 && step > 0)
 		writeStepToConvergenceHistory(convstep, std::cout);
 
 	tdata.converged = true;
@@ -562,10 +562,10 @@ StatusCode SteadyBackwardEulerSolver<nvars>::solve(Vec uvec)
 	double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
 	tdata.ode_walltime += (finalwtime-initialwtime); 
 	tdata.ode_cputime += (finalctime-initialctime);
-	tdata.avg_lin_iters = (int) (tdata.total_lin_iters / (double)step);
+	tdata.avg_lin_iters = step > 0 ? (int) (tdata.total_lin_iters / (double)step) : 0;
 	tdata.num_timesteps = step;
 
-	if(mpirank == 0) {
+	if(mpirank == 0 && step > 0) {
 		writeStepToConvergenceHistory(convline, std::cout);
 	}
 
-- 
2.43.0

