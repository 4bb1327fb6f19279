From 63abdead3d854877b033916bf277d845c0ee902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:14 +0000
Subject: [PATCH 01/19] fix: evaluate three strain points in str_el3

---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..bbb31dc 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 952cb6fae44f1bf4ffa386e7d3c335fce3208a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 02/19] fix: vertical coordinate of the strain points

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index bbb31dc..0eced87 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -771,7 +771,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From 7961e0299f6c13f844390bb9dc370e54ed8c724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 03/19] fix: order the strain points of quad4 elements as their
 nodes

---
 solidspy/femutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0eced87..0b17b25 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -766,6 +766,7 @@ def str_el4(coord, ul):
     epsG = np.zeros([3, 4])
     xl = np.zeros([4, 2])
     gpts, _ = gau.gauss_nd(2)
+    gpts = gpts[[0, 2, 3, 1], :]  # same ordering as the nodes
     for i in range(gpts.shape[0]):
         ri, si = gpts[i, :]
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
-- 
2.43.0


From 8a61fcff693fcc7785ead0aa6453592f582455b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/19] fix: strain_nodes fails when materials include a
 density

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..60e2759 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From 9e88714a806a51203c560c88d82ae9676dac7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 05/19] fix: mass matrix of the spring should be 4 by 4

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From 5cf20729f17a3f10092d40556b9752d0e449f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 06/19] fix: transverse direction of the beam without axial
 deformation

---
 solidspy/uelutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ea1ec58..0259fd9 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -543,9 +543,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
-- 
2.43.0


From 2314d3988ab80b2cacf3077145eef581d7a9074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 07/19] fix: rotation of the beam with axial deformation

---
 solidspy/uelutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 0259fd9..e503fbd 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -601,11 +601,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From 449605e8b3671af8247f704fe5c4c533d2c8c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 08/19] fix: density of the beam should be a scalar

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index e503fbd..2ab8748 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -621,7 +621,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From 4e8aeac04e607d2fbec3399189587188a77742d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 09/19] fix: np.NaN was removed from numpy

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 60e2759..289fac2 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -596,8 +596,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From 3703f8c37c09d958f1346ad49eeddcc16457327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 10/19] fix: numbering of image degrees of freedom in
 reassign_dof_bloch

---
 solidspy/blochutil.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..24e1964 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -50,13 +50,10 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
     for cont_dof in range(ndofs):
         if cont_dof in dofs_ima:
             cont += 1
-            ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
-        else:
-            new_num.append(cont_dof - cont)
+        new_num.append(cont_dof - cont)
+    # The image dofs take the (new) number of their reference dof
+    for ima_dof, ref_dof in zip(dofs_ima, dofs_ref):
+        new_num[ima_dof] = new_num[ref_dof]
     return new_num
 
 
-- 
2.43.0


From 3213c7d9ed114c9c0d7dfce82ffeb71464b0b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 11/19] fix: couple the hoop direction in elast_mat_axi

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0b17b25..2f68d83 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -638,10 +638,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From ab492bf2b4e5343899d3910649c8444da54d351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 12/19] fix: integrate the axisymmetric element over the
 revolution

---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 2ab8748..0844534 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -322,7 +322,8 @@ def elast_axi_quad9(coord, params):
         r = gpts[cont, 0]
         s = gpts[cont, 1]
         H, B, det = fem.elast_diff_axi(r, s, coord, fem.shape_quad9)
-        factor = det * gwts[cont]
+        radius = H[0, 0::2] @ coord[:, 0]
+        factor = 2*np.pi*radius * det * gwts[cont]
         stiff_mat += factor * (B.T @ C @ B)
         mass_mat += rho*factor * (H.T @ H)
     return stiff_mat, mass_mat
-- 
2.43.0


From 95c2f94e9d598738e96edd0bd99bc28fd4550af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 13/19] fix: accumulate loads applied on the same node

---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..a2e33fb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From 965a1888af98f2a39363f9709e11dfad5a3eeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 14/19] fix: built-in elements should only get the coordinates
 of nodes

---
 solidspy/assemutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index a2e33fb..97be811 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -142,6 +142,7 @@ def retriever(elements, mats, nodes, ele, uel=None):
     elcoor = nodes[elements[ele, 3:], 1:]
     if uel is None:
         uel = ele_fun(elem_type)
+        elcoor = elcoor[:, :2]  # leave out boundary conditions columns
     kloc, mloc = uel(elcoor, params)
     return kloc, mloc
 
-- 
2.43.0


From 34f902ea4a1a6e7de471a8b3869736cdcc777960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 15/19] fix: beams with axial deformation are structural
 elements

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 289fac2..97de425 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -49,7 +49,8 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     # Check for structural elements in the mesh
     struct_pos = 5 in elements[:, 1] or \
              6 in elements[:, 1] or \
-             7 in elements[:, 1]
+             7 in elements[:, 1] or \
+             8 in elements[:, 1]
     if struct_pos:
         # Still not implemented visualization for structural elements
         print(disp)
-- 
2.43.0


From d99d05128f5ffca1c1c311fc2bfd5913e9049c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 16/19] fix: do not pass shading to tricontourf, which refuses
 it

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 97de425..d971427 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -102,10 +102,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From b5b971afe1459fbb29848f3079f89da6510f1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 17/19] fix: plot a field given as a single column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index d971427..890f425 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -160,7 +160,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-- 
2.43.0


From f445288d24289901fa61967514d74d604f72d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 18/19] fix: colour truss members by their row, as the stresses
 are given

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 890f425..e0d1a60 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -222,9 +222,9 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
     else:
         widths = 3*np.ones_like(areas)
     plt.figure(figtitle)
-    for elem in elements:
+    for cont, elem in enumerate(elements):
         ini, end = elem[3:]
-        color = plt.cm.seismic(scaled_stress[elem[0]])
+        color = plt.cm.seismic(scaled_stress[cont])
         plt.plot([nodes[ini, 1], nodes[end, 1]],
                  [nodes[ini, 2], nodes[end, 2]],
                  color=color, lw=widths[elem[2]])
-- 
2.43.0


From 98e3765bea425cafa80a6eb6c8ff22c82f2f9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:24 +0000
Subject: [PATCH 19/19] fix: draw unstressed trusses in the neutral colour
 instead of invisibly

---
 solidspy/postprocesor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index e0d1a60..ef45ec2 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -215,7 +215,10 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
         scaled_stress = np.ones_like(elements[:, 0])
     else:
         max_stress = max(-stresses.min(), stresses.max())
-        scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        if max_stress > 0:
+            scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        else:
+            scaled_stress = 0.5*np.ones(len(elements))
     if max_area - min_area > 1e-6:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
-- 
2.43.0

