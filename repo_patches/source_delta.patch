From d6c0b80c4943fbab3f9cc9cf509bab8b5b49eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 01/10] fix: pow2mul must preserve the value of the expression

It failed on (x**2 + 1)**2, turned sin(x)**2 into sin((x)*(x)), x**2.5 into
(x*x).5, x**2**3 into (x*x)**3 and pow(x, n) into an exception.
---
 meshless/dev/sympytools.py | 72 +++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..fd42207 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -21,28 +21,58 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
+    def product(base, exp):
+        return '(' + '*'.join([base.replace(' ', '')]*int(exp) or ['1']) + ')'
+
+    def closing(string, i):
+        # position after the bracket matching the one opened at string[i]
+        depth = 0
+        for j in range(i, len(string)):
+            depth += (string[j] in '([') - (string[j] in ')]')
+            if depth == 0:
+                return j + 1
+        return len(string)
+
     outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-        var, exp = p.split('pow')[1].split(',')
-        var = var.strip()[1:] # removing left parentheses
-        exp = exp.strip()[:-1] # removing right parentheses
-        new = '(' + '*'.join(['(' + var.replace(' ', '') + ')']*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+    # x**5, (x + 1)**5, f(x)**5: only for integer exponents, i.e. leaving
+    # x**2.5, x**n and x**2**3 untouched
+    # the base consists of names, numbers and balanced brackets
+    search = r'\*\*\s*(\d+)(?![\w.])(?!\s*\*\*)'
+    pos = 0
+    while True:
+        p = re.compile(search).search(outstr, pos)
+        if p is None:
+            break
+        pos = p.end()
+        stop = len(outstr[:p.start()].rstrip())
+        start = stop
+        if outstr[start-1:start] in (')', ']'):
+            depth = 0
+            while start > 0:
+                start -= 1
+                depth += (outstr[start] in ')]') - (outstr[start] in '([')
+                if depth == 0 and outstr[start-1:start] not in (')', ']'):
+                    break
+        start = re.search(r'[\w.]*$', outstr[:start]).start()
+        # not the exponent of a number like 1.e-5
+        if start == stop or re.search(r'\b[\d.]+[eE][+-]$', outstr[:start]):
+            continue
+        outstr = outstr[:start] + product(outstr[start:stop], p.group(1)) + outstr[p.end():]
+        pos = 0
+
+    # pow(x, 5)
+    pos = 0
+    while True:
+        p = re.compile(r'(?<![\w.])pow\(').search(outstr, pos)
+        if p is None:
+            break
+        pos = p.end()
+        stop = closing(outstr, p.end() - 1)
+        args = re.fullmatch(r'(.*),\s*(\d+)\s*', outstr[p.end():stop - 1], re.DOTALL)
+        if args is None:
+            continue
+        outstr = outstr[:p.start()] + product('(' + args.group(1).strip() + ')', args.group(2)) + outstr[stop:]
+        pos = 0
 
     return outstr
 
-- 
2.43.0


From ce966991f9d4932b00c36912c56032782f851e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 02/10] fix: mprint_as_array corrupted powers sharing a prefix
 or suffix

x**2*y + x**20 + xx**2 was printed with (x*x)0 or x(x*x), since the powers were
substituted one by one in the whole string; use pow2mul instead.
---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index fd42207..fd76304 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -330,10 +330,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From 46a7b3c2d4dac56b1e35457774f354bd2df491ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 03/10] fix: mprint_as_sparse symmetric output with dofpernode

The upper triangle was selected using the indices within each node, dropping
terms of the upper triangle and printing some of the lower one.
---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index fd76304..452116b 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -121,15 +121,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From c978b0b01db4fc0ad0a30c74699838be7ea48359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:06 +0000
Subject: [PATCH 04/10] fix: mprint_as_array(use_cse=True) overwrote the
 caller's matrix

---
 meshless/dev/sympytools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 452116b..f09e051 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -292,9 +292,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     """
     ls = []
     if use_cse:
-        subs, m_list = sympy.cse(m)
-        for i, v in enumerate(m_list):
-            m[i] = v
+        subs, (m,) = sympy.cse(m)
     if sufix is None:
         namesufix = '{0}'.format(mname)
     else:
-- 
2.43.0


From c4d45de9276bc0da7d6ad38264a35b6fd519248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:26 +0000
Subject: [PATCH 05/10] fix: transverse shear stiffness used G23 for gxz and
 G13 for gyz

E of composites' Laminate is ordered as (yz, xz), such that E[1, 1], corrected
by scf_k13, is the one relating Qxz to gxz.
---
 meshless/espim/plate2d_add_k0s_cell_based.py           |  5 +++--
 .../espim/plate2d_add_k0s_cell_based_no_smoothing.py   |  5 +++--
 meshless/espim/plate2d_add_k0s_edge_based.py           | 10 ++++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..3e773af 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,10 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        # E44 is used for gxz and E55 for gyz, whereas E = [[yz, yz-xz], [yz-xz, xz]]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..a5ca8b4 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,10 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        # E44 is used for gxz and E55 for gyz, whereas E = [[yz, yz-xz], [yz-xz, xz]]
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..51708d1 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,10 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    # E44 is used for gxz and E55 for gyz, whereas E = [[yz, yz-xz], [yz-xz, xz]]
+    E44 = k13 * E[1, 1]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
@@ -193,9 +194,10 @@ def interior_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = (Ac1*prop1.E + Ac2*prop2.E)/Ac
         h = (Ac1*prop1.h + Ac2*prop2.h)/Ac
 
-    E44 = k13 * E[0, 0]
+    # E44 is used for gxz and E55 for gyz, whereas E = [[yz, yz-xz], [yz-xz, xz]]
+    E44 = k13 * E[1, 1]
     E45 = min(k13, k23) * E[0, 1]
-    E55 = k23 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0


From d10a489dcecd7fa3a208ffc28c699b36f072fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:30 +0000
Subject: [PATCH 06/10] fix: read_mesh with GRIDs defined in a local coordinate
 system

Local coordinates were mixed with the global position of the element centers.
---
 meshless/espim/read_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..a2e9e0b 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -25,6 +25,9 @@ def read_mesh(filepath, silent=True):
     msg('Reading mesh...', silent=silent)
     mesh = read_bdf(filepath, debug=False)
     for node in mesh.nodes.values():
+        if node.Cp() != 0:
+            # coordinates given in a local system
+            node.set_position(mesh, node.get_position())
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From ee6c554a5e71d53ffc3af637a50de8fb6cac4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:13 +0000
Subject: [PATCH 07/10] fix: read_delaunay made the nodes share memory with the
 input points

Moving a node in place changed the points given, and the other meshes
created from them.
---
 meshless/espim/read_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index a2e9e0b..5c4738b 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -98,7 +98,7 @@ def read_delaunay(points, tri, silent=True):
         if len(pt) == 2:
             pt = np.array([pt[0], pt[1], 0.])
         nid += 1
-        node = GRID(nid, cp=0, cd=0, xyz=pt)
+        node = GRID(nid, cp=0, cd=0, xyz=np.array(pt))
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From 4cc20b02b27334e381751a41cb316ef1ddd563ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 08/10] fix: bending strains of theory/sfem: the y,y terms
 belong to the second curvature

---
 theory/sfem/stiffmatrices.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/theory/sfem/stiffmatrices.py b/theory/sfem/stiffmatrices.py
index b54a1d5..10cfe03 100644
--- a/theory/sfem/stiffmatrices.py
+++ b/theory/sfem/stiffmatrices.py
@@ -139,8 +139,8 @@ Bm = 1/Ac*(Ac1*Bm1 + Ac2*Bm2 + Ac3*Bm3)
 
 Bb1 = 1/(2*Ac1)*(Matrix([
          #node1          node 2                node 3
-  [0, 0, 0, 0, 0,    0, 0, 0,  c1, -d1,      0, 0, 0, -b1,   0],
-  [0, 0, 0, 0, 0,    0, 0, 0,   0,   0,      0, 0, 0,   0,  a1],
+  [0, 0, 0, 0, 0,    0, 0, 0,  c1,   0,      0, 0, 0, -b1,   0],
+  [0, 0, 0, 0, 0,    0, 0, 0,   0, -d1,      0, 0, 0,   0,  a1],
   [0, 0, 0, 0, 0,    0, 0, 0, -d1,  c1,      0, 0, 0,  a1, -b1]])
 
   +
@@ -158,15 +158,15 @@ Bb2 = 1/(2*Ac2)*(Matrix([
 
   +
 
-  1/3*Matrix([[0, 0, 0,  c2, -d2,    0, 0, 0,  c2, -d2,    0, 0, 0,  c2, -d2],
-              [0, 0, 0,   0,   0,    0, 0, 0,   0,   0,    0, 0, 0,   0,   0],
+  1/3*Matrix([[0, 0, 0,  c2,   0,    0, 0, 0,  c2,   0,    0, 0, 0,  c2,   0],
+              [0, 0, 0,   0, -d2,    0, 0, 0,   0, -d2,    0, 0, 0,   0, -d2],
               [0, 0, 0, -d2,  c2,    0, 0, 0, -d2,  c2,    0, 0, 0, -d2,  c2]])
       )
 
 Bb3 = 1/(2*Ac3)*(Matrix([
          #node1                  node 2                node 3
-  [0, 0, 0, b3-c3,     0,    0, 0, 0,  c3, -d3,      0, 0, 0, 0, 0],
-  [0, 0, 0,     0, d3-a3,    0, 0, 0,   0,   0,      0, 0, 0, 0, 0],
+  [0, 0, 0, b3-c3,     0,    0, 0, 0,  c3,   0,      0, 0, 0, 0, 0],
+  [0, 0, 0,     0, d3-a3,    0, 0, 0,   0, -d3,      0, 0, 0, 0, 0],
   [0, 0, 0, d3-a3, b3-c3,    0, 0, 0, -d3,  c3,      0, 0, 0, 0, 0]])
 
   +
-- 
2.43.0


From aa1a640932290178dd7acec34d46f51dd0573e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 09/10] fix: operator of collected terms in mprint_as_array was
 ignored

---
 meshless/dev/sympytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index f09e051..7e7c616 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -321,7 +321,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
         if v:
             if collect_for is not None:
                 v = collect(v, collect_for, evaluate=False)
-                ls.append('{0}[pos+{1}] +='.format(mname, i))
+                ls.append('{0}[pos+{1}] {2}'.format(mname, i, op))
                 for k, expr in v.items():
                     ls.append('#   collected for {k}'.format(k=k))
                     ls.append('    {expr}'.format(expr=k*expr))
-- 
2.43.0


From 9ec594ddb176749052f4494076adfb5a03de3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 10/10] fix: title of the substitutions of mprint_as_sparse is
 not code, write it as a comment

---
 meshless/dev/sympytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 7e7c616..9c78f0e 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -161,7 +161,7 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
         items = [(k, v) for k, v in items if str(v) in string]
         if items:
             ls_header = []
-            ls_header.append('subs\n')
+            ls_header.append('# subs\n')
             for k, v in items:
                 ls_header.append('{0} = {1}'.format(v, k))
             ls_header.append('\n')
-- 
2.43.0

