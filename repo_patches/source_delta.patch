From d4484a9bb1a738d5c9040c73d0b9a8acf93ce266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 01/29] fix: SpaceGroupRestriction reads the group number, not
 a digit of the symbol

'Pm-3m (221)' was taken for group 3.
---
 ababe/stru/restriction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index 8f6ba94..dddf731 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -56,7 +56,7 @@ class SpaceGroupRestriction(Restriction):
 
     def is_satisfied(self, gcell):
         spg = gcell.get_spacegroup()    # output: 'Pm (6)'
-        spg_num = int(re.findall('\d+', spg)[0])
+        spg_num = int(re.findall(r'\((\d+)\)', spg)[0])
         is_ok = spg_num in self.l_sp
 
         return is_ok
-- 
2.43.0


From 32767f52e839f6df0e7830a662f3ec4577d164fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 02/29] fix: SitesGrid.deepCopy copies the innermost rows too

Writing a site of the copy changed the original.
---
 ababe/stru/scaffold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 2c331c2..32e3a9d 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -68,7 +68,7 @@ class SitesGrid(object):
 
     def deepCopy(self):
         g = SitesGrid(self._sites)
-        g._sites = [x[:][:] for x in self._sites]
+        g._sites = [[row[:] for row in x] for x in self._sites]
         return g
 
     def to_array(self):
-- 
2.43.0


From 911b795f6eeb6e0a431c64b314819512d5031162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 03/29] fix: get_neighbors with zero or one neighbour, and on
 non-cubic grids

itemgetter with one index returned the bare position (its coordinates
became the 'neighbours') and failed with none; the 3-D variant took the
axes in another order than the rest of CStru.
---
 ababe/stru/scaffold.py   | 10 +++++-----
 ababe/stru/scaffold2d.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 32e3a9d..350d2f1 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -224,9 +224,9 @@ class CStru(object):
             return tuple(coor)
 
         def p_gen():
-            for z in range(self.depth):
-                for x in range(self.width):
-                    for y in range(self.length):
+            for x in range(self.depth):
+                for y in range(self.width):
+                    for z in range(self.length):
                         yield(x, y, z)
 
         point = _pos2coor(pos)
@@ -238,8 +238,8 @@ class CStru(object):
         points = list(coor_map.values())
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
-        neighbors = itemgetter(*ind)(list(coor_map.keys()))
-        return set(neighbors)
+        keys = list(coor_map.keys())
+        return set(keys[i] for i in ind)
 
 
 class GeneralCell(object):
diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index 53270c7..74cf661 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -91,5 +91,5 @@ class CStru2d(object):
         points = list(coor_map.values())
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
-        neighbors = itemgetter(*ind)(list(coor_map.keys()))
-        return set(neighbors)
\ No newline at end of file
+        keys = list(coor_map.keys())
+        return set(keys[i] for i in ind)
\ No newline at end of file
-- 
2.43.0


From 01f7bc7df817f286771704d4c6ac79c0c2b3b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 04/29] fix: MCTS works on Python 3 (dict.iteritems is gone)

select() and get_move() raised AttributeError on every call.
---
 ababe/mlearn/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ababe/mlearn/mcts.py b/ababe/mlearn/mcts.py
index de30b0e..104d4c9 100644
--- a/ababe/mlearn/mcts.py
+++ b/ababe/mlearn/mcts.py
@@ -43,7 +43,7 @@ class TreeNode(object):
         Returns:
         A tuple of (action, next_node)
         """
-        return max(self._children.iteritems(), key=lambda act_node: act_node[1].get_value())
+        return max(self._children.items(), key=lambda act_node: act_node[1].get_value())
 
     def update(self, leaf_value, c_puct):
         """Update node values from leaf evaluation.
@@ -203,7 +203,7 @@ class MCTS(object):
 
         # chosen action is the *most visited child*, not the highest-value one
         # (they are the same as self._n_playout gets large).
-        return max(self._root._children.iteritems(), key=lambda act_node: act_node[1]._n_visits)[0]
+        return max(self._root._children.items(), key=lambda act_node: act_node[1]._n_visits)[0]
 
     def update_with_move(self, last_move):
         """Step forward in the tree, keeping everything we already know about the subtree, assuming
-- 
2.43.0


From ed8a4f0bcce0f65c50c67b8b48b4419b21f67c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 05/29] fix: SitesGrid2d.from_array calls the existing
 Specie.from_num

Specie.to_sp does not exist, every call raised AttributeError.
---
 ababe/stru/scaffold2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index 74cf661..0091c36 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -39,7 +39,7 @@ class SitesGrid2d(object):
 
     @classmethod
     def from_array(cls, arr):
-        mfunc = np.vectorize(lambda n: Specie.to_sp(n))
+        mfunc = np.vectorize(lambda n: Specie.from_num(n))
         sarr = mfunc(arr)
         return cls(sarr.tolist())
 
-- 
2.43.0


From 1c2ca1bbbb06233572b76f3c936fcb7c6bf9e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 06/29] fix: ModifiedCells with different numbers of sites are
 not equal

np.allclose broadcast a one-site cell against any other, and raised for
the other mismatched lengths.
---
 ababe/stru/scaffold.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 350d2f1..95a21e8 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -507,6 +507,8 @@ class ModifiedCell(MutableSequence):
 
     def __eq__(self, other):
         is_equ = False
+        if len(self) != len(other):
+            return is_equ
         if np.allclose(self._lattice, other._lattice):
             if np.allclose(self.positions, other.positions) and np.allclose(self.numbers, other.numbers):
                 is_equ = True
-- 
2.43.0


From ebefe9f20a0af00e7d20b2ee69c40616ed1a94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 07/29] fix: GeneralCell.numbers setter updates the cell used
 for symmetry

get_spacegroup, get_symmetry, is_primitive and spg_cell went on with the
old species.
---
 ababe/stru/scaffold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 95a21e8..3136fa3 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -302,6 +302,7 @@ class GeneralCell(object):
     @numbers.setter
     def numbers(self, arr_numbers):
         self._numbers = arr_numbers
+        self._spg_cell = (self._lattice, self._positions, self._numbers)
 
     @property
     def comment(self):
-- 
2.43.0


From 790239488000a9aa598b7ea7e59fde70eed65457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 08/29] fix: symmetry permutations match sites by distance

Sorting coordinates rounded to 3 decimals mixed up sites whose coordinate
lies on a rounding boundary (0.0625, ...), giving permutations that are no
symmetry operation.
---
 ababe/stru/scaffold.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 3136fa3..1cc8b98 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -351,13 +351,15 @@ class GeneralCell(object):
         Represented as a table.
         """
         sym_perm = []
-        numbers = [i for i in range(self.num_count)]
         sym_mat = spglib.get_symmetry(self._spg_cell, symprec=self.symprec)
         ops = [(r, t) for r, t in zip(sym_mat['rotations'],
                                       sym_mat['translations'])]
         for r, t in ops:
             pos_new = np.transpose(np.matmul(r, self._positions.T)) + t
-            perm = self._get_new_id_seq(pos_new, numbers)
+            # perm[k] is the site whose image lies (nearest) on site k
+            diff = pos_new[np.newaxis, :, :] - self._positions[:, np.newaxis, :]
+            cart = np.matmul(diff - np.rint(diff), self._lattice)
+            perm = np.argmin(np.sum(cart**2, axis=2), axis=1)
             sym_perm.append(perm)
 
         return sym_perm
-- 
2.43.0


From 152955b800465334e2c3851cb4cc3c72e20c2709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:34 +0000
Subject: [PATCH 09/29] fix: sphere query sees every periodic image

Only the 27 neighbouring translations were tried, so sites stored outside
the home cell and sites of skewed cells were taken for too far away.
---
 ababe/stru/scaffold.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 1cc8b98..47241bf 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -612,7 +612,12 @@ class ModifiedCell(MutableSequence):
         from itertools import product
 
         cart_cent = self.get_cartesian_from_frac(center)
-        trans = np.array([i for i in product([-1, 0, 1], repeat=3)])
+        # start from the image nearest to center in fractional coordinates,
+        # then try every translation that can come closer than r
+        pos = np.array(pos) - np.rint(np.array(pos) - np.array(center))
+        extent = np.linalg.norm(np.linalg.inv(self.lattice), axis=0)
+        n = np.ceil(max(r, 0) * extent + 0.5).astype(int)
+        trans = np.array([i for i in product(*[range(-k, k+1) for k in n])])
         allpos = pos + trans
         for p in allpos:
             cart_p = self.get_cartesian_from_frac(p)
-- 
2.43.0


From 3b9ede18f3033186fd38731d6c636954fcadd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:34 +0000
Subject: [PATCH 10/29] fix: MinDistanceRestriction sees every periodic image,
 and no atom

The 2x2x2 supercell misses the closest images in skewed cells or when
sites are stored outside the home cell; a cell without the target element
(which satisfies the restriction) raised ValueError.
---
 ababe/stru/restriction.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ababe/stru/restriction.py b/ababe/stru/restriction.py
index dddf731..05fe9f2 100644
--- a/ababe/stru/restriction.py
+++ b/ababe/stru/restriction.py
@@ -1,6 +1,6 @@
 # coding: utf-8
 # Distributed under the terms of the MIT License.
-from scipy.spatial.distance import pdist
+from itertools import product
 import numpy as np
 import re
 
@@ -31,18 +31,20 @@ class MinDistanceRestriction(Restriction):
         self.target_dist = tr[1]
 
     def is_satisfied(self, gcell):
-        scale = np.array([[2, 0, 0],
-                          [0, 2, 0],
-                          [0, 0, 2]])
-        super_gcell = gcell.supercell(scale)
-        target_cart = super_gcell.get_cartesian(ele=self.target_ele)
-        # target_cart is a np array of target element's
-        # cartesian coordinates
-        mindist = np.min(pdist(target_cart))
-        is_ok = mindist > self.target_dist
-        # import pdb
-        # pdb.set_trace()
-        return is_ok
+        pos = gcell.positions[gcell.numbers == self.target_ele.Z]
+        # every translation that can bring two sites within target_dist
+        extent = np.linalg.norm(np.linalg.inv(gcell.lattice), axis=0)
+        n = np.ceil(max(self.target_dist, 0) * extent + 0.5).astype(int)
+        trans = np.array([i for i in product(*[range(-k, k+1) for k in n])])
+        for i in range(len(pos)):
+            for j in range(i, len(pos)):
+                d = pos[j] - pos[i]
+                shifts = trans if i != j else trans[np.any(trans != 0, axis=1)]
+                cart = np.matmul(d - np.rint(d) + shifts, gcell.lattice)
+                if np.min(np.linalg.norm(cart, axis=1)) <= self.target_dist:
+                    return False
+
+        return True
 
 class SpaceGroupRestriction(Restriction):
     """
-- 
2.43.0


From e805bb503f4b3687d126baa1c53857870c90b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 11/29] fix: cartesian POSCARs carry cartesian coordinates

get_string(direct=False) labelled fractional coordinates as cartesian, and
the reader took the coordinates of a cartesian file for fractional ones.
---
 ababe/io/vasp.py | 19 ++++++++++++-------
 ababe/stru/io.py |  5 ++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index 1215c8c..171d22a 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -23,9 +23,9 @@ class VaspInput(object):
 
         comment = lines[0]
         zoom = float(lines[1])
-        lattice = np.around(np.array([[float(i) for i in line.split()]
-                                                     for line in lines[2:5]]),
-                                     decimals=4)
+        vectors = np.array([[float(i) for i in line.split()]
+                                                     for line in lines[2:5]])
+        lattice = np.around(vectors, decimals=4)
         if zoom < 0:
             # In vasp, a negative scale factor is treated as a volume. We need
             # to translate this to a proper lattice vector scaling.
@@ -41,9 +41,12 @@ class VaspInput(object):
             numbers += s * [nsymbols[i]]
         numbers = np.array(numbers)
 
-        positions = np.around(np.array([[float(i) for i in line.split()[0:3]]
-                                                     for line in lines[8:]]),
-                              decimals=4)
+        positions = np.array([[float(i) for i in line.split()[0:3]]
+                                                     for line in lines[8:]])
+        if lines[7].strip()[0] in 'CcKk':
+            # cartesian coordinates, in units of the scale factor
+            positions = np.matmul(positions, np.linalg.inv(vectors))
+        positions = np.around(positions, decimals=4)
 
         return lattice, positions, numbers
 
@@ -89,7 +92,9 @@ class VaspOutput(object):
         lines.append(" ".join([str(x) for x in ordered_atoms.keys()]))
         lines.append(" ".join([str(x) for x in ordered_atoms.values()]))
 
-        zipped_list = list(zip(self.numbers, self.positions,
+        positions = self.positions if direct \
+            else np.matmul(self.positions, self.lattice)
+        zipped_list = list(zip(self.numbers, positions,
                                self.atoms_name_list))
         sorted_position = sorted(zipped_list, key=itemgetter(0))
 
diff --git a/ababe/stru/io.py b/ababe/stru/io.py
index 02254f9..ac90849 100644
--- a/ababe/stru/io.py
+++ b/ababe/stru/io.py
@@ -7,6 +7,7 @@ from operator import itemgetter
 
 # import ruamel.yaml as yaml
 import yaml
+import numpy as np
 
 
 class YamlOutput(object):
@@ -98,7 +99,9 @@ class VaspPOSCAR(object):
         lines.append(" ".join([str(x) for x in ordered_atoms.keys()]))
         lines.append(" ".join([str(x) for x in ordered_atoms.values()]))
 
-        zipped_list = list(zip(self.numbers, self.positions,
+        positions = self.positions if direct \
+            else np.matmul(self.positions, self.lattice)
+        zipped_list = list(zip(self.numbers, positions,
                                self.atoms_name_list))
         sorted_position = sorted(zipped_list, key=itemgetter(0))
 
-- 
2.43.0


From 9da7ca9f04eaab21b64030b38db5e75c54bb237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 12/29] fix: file format follows the requested format, then the
 file name

write_file('x.yaml', fmt='vasp') wrote YAML, and a '.yaml' or 'POSCAR' in
a directory name decided the format of every file below it.
---
 ababe/io/io.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ababe/io/io.py b/ababe/io/io.py
index cc26c53..c9ec7b2 100644
--- a/ababe/io/io.py
+++ b/ababe/io/io.py
@@ -5,6 +5,7 @@ from ababe.stru.element import Specie
 from collections import Counter, OrderedDict
 from operator import itemgetter
 from fnmatch import fnmatch
+import os
 
 # import ruamel.yaml as yaml
 import yaml
@@ -14,15 +15,27 @@ class GeneralIO(object):
     def __init__(self, gcell):
         self.gcell = gcell
 
+    @staticmethod
+    def _get_format(fname, fmt):
+        """ The format asked for; if none is, the one the file name tells """
+        base = os.path.basename(fname)
+        fmt = "" if fmt is None else fmt.lower()
+        if fmt in ("yaml", "vasp"):
+            return fmt
+        elif fnmatch(base.lower(), "*.yaml*"):
+            return "yaml"
+        elif fnmatch(base.lower(), "*.vasp") or fnmatch(base, "*POSCAR*"):
+            return "vasp"
+
     def write_file(self, fname=None, fmt=None):
         from ababe.io.vasp import VaspOutput
         from ababe.io.yaml import YamlOutput
         fname = fname or ""
-        fmt = "" if fmt is None else fmt.lower()
+        fmt = self._get_format(fname, fmt)
 
-        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):
+        if fmt == "yaml":
             writer = YamlOutput(self.gcell)
-        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR*"):
+        elif fmt == "vasp":
             writer = VaspOutput(self.gcell)
 
         if fname:
@@ -35,11 +48,11 @@ class GeneralIO(object):
         from ababe.io.vasp import VaspInput
         from ababe.io.yaml import YamlInput
         fname = fname or ""
-        fmt = "" if fmt is None else fmt.lower()
+        fmt = cls._get_format(fname, fmt)
 
-        if fmt == "yaml" or fnmatch(fname.lower(), "*.yaml*"):
+        if fmt == "yaml":
             reader = YamlInput(fname)
-        elif fmt == "vasp" or fnmatch(fname.lower(), "*.vasp") or fnmatch(fname, "*POSCAR*"):
+        elif fmt == "vasp":
             reader = VaspInput(fname)
 
         return reader.get_cell()
-- 
2.43.0


From 8e12cca86c1ccc765e94e5a715fd3cafe0a5380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 13/29] fix: occupation apps import shutil

Replacing an existing output directory raised NameError.
---
 ababe/cmdline/apps/occupybiter.py  | 1 +
 ababe/cmdline/apps/occupymaker.py  | 1 +
 ababe/cmdline/apps/occupymakert.py | 1 +
 ababe/cmdline/apps/occupytenter.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 7759451..e8e3736 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -9,6 +9,7 @@ from ababe.stru.restriction import MinDistanceRestriction
 
 import numpy as np
 import os
+import shutil
 
 class App(AppModel):
 
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 67e67ba..be9b5a7 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -9,6 +9,7 @@ from ababe.stru.restriction import MinDistanceRestriction
 
 import numpy as np
 import os
+import shutil
 
 class App(AppModel):
 
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 48d3e3e..7e7e1fd 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -9,6 +9,7 @@ from ababe.stru.restriction import MinDistanceRestriction
 
 import numpy as np
 import os
+import shutil
 
 class App(AppModel):
 
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index d67e559..3f01522 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -9,6 +9,7 @@ from ababe.stru.restriction import MinDistanceRestriction
 
 import numpy as np
 import os
+import shutil
 
 class App(AppModel):
 
-- 
2.43.0


From ab33046e0c05abed9b2ae267ac05d0be03b303f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 14/29] fix: an output structure never overwrites another one
 of the run

The random four-character suffix of the file name can repeat.
---
 ababe/cmdline/apps/occupybiter.py  | 11 +++++++----
 ababe/cmdline/apps/occupymaker.py  | 11 +++++++----
 ababe/cmdline/apps/superlattice.py | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index e8e3736..66ba528 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -97,8 +97,11 @@ class App(AppModel):
                 if self.refined:
                     c = c.get_refined_pcell()
                 out = GeneralIO(c)
-                f_suffix = ''.join(random.choices(string.ascii_uppercase
-                                                 + string.digits, k=4))
-                ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
-                lastpath = os.path.join(out_dir, ofname)
+                while True:
+                    f_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                     + string.digits, k=4))
+                    ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
+                    lastpath = os.path.join(out_dir, ofname)
+                    if not os.path.exists(lastpath):
+                        break
                 out.write_file(lastpath)
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index be9b5a7..8feed4e 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -88,8 +88,11 @@ class App(AppModel):
                         c = c.get_refined_pcell()
                     out = GeneralIO(c)
 
-                    f_suffix = ''.join(random.choices(string.ascii_uppercase
-                                                      + string.digits, k=4))
-                    ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
-                    lastpath = os.path.join(out_dir, ofname)
+                    while True:
+                        f_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                          + string.digits, k=4))
+                        ofname = "STRUCTURE_{:}_{:}.{:}".format(c.comment, f_suffix, self.outmode)
+                        lastpath = os.path.join(out_dir, ofname)
+                        if not os.path.exists(lastpath):
+                            break
                     out.write_file(lastpath)
diff --git a/ababe/cmdline/apps/superlattice.py b/ababe/cmdline/apps/superlattice.py
index cc9000f..0a55c63 100644
--- a/ababe/cmdline/apps/superlattice.py
+++ b/ababe/cmdline/apps/superlattice.py
@@ -44,13 +44,16 @@ class App(AppModel):
             os.makedirs(suplat_dir)
 
         for hnf in self.hnfs:
-            rd_suffix = ''.join(random.choices(string.ascii_uppercase
-                                               + string.digits, k=4))
             sl_origin = hnf.to_general_cell()
             sl = sl_origin.get_shaped_cell()
 
             out = GeneralIO(sl)
 
-            ofname = "SUPLAT_{:}_{:}.{:}".format(self.v, rd_suffix, self.outmode)
-            lastpath = os.path.join(suplat_dir, ofname)
+            while True:
+                rd_suffix = ''.join(random.choices(string.ascii_uppercase
+                                                   + string.digits, k=4))
+                ofname = "SUPLAT_{:}_{:}.{:}".format(self.v, rd_suffix, self.outmode)
+                lastpath = os.path.join(suplat_dir, ofname)
+                if not os.path.exists(lastpath):
+                    break
             out.write_file(lastpath)
-- 
2.43.0


From 7e66e325df793a012eebd0f04012637d86b7fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 15/29] fix: every --dist-restrict option is applied

The option may be repeated, but only the first one was used.
---
 ababe/cmdline/apps/occupybiter.py  | 21 ++++++---------------
 ababe/cmdline/apps/occupymaker.py  | 16 +++++-----------
 ababe/cmdline/apps/occupymakert.py | 16 +++++-----------
 ababe/cmdline/apps/occupytenter.py | 21 ++++++---------------
 4 files changed, 22 insertions(+), 52 deletions(-)

diff --git a/ababe/cmdline/apps/occupybiter.py b/ababe/cmdline/apps/occupybiter.py
index 66ba528..368a7cb 100644
--- a/ababe/cmdline/apps/occupybiter.py
+++ b/ababe/cmdline/apps/occupybiter.py
@@ -48,10 +48,7 @@ class App(AppModel):
         else:
             self.n = nspeckle
         # if there no restriction given then no restriction
-        if trs != ():
-            self.tr = trs[0]
-        else:
-            self.tr = None
+        self.trs = trs
 
         self.refined = refined
         self.outmode = outmode
@@ -77,21 +74,15 @@ class App(AppModel):
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_of_ele(self.ele, self.n, self.speckle)
 
-        if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+        restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                        for ele, dist in self.trs]
 
         for n_count, c in enumerate(g):
             if self.mpr:
-                if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
-                else:
-                    condition = c.is_primitive()
+                condition = c.is_primitive() and \
+                    all(r.is_satisfied(c) for r in restrictions)
             else:
-                if self.tr is not None:
-                    condition = applied_restriction.is_satisfied(c)
-                else:
-                    condition = True
+                condition = all(r.is_satisfied(c) for r in restrictions)
 
             if condition:
                 if self.refined:
diff --git a/ababe/cmdline/apps/occupymaker.py b/ababe/cmdline/apps/occupymaker.py
index 8feed4e..78536f8 100644
--- a/ababe/cmdline/apps/occupymaker.py
+++ b/ababe/cmdline/apps/occupymaker.py
@@ -43,10 +43,7 @@ class App(AppModel):
         else:
             self.nmax = nspeckle
         # if there no restriction given then no restriction
-        if trs != ():
-            self.tr = trs[0]
-        else:
-            self.tr = None
+        self.trs = trs
 
         self.refined = refined
         self.outmode = outmode
@@ -71,17 +68,14 @@ class App(AppModel):
         ogg = OccupyGenerator(self.cell)
         gg = ogg.all_speckle_gen_of_ele(self.nmax, self.ele, self.speckle)
 
-        if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+        restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                        for ele, dist in self.trs]
 
         for i, outer_gen in enumerate(gg):
             # print("Processing: {0:3}s substitue {1:2d}...".format(speckle, i+1))
             for n_count, c in enumerate(outer_gen):
-                if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
-                else:
-                    condition = c.is_primitive()
+                condition = c.is_primitive() and \
+                    all(r.is_satisfied(c) for r in restrictions)
 
                 if condition:
                     if self.refined:
diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 7e7e1fd..29f3fb6 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -51,10 +51,7 @@ class App(AppModel):
         self.ele = Specie.from_num(tgt_ele)
 
         # if there no restriction given then no restriction
-        if trs != ():
-            self.tr = trs[0]
-        else:
-            self.tr = None
+        self.trs = trs
 
         self.refined = refined
         self.outmode = outmode
@@ -79,9 +76,8 @@ class App(AppModel):
 
         ogg = OccupyGenerator(self.cell)
 
-        if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+        restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                        for ele, dist in self.trs]
 
         # For diff outmode
         if self.outmode == 'vasp':
@@ -99,10 +95,8 @@ class App(AppModel):
                                                 Specie(self.s2), n2)
 
                 for n_count, c in enumerate(g):
-                    if self.tr is not None:
-                        condition = c.is_primitive() and applied_restriction.is_satisfied(c)
-                    else:
-                         condition = c.is_primitive()
+                    condition = c.is_primitive() and \
+                        all(r.is_satisfied(c) for r in restrictions)
 
                     if condition:
                         if self.refined:
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index 3f01522..6eeb4cc 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -51,10 +51,7 @@ class App(AppModel):
         self.ele = Specie.from_num(tgt_ele)
 
         # if there no restriction given then no restriction
-        if trs != ():
-            self.tr = trs[0]
-        else:
-            self.tr = None
+        self.trs = trs
 
         self.refined = refined
         self.outmode = outmode
@@ -84,9 +81,8 @@ class App(AppModel):
         g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), self.n1,
                                         Specie(self.s2), self.n2)
 
-        if self.tr is not None:
-            tr = (Specie(self.tr[0]), self.tr[1])
-            applied_restriction = MinDistanceRestriction(tr)
+        restrictions = [MinDistanceRestriction((Specie(ele), dist))
+                        for ele, dist in self.trs]
 
         # For diff outmode
         if self.outmode == 'vasp':
@@ -100,15 +96,10 @@ class App(AppModel):
 
         for n_count, c in enumerate(g):
             if self.mpr:
-                if self.tr is not None:
-                    condition = c.is_primitive() and applied_restriction.is_satisfied(c)
-                else:
-                    condition = c.is_primitive()
+                condition = c.is_primitive() and \
+                    all(r.is_satisfied(c) for r in restrictions)
             else:
-                if self.tr is not None:
-                    condition = applied_restriction.is_satisfied(c)
-                else:
-                    condition = True
+                condition = all(r.is_satisfied(c) for r in restrictions)
 
             if condition:
                 if self.refined:
-- 
2.43.0


From 471d4be74405103ca13ec3d94a63275f3cf1e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 16/29] fix: ocutenter and ocumakert substitute only the target
 element

The --element option was ignored: atoms of every element were replaced.
---
 ababe/cmdline/apps/occupymakert.py | 2 +-
 ababe/cmdline/apps/occupytenter.py | 2 +-
 ababe/stru/sogen.py                | 9 +++++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ababe/cmdline/apps/occupymakert.py b/ababe/cmdline/apps/occupymakert.py
index 29f3fb6..982a74f 100644
--- a/ababe/cmdline/apps/occupymakert.py
+++ b/ababe/cmdline/apps/occupymakert.py
@@ -92,7 +92,7 @@ class App(AppModel):
         for n1 in range(1, self.n - 1):
             for n2 in range(1, self.n - n1):
                 g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), n1,
-                                                Specie(self.s2), n2)
+                                                Specie(self.s2), n2, self.ele)
 
                 for n_count, c in enumerate(g):
                     condition = c.is_primitive() and \
diff --git a/ababe/cmdline/apps/occupytenter.py b/ababe/cmdline/apps/occupytenter.py
index 6eeb4cc..8d3cf07 100644
--- a/ababe/cmdline/apps/occupytenter.py
+++ b/ababe/cmdline/apps/occupytenter.py
@@ -79,7 +79,7 @@ class App(AppModel):
 
         ogg = OccupyGenerator(self.cell)
         g = ogg.gen_nodup_trinary_alloy(Specie(self.s1), self.n1,
-                                        Specie(self.s2), self.n2)
+                                        Specie(self.s2), self.n2, self.ele)
 
         restrictions = [MinDistanceRestriction((Specie(ele), dist))
                         for ele, dist in self.trs]
diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index ed64ca2..dd9d25e 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -108,12 +108,13 @@ class OccupyGenerator(object):
         dup = self.gen_dup_of_ele(ele, n, sp)
         return self.gen_2nodup_gen(dup)
 
-    def _gen_dup_trinary_alloy(self, sp1, n1, sp2, n2):
+    def _gen_dup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
         init_numbers = self.init_cell.numbers
         isp1 = sp1.Z
         isp2 = sp2.Z
 
-        sp_ind_origin = [i for i, s in enumerate(init_numbers)]
+        sp_ind_origin = [i for i, s in enumerate(init_numbers)
+                         if ele is None or s == ele.Z]
         for sp1_comb_index in combinations(sp_ind_origin, n1):
             sp_ind_bin = [x for x in sp_ind_origin if x not in sp1_comb_index]
             for sp2_comb_index in combinations(sp_ind_bin, n2):
@@ -126,8 +127,8 @@ class OccupyGenerator(object):
                 yield GeneralCell(self.lattice, self.positions, numbers)
                 # pdb.set_trace()
 
-    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2):
-        dup = self._gen_dup_trinary_alloy(sp1, n1, sp2, n2)
+    def gen_nodup_trinary_alloy(self, sp1, n1, sp2, n2, ele=None):
+        dup = self._gen_dup_trinary_alloy(sp1, n1, sp2, n2, ele)
         return self.gen_2nodup_gen(dup)
 
     def gen_add_one_speckle_unitary(self, gen, sp):
-- 
2.43.0


From 276ed96d0f38e69f4d1a842bb2f43b89901f9a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 17/29] fix: C60 permutation table matches the shipped
 positions

The table is the 120-element Ih group, but in a vertex numbering other
than that of Structure's positions: none of its permutations except the
identity was a symmetry of the molecule. Regenerated from the geometry.
---
 ababe/stru/bucky_permu_table.npy | Bin 57680 -> 57680 bytes
 1 file changed, 0 insertions(+), 0 deletions(-)

diff --git a/ababe/stru/bucky_permu_table.npy b/ababe/stru/bucky_permu_table.npy
index 796d216e99e78d504920ddb71928796f6dd1cec4..09e22c3940d8a726bac1d83df0c08ec76306f383 100644
GIT binary patch
literal 57680
zcmZA3NpqA18-?Kx^E}Tuv><i@QIdc$fNOSIZd|ysQW8t6EU^-ImcPP3EEdn@;&#&?
zh~#~r>zvcyKi_`;&38YnEnYAFTD>_q`sr}>a=H5Y*S*!|a`p4u!#@xAfB*6A;hTg1
ze*g9UZ$}63e*fr~{XY)g{d#?SXKQo0yS1^o{CoNSpL2`(XKg-@&FAs?JTadq=kwHj
zo}SM$^LchY{e|b}*B9pV;(T73&&%_9Wj?RY=e7B~KA$({^X7csn$O$wd1pTF&gZ@P
zyg#2G%;$&m`O$oSJfF+?{A4~K%;&@T{B%Aa&F5$Hxth=Q`P`V#$MgAQJ~!v{^ZEQ@
zKA+C#)_iWy=gxdSo6qO-`Q?1>&gWP2xi_CL=JVxzzM4-TeCt{7de*z1^{!{V>sjx5
z)|)Hmde)okat=|?de^hw^{jV2>s`-!*R$UB<;q!ax#}%<z2&O6-1U~L-g4Jlu6oN|
zZ@KC%cfIARx7@jM)?2Q6%bhD{z2&O6-1U~L-g4Jlu6oN|Z@KC%cfIARx7_uXtKM?g
zTh8^ZXT9rL?|Rm|p7pM0z3W+TuAJ*xZ?2r{S?_w*yPox~XT9rL?|Rm|zIv*Uddy7^
z^-UhQ>zO|3IXAs^Z~5V_SNdWHxaqC?%NKV&)ED{EFT21=&)r>~^hy5YKri)4ez@v2
z2l<mLz0@~(;;Pr2<V%k9QXl0<PV}0qe8@q4>sjx5*1Mkdu4ldLS?_w*n=9vf)|)Hm
zde*z1^{!{V>sjx5*1MkduCE^ID=&T4GkxSO7kZ>`y!73j^_RCC>4|>vvIp+2zr5v4
zPxMi~^ox&uaBqE=Cw<~ChkB%+Jmtv!^;@3gP|x&}r(E&TZ~2ikJ=9P6kRzV@&0kLH
zThDsev)=WrcRlM}&wAIh-ds7?v))`e*R$UBtam-@UC(;gv)=WrcYWR0op`ycJ9$su
z+}y=`=(RiQsXNG%9LTx%up3<T)E(@M9O#+%lu!A$BV6o)JIkv+*eN;EQ+KmNa$pzS
z-Hyqzp6Zhwk^?)!)sD%jUhAiwl1sax-*(1c)VH4Xu4ldLS?_w*yPox~XT7;{u4lcu
za;|5+>sjx5*1Mkdu4ldLS?~Jlp}z9cXFbzL-g2Qw`o>G&-C2Km%aNYw7cYC@?)uAH
z&h$hd<x9W#*a!F4cX`q${&J{C`pHv{++V-tNe=Z)KY7X(AN`geInzV^ln*)Lso(tN
zq`vj6cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;gv)=WrcRlM}&wAI_ecahSxp_bL
z;>F$byN~<nxA)gq{&MB{<(-H9@c#PB-`;pXeUnf5=V4FW*FMOrKFE)~axZ=5Z;#yD
zKFF^<(<6Q5Z;yD|6Zy1fda2*?Xs`6ze%J|nQ{Q^lyPox~XT9rL?|Rm|p7rL+xt{gr
z%DJBPu4ldLS?_w*yPox~XT9soj}veG<ikPF_1pd3Sw8fWw|m<G{dRA6lpp=%?f!N`
zzxlbNop5(~(ntBwFT3E*c0}KKy0iS~uRQ3R9kCBQImna#%7Z@I346ekn;p=1dC*rq
z*XR1yv)=WrcRlM}&wAIh-u0|ESI+gUH&@Q}tam-@UC(;gv)=WrcRlM}Up>$#z0prO
zb}zluZ#i`zJ>f3r9QD{<$f-N%m0Za=M?IEHIp$zz+(obCOi$#-?zod3kaIoYsK;`w
zH*#Z#^uWD2>aiT_r5wtq9`KY4d6aW`kURO3)B4u4-u0|^J?mZ1de^hw^{h8n&h@M}
zSI+gUcRlM}&wAIh-u0|^J?mXxew=vgCm#-auHWwO&hnw3yxrRl=(l^jqx|S6Z}+zo
z`pwTB?S#9_lRnCae%S?gwj=t^)1Bo<f8{~n?1+8f$w8j<S041yPS^vU-0Xn9%Y(k^
zxjxsop7pM0z3W-;de*z1^{!{VxpJ;&y}5F(XT9rL?|Rm|p7pM0z3W-;`nrSn(<}LN
zf6u8m^6kFvpx5%p-*f7v{PS}syCI+Q<vr|z{L7C!=_yCM)I7U`9?OB9(I<K3V#oAF
zAKcx}=(D`ag`Lw!ec@_{?1enbot?7>`XX2IEw}ZpXT9rL?|Rm|p7pM0z3W+TuAJ=?
z&w6v^T+e#fv)=WrcRlM}&wAIh-u3nTp2NMoujlu3c(|YE^K*E}uY1a)Jm|0Y^<46x
zKYZj>-t^bK<<+jZgS_dR{OFIJa#wk`AH4NL{_TOh>7O06U%d5CKjcl`_1{j~JNeUp
zJ8944*}m98dsg3i*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA^{!{V>sjx5*1Mkdu4ldL
z>-qc~@9#OhpTEbwyr<{)96UUS`}?{4+|ga-RUW)2e|eN2cjPF~{PjmZ<zF7<UEcIn
zzPZ~OebWbhv}5`w|8iz$^xaO{13RhzcF>;LG5cdj?UkLhM|RTQ)wiDYu4ldLS?_w*
zyPox~XT7;{u4lcua;|5+>sjx5*1Mkdu4ldLS?~IKe$U}v-q-W{IXv9Y^Z7YE<kvmr
zQ6BWy`+6>U&>ueXDsTGh-tuZ!+(F*-O@8#pPPwbR+YjFQA^-M3-t^B7+ArSvryur1
z-u2&3+B^Bve>-W<<k`O1L3>u;de*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0z3W-;
zde*z1^{!{V>+5;_T=(#Ey|2I5eY}_V@mzfTTpoTdFL!fa`IHauB@gl_FYd-uetGMQ
zyy}B|%D;T+r#$nvEBd7m`f0cHQQqatuIRU&v=4UC9@s_uX1DB(UA13!(LUKt`&Zw3
z*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA^{!{V>sjx5*1Mkdu4ldL%fnrHxC?K0b#Hg#
z%}pNML4Mqghr8%K7kP09yW(#0;4XHB6Ayb}XWYduxug5H|L$gY^v~|Nqn*+(IpJb=
z^xy92mz~l-z1LqmV;}5_{@Nw|w=4FczV)nkJ?mZ1de^hw^{jV2>&=yOJ?qVtb3N?<
z?|Rm|p7pM0z3W-;de*zX{(FDU^Z2=P<iGR2-b;?;#htu|9D6Pv?kvah$Hg7p)qBeW
zH$9SXdC&(t!A<Wu$e;entDNb*{@E=#voms{4{~lN^xrPZxt)_sebY0$WuNS<p4mnF
zXJ_qced}58de*z1^{!{V>sjx5)|)Hmde)mO=X%z=p7pM0z3W-;de*z1^{y`ucje(O
zyxrBk-HA6hd2k2$aW@|BqW4_n#U1R5yUByQ*cDDZ?17ze7rW$+?%)2qo88eryW@^_
zO26cUi`~(GyQ5!rO8@j;f9;HYuq*m&m-OGR*oXSov)=WrcRlM}&wAIh-u0|ESI+gU
zH&@Q}v;(~BS?_w*yPox~XT9rL@A~@tJ*PkKy*!V*_<5e&`?{mQ-`zbAC%NoBxyl`P
z?<*&A%g;UKN^j&quH{e<<d&P<>6LxqFZX(8zw}a1^xD42n_lR-eY6Yq)6Up0yJjEl
zj(xOS_SMeW%lg){-u0|^J?pI>JnLQ0de^hwTshaX-ds7?v)=WrcRlM}&wAIh-u0|^
zedSDEy{CT2k-WN_{>hO%dLRAseEP#v|K&`6-BbTPzrOLbFWyIg<V~L4-+s8KJ&<4h
zkSBZQp86{v_KcVPkY~N&rN8oK@8m_^^+V6(MGoa(&*V|A<zJ8LThDsev)=WrcRlM}
z&wAIh-ds7?v))`e*R$UBtam-@UC(;gv)=WrcYWnZ9_2{h<wTz4RQ}~mUgb#t<VfH2
zKp#E7`^u^QdtQCl1AE~8c<Qmcx|cn2ANylBIP$hv?k|V@>>V#TmoIz9Uk>F*ujECK
z<X?~EQO@OC59L>n^h3|;ThDsev)=WrcRlM}&wAIh-ds7?v))`e*R$UBtam-@UC(;g
zv)=WrcYWndUcIM&$dSCdoBqj>JbEAf^L+ZlQ~%{me%(|5J-@#3v@hOAf8<S`-QRw=
zr#+Bg{g5Yn=AQa1ANGuw{g7w9;ibRwX7A+1e(8sv$%`Dyzn;mXT+6>6)wiDYu4ldL
zS?_w*yPox~XT7;{u4lcua;|5+>sjx5*1Mkdu4ldLS?~JFjr_@#e9MLW%B?=gm3+#T
zzR8h(>4koJA9t2pefPZjtrzye`*PK5cXl89;~w_Lj&S8{zj(+cFMG#F?&Zq9$%9<V
zi(bixUdg-O$fw-Pv);+8Ug?8g)wiDYu4ldLS?_w*yPox~XT7;{u4lcua;|5+>sjx5
z*1Mkdu4ldLS?~Jlg?`Dk{^^DO>Vbago&L(P{>#06kbC{(AvbbtALL#R<zD~!$fe%N
zkzC869>}ep$&Fsf2QRtR3%TSW$9mVi$gTU!B`-PVDHrl2r#$6OUgTC@<gUK;tam-@
zUC(;gv)=WrcRlOPm2*Ao&6RUK>s`-!>p#zW*R$UBtam-@U0*qn7rBx@Iq-AjR=)jx
zevTZvmt1*IJ<>nV>pk^=kKDSm-s!)4xU=57qu$ApyUT^0;btf76EC^26LKvda%iXQ
zpS;MKozfe5)B`(dPvu$e?WA7ni(cuUp4PXX^{!{V>sjx5*1Mkdu4lcua;|5+xpJ;&
zz3W-;de*z1^{!{V>sjym>V<yEwf^aa{_25#>7D+{vHr`weUN+o;~_V4Y#-!a4&`3|
z`N*Z-$&p;kp&rPsp2>|~$OkXE)eE`gA;)^xyvVKl%Ox*4<|!BQB&R&(PG00zUgWO6
z^{jV2>s`-!*R$UBtam-@&6RUK>&=yOJ?mZ1dh0*Wde^hw^{jV2>s?>}y+0>6{+#FY
z9C9Nc-rsx5t><tz?<KeL#>d_D#(Q#dSG|#E`QWGra-rw$ZZ|mUogC^pANiF#yCN5M
zOz!N0zUznF+ci0~lX7pT?2-QIogK7yc31E0tUax7J?mZ1de^hw^{jV2>s`-!bLCvm
zdUNGm&wAIh-u0|^J?mZ1de^hw_3f|w=ll2d=k<B|ynUa(Z|~82^`5<VJveczXT9Y>
zE}EC-sd;N2o7d*Kd2b)um-eZBYaiR!`qs1F^{jV2>s`-!*R$UBtT$KA^{h8n&h@N!
zJ?mZ1de^hw^{jV2>s?>(<sP2L-F;84&tbf;yZRp7nt$(kxIdWR_kH3X+;->R@6D&@
zm8-||`<wIW9&)oYzyEwbefYlhzH+>rKj8bR{_ZcQ&*snjeso_wcryRq_aA>b_5T}Q
z%%9_@ClBZMAI+zH$??<q{q6abA3a&k?{Cbfyvlif>sjx5*1Mkdu4ldLS?_w*o9n#p
zVmbeVXT4v|zvo=fde^hw^{jV2>s`-!*R$UB?XUai`}g(d^?CZdeV@K>@6mhpp1pTH
zIB~0Iy@z)p7tKra)Vwv1&1>`AytfbSOZ(KmwU6y<ed}58de*z1^{!{V>sjx5)|)Hm
zde)mO=X%z=p7pM0z3W-;de*z1^{%h)UBB;p*MH}G*Wc@V*U$C6>$!aIdT!sl-plu{
z_x8Q(F1~l&&G)Xm`rdVS-@9Bmar3>))lPGl1G(_MD>uG(<;wT2-1**>OW(V4>w8zO
zeecS>?_Is{y{k9AclFBmuHO0H)l1*IdRyOm*1Mkdu4ldLS?_w*yPoyt%DJBP=E}LA
z^{!{V>sjx5*1Mkdu4ldL+h6z3_wVb^>+|$^`#yc&-lO;GJ$vtZaN<_addq=aG%w9l
z^VU2zug!Dw-afQ1?Nj^KKDMv*t!KUKS?_w*yPox~XT9rLZ?2r{S#PeK>sjx5*1Mkd
zu4ldLS?_w*yS~1Md_Vb~^Zn<0#rKWxQQxn=H+-M?9`ya_d&~Ek?{VMnzBhcI_#XEC
z?0d`ineTbu|Gt-eU-|zLzJKahfA^4c_jOl!mScY0<W)}H-`({^Pvl2#<W)}jbJrI=
zkuSN@2R)EyIj(O#>s`-!*R$UBtam-@UC(-R<y_BtbLCvmde^hw^{jV2>s`-!*R$UB
z?XUai`}g(d^?CZdeV@K>@6mhpp1pTHIB~0Iz2!hInwRFOd21e<*XFr-Zy(y1_Njeq
zAKTaZ*0bLAtam-@UC(;gv)=WrH&@Q}tT$KA^{jV2>s`-!*R$UBtam-@U0?sbKX+^K
z{vUtN^LdU-^Y8D?r}y`s*XH*<hr4;NQ}gdH&nF*uKR3VcJvq7SvHAD6=Tkm7o}S;A
ziwpB>cfT>e=6HO5Er;{V#r63g@+)^I=J(~|&iq>L*5=pe=TkrA{>=Qo9A24U%l*mu
z^~L$rKfOCUzkhQ+@6V^+U7cUwozME#v)=WrcRlM}&wAIh-u0|ESI+gUH&@Q}oHPCJ
zUC(;gv)=WrcRlM}&wAHaPxMVMmh)nAuYY={zj~lwa&HghT>sr&F63VS<X-ON+&*xS
zJGs|?dC@mLkXyNzQ~A&@9&)J{a^v1|tS53S4|1t@a>PT9dC0B2$RTgJkq5cuEtm2m
zhxM&zz3W-;de*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|p7pM0z3W-;de*zX+~tG2pCecD
z=fC%J<W|1r%6rPGJ9-}PsYm)Jx9+Sb+`O+l>!tp?m%i(fT<E2o@v$#F<id{FCpnNq
zJ0kb;AV+r0{>hyl*fG75SGiu!1KC%7&>K6dr~0Os^{r>U>sjx5*1Mkdu4ldLS#PeK
z>sfEEoa<Tdde*z1^{!{V>sjx5*1NuXqHlVkzjCjCdZ)j7pkH!t59D0`-CZu^UjO7?
z?&RD)aF9E>*ME7@H$9MBxtCM<&@UcxsTXqN-g2xbaw`vVsdsY3LymdKt-Qz~Z@G~N
zx#caF@*{`!t!KUKS?_w*yPox~XT9rLZ?2r{S#PeK>sjx5*1Mkdu4ldLS?_w*yS{QG
ze{v<?av{HRs}FJ|pK_&da-?5+p`YHzo#j^FJ+FT2g?;e8T=m+W-N*j8hrO{QTshk>
z9&*Xc-tm!pxw3EaAeZu@SMs4(@~$`XDfjZMck-%N`k+_!t!KUKS?_w*yPox~XT9rL
zZ?2r{S#PeK>sjx5*1Mkdu4ldLS?_w*yS{QIpK>CP-d{iDMBdy}|2&_5cwhaKEBWQE
z|DIpp+*|)Wzy9#HFLEu1?r9JB*cUyKYxmM$d9!ak?1%i=J0AKg?|LK;_DkOEp*+Z&
ze(0IJ$*=tDnY`;wed}58de*z1^{!{V>sjx5)|)Hmde)mO=X%z=p7pM0z3W-;de*z1
z^{%hn$e$d@tDMQZ9Lb{`>xbOvlbq?F=XX~<(O1u>&vLB)-jAc6*bDd7Z|`qk+{+&E
zv?uN_hurNM4>{*&|M<(HoY^~h&?EWLGkKJA`PU=))Fb)ULw(Sz`qs1F^{jV2>s`-!
z*R$UBtT$KA^{h8n&h@N!J?mZ1de^hw^{jV2>s?>Dl2192NAIs6aw2c;sehhNKfJI0
z$(8)_)_>2hZ|<%Co?m}>+ZVZ(L-(`?eC&&!$hCXvue{ke9`-|i>>UsNm3KXo2m2*&
z_D~+=O+WNZ-sD&Q^-SLNroQ#8cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;gv)=Wr
zcRlM}&wAHa4&_O1<wNe}OD^S059C*`<VO$X%N;$pUh0Qldrmtbzudf+UC<Br)Mq>6
zE_TTs`PmP7b9cKX2lC9x?s1hj?siS?^hHkeORnTu4)sYd^hIv<QSS9iPwHFGde^hw
z^{jV2>s`-!*R$SSIoGq^TshaX-u0|^J?mZ1de^hw^{jV&-QOK~x*IQd;mL)EJIaf@
z$csDZz5DZWH#_1k^5hP7g@?Sjn_b{!cihR&xQiX&Vt4dUUfk6V>6hJcSG%MC^25yz
z>7U)vH#=h=^j?4Mj{e&f{k0?ZpuY92cRlM}&wAIh-u0|^J?qVtb3N<Lm2*AoUC(;g
zv)=WrcRlM}&wAI_-{-%R6MxS0dM-JU5BKoia_Z;0pZAbc`QybwPrMf|chnR4mKSb%
zAt!q6&US*E9?GR&>z_Q!nH`Y_yCr9KLjUze&h41|*+n_GTlPu+^vo{WKf9}EcGtev
zx1RN`XT9rL?|Rm|p7pM0y}5F(XT7;{u4ldLS?_w*yPox~XT9rL@A|sGJMwflUhcw^
z3lDdc7k7~tchGzH=jCp8#9idc9qbAZd2u(pz{&2olbvxFJHW;6=%2i}s~yrWyW_5Q
zNB`xAn;p_WyQ6P*#y;r1{@NY=w=4Q<N9;j;>sjx5*1Mkdu4ldLS?_w*n=9vf)|)Hm
zde*z1^{!{V>sjx5*1MkduCM3ybKS$w^}haI_wiod$8+)Vb9wl=yxh%w<x@VqmpsU$
zyto@r`Q@!I@~RK=DgW}NpYqJxuIQIO=%?M%M|qboyQ1HA(mvQldtevso87WEcGZ5_
zMf+qo?O%QCS?_w*yPox~XT9rL?|RmoE9ZLFn=9vf*1Mkdu4ldLS?_w*yPox~ulMm>
zp5M=LPj~Qqehx2pbx(QY)%<!6dC_0@mq&SNf8<jh_1F8_6Zy~&dDA!dvrjzrL;kxT
z`X~SPfT#Z1#qO8>>xX@jGyS)t_E2u^iygIhcG14ox1RN`XT9rL?|RBF?|Rm|p8CU^
zE9ZLFn=9vf*1MkegLggaT~GVPyPox~XT9s|dHr1P=kIYJ&*Aw!hkJQX_xE#nc@FoK
zM}F?eU;gC9d-9W4`Ef@*;VzHzF2DMrmvUxD^hv(?+bJIUp|5sCpXFcP?4Uf@O?zRd
z?2Db0e>-T8?5up-P5W2hde*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0z3W-;de*z1
z^{!{V>+5|ym*@9$+|wOApP$3aUENdOcs0MCLtgaP{pC?!+8_CpNB#A__C!APL*Dew
z{p=G@{gD6ehyKaGJ>aQ-cCq`V|N3EH<V^qVs6CWh`(j7!on5qV^{r>U>sjx5*1Mka
z%e$WSuBZO+=E}LA_2$aCp7pM${oq~Cde_r_@vdjR>sjymdS7?&yxzlo-QDwePJUe7
z!=2opi|6s2@*`L7;ZFSJ!uz^|e94{nlUr^axyyl^+b_M*7dvI2^im(?(*Ed`KG{M0
zXBX^&T-qPb`fLa7pB&i>J7?eQlzpmiJ?mZ1de^hw^{jV2>s`-!bLCvmdUNGm&wAIh
z-u0|^J?mZ1de^hw_2tQp4+sAG>HhAl_xjD#o#jJ6-P;}QgnsjMclpszKJI8o^xOUI
z2Y>yMCw+8pd%??{?To(j)+agAUtS#SjQ!xPZ*rx-yg1nrd%;^j?Swthd;P9&J?mZ1
zde^hw^{jV2>s`-!bLCvmdUNGm&wAIh-u0|^J?mZ1de^hw^_6@5kyCfl8~v0+chO7z
zmSc{3A{TP#4tj1s<d~!0$(@{X&~rI;AN!*xa-(;0=w9|n?m5~CIoBJx(Q`R=UygQ4
z5A;&b^jwa4ahFp);4N2jDd+Mem-Ve@z3W-;de*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|
zp7pM0z3W-;de*zXJh}1Vz+XSz-<|bdzj?Z|eCVfpyQ7`ZZ=UWhKl;hX9qovIyTAS5
zuRrpnkM3<Rc)7Ek(RbeZBuDzoi-Vo9AH4NVuJo4|Cp%&<c<ZN~um^gt-}S9$z3W-;
zde*z1^{!{V>sfEEoa<R{uAJ*x?|Rm|p7pM0z3W-;de*zXdL#etBd>a?Kkgxqdaa-Q
z<XIl{#rw;n-OzV_@+@!q=l=34pZe}T_D5dyMgH{9z3dS``Im2dAuswPzxvM4o#o$N
z$(Mf0ufFr<Cjas(Pu%5OKIKua>RZox*R$UBtam-@UC(;gv))`e*R$SSIoGq^^{jV2
z>s`-!*R$UBtap9&PCxZX-+1b`p6HW2$cg*vFHd`*2l^uqa^&9n%hO)yfj-KEoavEV
zxwpRavmbgRM|z^4@*#)ruiw1oNsshXp5%~^e)E<uz0*(mku!e!Egy2kTQ2Hb&wAIh
z-u0|^J?mZ1de^hwTshaX-ds7?v)=WrcRlM}&wAIh-u0|^ecjvL+{b(Jba(gg9`e9d
z58Xkp-C2&khkVI_9=e0w;G##~)9%QDoXe%&yQ3Z9BKLBthwfy@<Vf$`)lSKQ9_o*s
zlVdx=%}&XIUhAiwlUKW;-*!ws?T-DZZ$0Z>&wAIh-u0|^J?mZ1dUNGm&w6v^T+e#f
zv)=WrcRlM}&wAIh-u2Zx{nR6U<Eh_zqEGT5C+@4iJnexV=#M<ek$dYePkW&U`X~=_
zrblw+-ulkZe&~%H>4|>Iha9@Ue)E<mJ<?Bkl0!cF&0D_oPCw;G&iLuKe8>@Rxu|bF
z>s`-!*R$UBtam-@UC(-R<y_BtbLCvmde^hw^{jV2>s`-!*R$UB<;B(gIq9VwxGx92
z)_?cqs+V%&e(tW<_QJin>ZKgHA1A%GC+=@Q^hOT!P_EqDUbrteJ-0V{#9eRY$^E(6
z4SS<!-1Szz_;9lm_Czna+W~u_*ZN=Ide*z1^{!{V>sjx5*1Mkd=E}LA_2$aCp7pM0
zz3W-;de*z1^{!{V>#Mh%^_HvNa@Sj~ddppJx#}%<z2&O6-1U~L-g4Jlu6oOzD`&ms
zs<+&^a@Jd}ddppJx#}%<z2&O6-1U~L-g4Jlu6oN|Z@KC%cfI9Y-+I=&p7pM0z3W-;
jde*z1_2$aCp7rL+xt{f|XT9rL?|Rm|p7pM0z3clgkaAO0

literal 57680
zcmeI2OOIVw5rsQW?2co{ArHrK!s9w2v^%sD+wm(lV`d-*FkpltVgwU{92g;f1%H?z
z*Ox&_rS%Ptbha#KvW2-i_v~7$)>>7!|NGlN{N{ImeC6oZNB=(g=IM8Tes=QsaPq6a
zJvuo%oc!h6Xa9Wm_22*W?Xz#5{{P>9|Lk8+zyIg&{`&Plo__y7Z{E3k`|R-G_UYN-
zKZpA7jidVS{W|Z~c~<9@IzO-Tah<=YlLx$0|NCK`pVfJ(&e!U^QRmO={HV^i>U_J-
z59)lq&Y#tJtIm(>yjbVEb>6A-QJp`j^L(9G>-=e*r*)pxd8qSVoww`!ah-40`C*+m
z>-?(DPwIT7&I@&3uJf05ep%<WI?vVlYMs~Xd{XEAI^V1Fi#mT)=W(5%*7=~${`~1Z
zc+Yg7{`~1ZruXjmoAB(ocV0~V={%eG*m0cjp7_yulz0a}Q=b)VN4>A6{_8xO@Pn_@
zJ*fx0nQ#UFiNBp+Q(t%dEN-?gy`MW?;A(lA^as9zU&6WT68z{qn)I{t8vUJkLfsPn
z@FeLOJWKiw&bBV-^i&V(cBltVxPrgsbJAsa4bF)V=ycb+&Np<Q=TGlJ-=+KX=TGmk
zweDK~Kxg3D#7FuQ94EYczrc^qqtuV^)9TQae|rC2;lXuI?~(Y<efsmK_vrdC=?MLq
z`q=V5@f|*<z6I}zADu_&QPQo{XY^yrRrsU5ujTWUTRT5`{+;mQKIz_5e&n9iW6HrD
zr^m(jiJ$Oznm1@0`o-oyn}^bTLjO#9(sjr3Ak7{0g{|LN6)Ne>#roXD6ZmBL0v{4@
zZrArF-cav^3v*%8Ez1L|_nqI<eUkp5Q%P^RU+;sdUu^z6)C1w!#K)8~$Rkr;={!oj
zgP-_Z*SoHZ_v;?`$<%+J)aMc(EDus{!Iy0PzO47VR%fpp^|f<UJ?04AocO{#ka&~w
z7rth5XUfg+#PYy?ZsPf&3PwNdrMnY<JI`0w-HE@Q=e93Xe^a02L(~nvCSG^FnRxbb
z@dy2azn$l{E=i}T+vGppr!1c*o#=XEbJ#R*bf33#<6e5YwJ#*z!OyMrwBtD8ZGFM^
zN6K^X!M<PeE8f5N!PGBX=e4Q-yG~4c((8Jt!r)JnkJ<hpPjo%*`egmc>aOKIdY*JY
z<t6TC^_1L}@?Dx|(c6yWg!iq&xAUX($mTz*yLN80_nq$7>yUU1-|gIJ^(D>6)Fb&g
zI3<3<<Gw$c`o-!Hb77hvdp}Qo-+4CivF|&ky~yM%Me`r#k`L-1(tXn2ihEwK=Oy2q
z^b_8}Pxe#v^VA17>U;6AiH|ntO#J9Pvi$*H6R)?f^Im+}y3Tv?#rjdg75r^~?1h`<
zpY4ymaI^fI@@UVkFY$dYuwDON6nvRi(p-ZtrF&ann0%`Hnaxc$|E->zY`@w0gS}JI
zEvxq@l{b1`>AWC+rh40Z*g4A1A5)&{xvS3)6VImH+VicQqb%?3eN%s<16}_opRn^n
zniI(1MXMk3`IO_Q`gfcXKjHD#dy9_u#EaAy^pE9z+8fZ{_P*>dQh!=L+dU>cOne2u
zgmaq5$fbQ>PHydbY<W7(r#;`=+-dJI@vZan?Yc;sgKeJtw4Rsvby}ZG`1LwX^?bjc
zH|a(F-$#~z^hxTcG?(KeXY~R}&pSR7j_=m<QhoUT^qy&NKpsP<lb%~X+x@Q1oz}N*
zR{fHH9oOd)uPt8=^}KYSK4(nt!S8U%A8bCbx;yn@=Og}=e9rnz;vM`<eMUb{`rdtD
z%0HcNwtlPgz}9bd9(3RCxPrgE@9Mg1{bP0Awf<q}+H<A5>A6Yg(c#r|nDwL8bC{ja
z?fgNGNqNWSgX#CI&bLW-x<1()o8}^XDCJjpVtLP;l=yFT()!>_e4h(g?}rx!U#sKr
zHQhVSmFS+$r)mE|eoZ-?yl(S&$9wAgzV|v`e%Jf(R{cA<r|S<oW&6$MCiG}}f9{#)
zBJ|?r?+ed?yij=JSIj?YPMUD<{II;YdnDd7&E0$Xs?7&Uf6%GDd^PnM{b+SE@d@79
z{9^087hk$=PWo!=ycb`rp4xk?uDkZWcE6T%3Vy=>)F)PV)4q({LheX9ZSQOI3;LFL
zZS{rwq<g1(QV*M7R?lH&@A3Cgt5=Wff#fZGp!Yxf(Uk8jpY6V>|NX$kAFD$T>%O1W
zIpLjt|03V?xqiwicAl~NV*A6s-*MF=<&)F;+=K&oP5#(<ndT1iC-qLaSiQ3Qd)ps(
zt1hWeUaQZgypwbf{8z`#@^5wAEdM4w>AEw`<GpX_r_^_rr-`5NcxxTE`nS4{v#&{f
zy;^;q@UuFU{2Bc1?{8LLEN-?g$#>}!%TwzgHYcXMPOd)`z6obrztwqQ>$f@&>>ObC
z7VtIk8r~#+y<WUx?@IpZJnuQG`v(5<c|8w(m~`Y`eJ<%Q^KHthm+N^`9wryqIUx1f
zp}y}yooT*hE=;_(zTfw*Q+-mtCeJ;odyw-cy`K2dd1U!)^QoQpQ*OZ@@6>%K9>e!O
zmrlG+xPt%cxLN+Kj+^D*w14P07hU2W#OmMbI&SrEbsbN-jDDv%pT0=`f)6D>MK3K+
z)BH|9TEDcuaJ`71`~kg8x@z_G!}{LDFRS-953P=y<=^VKS^nYI31@rX<oEEm=U@7@
z^MhPT-%t3Ev(mlOJ*h|cr^(0IucY}FeM>r+_7KctcD}SeXmPt(x-sDeu67Qf-U%0r
zN5TQT5)R;H`Dgb6X&yt5Ep9gNTD`Y^4i6JwFBM<#&&g+}{_40N>Uk+Yr8x_~Wo}6G
zMVj;Rzw~<={Iq*LI}ci3?S;qIyxI$ot$CGn6uq_g-7D`-zTEY*`#XNYJ*mfDc{k+;
za)!-ANvF^={3iL*&C<WG>YQ|VYdp5*mGz^o@z|PICxrtzPI%kAwzUs#t-IDgw)VlT
zb=T@?*QH6n?EW<I1U~JBo8_O)FMHu;`8WAb$JyR@^|{CLx%>9yCwt93$tUsCG@sy~
z7Pr&Vd-`<hXFE?@{#iW8C&@RhANBcb(g)^h=9{Viz$M{lar><BNWNtE4AbwapV#+L
z532{$?|e_{dFZ3<Ba54@OTr6WEl<-N&Ad(DC7hY7lV7KPq;L1aV{2aRg~!&svU<?{
zc)CA)O}tL}!+Tw>KArpzUAFV!oqAsKhpsmhf2Ms}*F(D}wEkiBlznE}PuV@!>bP0{
zt&W@JpPl0m#rtVKM!&cA!KrWh{kHb=t$lE7-JSHa>+D;F8+thPU&0mqZGPDcH_Jbp
zU-rVy@-O8o@|V@Cw3lRmX}`DV7ymBko%&$!>&_$VNBrGN+QXz=Kz?Aa-TSNe;rY5p
z+Eda`sqgxnG38&2o7IE#dms74`iI4X`6BT@;Q(Hie{a+W6A$sZgrCJN@dQ3~o^iik
z2l$$Jy>;HTxoPsB&da^>Zqgt4VfEDRl_xwq?sopz8jr1cW#^Br@z|PIX)eOAY~EO1
zcYB{s{k*#FcHQiKMn9szNvADt@FDTW`uSctEcqWkX?;KW75W1%2|tS)``am3;p61!
zRPXd&y#Lm}$KR}mOT4jlw)r6S1vucFNzZMb{Iu?y_+@=&(y^|0wtlPgz}9bd9`L&W
zdNb*gy|2}SG@mfXyiz<(xx?nfbWiH>sJ=Jt#q8d;_rcUJm+E_yANIL^(g&Mk`CTtP
z_e#AV$E3sPR?@dLzaQ$0lHZdH?7qqR(Z%|Hd}q?7<bU+V7xlcfXG=bWU*YRXR}-$_
zzdCM~f2-qW`FF1Pl5jq*&n2C<`UhVVulLe%%jeZ~{H$<GytcR{yudZ-4?4Bi?-kQL
z+4a}*&+ZSbe^}ho??&VTo3kzNQ*NOz_TtOdb>53FR>$${<m=?##A|qy_?2=bdDG5~
zX<o#CnETP2iD$i^Cmc&A<L_Ww{|;gI#SiNR6R*?$13uaNPPxD9#Jzf8%F&6R@Hpj7
z@=D6h<TRT*4|R{Lbxyizd1~i#=ECH|tLtv(#l#=$Z&SbazD|0E?rrVU)12M)^CiB|
z8>-LqFABa%m(lN%mFP25-}L_4T6e8~tggG(KVB_Bl1^W!&*4v#k6B+pkCJY69hvlI
z>l~JR2t8XphcSmF-?V(O``DD5!PWAL+?)7i@vynG>-FT@mVb7S4!;r))9+R2=-uky
z>HWDU`8esI)xWf#CYRcK;3LUzl1{-pa&+Rq)yb5b4~2vEEzA3aEBLRDo8{l?xLN)k
z7atPN_P$pCR@ZT>f2->_zx(vuiY}vj7LO_a;HUVm<x9$a=$@@JI+OIs{(T}ko%+f4
z(X`J%m(g!<N%+~lUZ2;exzE;bbspIIt<D4M)Aqh8w~%kHlrM0Q&pJQIPbp`?>%{-G
zzoZ`1{MY-{`uWAWXv!z=)#uQqNx#0R&!yktQtm@X)7*i7r+JpScdx&@xnFfjb+mre
zeP`08OZB~JPD(zB9^1Kg>YLtQmM^R0X8E@|ZkB&VtIhU_R{vJlam(k`bsW7+ytcSm
z9eSgP)pI)fgH9dlbID&V9-q|nlFp?448GfSZqmcFA4G4he^}g--;)b$&fdDtd+}xK
zI`737tK)XQOmijq7~Uj)r5s64O1YW-@A@$52suCb$dsqLf1fMeAg@ljHsxXZ$LeXC
z%b5r4UTT_)`}}P0Yxe?n--He(y@ZE}uk33Q&dCq(4g2?mmZvw0SBbCozW7qoqtv(b
zcba>dkL`S(?nyl??^8d*W2-~xOwuFf^wh`9t!ciU^n~~4o>uQI@6nG`Z+j1`L)MR`
zJk@hontRC^Z&tshykqss^4{jP)p4`@TOBvczcinaKkR+2{;jU#R{xT&pg-ta(!s5D
zJn1sJXYWf+NO=N1O1cHV5)TihYstUJpDCwWy-GO)9(TQ-`X%K)@}ZsIdaj-F?@N52
z6R7v$i-ND^OV3-A9_=;vO#JOUw>cu|6neJx++*jNq>t#Rom1>wc2;_tbc;DD%~RI5
z(%gZ*r?~??vw0)U$MDJaNAeeZ$nM9jPhTtC(tBFo+j-%nzV}ckICVU&4%wXD_f!*(
z^hxR`_U<Wn;KRwUC!g<qW#_20&x7y%`O|x_zexHq;n{JweQ9}5eo8)Ub?Cj~XVN43
zGxhQ0kG=oECE=IuNj>TsoBb|{UMBo3ZniGTH^9~MH0cj~wR(EJ3jL(cNx$rzXXgs5
zYe~=0y|nK^=WSh5J*ZpHWmA5$d``NIeuH!3gWZEzy@#)f*GYfSsqUZCy|&JElaF>@
zcAcC0KItfWoAd{rvU<vXCG{tKO}w@|n0Vg%!Pf7%8iak!)TgKQxrrz6$@0a{DdgkC
z8=E`ryk&V{eXH|(y3by^YyG41Y~tfyx|{lpeoVQPTyUc<lK5bG@KHT4@xj(F?Jw~)
z^eyS&)c;*4COz)Dll%%_quvRZLlq{?4VDL1uU4OXQvQd(<ov`#a7p-)CsOXfhm&91
zKI;3_Nxzb>!Rsl1qZjb$TJf**y!V6kBl2;|(aCr5XPYBd--FnE04@o?$)~!XC0xND
z-Xwm3OTy3MX6v$7ZnAo6ebvrUtM8R<UC`;I=Tm;{xx(@}=`#AA@&h>|%|*;l{{z6w
BQz-xd

-- 
2.43.0


From 096865cb4ccf489e909ee8c16a86d1b7439311f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 18/29] fix: C60 structures are told apart by a 64-bit hash

With 32 bits two colourings of the molecule collide: C60 with five B
atoms gave 45717 of the 45718 structures.
---
 ababe/stru/buckyball.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/buckyball.py b/ababe/stru/buckyball.py
index 946bf6f..817d6b3 100644
--- a/ababe/stru/buckyball.py
+++ b/ababe/stru/buckyball.py
@@ -167,7 +167,7 @@ class Structure(object):
         as an identifier of diffrent structures, can be move to
         outerside class.
         """
-        num_hash = xxhash.xxh32(numbers).intdigest()
+        num_hash = xxhash.xxh64(numbers).intdigest()
         return num_hash
 
     def _update_isoset(self, isoset, atoms, sym_perm):
-- 
2.43.0


From 8815fd78a6697d5180ece98ddde709fd18a1b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 19/29] fix: get_neighbors on a grid of one site

The site has no neighbours, but the k-d tree of no points was built;
random_walk_arrange with goal 1 raised ValueError.
---
 ababe/stru/scaffold.py   | 2 ++
 ababe/stru/scaffold2d.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 47241bf..2692ebc 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -236,6 +236,8 @@ class CStru(object):
         del coor_map[pos]
 
         points = list(coor_map.values())
+        if not points:
+            return set()
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
         keys = list(coor_map.keys())
diff --git a/ababe/stru/scaffold2d.py b/ababe/stru/scaffold2d.py
index 0091c36..30a1646 100644
--- a/ababe/stru/scaffold2d.py
+++ b/ababe/stru/scaffold2d.py
@@ -89,6 +89,8 @@ class CStru2d(object):
         del coor_map[pos]
 
         points = list(coor_map.values())
+        if not points:
+            return set()
         points_tree = cKDTree(points)
         ind = points_tree.query_ball_point(point, delta)
         keys = list(coor_map.keys())
-- 
2.43.0


From a29c25946d951601c05d2a05b79db882543092ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:11 +0000
Subject: [PATCH 20/29] fix: atomic masses of nitrogen and iridium

The table had 14.001 and 190.217 instead of 14.007 and 192.217.
---
 ababe/stru/pt.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ababe/stru/pt.json b/ababe/stru/pt.json
index a64fa61..a7b23b0 100644
--- a/ababe/stru/pt.json
+++ b/ababe/stru/pt.json
@@ -29,7 +29,7 @@
 		"Atomic radius": 0.91},
 	"N":{
 		"Atomic no": 7,
-		"Atomic mass": 14.001,
+		"Atomic mass": 14.007,
 		"Atomic radius": 0.75},
 	"O":{
 		"Atomic no": 8,
@@ -249,7 +249,7 @@
 		"Atomic radius": 1.92},
 	"Ir":{
 		"Atomic no": 77,
-		"Atomic mass": 190.217,
+		"Atomic mass": 192.217,
 		"Atomic radius": 1.87},
 	"Pt":{
 		"Atomic no": 78,
-- 
2.43.0


From 845b2fb668b7342a98562762da3f018567663706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 21/29] fix: extending a modifiable cell by its own sites ends

---
 ababe/stru/scaffold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index 2692ebc..c8fac2d 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -543,7 +543,8 @@ class ModifiedCell(MutableSequence):
 
     def extend(self, sites):
         """ Adds atoms to structure """
-        for s in sites:
+        # a list first: a cell may be extended by itself
+        for s in list(sites):
             self._sites.append(s)
 
     @classmethod
-- 
2.43.0


From 90aff663c471df05718dc10dde7d534456254f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:06 +0000
Subject: [PATCH 22/29] fix: is_stru_equal told large grids apart by their
 first and last sites only

---
 ababe/stru/sogen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index dd9d25e..4514c22 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -268,7 +268,8 @@ def _get_id_seq(pos, arr_num):
     # z, y, x = round_o_pos[:, 2], round_o_pos[:, 1], round_o_pos[:, 0]
     z, y, x = o_pos[:, 2], o_pos[:, 1], o_pos[:, 0]
     ind_sort = np.lexsort((z, y, x))
-    id_seq = str(arr_num[ind_sort])
+    # of a list: the text of a long array leaves out its middle
+    id_seq = str(arr_num[ind_sort].tolist())
 
     return id_seq
 
-- 
2.43.0


From 6b8d1bf5e74e4600141074c4352415841377dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:07 +0000
Subject: [PATCH 23/29] fix: the progress bar of the grid enumeration counts in
 integers

---
 ababe/stru/sogen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index 4514c22..3a6606d 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -332,7 +332,7 @@ def gen_nodup_cstru(lattice, sea_ele, size, speckle, num):
 
     # Add the progress bar when looping
     from scipy.special import comb
-    number_of_structures = comb((d*w*l), num)
+    number_of_structures = comb((d*w*l), num, exact=True)
     bar = ProgressBar(max_value=number_of_structures)
 
     isoset = set()
-- 
2.43.0


From 90bf8baa0f259a716dab356e805270e6dceafecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:08 +0000
Subject: [PATCH 24/29] fix: the identity of a cell whose numbers are a view of
 an array

---
 ababe/stru/scaffold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/stru/scaffold.py b/ababe/stru/scaffold.py
index c8fac2d..5ab5ece 100644
--- a/ababe/stru/scaffold.py
+++ b/ababe/stru/scaffold.py
@@ -330,7 +330,7 @@ class GeneralCell(object):
 
     @property
     def id(self):
-        num_id = xxhash.xxh64(self.numbers).intdigest()
+        num_id = xxhash.xxh64(np.ascontiguousarray(self.numbers)).intdigest()
         return num_id
 
     def get_spacegroup(self):
-- 
2.43.0


From b8ee377690c67663a43fa8a5e045629c29970312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 25/29] fix: read POSCAR files whose comment line is empty

---
 ababe/io/vasp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index 171d22a..b3115a6 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -20,6 +20,9 @@ class VaspInput(object):
     def from_string(content):
         # move empty line
         lines = [l for l in content.split('\n') if l.rstrip()]
+        if len(lines[1].split()) > 1:
+            # no scale factor: the comment line was empty
+            lines.insert(0, '')
 
         comment = lines[0]
         zoom = float(lines[1])
-- 
2.43.0


From 64d4dcf61553bc53e15e2358d00bf2e2c2972d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 26/29] fix: leave out what follows the coordinates of a POSCAR
 (velocities)

---
 ababe/io/vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index b3115a6..ad11a1a 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -45,7 +45,7 @@ class VaspInput(object):
         numbers = np.array(numbers)
 
         positions = np.array([[float(i) for i in line.split()[0:3]]
-                                                     for line in lines[8:]])
+                                                     for line in lines[8:8+len(numbers)]])
         if lines[7].strip()[0] in 'CcKk':
             # cartesian coordinates, in units of the scale factor
             positions = np.matmul(positions, np.linalg.inv(vectors))
-- 
2.43.0


From c90a2268ebc0faaeb3ed44100c7b6966b0420916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:45 +0000
Subject: [PATCH 27/29] fix: report a method that a problem leaves out (sys was
 not imported)

---
 ababe/mlearn/dsutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ababe/mlearn/dsutils.py b/ababe/mlearn/dsutils.py
index 4bf5c66..09671ef 100644
--- a/ababe/mlearn/dsutils.py
+++ b/ababe/mlearn/dsutils.py
@@ -4,6 +4,7 @@
 import random
 import collections
 import inspect
+import sys
 
 class RandomPopSet(collections.abc.MutableSet):
 
-- 
2.43.0


From 1f9cbf7f900b349c540431c631ce89c53ab44648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 28/29] fix: disjunct test looks at every image that can be
 within the limit

---
 ababe/stru/sogen.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ababe/stru/sogen.py b/ababe/stru/sogen.py
index 3a6606d..0285bed 100644
--- a/ababe/stru/sogen.py
+++ b/ababe/stru/sogen.py
@@ -379,7 +379,10 @@ def is_speckle_disjunct(cstru, speckle):
     sites_arr = cstru.get_array()
     ele = speckle.Z
 
-    pool_sites_arr = _pool_sites(sites_arr)
+    # as many images along each axis as can come within 1.01
+    extent = np.linalg.norm(np.linalg.inv(np.array(m)), axis=0)
+    n_images = [max(1, int(1.01 * x)) for x in extent]
+    pool_sites_arr = _pool_sites(sites_arr, n_images)
     ele_index = np.argwhere(pool_sites_arr==ele)
     points = np.array([_index2coor(ind, m) for ind in ele_index])
     min_d = _min_dist(points)
@@ -402,18 +405,12 @@ def _dist(p,q):
     dist = np.linalg.norm(p-q)
     return dist
 
-def _pool_sites(sites_arr):
-    d, w, l = np.shape(sites_arr)
+def _pool_sites(sites_arr, n_images=(1, 1, 1)):
+    # repeat the first layers of every dimension behind its last one
     pool = sites_arr
-    # pool the elements of outer dimension (depth)
-    depth_d = pool[0, :, :].reshape(1,w,l)
-    pool = np.concatenate((pool, depth_d), axis=0)
-    # pool the elements of meddle dimension (width)
-    width_d = pool[:, 0, :].reshape(d+1, 1, l)
-    pool = np.concatenate((pool, width_d), axis=1)
-    # pool the elements of inner dimension (length)
-    length_d = pool[:, :, 0].reshape(d+1, w+1, 1)
-    pool = np.concatenate((pool, length_d), axis=2)
+    for axis, n in enumerate(n_images):
+        layers = np.arange(pool.shape[axis] + n) % pool.shape[axis]
+        pool = np.take(pool, layers, axis=axis)
 
     return pool
 
-- 
2.43.0


From 13b46af6a4e79a3476709914ca728cb4a4471dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 29/29] fix: read POSCAR files with selective dynamics

---
 ababe/io/vasp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ababe/io/vasp.py b/ababe/io/vasp.py
index ad11a1a..c84b38f 100644
--- a/ababe/io/vasp.py
+++ b/ababe/io/vasp.py
@@ -44,6 +44,10 @@ class VaspInput(object):
             numbers += s * [nsymbols[i]]
         numbers = np.array(numbers)
 
+        if lines[7].strip()[0] in 'Ss':
+            # selective dynamics: the flags behind the coordinates are left out
+            del lines[7]
+
         positions = np.array([[float(i) for i in line.split()[0:3]]
                                                      for line in lines[8:8+len(numbers)]])
         if lines[7].strip()[0] in 'CcKk':
-- 
2.43.0

