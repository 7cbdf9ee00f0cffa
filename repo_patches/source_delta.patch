From 2814647c733660966136717e247c6c5819725f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 01/61] fix: EIGENVAL with trailing blank lines crashed the
 parser

---
 parsevasp/eigenval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..1364205 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -100,6 +100,8 @@ class Eigenval(BaseParser):
         # Datablocks
         data = re.split(utils.empty_line, data)
         data = [[line.split() for line in block.splitlines()] for block in data]
+        # Blank lines at the end of the file leave blocks without content, skip those
+        data = [block for block in data if any(block)]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
         # Iterate over blocks, pr. k-point
-- 
2.43.0


From ff133b2299a3c37d3739fd5f19ac5a8f1799df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 02/61] fix: DOSCAR spin columns of every quantity but the
 first were read from the wrong place

---
 parsevasp/doscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..d3c5d9f 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -212,7 +212,7 @@ class Doscar(BaseParser):
             if num_spin == 1:
                 dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         # Partial density of states
         pdos_items = []
@@ -237,7 +237,7 @@ class Doscar(BaseParser):
                 if num_spin == 1:  # Only squeeze if there is only one spin component
                     pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, i * num_spin + 1:(i + 1) * num_spin + 1]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From 0339b2774d68dea40381216e9a557026fdd8d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 03/61] fix: name of the last d orbital in non-collinear
 lm-decomposed DOSCAR

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index d3c5d9f..deb1bfb 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From da68aa3af7aafe7d51cd040737047ead37a3fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 04/61] fix: blank lines in KPOINTS lost the shift, crashed the
 explicit mode and gave empty points in line mode

---
 parsevasp/kpoints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..4209a6c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -209,7 +209,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
@@ -235,7 +235,7 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4 and kpoints[4].strip():
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
@@ -257,7 +257,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 9a67bb70e71e323b73bd88389a72802ca6f07bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 05/61] fix: explicit KPOINTS written after adding or deleting
 points announced the old number of points

---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 4209a6c..d63ef29 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -874,7 +874,7 @@ class Kpoints(BaseParser):
         # Check mode
         mode = entries['mode']
         if mode == 'explicit':
-            file_handler.write(f"{entries['num_kpoints']:6d}\n")
+            file_handler.write(f"{len(entries['points']):6d}\n")
             # Points should already be direct
             file_handler.write('Direct\n')
             for point in entries['points']:
-- 
2.43.0


From cc89e84c0699806546f09514d0059b5cb8c756f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 06/61] fix: Kpoints.modify refused generating_vectors and
 accepted any tag containing an allowed one

---
 parsevasp/kpoints.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index d63ef29..edea54e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -407,9 +407,8 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+        if entry not in ('comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'generating_vectors', 'mode',
+                         'num_kpoints', 'shifts', 'centering'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From d67d60cf1ddff6436883d0855d1a2e25f25a95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 07/61] fix: get of Kpoints and Poscar raised AttributeError
 for every present tag

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index edea54e..4143352 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -798,7 +798,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..4eaa810 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -755,7 +755,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From ba5c8b43c59d889eafe59fd4340b4f743dcab201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 08/61] fix: INCAR, KPOINTS and POSCAR accepted a dictionary or
 string together with a file

---
 parsevasp/incar.py   | 7 ++++---
 parsevasp/kpoints.py | 7 ++++---
 parsevasp/poscar.py  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..89f85af 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -73,9 +73,10 @@ class Incar(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
-        if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
+        from_file = self._file_path is not None or self._file_handler is not None
+        if (self._incar_string is not None and
+            self._incar_dict is not None) or (self._incar_string is not None and
+                                            from_file) or (self._incar_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 4143352..7d68e71 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -99,9 +99,10 @@ class Kpoints(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
-        if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
+        from_file = self._file_path is not None or self._file_handler is not None
+        if (self._kpoints_string is not None and
+            self._kpoints_dict is not None) or (self._kpoints_string is not None and
+                                            from_file) or (self._kpoints_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 4eaa810..5ed00bd 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -81,9 +81,10 @@ class Poscar(BaseParser):
 
         # Check that only one argument is supplied
         # pylint: disable=R0916
-        if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
+        from_file = self._file_path is not None or self._file_handler is not None
+        if (self._poscar_string is not None and
+            self._poscar_dict is not None) or (self._poscar_string is not None and
+                                            from_file) or (self._poscar_dict is not None and from_file):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
         # Check that at least one is suplpied
-- 
2.43.0


From 6c240016ca2c47bd147452d208322ac1d490a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 09/61] fix: lists of booleans in INCAR were written in a form
 that reads back as strings

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 89f85af..89c7ff2 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -268,7 +268,7 @@ class Incar(BaseParser):
 
         if isinstance(value, list):
             # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            string = ' '.join(map(self._convert_value_to_string, value))
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From a1a978b8aa14f8f47784e7e0e9a22aa9d257bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 10/61] fix: Incar.get with comment=True returned the value in
 place of the comment

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 89c7ff2..8653b6d 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -366,7 +366,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From ddf9d99db93936cfbf65bbcbe37a9ea9da7ab978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 11/61] fix: Incar.get and Incar.delete did not find tags that
 are not in lower case

---
 parsevasp/incar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 8653b6d..9e4a324 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -335,7 +335,7 @@ class Incar(BaseParser):
         """
 
         try:
-            del self.entries[tag]
+            del self.entries[tag.lower()]
         except KeyError:
             pass
 
@@ -364,9 +364,9 @@ class Incar(BaseParser):
         value = None
         com = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag.lower()].get_value()
             if comment:
-                com = self.entries[tag].get_comment()
+                com = self.entries[tag.lower()].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From 6280cb7cd46a8b41a71fed7abc990b8df29d94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 12/61] fix: a semicolon at the end of an INCAR line was an
 error unless a newline followed directly

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 9e4a324..b0c34a1 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -163,7 +163,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From b37082026998b39d76ec26d4f5ed118ed8260d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 13/61] fix: INCAR values such as inf or nan crashed the parser

---
 parsevasp/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..518b3f9 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -161,7 +161,9 @@ def test_string_content(string):
 
     """
     try:
-        float(string)
+        if not math.isfinite(float(string)):
+            # Words like nan or infinity, which Python takes for numbers
+            return 'string'
         return 'int' if ((string.count('.') == 0) and \
                          ('e' not in string) and \
                          ('E' not in string)) else 'float'
-- 
2.43.0


From a129b7b57adace699ca5d254933230cea18a3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 14/61] fix: POSCAR sites given as dictionaries were never
 turned into sites

---
 parsevasp/poscar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 5ed00bd..e493272 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -146,8 +146,8 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
-        for site in sites:
+        sites = []
+        for site in self._poscar_dict['sites']:
             if not isinstance(site, Site):
                 # Entry is not of a Site type, convert it
                 direct = site['direct']
@@ -171,6 +171,8 @@ class Poscar(BaseParser):
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
                         site.set_velocities(velocities)
                     site.set_direct(True)
+            sites.append(site)
+        self._poscar_dict = dict(self._poscar_dict, sites=sites)
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From 86e1880096761709e1a0c2e34f31572ea4ef69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 15/61] fix: blank lines at the end of POSCAR crashed the
 parser

---
 parsevasp/poscar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e493272..f684ad9 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -197,6 +197,9 @@ class Poscar(BaseParser):
 
         """
 
+        # Blank lines at the end carry no content
+        while poscar and not poscar[-1].strip():
+            poscar = poscar[:-1]
         comment = poscar[0].replace('#', '').strip()
         vasp5 = True
         # Check for VASP 5 POSCAR
-- 
2.43.0


From 942983a5a10bba592a4982773096b6fb097a39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 16/61] fix: direct velocities after cartesian positions in
 POSCAR were converted once more

---
 parsevasp/poscar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f684ad9..fbf8515 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -290,9 +290,9 @@ class Poscar(BaseParser):
             first_char = poscar[loopmax_pos][0].lower()
             if first_char in ('d', 'c'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert cartesian velocities to direct, also when
+                # the positions use the other kind of coordinates
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From f70c47068a4d68a86bea772e40584284656048c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 17/61] fix: a missing key in POSCAR raised KeyError in place
 of the documented exit

---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index fbf8515..2d0550f 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -481,7 +481,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -507,7 +507,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if self.entries['comment'] is not None:
@@ -533,7 +533,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -554,7 +554,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
-- 
2.43.0


From fd7cc1cd612fc6de4c62816eb94f8d9172f10c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 18/61] fix: Poscar.get_dict converted sites that are already
 cartesian

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 2d0550f..ab8f190 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -790,7 +790,7 @@ class Poscar(BaseParser):
                     position = element.get_position()
                     velocities = element.get_velocities()
                     temp_direct = element.get_direct()
-                    if not direct:
+                    if not direct and temp_direct:
                         # Convert to cartesian
                         position = self._to_cart(position, self.entries['unitcell'])
                         if velocities is not None:
-- 
2.43.0


From f18c9a47d5b208fca6732647d6af424e156f6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 19/61] fix: VASP 4 POSCAR was only recognised when single
 blanks separate the numbers of ions

---
 parsevasp/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 518b3f9..d2be917 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -171,7 +171,7 @@ def test_string_content(string):
         return 'string'
 
 
-def is_numbers(string, splitter=' '):
+def is_numbers(string, splitter=None):
     """
     Check if a string only contains numbers.
 
@@ -180,7 +180,7 @@ def is_numbers(string, splitter=' '):
     s: str
         The input string
     splitter : string, optional
-        The splitting character to be used, defaults to blank spaces.
+        The splitting character to be used, defaults to any run of blank spaces.
 
     Returns
     -------
@@ -191,7 +191,7 @@ def is_numbers(string, splitter=' '):
     """
 
     entries = string.split(splitter)
-    is_nums = True
+    is_nums = bool(entries)
     for entry in entries:
         if not is_number(entry):
             is_nums = False
-- 
2.43.0


From d10c731bacc9ed00a85a4c2bf060098a483ec4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 20/61] fix: POSCAR species after one without ions were
 assigned to the wrong sites

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index ab8f190..a57b8c6 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -252,7 +252,7 @@ class Poscar(BaseParser):
         # Loop positions
         for i in range(nions):
             # Fetch specie
-            if index > atoms[specie_slot]:
+            while index > atoms[specie_slot]:
                 specie_slot = specie_slot + 1
                 index = 1
             specie = spec[specie_slot]
-- 
2.43.0


From 8d0fb4cd1dcc946986f7b5f4016ffd3f6d20e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 21/61] fix: Poscar.modify accepted any tag containing an
 allowed one

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index a57b8c6..5a1358b 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -460,7 +460,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From f00fdcf7c8ae3dc0dd3ed81bb3937fcdff8a9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 22/61] fix: OUTCAR number of primitive cells in a supercell
 was the whole line

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..c4a2cc5 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -161,7 +161,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From c28150a779d4a36d36a1d2663e5f983516c86fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 23/61] fix: OUTCAR non-symmetrized elastic moduli were
 announced under one name and stored under another

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index c4a2cc5..cac1a7c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From a83db3bdb7194f949133d583fa5264e630dee477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 24/61] fix: vasprun.xml last positions and forces of two steps
 with less than four ions were those of the first

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..9105d1a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1550,7 +1550,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if entrypos is not None:
                 num_entrypos = len(entrypos)
                 pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
+                if num_entrypos > num_atoms:
                     pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
                 else:
                     pos[2] = None
@@ -1561,7 +1561,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if entryforce is not None:
                 num_entryforce = len(entryforce)
                 force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
+                if num_entryforce > num_atoms:
                     force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
                 else:
                     force[2] = None
-- 
2.43.0


From bef02d9e4f94c06499ceb643ea16aa199329eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 25/61] fix: vasprun.xml event parser overwrote the specific
 density of states with the regular one

---
 parsevasp/vasprun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 9105d1a..ce03f9d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -586,6 +586,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
                     self._data['dos_specific'] = dos
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
-- 
2.43.0


From 35ea24143f51e42cdbf42409d6e297c336f133fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 26/61] fix: vasprun.xml density of states was joined with the
 one of the specific k-points

---
 parsevasp/vasprun.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ce03f9d..dc040a9 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2042,8 +2042,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # The density of states for specific k-point grids carries a comment, leave it for later
+        entries = [entry for entry in xml.findall('.//calculation/dos') if entry.attrib.get('comment') is None]
+        if not entries:
+            return None, None
+
         # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
+        entry = self._find(entries[-1], './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2051,16 +2056,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        entry_total_ispin1 = self._findall(entries[-1], './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
+        entry_total_ispin2 = self._findall(entries[-1], './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
+        entry_partial_ispin1 = self._findall(entries[-1], './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
+        entry_partial_ispin2 = self._findall(entries[-1], './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
-- 
2.43.0


From ec8ad10be40150833238ecf1e408003d7b1c5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 27/61] fix: vasprun.xml partial densities and projectors were
 zero unless there were nine orbitals

---
 parsevasp/vasprun.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index dc040a9..41ba078 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -483,16 +483,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, len(data2[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -553,16 +553,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, len(data2[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2167,9 +2167,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, len(entry_partial_ispin1[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2177,9 +2177,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, len(entry_partial_ispin2[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2194,9 +2194,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, len(entry_partial_ispin1[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2604,14 +2604,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        pdata.append(self._convert_array2D_f(spin1, len(spin1[0].text.split())))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2, len(spin2[0].text.split())))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
-- 
2.43.0


From 7848bb311681d2c24d65faaacc7fc2c80e8d84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 28/61] fix: vasprun.xml several dielectric functions were
 joined or the last was taken

---
 parsevasp/vasprun.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 41ba078..72c6e0f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -673,7 +673,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     _diel['energy'] = diel[0][:, 0]
                     _diel['imag'] = diel[0][:, 1:7]
                     _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    if self._data['dielectrics'] is None:
+                        # If there are more, the first is the density-density one
+                        self._data['dielectrics'] = _diel
                     data = []
                     extract_dielectrics = False
                 if event == 'start' and element.tag == 'dynmat':
@@ -2277,8 +2279,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 tag = 'dielectricfunction'
 
+            # If there are more dielectric functions, the first is the density-density one
+            function = self._find(xml, './/calculation/' + tag)
+
             # imaginary part
-            entry = self._findall(xml, './/calculation/' + tag + '/imag/array/set/r')
+            entry = None if function is None else self._findall(function, './imag/array/set/r')
             if entry is None:
                 diel['imag'] = None
                 diel['energy'] = None
@@ -2288,7 +2293,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['imag'] = data[:, 1:7]
 
             # real part
-            entry = self._findall(xml, './/calculation/' + tag + '/real/array/set/r')
+            entry = None if function is None else self._findall(function, './real/array/set/r')
             if entry is None:
                 diel['real'] = None
             else:
-- 
2.43.0


From 8464e27d1201d3c61ef86e5e1800b31af6cc7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 29/61] fix: vasprun.xml event parser left out the macroscopic
 dielectric tensors

---
 parsevasp/vasprun.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 72c6e0f..e28e091 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -285,6 +285,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dos = {}
         totens = {}
         dynmat = {}
+        dielectrics = {}
         _dos = {}
         _dos2 = {}
 
@@ -328,6 +329,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_e_wo_entrp = False
         extract_scstep = False
         extract_dielectrics = False
+        extract_epsilon = False
         extract_eig_proj = False
         extract_eig_proj_ispin1 = False
         extract_eig_proj_ispin2 = False
@@ -673,11 +675,19 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     _diel['energy'] = diel[0][:, 0]
                     _diel['imag'] = diel[0][:, 1:7]
                     _diel['real'] = diel[1][:, 1:7]
-                    if self._data['dielectrics'] is None:
+                    if 'imag' not in dielectrics:
                         # If there are more, the first is the density-density one
-                        self._data['dielectrics'] = _diel
+                        dielectrics.update(_diel)
                     data = []
                     extract_dielectrics = False
+                if event == 'start' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    extract_epsilon = True
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    dielectrics[element.attrib['name']] = self._convert_array2D_f(data, 3)
+                    data = []
+                    extract_epsilon = False
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -895,6 +905,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     if event == 'start' and element.tag == 'r':
                         data.append(element)
 
+                if extract_epsilon:
+                    if event == 'start' and element.tag == 'v':
+                        data.append(element)
+
                 if extract_projected:
                     # Make sure we skip the first entry containing
                     # the eigenvalues (already stored at this point)
@@ -1089,6 +1103,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             totens = None
 
         # Store
+        if dielectrics:
+            entries = ('energy', 'imag', 'real', 'epsilon', 'epsilon_ion')
+            self._data['dielectrics'] = {entry: dielectrics.get(entry) for entry in entries}
         self._lattice['unitcell'] = cell
         self._lattice['positions'] = pos
         self._data['forces'] = force
-- 
2.43.0


From f96e074289179920ea7dcabc22c5a373b5d952f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 30/61] fix: event parser read values of an element before its
 text was there

---
 parsevasp/vasprun.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e28e091..3415e92 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -397,54 +397,54 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Now fetch the data
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -785,15 +785,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
                         totens[calc].update({'energy_extrapolated_final': float(element.text)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
                         totens[calc].update({'energy_free_final': float(element.text)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
                         totens[calc].update({'energy_no_entropy_final': float(element.text)})
 
@@ -983,7 +983,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -999,7 +999,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From 89c00cb4be3868826d9871bcf995063864f377f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 31/61] fix: overflowed fields of vasprun.xml were reported as
 zeros, shifted or cut

---
 parsevasp/vasprun.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 3415e92..7652a48 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -787,15 +787,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     # Extrapolated energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -2654,6 +2654,23 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return projectors
 
+    def _check_overflow(self, entry):
+        """
+        Exit if an element contains a field filled with asterisks.
+
+        VASP writes asterisks for a number that does not fit its field. It is thus unknown.
+
+        Parameters
+        ----------
+        entry : object
+            An Element object containing one or several numbers.
+
+        """
+
+        if '*' in entry.text:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2674,6 +2691,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            self._check_overflow(entry)
             try:
                 data = np.fromstring(entry.text, sep=' ', dtype='intc')
             except ValueError as err:
@@ -2703,6 +2721,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            self._check_overflow(entry)
             try:
                 data = np.fromstring(entry.text, sep=' ', dtype='double')
             except ValueError as err:
@@ -2734,6 +2753,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
@@ -2766,6 +2786,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
@@ -2801,6 +2822,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
@@ -2828,9 +2850,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry.text is not None:
-            if '****' in entry.text:
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                sys.exit(self.ERROR_OVERFLOW)
+            self._check_overflow(entry)
             data = float(entry.text)
 
         return data
@@ -2853,9 +2873,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry.text is not None:
-            if '****' in entry.text:
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                sys.exit(self.ERROR_OVERFLOW)
+            self._check_overflow(entry)
             data = int(entry.text)
 
         return data
-- 
2.43.0


From bf3063994533f64c9a6e37887fa5ea783dd2c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 32/61] fix: short or newline-padded complete vasprun.xml was
 reported as truncated

---
 parsevasp/vasprun.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 7652a48..b804078 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3689,24 +3689,20 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        last_line = ''
-        xml_truncated = True
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
-            if self._file_handler is not None:
-                self._file_handler.seek(shift)
-                last_line = self._file_handler.readlines()[-1]
-                # Reset pointer
-                self._file_handler.seek(0)
-            else:
-                with open(self._file_path, 'rb') as file_handler:
-                    file_handler.seek(shift)
-                    last_line = file_handler.readlines()[-1]
-            if b'</modeling>' in last_line:
-                # The XML file is not truncated.
-                xml_truncated = False
+        shift = max(0, self._file_size - 1024)
+        if self._file_handler is not None:
+            self._file_handler.seek(shift)
+            tail = self._file_handler.read()
+            # Reset pointer
+            self._file_handler.seek(0)
+        else:
+            with open(self._file_path, 'rb') as file_handler:
+                file_handler.seek(shift)
+                tail = file_handler.read()
+        # Only if the closing tag is there is the XML file not truncated.
+        xml_truncated = b'</modeling>' not in tail
 
         self._xml_truncated = xml_truncated
-- 
2.43.0


From d0a5809adb2fefd1282e643a86e488ccb793668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 33/61] fix: energies of all ionic steps were lost when the
 last one was not complete

---
 parsevasp/vasprun.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b804078..e0502f4 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2028,7 +2028,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             for supported_energy, supported_key in _SUPPORTED_TOTAL_ENERGIES.items():
                 data = self._findall(calc, './/scstep/energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
+                    # Not there (yet), keep the steps that were completed
+                    return energies or None
                 data = self._convert_array1D_f(data)
                 energies_pr_calc[supported_energy] = data
 
@@ -2037,8 +2038,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 # extrapolated energy
                 data = self._findall(calc, './energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
+                    # Not there (yet), keep the steps that were completed
+                    return energies or None
                 data = self._convert_f(data[0])
+                if data is None:
+                    return energies or None
                 energies_pr_calc[supported_energy + '_final'] = data
             energies[index + 1] = energies_pr_calc
 
-- 
2.43.0


From affff029dbff7efac882eb82b40603f9194828fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 34/61] fix: sections cut off by the end of a truncated
 vasprun.xml were reported with wrong numbers

---
 parsevasp/vasprun.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e0502f4..6fdb099 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -224,6 +224,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 self._logger.debug('Running LXML in recovery mode.')
             parser = etree.XMLParser(recover=True)
             vaspxml = etree.parse(filer, parser=parser)
+            self._remove_incomplete(vaspxml.getroot())
         else:
             vaspxml = etree.parse(filer)
 
@@ -259,6 +260,27 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['dynmat'] = self._fetch_dynmatw(vaspxml)
         self._data['born'] = self._fetch_bornw(vaspxml)
 
+    def _remove_incomplete(self, element):
+        """
+        Remove the section a truncated file ends in.
+
+        Its numbers are not all there and the last one might be cut.
+
+        Parameters
+        ----------
+        element : object
+            The root Element object of the truncated file.
+
+        """
+
+        while element.tag in ('modeling', 'calculation'):
+            if len(element) == 0:
+                return
+            element = element[-1]
+        # A section followed by anything was closed, otherwise the closing tag should be the last in the file
+        if element.tail is None and not self._xml_end.endswith(f'</{element.tag}>'.encode()):
+            element.getparent().remove(element)
+
     def _parsee(self):  # pylint: disable=R0915
         """
         Performs parsing in an event driven fashion on the XML file.
@@ -3710,3 +3732,4 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         xml_truncated = b'</modeling>' not in tail
 
         self._xml_truncated = xml_truncated
+        self._xml_end = tail
-- 
2.43.0


From d3117bc82c4c837a5788a8ddf0f53110ae331480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 35/61] fix: quantities missing from the last ionic step were
 reported as empty arrays

---
 parsevasp/vasprun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 6fdb099..8186601 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1627,13 +1627,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 for calc in range(1, num_calcs):
                     basecell = calc * 3
                     basepos = calc * num_atoms
-                    if entrycell is not None:
+                    if num_entrycell > basecell:
                         cell[calc + 1] = self._convert_array2D_f(entrycell[basecell:basecell + 3], 3)
-                    if entrypos is not None:
+                    if num_entrypos > basepos:
                         pos[calc + 1] = self._convert_array2D_f(entrypos[basepos:basepos + num_atoms], 3)
-                    if entryforce is not None:
+                    if num_entryforce > basepos:
                         force[calc + 1] = self._convert_array2D_f(entryforce[basepos:basepos + num_atoms], 3)
-                    if entrystress is not None:
+                    if num_entrystress > basecell:
                         stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)
 
         # If we still only have one entry, or number two is None, last and initial should
-- 
2.43.0


From ba44b6c9f84f8ade7a232b2cbe3ee4ac8203b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 36/61] fix: density of states of specific k-points was lost
 without a regular one, and joined over ionic steps

---
 parsevasp/vasprun.py | 86 ++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 51 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8186601..9c4254a 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2087,35 +2087,6 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        # The density of states for specific k-point grids carries a comment, leave it for later
-        entries = [entry for entry in xml.findall('.//calculation/dos') if entry.attrib.get('comment') is None]
-        if not entries:
-            return None, None
-
-        # Fetch the Fermi level
-        entry = self._find(entries[-1], './i[@name="efermi"]')
-
-        if entry is not None:
-            fermi_level = self._convert_f(entry)
-        else:
-            fermi_level = None
-
-        # Spin 1
-        entry_total_ispin1 = self._findall(entries[-1], './total/array/set/set[@comment="spin 1"]/r')
-
-        # Spin 2
-        entry_total_ispin2 = self._findall(entries[-1], './total/array/set/set[@comment="spin 2"]/r')
-
-        # Partial spin 1
-        entry_partial_ispin1 = self._findall(entries[-1], './partial/array/set/set/set[@comment="spin 1"]/r')
-
-        # Partial spin 2
-        entry_partial_ispin2 = self._findall(entries[-1], './partial/array/set/set/set[@comment="spin 2"]/r')
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return None, None
-
         num_atoms = 0
         species = self._lattice['species']
         if species is None:
@@ -2126,13 +2097,36 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 return None, None
         num_atoms = species.shape[0]
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
+        # The density of states for specific k-point grids carries a comment. Its Fermi level can be different
+        entries = xml.findall('.//calculation/dos')
+        regular = [entry for entry in entries if entry.attrib.get('comment') is None]
+        specific = [entry for entry in entries if entry.attrib.get('comment') == 'interpolated']
 
-        # Now extract the density of states for specific k-point grids
-        # fetch the Fermi level again as this can be different
-        entry = self._find(xml, './/calculation/dos[@comment="interpolated"]/i[@name="efermi"]')
+        return self._fetch_dos_entry(regular, num_atoms), self._fetch_dos_entry(specific, num_atoms)
+
+    def _fetch_dos_entry(self, entries, num_atoms):
+        """
+        Fetch the density of states of the last entry.
+
+        Parameters
+        ----------
+        entries : list
+            A list of Element objects, each containing a density of states.
+        num_atoms : int
+            The number of atoms.
+
+        Returns
+        -------
+        dos : dict
+            See `_extract_dos`, or None if there is no entry.
+
+        """
+
+        if not entries:
+            return None
+
+        # Fetch the Fermi level
+        entry = self._find(entries[-1], './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -2140,35 +2134,25 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 1"]/r'
-        )
+        entry_total_ispin1 = self._findall(entries[-1], './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 2"]/r'
-        )
+        entry_total_ispin2 = self._findall(entries[-1], './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 1"]/r'
-        )
+        entry_partial_ispin1 = self._findall(entries[-1], './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 2"]/r'
-        )
+        entry_partial_ispin2 = self._findall(entries[-1], './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
-            return dos, None
+            return None
 
-        dos_specific = self._extract_dos(
+        return self._extract_dos(
             entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
         )
 
-        return dos, dos_specific
-
     def _extract_dos(
         self, entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
     ):
-- 
2.43.0


From 8c2e4cfbd6bf3c1ef8086bfb2fb780d9a9de4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:32 +0000
Subject: [PATCH 37/61] fix: a vasprun.xml that does not exist ended in an
 AttributeError

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 9c4254a..05bf487 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3674,7 +3674,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # check if file exists
             if not utils.file_exists(self._file_path, logger=self._logger):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SIZE])
-                return None
+                sys.exit(self.ERROR_NO_SIZE)
 
             # Size given in bytes, assuming it is a file and it sits in a filesystem
             file_size = os.stat(self._file_path).st_size
-- 
2.43.0


From 34855c54bd05630d5e9cecd21a337a509e20acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 38/61] fix: velocities and predictors after a blank line with
 a carriage return or tab were dropped

---
 parsevasp/poscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 5a1358b..b2acba6 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -293,7 +293,7 @@ class Poscar(BaseParser):
                 # Make sure we convert cartesian velocities to direct, also when
                 # the positions use the other kind of coordinates
                 direct = first_char == 'd'
-            elif poscar[loopmax_pos].replace(' ', '') == '\n':
+            elif not poscar[loopmax_pos].strip():
                 predictor = True
         # Now check that the next line is in fact a coordinate
         loopmax_pos = loopmax_pos + 1
@@ -323,7 +323,7 @@ class Poscar(BaseParser):
             # the velocities
             loopmax_pos = nions + loopmax_pos
             if len(poscar) > loopmax_pos:
-                if poscar[loopmax_pos].replace(' ', '') == '\n':
+                if not poscar[loopmax_pos].strip():
                     loopmax_pos = loopmax_pos + 1
                     if utils.is_number(poscar[loopmax_pos].split()[0]):
                         for i in range(nions):
-- 
2.43.0


From 0a63af97c1034d2736a650e059744fcbe4292af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 39/61] fix: EIGENVAL text with carriage returns was split at
 every line

---
 parsevasp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index d2be917..726f20e 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -388,4 +388,4 @@ def line_to_type(fobject_or_string, d_type=str, no_split=False):
     return result
 
 
-empty_line = re.compile(r'[\r\n]\s*[\r\n]')
+empty_line = re.compile(r'\n\s*\n')
-- 
2.43.0


From 1f95cc9bb34099072b244290dbc8e2a76a7d2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 40/61] fix: CHGCAR text with carriage returns was refused

---
 parsevasp/chgcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..6a39366 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -62,7 +62,7 @@ class Chgcar(BaseParser):
         """
         content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
         # Extract header
-        temp = content.split('\n\n', 1)
+        temp = utils.empty_line.split(content, 1)
         header = temp[0]
         content = temp[1]
         header = header.split('\n')
-- 
2.43.0


From d9efe98ee9d282506e500cb30cbe3bc7d98c5216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 41/61] fix: a directory given as vasprun.xml ended in an
 IsADirectoryError

---
 parsevasp/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 726f20e..d3e52ff 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -109,9 +109,7 @@ def file_exists(file_path, logger=None):
         sys.exit(BaseParser.ERROR_EMPTY_FILE_PATH)
 
     status = True
-    try:
-        os.stat(file_path)
-    except OSError:
+    if not os.path.isfile(file_path):
         logger.error(
             f'{BaseParser.ERROR_MESSAGES[BaseParser.ERROR_FILE_NOT_FOUND]} The file in question is: {file_path}'
         )
-- 
2.43.0


From 8d40f896860889cd86b5efb4690bd3593a624bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 42/61] fix: a write that fails destroyed the file already
 present

---
 parsevasp/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..25da8f6 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -1,5 +1,6 @@
 """Base class to handle VASP files."""
 # pylint: disable=consider-using-with
+import io
 import logging
 import os
 import sys
@@ -87,16 +88,19 @@ class BaseParser(ABC):  # pylint: disable=R0903
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
         if file_path:
+            # Collect the content before the file is opened, so that a file already present
+            # is not lost if the content can not be written.
+            content = io.StringIO()
+            self._write(content, **kwargs)
             # Open file
             file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
-
-        # Do the write for each specific content parser _write function using handler, also
-        # bring any extra arguments.
-        self._write(file_handler, **kwargs)
-
-        if file_path:
+            file_handler.write(content.getvalue())
             # Close file
             open_close_file_handler(file_handler=file_handler, logger=self._logger)
+        else:
+            # Do the write for each specific content parser _write function using handler, also
+            # bring any extra arguments.
+            self._write(file_handler, **kwargs)
 
     def _check_file(self, file_path=None):
         """
-- 
2.43.0


From 6805c847cd647cc2644a3d0af2cda4cbf885a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 43/61] fix: Potcar.write emptied the file it was given

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..2cd29cb 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -208,5 +208,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From fb76ef4857f7fc3ce5c33630374623646f18c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 44/61] fix: edits of a Kpoints object changed the dictionary
 and list it was given

---
 parsevasp/kpoints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 7d68e71..6966b93 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -121,8 +121,10 @@ class Kpoints(BaseParser):
             # Create dictionary from a string
             self._kpoints_dict = self._from_string()
 
-        # Ctore entries
-        self.entries = self._kpoints_dict
+        # Store entries, in containers of our own such that edits do not reach what was supplied
+        self.entries = dict(self._kpoints_dict)
+        if isinstance(self.entries.get('points'), list):
+            self.entries['points'] = list(self.entries['points'])
 
         # Validate dictionary
         self._validate()
@@ -346,7 +348,7 @@ class Kpoints(BaseParser):
             if entry == 'num_kpoints':
                 self._check_num_kpoints(num_kpoints=value)
 
-            self.entries[entry] = value
+            self.entries[entry] = list(value) if entry == 'points' else value
 
     def delete_point(self, point_number):
         """
-- 
2.43.0


From 582db29dd9f776b7cad22c973d21b9c2568d6964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 45/61] fix: a Poscar object changed the sites and lists it was
 given

---
 parsevasp/poscar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index b2acba6..f9c8cd8 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -166,11 +166,12 @@ class Poscar(BaseParser):
                     position = site.get_position()
                     velocities = site.get_velocities()
                     position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    site.set_position(position)
                     if velocities is not None:
                         velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                        site.set_velocities(velocities)
-                    site.set_direct(True)
+                    # Leave the supplied Site as it is
+                    site = Site(
+                        site.get_specie(), position, site.get_selective(), velocities, site.get_predictors(), True
+                    )
             sites.append(site)
         self._poscar_dict = dict(self._poscar_dict, sites=sites)
 
@@ -403,7 +404,7 @@ class Poscar(BaseParser):
             if entry == 'unitcell':
                 self._check_unitcell(unitcell=value)
 
-            self.entries[entry] = value
+            self.entries[entry] = list(value) if entry == 'sites' else value
 
     def delete_site(self, site_number):
         """
-- 
2.43.0


From a5eadb63e4a9d1de9c7c55f7c88d00cb33c9600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:04 +0000
Subject: [PATCH 46/61] fix: an INCAR, KPOINTS or POSCAR string was divided at
 form feeds and other separators that do not end a line

---
 parsevasp/incar.py   | 2 +-
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index b0c34a1..446ef87 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -122,7 +122,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = self._incar_string.splitlines()
+        incar = utils.read_from_file(None, io.StringIO(self._incar_string, newline=None), encoding='utf8')
         return incar
 
     def _from_list(self, incar):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 6966b93..e7e66f6 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -145,7 +145,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = self._kpoints_string.splitlines()
+        kpoints = utils.read_from_file(None, io.StringIO(self._kpoints_string, newline=None), encoding='utf8')
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f9c8cd8..d12bf2d 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -136,7 +136,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = self._poscar_string.splitlines(True)
+        poscar = utils.read_from_file(None, io.StringIO(self._poscar_string, newline=None), encoding='utf8')
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
-- 
2.43.0


From 821e6c6a41283e7518d60ff0d23aaf07eac6187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 47/61] fix: sections of several ionic steps in vasprun.xml
 were joined, refused or taken from the first step by the regular parser

---
 parsevasp/vasprun.py | 132 ++++++++++++++++++++++++++++---------------
 1 file changed, 88 insertions(+), 44 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 05bf487..151e467 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1461,8 +1461,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        entry = self._findall(xml, './/calculation/array[@name="born_charges"]/'
-                              'set/v')
+        entry = self._findall_last(xml, './/calculation/array[@name="born_charges"]', 'set/v')
 
         if entry is None:
             return None
@@ -1697,8 +1696,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        entry = self._findall(xml, './/calculation/dynmat/'
-                              'varray[@name="hessian"]/v')
+        entry = self._findall_last(xml, './/calculation/dynmat/varray[@name="hessian"]', 'v')
 
         if entry is None:
             return None
@@ -1732,8 +1730,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        entry = self._find(xml, './/calculation/dynmat/'
-                           'v[@name="eigenvalues"]')
+        entry = self._find_last(xml, './/calculation/dynmat/v[@name="eigenvalues"]')
 
         if entry is None:
             return None
@@ -1749,8 +1746,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         eigenvalues = self._convert_array_f(entry)
 
-        entry = self._find(xml, './/calculation/dynmat/'
-                           'varray[@name="eigenvectors"]')
+        entry = self._find_last(xml, './/calculation/dynmat/varray[@name="eigenvectors"]')
 
         if entry is None:
             return None
@@ -1861,12 +1857,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         """
 
         # Spin 1
-        entry_ispin1 = self._findall(xml, './/calculation/eigenvalues/array/set/'
-                                     'set[@comment="spin 1"]/set/r')
+        entry_ispin1 = self._findall_last(
+            xml, './/calculation/eigenvalues/array', 'set/'
+            'set[@comment="spin 1"]/set/r'
+        )
 
         # Spin 2
-        entry_ispin2 = self._findall(xml, './/calculation/eigenvalues/array/set/'
-                                     'set[@comment="spin 2"]/set/r')
+        entry_ispin2 = self._findall_last(
+            xml, './/calculation/eigenvalues/array', 'set/'
+            'set[@comment="spin 2"]/set/r'
+        )
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
@@ -1895,28 +1895,23 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         """
 
         # Spin 1
-        entry_ispin1 = self._findall(
+        entry_ispin1 = self._findall_last(
             xml, './/calculation/eigenvalues/'
-            'eigenvalues/array/set/'
+            'eigenvalues/array', 'set/'
             'set[@comment="spin 1"]/set/r'
         )
         # Spin 2
-        entry_ispin2 = self._findall(
+        entry_ispin2 = self._findall_last(
             xml, './/calculation/eigenvalues/'
-            'eigenvalues/array/set/'
+            'eigenvalues/array', 'set/'
             'set[@comment="spin 2"]/set/r'
         )
         if entry_ispin1 is not None:
             # Also extract the k-point grids
-            self._data['kpoints'] = self._fetch_kpointsw(
-                xml, path='.//calculation/eigenvalues/'
-                'kpoints/varray[@name="kpointlist"]/v'
-            )
-
-            self._data['kpointsw'] = self._fetch_kpointsww(
-                xml, path='//calculation/eigenvalues/'
-                'kpoints/varray[@name="weights"]/v'
-            )
+            entry = self._find_last(xml, './/calculation/eigenvalues/kpoints')
+            if entry is not None:
+                self._data['kpoints'] = self._fetch_kpointsw(entry, path='varray[@name="kpointlist"]/v')
+                self._data['kpointsw'] = self._fetch_kpointsww(entry, path='varray[@name="weights"]/v')
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
@@ -1948,16 +1943,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         """
 
         # Spin 1
-        entry_ispin1 = self._findall(
+        entry_ispin1 = self._findall_last(
             xml, './/calculation/eigenvelocities/'
-            'eigenvalues/array/set/'
+            'eigenvalues/array', 'set/'
             'set[@comment="spin 1"]/set/r'
         )
 
         # Spin 2
-        entry_ispin2 = self._findall(
+        entry_ispin2 = self._findall_last(
             xml, './/calculation/eigenvelocities/'
-            'eigenvalues/array/set/'
+            'eigenvalues/array', 'set/'
             'set[@comment="spin 2"]/set/r'
         )
 
@@ -1965,15 +1960,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None
 
-        self._data['kpoints'] = self._fetch_kpointsw(
-            xml, path='.//calculation/eigenvelocities/'
-            'kpoints/varray[@name="kpointlist"]/v'
-        )
-
-        self._data['kpointsw'] = self._fetch_kpointsww(
-            xml, path='//calculation/eigenvelocities/'
-            'kpoints/varray[@name="weights"]/v'
-        )
+        entry = self._find_last(xml, './/calculation/eigenvelocities/kpoints')
+        if entry is not None:
+            self._data['kpoints'] = self._fetch_kpointsw(entry, path='varray[@name="kpointlist"]/v')
+            self._data['kpointsw'] = self._fetch_kpointsww(entry, path='varray[@name="weights"]/v')
 
         eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
 
@@ -1997,12 +1987,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         """
 
         # Projectors spin 1
-        entry_ispin1 = self._findall(xml, './/calculation/projected/array/set/'
-                                     'set[@comment="spin1"]/set/set/r')
+        entry_ispin1 = self._findall_last(
+            xml, './/calculation/projected/array', 'set/'
+            'set[@comment="spin1"]/set/set/r'
+        )
 
         # Projectors spin 2
-        entry_ispin2 = self._findall(xml, './/calculation/projected/array/set/'
-                                     'set[@comment="spin2"]/set/set/r')
+        entry_ispin2 = self._findall_last(
+            xml, './/calculation/projected/array', 'set/'
+            'set[@comment="spin2"]/set/set/r'
+        )
 
         # If we do not find spin 1 entries return right away
         if entry_ispin1 is None:
@@ -2328,14 +2322,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['real'] = data[:, 1:7]
 
             # epsilon part
-            entry = self._findall(xml, './/calculation/varray[@name="epsilon"]/v')
+            entry = self._findall_last(xml, './/calculation/varray[@name="epsilon"]', 'v')
             if entry is not None:
                 diel['epsilon'] = self._convert_array2D_f(entry, 3)
             else:
                 diel['epsilon'] = None
 
             # ionic epsilon part
-            entry = self._findall(xml, './/calculation/varray[@name="epsilon_ion"]/v')
+            entry = self._findall_last(xml, './/calculation/varray[@name="epsilon_ion"]', 'v')
             if entry is not None:
                 diel['epsilon_ion'] = self._convert_array2D_f(entry, 3)
             else:
@@ -3658,6 +3652,56 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             return None
         return entry
 
+    def _find_last(self, xml, locator):
+        """Return the last of the requested, e.g. the one of the last ionic step that has it.
+
+        Parameters
+        ----------
+        xml : object
+            An ElementTree object to be used for parsing.
+        locator : string
+            The locator string to try.
+
+        Returns
+        -------
+        entry : object
+            An Element object if something is found, otherwise it
+            returns None.
+
+        """
+
+        entries = self._findall(xml, locator)
+
+        if entries is None:
+            return None
+        return entries[-1]
+
+    def _findall_last(self, xml, section, locator):
+        """Return the entries of the last section, e.g. of the last ionic step that has one.
+
+        Parameters
+        ----------
+        xml : object
+            An ElementTree object to be used for parsing.
+        section : string
+            The locator string of the section.
+        locator : string
+            The locator string of the entries in the section.
+
+        Returns
+        -------
+        entry : list
+            A list of Element objects if something is found, otherwise it
+            returns None.
+
+        """
+
+        entry = self._find_last(xml, section)
+
+        if entry is None:
+            return None
+        return self._findall(entry, locator)
+
     def _set_file_size(self):
         """Returns the file size of a file.
 
-- 
2.43.0


From a36153d67d50c7f29e75dcd5cc4310999a9dbc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 48/61] fix: INCAR comments of SYSTEM, MAGMOM and M_CONSTR were
 dropped

---
 parsevasp/incar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 446ef87..99139b6 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -544,7 +544,8 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                clean_comment = comment.strip() if comment is not None else None
+                return clean_tag, clean_value, clean_comment
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From e684945d9095ae490b19f26b5fc30874195375c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 49/61] fix: Born charges without species reported as a tuple

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 151e467..c9132b0 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1473,7 +1473,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None, None, None
+                return None
         num_atoms = species.shape[0]
 
         born = self._convert_array2D_f(entry, 3)
-- 
2.43.0


From 447b38b4f31e18d442dea08127d77538e8667f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 50/61] fix: absent dielectric tensors and Fermi levels raised
 a TypeError

---
 parsevasp/vasprun.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index c9132b0..e0231ab 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3022,6 +3022,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     def get_epsilon(self):
         """
         Return the """
+        if self._data['dielectrics'] is None:
+            return None
         epsilon = self._data['dielectrics']['epsilon']
         return epsilon
 
@@ -3037,6 +3039,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dielectrics'] is None:
+            return None
         epsilon_ion = self._data['dielectrics']['epsilon_ion']
         return epsilon_ion
 
@@ -3051,6 +3055,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos'] is None:
+            return None
         fermi_level = self._data['dos']['total']['fermi_level']
         return fermi_level
 
@@ -3066,6 +3072,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos_specific'] is None:
+            return None
         fermi_level_specific = self._data['dos_specific']['total']['fermi_level']
         return fermi_level_specific
 
-- 
2.43.0


From 2660eeee86c28dd3ee9613f4b398d441b07e8d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:22 +0000
Subject: [PATCH 51/61] fix: an absent version raised an AttributeError

---
 parsevasp/vasprun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index e0231ab..a5b8561 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3592,6 +3592,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         import re
 
+        if self._version is None:
+            return None
         version = self._version.strip()
         # The version entry in the xml file is typically of the form
         # X.Y.Z or X.Y.Z.something so only keep three integers and two dots
-- 
2.43.0


From 3ed9ea52310f7e3e6304e8de247ea8fda3c944db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:37 +0000
Subject: [PATCH 52/61] fix: eigenvalues without k-points raised a TypeError,
 projectors without species reported missing NBANDS

---
 parsevasp/vasprun.py | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index a5b8561..a10fcaa 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -652,7 +652,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
-                    num_kpoints = len(self._lattice['kpoints'])
+                    num_kpoints = self._count_kpoints(self._lattice['kpoints'])
                     if not data2:
                         eigenvalues, occupancies = self._extract_eigenvalues(data, None, num_kpoints)
                     else:
@@ -668,7 +668,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_eigenvalues_specific = True
 
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues_specific:
-                    num_kpoints = len(self._data['kpoints'])
+                    num_kpoints = self._count_kpoints(self._data['kpoints'])
                     if not data2:
                         eigenvalues_specific, _ = self._extract_eigenvalues(data, None, num_kpoints)
                     else:
@@ -680,7 +680,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'eigenvelocities':
                     extract_eigenvelocities = True
                 if event == 'end' and element.tag == 'eigenvelocities':
-                    num_kpoints = len(self._data['kpoints'])
+                    num_kpoints = self._count_kpoints(self._data['kpoints'])
                     if not data2:
                         eigenvelocities = self._extract_eigenvelocities(data, None, num_kpoints)
                     else:
@@ -1872,7 +1872,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None, None
 
-        eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._lattice['kpoints']))
+        num_kpoints = self._count_kpoints(self._lattice['kpoints'])
+        eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, num_kpoints)
 
         return eigenvalues, occupancies
 
@@ -1917,7 +1918,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None
 
-        eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
+        num_kpoints = self._count_kpoints(self._data['kpoints'])
+        eigenvalues, _ = self._extract_eigenvalues(entry_ispin1, entry_ispin2, num_kpoints)
 
         return eigenvalues
 
@@ -1965,7 +1967,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             self._data['kpoints'] = self._fetch_kpointsw(entry, path='varray[@name="kpointlist"]/v')
             self._data['kpointsw'] = self._fetch_kpointsww(entry, path='varray[@name="weights"]/v')
 
-        eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, len(self._data['kpoints']))
+        num_kpoints = self._count_kpoints(self._data['kpoints'])
+        eigenvelocities = self._extract_eigenvelocities(entry_ispin1, entry_ispin2, num_kpoints)
 
         return eigenvelocities
 
@@ -2410,6 +2413,28 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         #         diel_real.append([float(x) for x in energy.text.split()])
         #     return diel_imag, diel_real
 
+    def _count_kpoints(self, kpoints):
+        """
+        Return the number of k-points, which is needed to extract the entries pr. k-point.
+
+        Parameters
+        ----------
+        kpoints : ndarray
+            An array containing the k-points, or None if there are none.
+
+        Returns
+        -------
+        num_kpoints : int
+            The number of k-points.
+
+        """
+
+        if kpoints is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
+        return len(kpoints)
+
     def _extract_eigenvalues(self, spin1, spin2, num_kpoints):
         """
         Extract the eigenvalues.
@@ -2609,8 +2634,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = 0
         # Also need the number of atoms if the projected values are supplied
         if self._lattice['species'] is None:
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
-            sys.exit(self.ERROR_NO_NBANDS)
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
+            sys.exit(self.ERROR_NO_SPECIES)
         else:
             num_atoms = self._lattice['species'].shape[0]
 
-- 
2.43.0


From 91fc6a2c06abb136c8a67414b76b2ca611571de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:55 +0000
Subject: [PATCH 53/61] fix: stream entries of an unsupported kind were
 silently dropped instead of refused

---
 parsevasp/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..500d59e 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -142,6 +142,8 @@ class Stream(BaseParser):  # pylint: disable=R0902
                 if kind.upper() in VaspStream._ALLOWED_STREAMS:  # pylint: disable=W0212
                     if not kind in stream_kinds:
                         stream_kinds.append(kind)
+                else:
+                    raise ValueError(f'The kind {kind} is not supported.')
             else:
                 raise ValueError('One of the kind entries is not a string.')
         return stream_kinds
-- 
2.43.0


From 715e29112eb8ee780bc613b760f1cca7522ed564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:04 +0000
Subject: [PATCH 54/61] fix: KPOINTS dictionaries without divisions or points
 raised a KeyError

---
 parsevasp/kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index e7e66f6..f5c930e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -394,8 +394,8 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if ((self.entries.get('divisions') is None) and (self.entries.get('points') is None) and
+            (self.entries.get('generating_vectors') is None)):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
-- 
2.43.0


From 3feba669d6156201aa85536a6b0251d6cfb0d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 55/61] fix: a comment of any type was accepted by KPOINTS and
 POSCAR objects without one

---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index f5c930e..1927069 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -433,7 +433,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index d12bf2d..db57ea1 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -511,7 +511,7 @@ class Poscar(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From 4a302bb6820a5c880fd565ec382b56b7d3907847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 56/61] fix: KPOINTS lists with other objects or cartesian
 points were accepted and written as direct

---
 parsevasp/kpoints.py | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1927069..4bbec89 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -310,7 +310,7 @@ class Kpoints(BaseParser):
         # Check that entries exists
         self._check_dict()
         if point_number is not None:
-            # Check that a Kpoint() object is supplied
+            # Check that a Kpoint() object in direct coordinates is supplied
             self._check_point(value)
             # Check site number
             self._check_point_number(point_number)
@@ -322,13 +322,6 @@ class Kpoints(BaseParser):
         else:
             if entry == 'points':
                 self._check_points(points=value)
-                # Check that all points are in direct, if not,
-                # convert
-                for point in value:
-                    if not point.get_direct():
-                        point = self._to_direct(point)
-                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
-                        sys.exit(self.ERROR_CONVERSION)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'divisions':
@@ -465,32 +458,25 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'points' should be a list."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            for point in points:
+                self._check_point(point)
 
-    def _check_point(self, point=None):
+    def _check_point(self, point):
         """
-        Check that the point entry is a Kpoint() object.
+        Check that the point entry is a Kpoint() object in direct coordinates.
 
         Parameters
         ----------
-        point, optional
-            The point to be checked. If not supplied the entries under
-            the 'points' key in the 'entries' is checked.
+        point
+            The point to be checked.
 
         """
-        if point is None:
-            try:
-                points = self.entries['points']
-            except KeyError:
-                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'points'.")
-                sys.exit(self.ERROR_NO_KEY)
-            for _point in points:
-                if not isinstance(_point, Kpoint):
-                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
-                    sys.exit(self.ERROR_WRONG_OBJECT)
-        else:
-            if not isinstance(point, Kpoint):
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
-                sys.exit(self.ERROR_WRONG_OBJECT)
+        if not isinstance(point, Kpoint):
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
+            sys.exit(self.ERROR_WRONG_OBJECT)
+        if not point.get_direct():
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
+            sys.exit(self.ERROR_CONVERSION)
 
     def _check_point_number(self, point_number):
         """
-- 
2.43.0


From 8eac928809312a807e8d5f7a6d44366a54f6798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 57/61] fix: KPOINTS divisions, shifts and vectors of the wrong
 length were accepted

---
 parsevasp/kpoints.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 4bbec89..8b1e118 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -518,9 +518,9 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'shifts'.")
                 sys.exit(self.ERROR_NO_KEY)
         if shifts is not None:
-            if not isinstance(shifts, list):
+            if not isinstance(shifts, list) or len(shifts) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -576,9 +576,9 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'divisions'.")
                 sys.exit(self.ERROR_NO_KEY)
         if divisions is not None:
-            if not isinstance(divisions, list):
+            if not isinstance(divisions, list) or len(divisions) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -610,17 +610,18 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_NO_KEY)
         if generating_vectors is not None:
-            if not isinstance(generating_vectors, list):
+            if not isinstance(generating_vectors, list) or len(generating_vectors) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'generating_vectors' should be a list."
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                    "The key 'generating_vectors' should be a list of three."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
                 for vec in generating_vectors:
-                    if not isinstance(vec, list):
+                    if not isinstance(vec, list) or len(vec) != 3:
                         self._logger.error(
                             f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
-                            "The key 'generating_vectors' should be a list of lists."
+                            "The key 'generating_vectors' should be a list of lists of three."
                         )
                         sys.exit(self.ERROR_KEY_INVALID_TYPE)
                     for element in vec:
-- 
2.43.0


From fbe6949f15cb2fcf51f7f2c3793ae2168442a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 58/61] fix: a point number without a list of KPOINTS raised a
 TypeError

---
 parsevasp/kpoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 8b1e118..9a2af36 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -495,7 +495,8 @@ class Kpoints(BaseParser):
             )
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
         points = self.entries['points']
-        if point_number > (len(points) - 1):
+        # Without a list of points, any number is too large
+        if points is None or point_number > (len(points) - 1):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_TOO_LARGE_POINT_INDEX])
             sys.exit(self.ERROR_TOO_LARGE_POINT_INDEX)
 
-- 
2.43.0


From 77de0526c00a826da9ba5e87aab407fc854479ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 59/61] fix: POSCAR site lists with other objects were accepted

---
 parsevasp/poscar.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index db57ea1..e1b7b34 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -539,37 +539,25 @@ class Poscar(BaseParser):
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        for site in sites:
+            self._check_site(site)
 
-    def _check_site(self, site=None):
+    def _check_site(self, site):
         """
         Check that the site entry is a Site() object.
 
         Parameters
         ----------
-        site, optional
-            The site to be checked. If not supplied the entries under
-            the 'sites' key in the 'entries' is checked.
+        site
+            The site to be checked.
 
         """
-        if site is None:
-            try:
-                sites = self.entries['sites']
-            except KeyError:
-                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
-                sys.exit(self.ERROR_NO_KEY)
-            for _site in sites:
-                if not isinstance(_site, Site):
-                    self._logger.error(
-                        f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
-                        "The elements of the key 'sites' are not Site() objects."
-                    )
-                    sys.exit(self.ERROR_KEY_INVALID_TYPE)
-        else:
-            if not isinstance(site, Site):
-                self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'site' is not a Site() object."
-                )
-                sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        if not isinstance(site, Site):
+            self._logger.error(
+                f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                "The elements of the key 'sites' are not Site() objects."
+            )
+            sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_site_number(self, site_number):
         """
-- 
2.43.0


From ffa5db6a6b1f1eb1562aab1dd636e3d16c9feb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:13 +0000
Subject: [PATCH 60/61] fix: event parsing reported the dielectric function of
 the first ionic step instead of the last

---
 parsevasp/vasprun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index a10fcaa..d3fd477 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -308,6 +308,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         totens = {}
         dynmat = {}
         dielectrics = {}
+        dielectrics_calc = None
         _dos = {}
         _dos2 = {}
 
@@ -697,9 +698,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     _diel['energy'] = diel[0][:, 0]
                     _diel['imag'] = diel[0][:, 1:7]
                     _diel['real'] = diel[1][:, 1:7]
-                    if 'imag' not in dielectrics:
-                        # If there are more, the first is the density-density one
+                    if dielectrics_calc != calc:
+                        # If there are more in an ionic step, the first is the density-density one
                         dielectrics.update(_diel)
+                        dielectrics_calc = calc
                     data = []
                     extract_dielectrics = False
                 if event == 'start' and element.tag == 'varray' and \
-- 
2.43.0


From 338f1777ddda9c0d9f56d6a158c424ae923709b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 61/61] fix: regular parsing reported the dielectric function
 of the first ionic step instead of the last

---
 parsevasp/vasprun.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index d3fd477..b6f5584 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2305,8 +2305,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 tag = 'dielectricfunction'
 
-            # If there are more dielectric functions, the first is the density-density one
-            function = self._find(xml, './/calculation/' + tag)
+            # If there are more dielectric functions in an ionic step, the first is the density-density one
+            function = None
+            for calc in self._findall(xml, './/calculation') or []:
+                entry = self._find(calc, './' + tag)
+                function = function if entry is None else entry
 
             # imaginary part
             entry = None if function is None else self._findall(function, './imag/array/set/r')
-- 
2.43.0

