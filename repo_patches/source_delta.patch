From 695fb23014efbf6ce3b307db548781dfc46148fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 01/69] fix: check all elements of content paths that include
 line breaks

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..aff2957 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -554,7 +554,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.fullmatch(r"""(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From b0663e7a419f7592bbdf56407cc01f379e8a2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 02/69] fix: detect conflicts of paths with any parent
 directory, not just the immediate one

---
 ocfl/inventory_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index aff2957..ab3842f 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def all_directories(directories):
+    """Set of the given directory paths and all of their parent directories."""
+    paths = set()
+    for directory in directories:
+        elements = directory.split("/")
+        for n in range(1, len(elements) + 1):
+            paths.add("/".join(elements[0:n]))
+    return paths
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -294,7 +304,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in all_directories(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -487,7 +497,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in all_directories(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
-- 
2.43.0


From 3afcec8520bd1c9c0f428a147956b70b2ec31b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 03/69] fix: accept only the exact inventory type URI in
 validation

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index ab3842f..3137b80 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -145,7 +145,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
-- 
2.43.0


From 4ca53988c6df8381619dcbe8087157ac23604f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 04/69] fix: do not accept a line break after the timezone of
 created

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 3137b80..c742543 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -435,7 +435,7 @@ class InventoryValidator():
                 created = versions[v]["created"]
                 try:
                     str_to_datetime(created)  # catch ValueError if fails
-                    if not re.search(r"""(Z|[+-]\d\d:\d\d)$""", created):  # FIXME - kludge
+                    if not re.search(r"""(Z|[+-]\d\d:\d\d)\Z""", created):  # FIXME - kludge
                         self._error("E049a", version=v)
                     if not re.search(r"""T\d\d:\d\d:\d\d""", created):  # FIXME - kludge
                         self._error("E049b", version=v)
-- 
2.43.0


From a90b9f4ddac41f65e1a1b0d883e676da01b65bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:31 +0000
Subject: [PATCH 05/69] fix: do not accept a line break at the end of a digest

---
 ocfl/inventory_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index c742543..a67dec3 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -286,7 +286,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -338,7 +338,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -481,7 +481,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From b47590c62608fd124a637a7feaa189c3d288ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 06/69] fix: accept only ASCII digits in created datetimes

---
 ocfl/w3c_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..b7d8b9f 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -102,7 +102,7 @@ def str_to_datetime(s, context="datetime"):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+                 r"(\d\d):(\d\d))?$", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From 7e799c3b7636e2d3db91de23e7047538b873a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 07/69] fix: report a root inventory type that does not match
 the object declaration

---
 ocfl/validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..75dcf33 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -162,6 +162,9 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
+            if len(namastes) > 0 and inv_validator.spec_version != self.spec_version:
+                # The root inventory type must match the object declaration
+                self.log.error("E038a", where="root", expected="https://ocfl.io/" + self.spec_version + "/spec/#inventory", got=inventory["type"])
             inventory_is_valid = self.log.num_errors == 0
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
-- 
2.43.0


From dd5070abaa67d2d90b01953523e668fd4df8ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 08/69] fix: report a content directory first set after the
 first version's inventory

---
 ocfl/validator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 75dcf33..34371d2 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -345,6 +345,7 @@ class Validator():
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
                 if first_version:
+                    first_version = None  # only the first inventory found
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
-- 
2.43.0


From 9d92a18d9a052a59350f40598fda3d1a563de455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 09/69] fix: report an inventory that is not a JSON object
 instead of raising

---
 ocfl/inventory_validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index a67dec3..cb2fe3d 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -124,6 +124,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="inventory is not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
-- 
2.43.0


From aeb7f7a317d9c74dd60d909f777f9a53f399c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 10/69] fix: report a digestAlgorithm that is not a string with
 lax digests

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index cb2fe3d..f192731 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -160,7 +160,7 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
-        elif self.lax_digests:
+        elif self.lax_digests and isinstance(inventory["digestAlgorithm"], str):
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
             self._warning("W004")
-- 
2.43.0


From 3e3d197a7c4b24212d35b7457c8d001c73a8427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 11/69] fix: report manifest content paths that are not strings
 instead of raising

---
 ocfl/inventory_validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index f192731..bf0c988 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -303,6 +303,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E042a", path=file)
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
-- 
2.43.0


From 5958eb549505112697bb76f742fb6390c9ca8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 12/69] fix: report a version block that is not a JSON object
 instead of raising

---
 ocfl/inventory_validator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index bf0c988..f7c3507 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -433,6 +433,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E048", version=v)
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
-- 
2.43.0


From 4677b5aa6825838fe3ed05e30055f16d7ddc499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 13/69] fix: report logical paths that are not strings instead
 of raising

---
 ocfl/inventory_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index f7c3507..317adc2 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -496,7 +496,9 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E052", version=version, path=path)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-- 
2.43.0


From 53605994e8c17e93f16e64bb36f19d2f8ab433bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 14/69] fix: report fixity paths that are not strings or lack a
 manifest instead of raising

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 317adc2..3456f9e 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -360,7 +360,7 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if not isinstance(file, str) or manifest_files is None or file not in manifest_files:
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
-- 
2.43.0


From c2598d9c86353baf074180e2e589ddbff924566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:05 +0000
Subject: [PATCH 15/69] fix: do not raise for state digests of an inventory
 without manifest

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 3456f9e..0634442 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -102,7 +102,7 @@ class InventoryValidator():
         self.content_directory_set = False
         self.all_versions = []
         self.manifest_files = None
-        self.unnormalized_digests = None
+        self.unnormalized_digests = set()
         self.head = "UNKNOWN"
 
     def validate(self, inventory, force_spec_version=None):
-- 
2.43.0


From eeffa091d2d01cc9ae012ff49939bc4343ed6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 16/69] fix: do not compare an invalid prior version inventory
 with the root inventory

---
 ocfl/validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 34371d2..7eb006a 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -336,11 +336,15 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                start_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == start_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
                 self.inventory_digest_files[version_dir] = "inventory.json." + digest_algorithm
+                if not version_inventory_is_valid:
+                    continue  # cannot rely on its structure for any further checks
                 if self.id and "id" in version_inventory:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-- 
2.43.0


From 2b67f35fd2376fddcbe97634413e78b972766a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 17/69] fix: do not compare prior version inventories with an
 invalid root inventory

---
 ocfl/validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 7eb006a..e1542da 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -161,12 +161,14 @@ class Validator():
             self.log.error("E063")
             return False
         try:
+            start_errors = self.log.num_errors
             inventory, inv_validator = self.validate_inventory(inv_file)
+            if self.log.num_errors == start_errors:
+                self.root_inv_validator = inv_validator
             if len(namastes) > 0 and inv_validator.spec_version != self.spec_version:
                 # The root inventory type must match the object declaration
                 self.log.error("E038a", where="root", expected="https://ocfl.io/" + self.spec_version + "/spec/#inventory", got=inventory["type"])
             inventory_is_valid = self.log.num_errors == 0
-            self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
-- 
2.43.0


From 003e1dfc6a10b4a8b6ef6ae2c75557ab88732e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 18/69] fix: report an inventory that cannot be read or decoded
 instead of raising

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index e1542da..c195998 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -210,7 +210,7 @@ class Validator():
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (OSError, ValueError, RecursionError) as e:
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
-- 
2.43.0


From eed3285c1ce2f062664b96467b58436d6bb19e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 19/69] fix: report a declaration that cannot be read or
 decoded instead of raising

---
 ocfl/namaste.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..0d11478 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,7 +122,7 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (OSError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
-- 
2.43.0


From 979cd26bd7c258151c3f1d729c1fb589d37ef351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 20/69] fix: report an inventory digest file that cannot be
 read instead of raising

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index c195998..0d22f55 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -243,7 +243,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != digest_recorded:
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (OSError, ValueError) as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
-- 
2.43.0


From 1f2db66acc88833ec94f63cc8829df8eded011af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 21/69] fix: report too many declarations instead of raising

---
 ocfl/validator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 0d22f55..2499a72 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -17,7 +17,7 @@ from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, normalized_digest
 from .inventory_validator import InventoryValidator
-from .namaste import find_namastes
+from .namaste import find_namastes, NamasteException
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
 from .validation_logger import ValidationLogger
 
@@ -130,7 +130,11 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
+        try:
+            namastes = find_namastes(0, fsw=self.obj_fs)
+        except NamasteException:
+            self.log.error("E003b", files="too many", using_version=self.spec_version)
+            return False
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-- 
2.43.0


From cc56177d2f5b9c8654d1fcf0d4a500269ab069d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 22/69] fix: do not raise for unknown digest algorithms allowed
 with lax digests

---
 ocfl/validator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2499a72..b779695 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -474,7 +474,10 @@ class Validator():
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
                         if self.check_digests:
-                            content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            try:
+                                content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            except ValueError as e:  # unknown algorithm
+                                content_digest = str(e)
                             if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
                             known_digests = {self.digest_algorithm: content_digest}
@@ -508,7 +511,10 @@ class Validator():
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
                 else:
-                    content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    try:
+                        content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    except ValueError:  # unknown algorithm, only with lax_digests
+                        continue
                     known_digests[digest_algorithm] = content_digest
                 for digest in additional_digests[filepath][digest_algorithm]:
                     if content_digest != normalized_digest(digest, digest_type=digest_algorithm):
-- 
2.43.0


From 9b37f1feb32349c29ebe2cfc6ca71adc01522612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 23/69] fix: do not let errors of previously validated objects
 affect the verdict

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index b779695..f94d508 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        object_start_errors = self.log.num_errors
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -172,7 +173,7 @@ class Validator():
             if len(namastes) > 0 and inv_validator.spec_version != self.spec_version:
                 # The root inventory type must match the object declaration
                 self.log.error("E038a", where="root", expected="https://ocfl.io/" + self.spec_version + "/spec/#inventory", got=inventory["type"])
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == object_start_errors
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
@@ -188,7 +189,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == object_start_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
-- 
2.43.0


From d5def20512bb79beafe32b75a229d588ca7e4b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 24/69] fix: recognize registered extensions in an object's
 extensions directory

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index f94d508..0b6a1d2 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -296,7 +296,7 @@ class Validator():
         extensions.
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
-            name = entry["name"]
+            name = os.path.relpath(entry["name"], "extensions")
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
-- 
2.43.0


From ffb1b462d92b6079a1b3b8a4761853cce7773882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 25/69] fix: add descriptions of the error codes E011 and E092

---
 ocfl/data/validation-errors.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..172a8cc 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -94,6 +94,12 @@
        "en": "OCFL Object %s inventory versions block includes an out-of-sequence version"
     }
   },
+  "E011": {
+    "params": ["where"],
+    "description": {
+       "en": "OCFL Object %s inventory versions block includes more versions than the zero padding permits"
+    }
+  },
   "E015": {
     "params": ["where", "entry"],
     "description": {
@@ -587,6 +593,12 @@
        "en": "OCFL Object %s inventory manifest file list for digest %s is not a JSON array"
     }
   },
+  "E092": {
+    "params": ["where", "digest"],
+    "description": {
+       "en": "OCFL Object %s inventory manifest block value for digest %s is not a JSON list"
+    }
+  },
   "E092a": {
     "params": ["where", "digest_algorithm", "digest", "content_path", "content_digest"],
     "description": {
-- 
2.43.0


From 7b64f6aa76c83e38ea5fa4a0610de5f88bbf4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 26/69] fix: correct parameters in the descriptions of E070b
 and E070c

---
 ocfl/data/validation-errors.json | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 172a8cc..493acbb 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -537,15 +537,15 @@
     }
   },
   "E070b": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
       "en": "OCFL Storage Root %s has an ocfl_layout.json file that isn't a JSON object"
     }
   },
   "E070c": {
-    "params": ["root", "message"],
+    "params": ["root"],
     "description": {
-      "en": "OCFL Storage Root %s Storage root %s has layout file doesn't have required extension and description string entries"
+      "en": "OCFL Storage Root %s has layout file that doesn't have required extension and description string entries"
     }
   },
   "E071": {
-- 
2.43.0


From d0b3765e1902cb7a2a0c28ed9b6cc9234976af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:58 +0000
Subject: [PATCH 27/69] fix: report a storage root of another version than
 expected as such

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..1d3c022 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -247,7 +247,7 @@ class StorageRoot():
             raise StorageRootException("E069c", root=self.root,
                                        namaste_file=namastes[0].filename)
         if self.spec_version is not None and self.spec_version != spec_version:
-            raise StorageRootException("E069c", root=self.root,
+            raise StorageRootException("E069d", root=self.root,
                                        declared_spec_version=spec_version,
                                        expected_spec_version=self.spec_version)
         self.spec_version = spec_version
-- 
2.43.0


From 735436ff524e01de879e5128ddd4ae9c35fc98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 28/69] fix: report a storage root with invalid objects as
 invalid

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1d3c022..bb0dd46 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -453,7 +453,7 @@ class StorageRoot():
             return False
         self.log.spec_version = self.spec_version
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
-        if self.num_traversal_errors > 0:
+        if self.num_traversal_errors > 0 or self.good_objects < self.num_objects:
             valid = False
         return valid
 
-- 
2.43.0


From 40f5f781ed57a6b646ed1c1d6c6e69d16a1ec3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 29/69] fix: do not let traversal errors of a previous storage
 root validation affect the verdict

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index bb0dd46..6106597 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -443,6 +443,7 @@ class StorageRoot():
             - self.log: ValidationLogger object with any traversal errors
         """
         valid = True
+        self.num_traversal_errors = 0
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
         self.open_root_fs()
         try:
-- 
2.43.0


From bebfd00836faaec94d0d01ebd64a2602999dddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 30/69] fix: write inventory sidecar with the digest algorithm
 of the inventory

---
 ocfl/object.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..fbce55d 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -250,8 +250,11 @@ class Object():  # pylint: disable=too-many-public-methods
         if inventory is not None:
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        digest_algorithm = self.digest_algorithm
+        if inventory is not None and inventory.digest_algorithm is not None:
+            digest_algorithm = inventory.digest_algorithm
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From 601ae2fbca9a3d0a5e909b31f81dbaa831be6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 31/69] fix: keep manifest entry when renaming the only logical
 path of new content

---
 ocfl/new_version.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..ffebb67 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -379,14 +379,13 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
-            raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        # The content is still used, so only the state changes
+        for logical_paths in inventory.current_version.state.values():
+            if old_logical_path in logical_paths:
+                logical_paths.remove(old_logical_path)
+                logical_paths.append(new_logical_path)
+                return
+        raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
-- 
2.43.0


From f0411a2e1f90a5402e3ce6254f245a01e9a8c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 32/69] fix: do not copy files, or leave empty manifest
 entries, for content deleted again from a new version

---
 ocfl/inventory.py   | 5 ++++-
 ocfl/new_version.py | 8 ++++++--
 ocfl/object.py      | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..e59508d 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -792,7 +792,10 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
+                        if len(cpaths) > 0:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
                     # FIXME - Also adjust fixity!
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index ffebb67..265b224 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
@@ -364,6 +364,10 @@ class NewVersion():
             inventory.current_version.delete_logical_path(logical_path)
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
+        # Content files that have now been dropped must not be copied
+        used = inventory.content_paths
+        self.files_to_copy = {content_path: src_path for content_path, src_path in self.files_to_copy.items()
+                              if content_path in used}
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
diff --git a/ocfl/object.py b/ocfl/object.py
index fbce55d..060ef7b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -320,7 +320,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -370,7 +370,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -534,7 +534,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 0cb4110c17c2e2d5f1dd0576de9e37d50752cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 33/69] fix: keep the specification version of an object when
 building and adding versions

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 060ef7b..5b813dd 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -307,6 +307,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                               content_path_normalization=self.content_path_normalization)
             else:
                 nv = NewVersion.next_version(inventory=inventory,
+                                             spec_version=self.spec_version,
                                              srcdir=os.path.join(srcdir, vdir),
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
@@ -508,6 +509,7 @@ class Object():  # pylint: disable=too-many-public-methods
                 inventory.version(vdir).state = state
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
+                                       spec_version=inventory.spec_version,
                                        srcdir=srcdir,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
-- 
2.43.0


From a2ad2c30495928d9e584602eca367f4f90f41235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 34/69] fix: include a state block in a first version without
 files

---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 265b224..a5be207 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -140,7 +140,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From 7f392ccdfc73520ed0b39561a51b3b75c0ca6f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 35/69] fix: do not write versions without a created time

---
 ocfl/object.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5b813dd..d987a8a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -22,6 +22,7 @@ from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs,
 from .namaste import Namaste
 from .validator import Validator, ValidatorAbortException
 from .version_metadata import VersionMetadata
+from .w3c_datetime import datetime_to_str
 
 
 class Object():  # pylint: disable=too-many-public-methods
@@ -360,6 +361,8 @@ class Object():  # pylint: disable=too-many-public-methods
                                       content_path_normalization=self.content_path_normalization)
         # Add content, everything in srcdir
         nv.add_from_srcdir()
+        if nv.created is None:
+            nv.created = datetime_to_str()
         inventory = nv.inventory
         # If objdir is not set then don't write anything, just return inventory
         if objdir is None:
@@ -529,6 +532,8 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        if new_version.created is None:
+            new_version.created = datetime_to_str()
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-- 
2.43.0


From f93a1dbe01418352f8edcaf4aec4577710fca36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 36/69] fix: keep content when a version is added without a
 source directory

---
 ocfl/new_version.py | 3 ++-
 ocfl/object.py      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index a5be207..e165421 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -46,7 +46,8 @@ class NewVersion():
         # Additional state needed for final commit
         self.old_digest_algorithm = None
         self.files_to_copy = {}  # dict: content_path -> src_path
-        self.src_fs = fsw_openfs(self.srcdir)
+        if self.srcdir is not None:
+            self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
     def first_version(cls, *,
diff --git a/ocfl/object.py b/ocfl/object.py
index d987a8a..8a8879b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -405,7 +405,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
-- 
2.43.0


From 8a7c5753e5b3f8e74a4ad04a5aeea38688ce7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 37/69] fix: start a new version on the open object filesystem
 if objdir is not given

---
 ocfl/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 8a8879b..0265405 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -448,7 +448,10 @@ class Object():  # pylint: disable=too-many-public-methods
             finally be added with write_new_version()
         """
         # Check the current object
-        self.open_obj_fs(objdir)
+        if objdir is None:
+            objdir = self.obj_fs
+        else:
+            self.open_obj_fs(objdir)
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
         if not validator.validate_object(objdir):
             raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
-- 
2.43.0


From 53f768034c463e0ebee0e58d4f6a03994e17619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 38/69] fix: do not create objects over an existing directory

---
 ocfl/object.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0265405..3383895 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -122,7 +122,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if path is not None:
             self.open_obj_fs(path, create=create)
 
-    def open_obj_fs(self, objdir, create=False):
+    def open_obj_fs(self, objdir, create=False, exists_ok=True):
         """Open an fs filesystem for this object.
 
         Arguments:
@@ -131,6 +131,8 @@ class Object():  # pylint: disable=too-many-public-methods
                 ``zip://.../zipfile.zip`` or ``mem://``)
             create (bool): True to create path/filesystem as needed, defaults
                 to False
+            exists_ok (bool): if False then it is an error if the path to
+                create already exists, defaults to True
 
         Raises:
             ocfl.ObjectException: on failure to open filesystem
@@ -138,8 +140,8 @@ class Object():  # pylint: disable=too-many-public-methods
         Sets obj_fs attribute with the filesystem instance
         """
         try:
-            self.obj_fs = fsw_openfs(fs_url=objdir, create=create)
-        except FileNotFoundError as e:
+            self.obj_fs = fsw_openfs(fs_url=objdir, create=create, exists_ok=exists_ok)
+        except (FileNotFoundError, FswException) as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
@@ -290,7 +292,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
+            self.open_obj_fs(objdir, create=True, exists_ok=False)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -368,7 +370,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self.open_obj_fs(objdir, create=True, exists_ok=False)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
-- 
2.43.0


From 61f6f2ce3bee41013bac76809c1cdc288641cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 39/69] fix: check sources before anything is written when
 building an object

---
 ocfl/object.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3383895..4e1fb1b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -291,14 +291,17 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
-        if objdir is not None:
-            self.open_obj_fs(objdir, create=True, exists_ok=False)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
+        versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
+        if len(versions) == 0:
+            raise ObjectException("No version directories in source %s, nothing to build!" % (srcdir))
+        if objdir is not None:
+            self.open_obj_fs(objdir, create=True, exists_ok=False)
         inventory = None
         # Create each version of the object
-        for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+        for (vdir, metadata) in versions:
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -322,7 +325,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From 69bc5a6cf1c1a0b01e4c732b76c93fe61db0c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 40/69] fix: write the root inventory of a new object last, and
 remove an old sidecar only after the new one is written

---
 ocfl/object.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4e1fb1b..39ef734 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -375,12 +375,12 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write out v1 object
         self.open_obj_fs(objdir, create=True, exists_ok=False)
         self.write_inventory_and_sidecar(inventory, "v1")
-        # Write object root with object declaration, inventory and sidecar
-        self.write_object_declaration()
-        self.write_inventory_and_sidecar(inventory)
         # Write version files
         for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
+        # Write object root with object declaration, inventory and sidecar
+        self.write_object_declaration()
+        self.write_inventory_and_sidecar(inventory)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
 
@@ -542,10 +542,6 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = new_version.inventory
         if new_version.created is None:
             new_version.created = datetime_to_str()
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -554,6 +550,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From e810a0a549ae903b2e7e2b705408454e2f675619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 41/69] fix: refuse unsafe or conflicting content paths and
 logical paths in a new version

---
 ocfl/new_version.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index e165421..fb8bcef 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -284,6 +284,24 @@ class NewVersion():
             vfilepath = make_unused_filepath(vfilepath, used)
         return vfilepath
 
+    def _check_path(self, path, existing_paths):
+        """Check that path is safe and does not conflict with existing paths.
+
+        Arguments:
+            path (str): content path or logical path to check
+            existing_paths (list): of paths that already exist
+
+        Raises:
+            NewVersionException: if the path has bad path elements, or if it
+                would be both a file and a directory
+        """
+        for element in path.split("/"):
+            if element in ("", ".", ".."):
+                raise NewVersionException("Bad path %s, must not include empty, '.' or '..' path elements" % (path))
+        for existing_path in existing_paths:
+            if existing_path.startswith(path + "/") or path.startswith(existing_path + "/"):
+                raise NewVersionException("Bad path %s, conflicts with existing path %s" % (path, existing_path))
+
     def add(self, src_path, logical_path, content_path=None, src_path_has_prefix=False):  # pylint: disable=unused-argument
         """Add a file to the new version.
 
@@ -316,10 +334,12 @@ class NewVersion():
         elif content_path in inventory.content_paths:
             raise NewVersionException("Bad content path %s, already exists!"
                                       % (content_path))
+        self._check_path(content_path, inventory.content_paths)
         logging.debug("add(%s %s %s)", src_path, content_path, logical_path)
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        self._check_path(logical_path, inventory.current_version.logical_paths)
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -384,6 +404,8 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
+        self._check_path(new_logical_path,
+                         [path for path in inventory.current_version.logical_paths if path != old_logical_path])
         # The content is still used, so only the state changes
         for logical_paths in inventory.current_version.state.values():
             if old_logical_path in logical_paths:
-- 
2.43.0


From 0d559bf4dfb86d08a5add9a50d0770c7022c5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:24 +0000
Subject: [PATCH 42/69] fix: handle copies with the same digest when changing
 digest algorithm

---
 ocfl/object.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 39ef734..5ff24eb 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -508,15 +508,15 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
-                new_manifest[digest] = manifest[old_digest]
+                                              (files[0], file, digest_algorithm, digest, d))
+                new_manifest.setdefault(digest, []).extend(files)
             manifest = new_manifest
             # Now update all state blocks
             for vdir in inventory.version_directories:
                 old_state = inventory.version(vdir).state
                 state = {}
                 for old_digest, files in old_state.items():
-                    state[old_to_new_digest[old_digest]] = old_state[old_digest]
+                    state.setdefault(old_to_new_digest[old_digest], []).extend(files)
                 inventory.version(vdir).state = state
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
-- 
2.43.0


From 5671848006daf7a069595899119f46c4c37db9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:12 +0000
Subject: [PATCH 43/69] fix: do not overwrite an existing file when extracting
 one file, nor create the destination if there is nothing to extract

---
 ocfl/object.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5ff24eb..5edf9e4 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -777,29 +777,22 @@ class Object():  # pylint: disable=too-many-public-methods
         exist.
         """
         inv, version = self._extract_setup(objdir, version)
+        # Find the specified file
+        digest = inv.version(version).digest_for_logical_path(logical_path)
+        if digest is None:
+            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
+        existing_file = inv.manifest[digest][0]  # First entry with the digest, there could be > 1
         # Check the destination
         try:
             dst_fs = fsw_openfs(dstdir, create=True)
         except FileNotFoundError as e:
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
-        # Now extract...
         basename = os.path.basename(logical_path)
-        manifest = inv.manifest
-        state = inv.version(version).state
-        # Extract the specified file
-        copied = False
-        for (digest, logical_files) in state.items():
-            existing_file = manifest[digest][0]  # First entry with the digest, there could be > 1
-            for logical_file in logical_files:
-                if logical_file == logical_path:
-                    logging.debug("Copying %s -> %s", digest, basename)
-                    fsw_copyfile(self.obj_fs, existing_file, dst_fs, basename)
-                    copied = True
-                    break
-            if copied:
-                break
-        else:
-            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
+        if dst_fs.exists(basename):
+            raise ObjectException("Destination file %s already exists in %s, aborting!" % (basename, dstdir))
+        # Now extract...
+        logging.debug("Copying %s -> %s", digest, basename)
+        fsw_copyfile(self.obj_fs, existing_file, dst_fs, basename)
         return VersionMetadata(inventory=inv, version=version)
 
     def parse_inventory(self):
-- 
2.43.0


From eb6c78bc78f329fd9f8ad930849762313d377a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 44/69] fix: do not raise when listing a storage root with an
 unregistered extension

---
 ocfl/storage_root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 6106597..95f7634 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -351,7 +351,10 @@ class StorageRoot():
             name = entry["name"]
             if entry["type"] == "directory":
                 if os.path.relpath(name, "extensions") not in self.registered_extensions:
-                    self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
+                    if self.log is None:
+                        logging.warning("Storage root includes unregistered extension directory %s", name)
+                    else:
+                        self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
 
-- 
2.43.0


From f086dd5cf75b8a0c0cc451b001fd12f2cbf03811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 45/69] fix: recognize the layout name written for the tuple
 tree layout

---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From 7bdb15ae763d202413b39ead9d8c6596b040b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 46/69] fix: initialize a storage root with the specification
 version set on construction

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 95f7634..90350e6 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -99,8 +99,8 @@ class StorageRoot():
         Sets self.spec_version to spec_version if given and good,
         otherwise to the default.
         """
-        if spec_version is None and self.spec_version is None:
-            spec_version = default
+        if spec_version is None:
+            spec_version = default if self.spec_version is None else self.spec_version
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From c88ea34a2dc1ed92756a2fd7569fd88c4845d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 47/69] fix: report bad layout parameters instead of failing

---
 ocfl/layout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..3d66e38 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -196,6 +196,8 @@ class Layout:
         Finally, the check_full_config method is called to check anything that
         might required all of the configuration to be known.
         """
+        if not isinstance(config, dict):
+            raise LayoutException("Storage root extension config is not a JSON object")
         # Check the extensionName if required and/or specified
         if "extensionName" not in config:
             if require_extension_name:
@@ -203,7 +205,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From a6651c0c466a2ccdea50dea6200c62c34bd7ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 48/69] fix: do not accept booleans as numbers in layout
 parameters

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 4 ++--
 ocfl/layout_nnnn_tuple_tree.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..81b0e7e 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -110,7 +110,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("tupleSize parameter must be aninteger between 0 and 32 inclusive")
         self.tuple_size = value
 
@@ -134,7 +134,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("numberOfTuples parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("numberOfTuples parameter must be aninteger between 0 and 32 inclusive")
         self.number_of_tuples = value
 
diff --git a/ocfl/layout_nnnn_tuple_tree.py b/ocfl/layout_nnnn_tuple_tree.py
index 1b26994..ce98aa9 100644
--- a/ocfl/layout_nnnn_tuple_tree.py
+++ b/ocfl/layout_nnnn_tuple_tree.py
@@ -57,7 +57,7 @@ class Layout_NNNN_Tuple_Tree(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 2 or value > 6:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 2 or value > 6:
             raise LayoutException("tupleSize parameter must be an integer between 2 and 6 inclusive")
         self.tuple_size = value
 
-- 
2.43.0


From e9c24d56ee16abc74529ac587abe55ee9c7a4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 49/69] fix: do not accept a line break at the end of an
 identifier in the UUID layout

---
 ocfl/layout_nnnn_uuid_quadtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..cc1ad43 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -84,7 +84,7 @@ class Layout_NNNN_UUID_Quadtree(Layout):
             identifier = identifier[len(self.prefix):]
         else:
             raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})\Z""", identifier)
         if not match:
             raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
-- 
2.43.0


From 92fe3c41093f1d1719cb2de97227ec173c5f0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 50/69] fix: refuse identifiers . and .. in the flat quoted
 layout

---
 ocfl/layout_nnnn_flat_quoted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..d147733 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -29,6 +29,6 @@ class Layout_NNNN_Flat_Quoted(Layout):
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From 6f45b50235055cf0f0de6c647493915ba1cc0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 51/69] fix: report a storage root without layout when an
 object path is needed

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 90350e6..999bc9a 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -172,6 +172,8 @@ class StorageRoot():
         if self.layout is None:
             self.open_root_fs()
             self.check_root_structure()
+        if self.layout is None:
+            raise StorageRootException("Storage root %s has no layout, cannot work out an object path" % (self.root))
         return self.layout.identifier_to_path(identifier)
 
     def initialize(self, spec_version=None, layout_params=None):
-- 
2.43.0


From 4b2e58535167d1fd52c8e1c1e8596b9240efffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 52/69] fix: report a storage root layout configuration that
 cannot be used instead of raising

---
 ocfl/storage_root.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 999bc9a..ad7e2a5 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -9,7 +9,8 @@ import os.path
 import re
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
-from .namaste import find_namastes, Namaste
+from .layout import LayoutException
+from .namaste import find_namastes, Namaste, NamasteException
 from .object import Object
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
@@ -235,7 +236,10 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        try:
+            namastes = find_namastes(0, fsw=self.root_fs)
+        except NamasteException:  # too many
+            raise StorageRootException("E069b", root=self.root)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
@@ -266,7 +270,10 @@ class StorageRoot():
             else:
                 logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
-            self.layout.read_layout_params(root_fs=self.root_fs)
+            try:
+                self.layout.read_layout_params(root_fs=self.root_fs)
+            except LayoutException as e:
+                raise StorageRootException("E070a", root=self.root, message="%s (%s)" % (self.layout_name, str(e)))
         # Other files are allowed...
         return True
 
-- 
2.43.0


From 5865b1df4391a73a0279d1db59c478dec14a1945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 53/69] fix: do not take an object declaration with trailing
 text for a good one

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index ad7e2a5..edf5431 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -330,7 +330,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)\Z""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
-- 
2.43.0


From 096469209c8e32c13df8368298b46b838d99815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 54/69] fix: do not place an object inside another object or in
 the extensions directory

---
 ocfl/storage_root.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index edf5431..471ebe9 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -470,6 +470,28 @@ class StorageRoot():
             valid = False
         return valid
 
+    def check_object_location(self, path):
+        """Check that a new object can be placed at the given path.
+
+        Arguments:
+            path (str): path of new object relative to the storage root
+
+        Raises:
+            StorageRootException: if there is something at path already, if it
+                is within the extensions directory or if any directory above it
+                has files in it (for example because it is an object).
+        """
+        if self.root_fs.exists(path):
+            raise StorageRootException("Add object failed because destination path %s already exists" % (path))
+        if path.split("/")[0] == "extensions":
+            raise StorageRootException("Add object failed because destination path %s is in the extensions directory" % (path))
+        parent = os.path.dirname(path)
+        while parent != "":
+            if self.root_fs.exists(parent):
+                if not self.root_fs.isdir(parent) or any(entry["type"] != "directory" for entry in self.root_fs.listdir(parent, detail=True)):
+                    raise StorageRootException("Add object failed because destination path %s is within an object or file at %s" % (path, parent))
+            parent = os.path.dirname(parent)
+
     def add(self, object_path):
         """Add pre-constructed object from object_path.
 
@@ -490,8 +512,7 @@ class StorageRoot():
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
-        if self.root_fs.exists(path):
-            raise StorageRootException("Add object failed because destination path %s already exists" % (path))
+        self.check_object_location(path)
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
         try:
             # Recusive copy of object to path in self.root_fs
-- 
2.43.0


From 98036573ba61b48e119d8e7ef89265539ef0d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 55/69] fix: use the layout of the storage root even if another
 was used before

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 471ebe9..fd94723 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -263,6 +263,7 @@ class StorageRoot():
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
             self.layout_name, self.layout_description = self.parse_layout_file()
+            self._layout = None  # Layout of this root, not any used before
             if not layout_is_supported(self.layout_name):
                 raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
             if self.layout.NAME == self.layout_name:
-- 
2.43.0


From bea84eb04049bc96880140001f788287e054363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 56/69] fix: list objects whose inventory cannot be read or
 parsed

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5edf9e4..3a3cba8 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -830,5 +830,5 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             inventory = self.parse_inventory()
             return inventory.id
-        except ObjectException:
+        except (ObjectException, OSError, ValueError, RecursionError):
             return failure_value
-- 
2.43.0


From 8dd3b0fb912316ad8191037aee2f7c17055a21f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 57/69] fix: do not take directories for Namaste files

---
 ocfl/namaste.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 0d11478..7770db4 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -43,10 +43,11 @@ def find_namastes(d, dir="", fsw=None, limit=10):
     prefix = str(d) + "="
     if fsw is not None:
         # fsw.listdir include dir path in results
-        filenames = fsw_listdir_names(fsw, dir)
+        filenames = [f for f in fsw_listdir_names(fsw, dir)
+                     if f.startswith(prefix) and not fsw.isdir(os.path.join(dir, f))]
     else:
-        filenames = os.listdir(dir)
-    filenames = [f for f in filenames if f.startswith(prefix)]
+        filenames = [f for f in os.listdir(dir)
+                     if f.startswith(prefix) and not os.path.isdir(os.path.join(dir, f))]
     if len(filenames) > limit:
         raise NamasteException("Found too many Namaste files with tag %s in %s" % (d, dir))
     return [Namaste(d, tvalue=filename[len(prefix):]) for filename in sorted(filenames)]
-- 
2.43.0


From a5911ec16a54c59a7536378ab0dd3983c6422466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:36 +0000
Subject: [PATCH 58/69] fix: raise a layout exception for identifiers the UUID
 layout cannot handle

---
 ocfl/layout_nnnn_uuid_quadtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index cc1ad43..dc804cb 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
         match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})\Z""", identifier)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From cc6298cf3d59fef64beb3ebb5222db6fadb2f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:22 +0000
Subject: [PATCH 59/69] fix: do not give the empty identifier an object path in
 layout 0003

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 81b0e7e..c3f0e69 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -183,7 +183,13 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
             then it is tuncated at 100 characters and then "-" and the digest
             appended (so it would be 165 chars with sha256).
         6. The encapsulation directory name is joined to the end of the path.
+
+        Raises:
+            LayoutException: if the identifier is blank, there would be no name
+            for the encapsulation directory
         """
+        if identifier == "":
+            raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return _id_to_path(identifier=identifier,
                            digest_algorithm=self.digest_algorithm,
                            tuple_size=self.tuple_size,
-- 
2.43.0


From dccd499ef2ce90183e6b65aa71ef2275cb48c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:15 +0000
Subject: [PATCH 60/69] fix: accept inventory digest files for algorithms with
 hyphens and upper case digests

---
 ocfl/validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 0b6a1d2..fb0ba98 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -240,13 +240,13 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
                 digest_recorded = self.read_inventory_digest(inv_digest_file)
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
-                if digest_actual != digest_recorded:
+                if digest_actual != normalized_digest(digest_recorded, digest_type=digest_algorithm):
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
             except (OSError, ValueError) as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
-- 
2.43.0


From ee3cd48baea6f99b0f5ac952d88dbf9635fa2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:15 +0000
Subject: [PATCH 61/69] fix: read inventories with digest algorithms allowed by
 lax_digests

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3a3cba8..30d1a84 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -808,7 +808,7 @@ class Object():  # pylint: disable=too-many-public-methods
         with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
             inventory = Inventory(json.load(fh))
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
-- 
2.43.0


From 987c79d8d5d83649e17b676b4c57bc3d39a5132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:15 +0000
Subject: [PATCH 62/69] fix: refuse to write objects whose inventory would not
 be valid

---
 ocfl/object.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 30d1a84..e18e2c2 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -270,6 +270,22 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         return self.write_inventory_and_sidecar(inventory=None)
 
+    def _check_inventory(self, inventory):
+        """Check that inventory to be written would be valid.
+
+        Settings such as the identifier, digest algorithm, content directory
+        or version metadata might not be allowed by the specification.
+
+        Arguments:
+            inventory (ocfl.Inventory): inventory to be checked
+
+        Raises:
+            ocfl.ObjectException: if the inventory is not valid
+        """
+        iv = InventoryValidator(lax_digests=self.lax_digests)
+        if not iv.validate(inventory=inventory.data):
+            raise ObjectException("Inventory would not be valid (%d errors), aborting" % iv.log.num_errors)
+
     def build(self, srcdir, versions_metadata=None, objdir=None):
         """Build an OCFL object with multiple versions.
 
@@ -296,10 +312,9 @@ class Object():  # pylint: disable=too-many-public-methods
         versions = list(self.version_dirs_and_metadata(src_fs, versions_metadata))
         if len(versions) == 0:
             raise ObjectException("No version directories in source %s, nothing to build!" % (srcdir))
-        if objdir is not None:
-            self.open_obj_fs(objdir, create=True, exists_ok=False)
         inventory = None
-        # Create each version of the object
+        to_write = []
+        # Assemble each version of the object
         for (vdir, metadata) in versions:
             if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
@@ -325,12 +340,17 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, inventory.head)
+                # Later versions will change the inventory
+                to_write.append((nv, copy.deepcopy(inventory)))
+        if objdir is not None:
+            self._check_inventory(inventory)
+            self.open_obj_fs(objdir, create=True, exists_ok=False)
+            for (nv, version_inventory) in to_write:
+                self.write_inventory_and_sidecar(version_inventory, version_inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-        # Finally populate the object root
-        if objdir is not None:
+            # Finally populate the object root
             # Write object declaration, inventory and sidecar
             self.write_object_declaration()
             self.write_inventory_and_sidecar(inventory)
@@ -373,6 +393,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
+        self._check_inventory(inventory)
         self.open_obj_fs(objdir, create=True, exists_ok=False)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write version files
@@ -542,6 +563,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = new_version.inventory
         if new_version.created is None:
             new_version.created = datetime_to_str()
+        self._check_inventory(inventory)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-- 
2.43.0


From 1000ab884e6c5043b4e17a671c678c3a177fe7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:55 +0000
Subject: [PATCH 63/69] fix: absolute paths of local files can be opened and
 digested

With no filesystem given, fsw_openfile and fsw_readtext opened paths relative
to the current directory even if they are absolute, so that for example
ocfl-object create --metadata /some/where/inventory.json failed.
---
 ocfl/fsw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..bb0c832 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -303,7 +303,7 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
-    fs = _fsw_or_local(fs)
+    fs = LocalFileSystem() if fs is None else fs
     return fs.open(filepath, mode, **kwargs)
 
 
@@ -318,7 +318,7 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
+    fs = LocalFileSystem() if fs is None else fs
     with fs.open(filepath, "r") as fh:
         text = fh.read()
     return text
-- 
2.43.0


From d0394ade0dae38259874f4f5dad7e16be647631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:56 +0000
Subject: [PATCH 64/69] fix: form of sha512-spec-ex digests

file_digest gives 15 characters, ... and 3 characters, but only 6, ... and 3 were accepted.
---
 ocfl/digest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/digest.py b/ocfl/digest.py
index 2e99656..0c829a6 100755
--- a/ocfl/digest.py
+++ b/ocfl/digest.py
@@ -100,7 +100,7 @@ DIGEST_REGEXES = {
     "blake2b-384": r"""^[0-9a-fA-F]{96}$""",
     "blake2b-256": r"""^[0-9a-fA-F]{64}$""",
     "blake2b-160": r"""^[0-9a-fA-F]{40}$""",
-    "sha512-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$""",
+    "sha512-spec-ex": r"""^[0-9a-f]{15}\.\.\.[0-9a-f]{3}$""",
     "sha256-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$"""
 }
 
-- 
2.43.0


From 3b5138990ee3e630e168633a04ee8e7a336b6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:19 +0000
Subject: [PATCH 65/69] fix: exit status of ocfl-object.py validate tells of an
 invalid object

---
 ocfl-object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..9ad7160 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -191,7 +191,8 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        if not validate_object(obj, objdir=args.objdir):
+            sys.exit(1)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
-- 
2.43.0


From b21bb11b21c5dff86753a84e6664a3f4db8c6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:19 +0000
Subject: [PATCH 66/69] fix: exit status of ocfl-root.py validate tells of an
 invalid storage root

---
 ocfl-root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..e3c85ab 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -107,6 +107,8 @@ def validate(store, args):
       validate_objects - True to validate each object in tree
       check_digests - True to check all digests for each object
       max_error - Maximum number of error to show
+
+    Returns True if everything checked is valid, False otherwise.
     """
     valid = store.validate(log_warnings=not args.quiet,
                            validate_objects=args.validate_objects,
@@ -128,6 +130,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -157,7 +160,8 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        if not validate(store, args):
+            sys.exit(1)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
-- 
2.43.0


From f7673bfff32644351f60a7336db060e5713180f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:19 +0000
Subject: [PATCH 67/69] fix: ocfl-root.py validate --max_errors takes a number

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index e3c85ab..9a45649 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", type=int, default=100,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
-- 
2.43.0


From d4569f69f686ed397087704a4594ea867084b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:19 +0000
Subject: [PATCH 68/69] fix: ocfl-root.py commands that do nothing fail

---
 ocfl-root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl-root.py b/ocfl-root.py
index 9a45649..2256f16 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -169,6 +169,7 @@ def do_store_operation(args):
         print("Added object %s at path %s" % (identifier, path))
     elif args.cmd == "purge":
         logging.error("purge not implemented")
+        sys.exit(1)
     elif args.cmd in ("show", "path", "validate_object"):
         if not args.id:
             raise ocfl.StorageRootException("Must specify id to act on an object in the store")
@@ -185,8 +186,10 @@ def do_store_operation(args):
                 logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
             else:
                 logging.error("validate not implemented")
+                sys.exit(1)
     else:
         logging.error("Unrecognized command!")
+        sys.exit(1)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5ce3760e15878abb47c049f61a25eaf79dc0ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:13 +0000
Subject: [PATCH 69/69] fix: ocfl-root.py show looks for the object inside the
 storage root

---
 ocfl-root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 2256f16..294e3d5 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -183,7 +183,7 @@ def do_store_operation(args):
         else:
             obj = ocfl.Object(identifier=args.id)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
+                logging.warning("Object tree\n%s", obj.tree(objdir=os.path.join(store.root, objdir)))
             else:
                 logging.error("validate not implemented")
                 sys.exit(1)
-- 
2.43.0

