From ed43fd33ee355a0a4f605a75c24d2818dcaa8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 01/40] fix: keep MetadataPath relative with Python 3.12 and
 later

---
 dataladmetadatamodel/metadatapath.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..ccdf300 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,3 +1,4 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
@@ -14,9 +15,8 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
-            created_path = super().__new__(
-                cls,
-                "/".join(original_path.parts))
+            modified_path = "/".join(original_path.parts)
+            created_path = super().__new__(cls, modified_path)
         else:
             modified_path = "/".join(original_path.parts[1:])
             created_path = super().__new__(cls, modified_path)
@@ -25,8 +25,15 @@ class MetadataPath(PurePosixPath):
                 f"created {modified_path} instead. This is considered an error "
                 f"in the calling code.")
 
+        created_path._modified_path = modified_path
         return created_path
 
+    def __init__(self, *args):
+        # Since Python 3.12 the path is parsed from the arguments of
+        # `__init__`, up to Python 3.11 it was completed in `__new__`.
+        if sys.version_info >= (3, 12):
+            super().__init__(self._modified_path)
+
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
         return (
-- 
2.43.0


From 3e9e15927f14bab75a7b014eead7910223430a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 02/40] fix: let FileTree.add_extractor_run() create missing
 entries

---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From 4156d39118e6e94c48d5ae35b37da1c72873ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 03/40] fix: support metadata root records without
 dataset-level metadata

---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From bd51ea0b652b82e56f1666de0e332e6ead4293b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 04/40] fix: let write_out() of unloaded objects default to
 their realm

---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..e234d83 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -148,6 +148,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out: object {self} has no valid " \
                 f"reference: {self.reference}"
 
+            destination_realm = destination_realm or self.realm
             if not self.is_saved_on(destination_realm):
                 raise RuntimeError(
                     f"write_out({self}): modified object got lost "
-- 
2.43.0


From fe7f5e6dd6f443e49d3e7da2f96d8e4da5cf7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 05/40] fix: treat objects with a None-reference as saved and
 readable

---
 dataladmetadatamodel/mappableobject.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index e234d83..28f69d6 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -57,11 +57,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         # We assume that objects that carry a reference have been
         # saved in the location given by the reference.
-        super().__init__(
-            realm
-            if reference is not None and not reference.is_none_reference()
-            else None
-        )
+        super().__init__(realm if reference is not None else None)
 
         self.realm = realm
         self.reference = reference
@@ -101,6 +97,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 assert self.reference.class_name == type(self).__name__
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
+                self.mapped = True
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From 9448648bbd6dd131cde21e1eb653f3608074baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 06/40] fix: save trees that contain empty directories

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..30e9ed1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,11 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From e82ec2dcd580b505a12f0a1d5f1ad84a234e3032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 07/40] fix: return a TreeVersionList-reference when saving
 tree version lists

---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 72cf221d52b6e7e4f30a017bbc64e97db97d0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 08/40] fix: compare metadata instance sets with several
 configurations

---
 dataladmetadatamodel/metadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..4078cfe 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,11 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        return (
+            len(self._instances) == len(other._instances)
+            and all(
+                instance in other._instances.values()
+                for instance in self._instances.values()))
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From ffc74293f2c410522fcf30a32d8bb7f22bb4113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 09/40] fix: save tree entries with line breaks in their names

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 30e9ed1..f8f02c2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -80,12 +80,13 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        if '"' in input_string or '\n' in input_string:
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
                 + '"'
             )
         else:
-- 
2.43.0


From 97dd7eee7c6af9fb23016fd0517fd8cd6e59c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 10/40] fix: save empty git trees

---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..121d272 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -150,10 +150,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -161,10 +161,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From f79ffdea1d3fd2f7cafe446d31b66a2836c67b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 11/40] fix: load UUIDSet before adding version lists to it

---
 dataladmetadatamodel/uuidset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..1e4173f 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
-- 
2.43.0


From 6a0415e9d2a38a20fc9360ab78dbe3112c3141ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 12/40] fix: load text without changing its line ends

---
 .../mapper/gitmapper/gitbackend/subprocess.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 121d272..4dcf71b 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,9 +29,9 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def checked_execute_raw(arguments: Union[str, List[str]],
+                        stdin_content: Optional[Union[str, bytes]] = None
+                        ) -> Tuple[str, str]:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -45,9 +45,15 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
-    return (
-        result.stdout.decode().splitlines(),
-        result.stderr.decode().splitlines())
+    return result.stdout.decode(), result.stderr.decode()
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    stdout, stderr = checked_execute_raw(arguments, stdin_content)
+    return stdout.splitlines(), stderr.splitlines()
 
 
 def git_command_line(repo_dir: str,
@@ -65,8 +71,7 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    return checked_execute_raw(cmd_line)[0]
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From dec584fb5c6b63b71b31a2d543b07d2c0cc7dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 13/40] fix: copy the content of Text objects

---
 dataladmetadatamodel/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..3ac7858 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,6 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
         return copied_text
-- 
2.43.0


From c9462b6fc8fbee1135a1d6ba924628977b5c0954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 14/40] fix: keep the realm of an object, if writing to another
 realm fails

---
 dataladmetadatamodel/mappableobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 28f69d6..5f7e2e1 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -167,10 +167,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
+                self.realm = destination_realm
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
@@ -191,6 +190,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
         assert isinstance(self.reference, Reference), \
-- 
2.43.0


From 8fed0e77d5297db605cf89c606cc39cb330486ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 15/40] fix: detect changes of parts that were saved separately

---
 dataladmetadatamodel/mappableobject.py | 41 ++++++++++++++++++++++++--
 dataladmetadatamodel/mtreeproxy.py     |  4 +++
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 5f7e2e1..2227331 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -63,6 +64,10 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.reference = reference
         self.mapped = reference is None
 
+        # The locations of the sub-objects that the saved
+        # version of this object refers to.
+        self.saved_sub_locations: Optional[List[Optional[str]]] = None
+
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
         """
@@ -80,6 +85,28 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def _get_sub_locations(self) -> List[Optional[str]]:
+        return [
+            sub_object.reference.location
+            if sub_object.reference is not None
+            else None
+            for sub_object in self.modifiable_sub_objects
+        ]
+
+    def is_saved_on(self, destination: str) -> bool:
+        """
+        If a sub-object was modified and written out independent of
+        this object, the saved version of this object refers to an
+        outdated version of the sub-object. Therefore, this object
+        has to be considered modified as well.
+        """
+        if not super().is_saved_on(destination):
+            return False
+        return (
+            not self.mapped
+            or self.saved_sub_locations is None
+            or self.saved_sub_locations == self._get_sub_locations())
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -119,6 +146,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.saved_sub_locations = self._get_sub_locations()
 
         else:
 
@@ -183,13 +211,22 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
-        self.reference = get_mapper(
+        reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
                 self,
                 destination_realm,
                 force_write)
 
+        # The states that were saved earlier in other realms
+        # are outdated, if the object has changed.
+        if (
+                self.reference is not None
+                and self.reference.location != reference.location):
+            self.set_unsaved()
+
+        self.reference = reference
+        self.saved_sub_locations = self._get_sub_locations()
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
@@ -202,7 +239,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            if not self.is_saved_on(self.realm):
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..69b9ca5 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -47,6 +47,10 @@ class MTreeProxy:
             assert mtree.leaf_class == leaf_class
             self.mtree = mtree
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
-- 
2.43.0


From dd69bd588b7f1054df89e22e4cd503495ea5ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 16/40] fix: do not consider file trees saved, if writing them
 failed

---
 .../mapper/gitmapper/metadatamapper.py        |  6 +++
 dataladmetadatamodel/mtreeproxy.py            | 37 +++++++++++++++----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..c3b0d32 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -33,6 +33,12 @@ class MetadataGitMapper(Mapper):
         cache.flush()
         del cls.metadata_caches[realm]
 
+    @classmethod
+    def discard_realm(cls, realm: str):
+        cache = cls.metadata_caches.pop(realm, None)
+        if cache is not None:
+            cache.cached_objects = []
+
     def map_in_impl(self,
                     metadata: "Metadata",
                     realm: str,
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 69b9ca5..24de9a7 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -1,6 +1,7 @@
 from typing import (
     cast,
     Any,
+    Dict,
     Iterable,
     Optional,
     Tuple
@@ -76,18 +77,40 @@ class MTreeProxy:
         cache_destination = destination or self.mtree.realm
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
-
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+            save_states = list(self._get_save_states(self.mtree))
+
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+
+            if isinstance(self, FileTree):
+                MetadataGitMapper.flush_realm(cache_destination)
+        except BaseException:
+            # Objects whose content did not leave the write-cache
+            # are not saved, although they have been "written".
+            if isinstance(self, FileTree):
+                MetadataGitMapper.discard_realm(cache_destination)
+                for mappable_object, save_state in save_states:
+                    mappable_object.__dict__.update(save_state)
+            raise
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location)
         return reference
 
+    def _get_save_states(self,
+                         mappable_object: MappableObject
+                         ) -> Iterable[Tuple[MappableObject, Dict]]:
+
+        yield mappable_object, dict(
+            saved_on=set(mappable_object.saved_on),
+            saved_sub_locations=mappable_object.saved_sub_locations,
+            realm=mappable_object.realm,
+            reference=mappable_object.reference)
+        for sub_object in mappable_object.modifiable_sub_objects:
+            yield from self._get_save_states(sub_object)
+
     def purge(self):
         return self.mtree.purge()
 
-- 
2.43.0


From 0e06c8cce8d475d8c3495ff8bc651752d25b0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 17/40] fix: protect metadata root records in version lists
 from garbage collection

---
 .../mapper/gitmapper/versionlistmapper.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..1a496e9 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    GitReference,
+    add_blob_reference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -82,6 +85,13 @@ class VersionListGitMapper(Mapper):
             for version_record in prefix_set.values()
         ]
 
+        # Metadata root records are only referenced in the
+        # JSON-string that is saved below (dataset trees add
+        # themselves to the object references).
+        for element in json_object:
+            if element["dataset_tree"]["class_name"] == "MetadataRootRecord":
+                add_blob_reference(element["dataset_tree"]["location"])
+
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
 
-- 
2.43.0


From 98c448d46e40b99b471c4d27bd1f2132d1d68ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 18/40] fix: flush object references only to the realm they
 belong to

---
 .../mapper/gitmapper/metadatamapper.py        |  4 +-
 .../gitmapper/metadatarootrecordmapper.py     |  4 +-
 .../mapper/gitmapper/objectreference.py       | 49 ++++++++++++++-----
 .../mapper/gitmapper/versionlistmapper.py     |  4 +-
 dataladmetadatamodel/mtreeproxy.py            |  2 +-
 5 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index c3b0d32..a54d1cc 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -81,7 +81,7 @@ class MetadataGitMapper(Mapper):
         # JSON-strings that are stored in the
         # repository.
         metadata_blob_location = git_save_str(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         # Save reference. NB we don't add the metadata reference to the object
         # tree here. Our "owner" will do that if necessary. For example, the
@@ -111,7 +111,7 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..0b66b0c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -76,7 +76,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 "git",
                 force_write)
             if not file_tree_reference.is_none_reference():
-                add_tree_reference(file_tree_reference.location)
+                add_tree_reference(file_tree_reference.location, realm)
 
         if mrr.dataset_level_metadata is None:
             dataset_level_metadata_reference = Reference.get_none_reference("Metadata")
@@ -85,7 +85,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            add_blob_reference(dataset_level_metadata_reference.location)
+            add_blob_reference(dataset_level_metadata_reference.location, realm)
 
         json_object = {
             Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..a56bad1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -1,9 +1,13 @@
 import enum
 import logging
+import os
 from pathlib import Path
 from typing import (
+    Dict,
+    Optional,
     Set,
     Tuple,
+    Union,
 )
 
 from ...mapper.reference import none_location
@@ -13,7 +17,9 @@ from .utils import split_git_lstree_line
 
 logger = logging.getLogger("datalad.metalad.gitmapper.objectreference")
 
-cached_object_references: Set[Tuple[EntryType, str]] = set()
+# References that are not flushed yet, and the realms they belong to. `None`
+# stands for an unknown realm.
+cached_object_references: Dict[Tuple[EntryType, str], Set[Optional[str]]] = dict()
 
 
 class GitReference(enum.Enum):
@@ -27,14 +33,21 @@ class GitReference(enum.Enum):
 checked_legacy_stores = set()
 
 
+def _get_realm_key(realm: Optional[Union[str, Path]]) -> Optional[str]:
+    return None if realm is None else os.path.realpath(realm)
+
+
 def add_object_reference(entry_type: EntryType,
-                         object_hash: str):
+                         object_hash: str,
+                         realm: Optional[Union[str, Path]] = None):
 
     if object_hash == none_location:
         logger.warning("attempt to add a None-reference")
         return
 
-    cached_object_references.add((entry_type, object_hash))
+    cached_object_references.setdefault(
+        (entry_type, object_hash),
+        set()).add(_get_realm_key(realm))
 
 
 def add_legacy_store_entries_from(realm: Path,
@@ -52,7 +65,7 @@ def add_legacy_store_entries_from(realm: Path,
                     f"{reference.value}) to new format")
 
         for entry in legacy_entries:
-            cached_object_references.add((entry_type, entry[2]))
+            add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
         return False
@@ -90,8 +103,6 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    global cached_object_references
-
     from .gitbackend.subprocess import git_update_ref
     from ..gitmapper.treeupdater import (
         PathInfo,
@@ -102,7 +113,14 @@ def flush_object_references(realm: Path):
 
     legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)
 
-    if cached_object_references:
+    # Select all references that belong to the realm, or whose realm is unknown
+    flushed_realms = {_get_realm_key(realm), None}
+    flushed_references = [
+        reference
+        for reference, realms in cached_object_references.items()
+        if realms & flushed_realms]
+
+    if flushed_references:
         path_infos = [
             PathInfo(
                 [
@@ -113,7 +131,7 @@ def flush_object_references(realm: Path):
                 ],
                 object_hash,
                 entry_type)
-            for entry_type, object_hash in cached_object_references
+            for entry_type, object_hash in flushed_references
         ]
 
         with locked_backend(realm):
@@ -125,7 +143,10 @@ def flush_object_references(realm: Path):
             tree_hash = add_paths(realm, path_infos, root_entries)
             git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)
 
-        cached_object_references = set()
+        for reference in flushed_references:
+            cached_object_references[reference] -= flushed_realms
+            if not cached_object_references[reference]:
+                del cached_object_references[reference]
 
     if legacy_trees_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)
@@ -133,12 +154,14 @@ def flush_object_references(realm: Path):
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
 
-def add_tree_reference(object_hash: str):
-    add_object_reference(EntryType.Directory, object_hash)
+def add_tree_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.Directory, object_hash, realm)
 
 
-def add_blob_reference(object_hash: str):
-    add_object_reference(EntryType.File, object_hash)
+def add_blob_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.File, object_hash, realm)
 
 
 def remove_object_reference(*args, **kwargs):
diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 1a496e9..eb2f18b 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -90,7 +90,9 @@ class VersionListGitMapper(Mapper):
         # themselves to the object references).
         for element in json_object:
             if element["dataset_tree"]["class_name"] == "MetadataRootRecord":
-                add_blob_reference(element["dataset_tree"]["location"])
+                add_blob_reference(
+                    element["dataset_tree"]["location"],
+                    realm)
 
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 24de9a7..0c01aae 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -96,7 +96,7 @@ class MTreeProxy:
             raise
 
         if not reference.is_none_reference():
-            add_tree_reference(reference.location)
+            add_tree_reference(reference.location, cache_destination)
         return reference
 
     def _get_save_states(self,
-- 
2.43.0


From dcee4a14a82a114e6591e08f9732e1c6b37a7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 19/40] fix: reference cached metadata blobs only after they
 are stored

---
 .../mapper/gitmapper/metadatamapper.py            | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index a54d1cc..a02ebaf 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,4 +1,7 @@
-from typing import Dict
+from typing import (
+    Dict,
+    List,
+)
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
@@ -15,6 +18,10 @@ class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
 
+    # Locations of cached metadata blobs, they have to be referenced
+    # after the cache was flushed.
+    cached_locations: Dict[str, List[str]] = dict()
+
     @classmethod
     def get_cache(cls, realm: str):
         return cls.metadata_caches.get(realm, None)
@@ -32,9 +39,12 @@ class MetadataGitMapper(Mapper):
             raise RuntimeError(f"realm is not cached: {realm}")
         cache.flush()
         del cls.metadata_caches[realm]
+        for location in cls.cached_locations.pop(realm, []):
+            add_blob_reference(location, realm)
 
     @classmethod
     def discard_realm(cls, realm: str):
+        cls.cached_locations.pop(realm, None)
         cache = cls.metadata_caches.pop(realm, None)
         if cache is not None:
             cache.cached_objects = []
@@ -111,7 +121,8 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location, realm)
+        self.cached_locations.setdefault(realm, []).append(
+            metadata_blob_location)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
-- 
2.43.0


From e0f250de7602dfad7a7fef427db23ff98525cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 20/40] fix: load existing top-level objects, report failures
 to load them

---
 dataladmetadatamodel/common.py                | 24 ++++++++++++++---
 .../mapper/gitmapper/gitbackend/subprocess.py | 26 +++++++++++++++++++
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..2e6f2c0 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -39,6 +39,23 @@ def _get_uuid_set_reference(
         location)
 
 
+def _read_in_top_level_object(top_level_object):
+    """
+    Read in a top level object, return None if it does not exist
+    """
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_reference_exists)
+
+    try:
+        return top_level_object.read_in()
+    except RuntimeError:
+        if git_reference_exists(
+                top_level_object.realm,
+                top_level_object.reference.location):
+            raise
+        return None
+
+
 def get_top_level_metadata_objects(
         mapper_family: str,
         realm: Union[str, Path]
@@ -69,10 +86,9 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
-    try:
-        return tree_version_list.read_in(), uuid_set.read_in()
-    except RuntimeError:
-        return None, None
+    return (
+        _read_in_top_level_object(tree_version_list),
+        _read_in_top_level_object(uuid_set))
 
 
 def get_top_nodes_and_metadata_root_record(
diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 4dcf71b..d8d45d6 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -1,4 +1,5 @@
 import json
+import os
 import shlex
 import subprocess
 from typing import (
@@ -108,6 +109,31 @@ def git_object_exists_locally(repo_dir: str,
     return execute(cmd_line).returncode == 0
 
 
+def git_reference_exists(repo_dir: str, ref_name: str) -> bool:
+    """
+    Check whether a reference exists. Raise a RuntimeError if
+    this cannot be determined.
+    """
+    if Reference.is_remote(repo_dir):
+        cmd_line = ["git", "ls-remote", "--exit-code", repo_dir, ref_name]
+        missing_code = 2
+    else:
+        if not os.path.exists(repo_dir + "/.git"):
+            return False
+        cmd_line = git_command_line(
+            repo_dir,
+            "show-ref",
+            ["--verify", "--quiet", ref_name])
+        missing_code = 1
+
+    result = execute(cmd_line)
+    if result.returncode not in (0, missing_code):
+        raise RuntimeError(
+            f"Could not look up {ref_name} in {repo_dir} (exit code: "
+            f"{result.returncode}): {result.stderr.decode()}")
+    return result.returncode == 0
+
+
 def git_read_tree_node(repo_dir: str,
                        object_reference: str) -> List[str]:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
-- 
2.43.0


From a9df36af0c2f998d004047c0c55c60c90465337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 21/40] fix: do not drop object references, if the store cannot
 be read

---
 .../mapper/gitmapper/gitbackend/subprocess.py    |  3 ++-
 .../mapper/gitmapper/objectreference.py          | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index d8d45d6..4607272 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -118,7 +118,8 @@ def git_reference_exists(repo_dir: str, ref_name: str) -> bool:
         cmd_line = ["git", "ls-remote", "--exit-code", repo_dir, ref_name]
         missing_code = 2
     else:
-        if not os.path.exists(repo_dir + "/.git"):
+        git_dir = repo_dir + "/.git"
+        if not (os.path.isfile(git_dir) or os.path.exists(git_dir + "/HEAD")):
             return False
         cmd_line = git_command_line(
             repo_dir,
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index a56bad1..b271d25 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -54,7 +54,10 @@ def add_legacy_store_entries_from(realm: Path,
                                   reference: GitReference,
                                   entry_type: EntryType):
 
-    from .gitbackend.subprocess import git_ls_tree
+    from .gitbackend.subprocess import (
+        git_ls_tree,
+        git_reference_exists,
+    )
 
     try:
         legacy_entries = (
@@ -68,6 +71,8 @@ def add_legacy_store_entries_from(realm: Path,
             add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
+        if git_reference_exists(str(realm), reference.value):
+            raise
         return False
 
 
@@ -103,7 +108,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_reference_exists,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -138,6 +146,10 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                if git_reference_exists(
+                        str(realm),
+                        GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From d46077a06ad800c9d39889c4f0180809994db65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 22/40] fix: complete the migration of legacy reference stores
 after a failure

---
 dataladmetadatamodel/mapper/gitmapper/objectreference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index b271d25..8d68789 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -81,8 +81,6 @@ def add_legacy_store_entries(realm: Path) -> Tuple[bool, bool]:
     Add legacy store entries to the cache, if they exist
     """
     if realm not in checked_legacy_stores:
-        checked_legacy_stores.add(realm)
-
         legacy_trees_added = add_legacy_store_entries_from(
             realm,
             GitReference.LEGACY_TREES,
@@ -165,6 +163,9 @@ def flush_object_references(realm: Path):
     if legacy_blobs_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
+    # If anything fails above, the next flush has to check again
+    checked_legacy_stores.add(realm)
+
 
 def add_tree_reference(object_hash: str,
                        realm: Optional[Union[str, Path]] = None):
-- 
2.43.0


From 90a50e4ea741bf6376c351e0d9642eac0ee9335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 23/40] fix: support arbitrary paths in LocalGitMetadataSource

---
 dataladmetadatamodel/metadatasource.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..3d2a3d6 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -18,7 +18,7 @@ import logging
 import subprocess
 from copy import deepcopy
 from pathlib import Path
-from typing import IO, Optional
+from typing import IO, List, Optional
 
 from dataladmetadatamodel import (
     JSONObject,
@@ -93,10 +93,15 @@ class LocalGitMetadataSource(MetadataSource):
             and self.git_repository_path == other.git_repository_path
             and self.object_reference == other.object_reference)
 
+    def _get_read_command(self) -> List[str]:
+        return [
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference
+        ]
+
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = self._get_read_command()
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +113,13 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
+        content = subprocess.check_output(self._get_read_command())
         copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+            [
+                "git", "--git-dir", str(destination_repository / ".git"),
+                "hash-object", "-w", "--stdin"
+            ],
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 7d42c62627cf9869e52849ccaa9ed34566a6534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 24/40] fix: share backend locks between path spellings, but
 not with forked processes

---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 1afff10..7ece833 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -30,11 +30,15 @@ class LockState:
 
 
 def _get_lock_state(lock_dict: dict, lock_dir: Path) -> LockState:
-    if lock_dir not in lock_dict:
-        lock_dict[lock_dir] = LockState(
+    # Different spellings of a path have to share a lock state, because the
+    # process would give up the file lock as soon as one of them is unlocked.
+    # Forked processes must not share it, they do not inherit the file lock.
+    key = (os.getpid(), os.path.realpath(lock_dir))
+    if key not in lock_dict:
+        lock_dict[key] = LockState(
             0,
             InterProcessLock(str(lock_dir / GIT_MAPPER_LOCK_FILE_NAME)))
-    return lock_dict[lock_dir]
+    return lock_dict[key]
 
 
 @contextmanager
-- 
2.43.0


From 0c8f600466929e425022ccc9ef5c6eefef6a450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 25/40] fix: keep version lists and dataset trees in agreement
 after reloading

---
 dataladmetadatamodel/common.py | 36 ++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 2e6f2c0..48a732e 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -157,6 +157,30 @@ def get_top_nodes_and_metadata_root_record(
     return tree_version_list, uuid_set, metadata_root_record
 
 
+def _link_stored_element(version_list: VersionList,
+                         primary_data_version: str,
+                         prefix_path: MetadataPath,
+                         metadata_root_record: MetadataRootRecord):
+    """
+    If the version list entry and the metadata root record represent the same
+    stored object, let the version list use the metadata root record. That
+    ensures that later changes to the metadata root record are not only visible
+    in the dataset tree, but also in the version list.
+    """
+    version_record = version_list._get_version_record(
+        primary_data_version,
+        prefix_path)
+
+    element = version_record.element
+    if (
+            element is not metadata_root_record
+            and isinstance(element, MetadataRootRecord)
+            and element.realm == metadata_root_record.realm
+            and element.is_saved_on(element.realm)
+            and element.reference == metadata_root_record.reference):
+        version_record.element = metadata_root_record
+
+
 def get_metadata_root_record_from_top_nodes(
         tree_version_list: TreeVersionList,
         uuid_set: UUIDSet,
@@ -239,6 +263,12 @@ def get_metadata_root_record_from_top_nodes(
                 time_stamp=str(time.time()),
                 prefix_path=prefix_path,
                 element=root_mrr)
+        else:
+            _link_stored_element(
+                root_uuid_version_list,
+                root_dataset_version,
+                prefix_path,
+                root_mrr)
 
         prefix_path = MetadataPath("")
     else:
@@ -285,5 +315,11 @@ def get_metadata_root_record_from_top_nodes(
             time_stamp=str(time.time()),
             prefix_path=prefix_path,
             element=metadata_root_record)
+    else:
+        _link_stored_element(
+            uuid_version_list,
+            primary_data_version,
+            prefix_path,
+            metadata_root_record)
 
     return metadata_root_record
-- 
2.43.0


From 81df6c109ba781e91422f395b4864443acb19e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 26/40] fix: do not create version list entries on look-up
 without auto_create

---
 dataladmetadatamodel/common.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 48a732e..be08615 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -258,11 +258,12 @@ def get_metadata_root_record_from_top_nodes(
             root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))
 
         if (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
-            root_uuid_version_list.set_versioned_element(
-                primary_data_version=root_dataset_version,
-                time_stamp=str(time.time()),
-                prefix_path=prefix_path,
-                element=root_mrr)
+            if auto_create:
+                root_uuid_version_list.set_versioned_element(
+                    primary_data_version=root_dataset_version,
+                    time_stamp=str(time.time()),
+                    prefix_path=prefix_path,
+                    element=root_mrr)
         else:
             _link_stored_element(
                 root_uuid_version_list,
@@ -310,11 +311,12 @@ def get_metadata_root_record_from_top_nodes(
             dataset_tree_path)
 
     if (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
-        uuid_version_list.set_versioned_element(
-            primary_data_version=primary_data_version,
-            time_stamp=str(time.time()),
-            prefix_path=prefix_path,
-            element=metadata_root_record)
+        if auto_create:
+            uuid_version_list.set_versioned_element(
+                primary_data_version=primary_data_version,
+                time_stamp=str(time.time()),
+                prefix_path=prefix_path,
+                element=metadata_root_record)
     else:
         _link_stored_element(
             uuid_version_list,
-- 
2.43.0


From 2fa3cad137c60b45c790bfd2c96abd5641f8ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 27/40] fix: protect copied trees from garbage collection

---
 dataladmetadatamodel/mtreeproxy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 0c01aae..64ec95c 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -122,9 +122,16 @@ class MTreeProxy:
                  new_destination: Optional[str] = None,
                  **kwargs) -> "MTreeProxy":
 
-        return type(self)(self.mtree.deepcopy(new_mapper_family,
-                          new_destination,
-                          **kwargs))
+        copied_mtree = self.mtree.deepcopy(new_mapper_family,
+                                           new_destination,
+                                           **kwargs)
+
+        # The copy is saved, but not by `write_out` of this class
+        if not copied_mtree.reference.is_none_reference():
+            add_tree_reference(
+                copied_mtree.reference.location,
+                copied_mtree.realm)
+        return type(self)(copied_mtree)
 
     def get_paths_recursive(self,
                             show_intermediate: Optional[bool] = False
-- 
2.43.0


From 5cd4d221e6e083a647afa81de38cd841118a6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 28/40] fix: keep the save state of metadata root records when
 loading them

---
 .../mapper/gitmapper/metadatarootrecordmapper.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 0b66b0c..c1d0a6f 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -50,14 +50,14 @@ class MetadataRootRecordGitMapper(Mapper):
         else:
             file_tree = FileTree(realm=realm, reference=file_tree_reference)
 
-        MetadataRootRecord.__init__(
-            metadata_root_record,
-            UUID(json_object[Strings.DATASET_IDENTIFIER]),
-            json_object[Strings.DATASET_VERSION],
-            metadata,
-            file_tree,
-            realm=realm,
-            reference=reference)
+        # Do not touch the save state of the metadata root record, it
+        # might be saved on other realms as well.
+        metadata_root_record.dataset_identifier = UUID(
+            json_object[Strings.DATASET_IDENTIFIER])
+        metadata_root_record.dataset_version = json_object[
+            Strings.DATASET_VERSION]
+        metadata_root_record.dataset_level_metadata = metadata
+        metadata_root_record._file_tree = file_tree
 
     def map_out_impl(self,
                      mrr: "MetadataRootRecord",
-- 
2.43.0


From de5e77966c6d81d14d6e9e0d4c0f69f3bda6bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 29/40] fix: record the sub-locations of objects that are read
 from a None-reference

Without that, an empty tree that held empty directories when it was written
was considered to be modified after loading it again.
---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 2227331..aad5179 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -125,6 +125,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
                 self.mapped = True
+                self.saved_sub_locations = self._get_sub_locations()
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From 8e372a38887dfd9c9b30b40c27f2f6465aecece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 30/40] fix: load version lists before counting their entries

An unloaded version list reported zero entries.
---
 dataladmetadatamodel/versionlist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..86ff388 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
-- 
2.43.0


From ce37da669a6a524b15f61b5ecde01c9c12261cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 31/40] fix: load version lists and UUID sets before ungetting
 their elements

unget_versioned_element() and unget_version_list() of an unloaded object
raised a KeyError for existing elements.
---
 dataladmetadatamodel/uuidset.py     | 1 +
 dataladmetadatamodel/versionlist.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 1e4173f..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -61,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index 86ff388..5dd1a76 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -188,7 +188,9 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
-        version_record = self.version_set[primary_data_version][prefix_path]
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
         version_record.element.write_out(new_destination)
         version_record.element.purge()
 
-- 
2.43.0


From 973fe899454e3e6b4501df9a10e5f069b1b3ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 32/40] fix: save tree entries with names that are not valid
 UTF-8

---
 .../mapper/gitmapper/gitbackend/subprocess.py                | 5 ++++-
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py     | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 4607272..7a47e6c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -187,7 +187,10 @@ def git_save_tree_node(repo_dir: str,
         for flag, node_type, object_hash, name in entry_set
     ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
-    return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
+    # Names that are not valid in the file system encoding contain surrogates
+    return checked_execute(
+        cmd_line,
+        stdin_content=tree_spec.encode("utf-8", "surrogateescape"))[0][0]
 
 
 def git_save_tree(repo_dir: str,
diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index f8f02c2..0998bf4 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -30,7 +30,8 @@ class MTreeNodeGitMapper(Mapper):
         for line in lines:
             flag, node_type, hash_value, name = split_git_lstree_line(line)
             if name.startswith('"'):
-                name = codecs.escape_decode(name[1:-1])[0].decode("utf-8")
+                name = codecs.escape_decode(
+                    name[1:-1])[0].decode("utf-8", "surrogateescape")
 
             if node_type == "tree":
                 child = MTreeNode(
-- 
2.43.0


From c375dc3c47ecd2f5b3fb0f59bae895471c9f9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 33/40] fix: update existing tree entries whose names git
 prints quoted

---
 dataladmetadatamodel/mapper/gitmapper/treeupdater.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/treeupdater.py b/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
index bcd108b..3262814 100644
--- a/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
+++ b/dataladmetadatamodel/mapper/gitmapper/treeupdater.py
@@ -9,6 +9,7 @@ This is mainly used by the object reference system to efficiently store object
 references, by using prefixes of the object-hashes as "directory names", i.e. as
 tree reference names.
 """
+import codecs
 import logging
 from dataclasses import dataclass
 from enum import Enum
@@ -23,6 +24,7 @@ from typing import (
 
 from .gitbackend.subprocess import git_read_tree_node
 from .gitbackend.subprocess import git_save_tree_node
+from .mtreenodemapper import MTreeNodeGitMapper
 from .utils import split_git_lstree_line
 
 
@@ -50,7 +52,9 @@ class DirEntry:
         else:
             flag = "100644"
             entry_type = "blob"
-        return flag, entry_type, self.object_hash, self.name
+        # Names are unquoted when they are read
+        name = MTreeNodeGitMapper.escape_double_quotes(self.name)
+        return flag, entry_type, self.object_hash, name
 
 
 @dataclass
@@ -137,6 +141,9 @@ def _get_dir(repo: Path, object_hash: str) -> List:
     result = []
     for entry in git_read_tree_node(str(repo), object_hash):
         _, object_type, object_hash, name = split_git_lstree_line(entry)
+        if name.startswith('"'):
+            name = codecs.escape_decode(
+                name[1:-1])[0].decode("utf-8", "surrogateescape")
         result.append(
             DirEntry(
                 type=EntryType.File
-- 
2.43.0


From b3903498a05a91afb89e18e8155f51ff1f784633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 34/40] fix: refuse metadata references to objects of other
 classes

---
 dataladmetadatamodel/mapper/gitmapper/metadatamapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index a02ebaf..5100d27 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -62,6 +62,10 @@ class MetadataGitMapper(Mapper):
         reference = Reference.from_json_str(
             git_load_str(realm, meta_reference.location))
 
+        assert reference.class_name == self.class_name, \
+            f"Stored reference class name ({reference.class_name}) " \
+            f"does not match self.class_name ({self.class_name})"
+
         metadata.init_from_json(
             git_load_str(realm, reference.location))
 
-- 
2.43.0


From caaffac665f4dfe26d69103a908e64b683fa31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 35/40] fix: complete a remote cache whose creation was
 interrupted

---
 dataladmetadatamodel/mapper/gitmapper/localcache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/localcache.py b/dataladmetadatamodel/mapper/gitmapper/localcache.py
index a1c6532..86c4faf 100644
--- a/dataladmetadatamodel/mapper/gitmapper/localcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/localcache.py
@@ -30,8 +30,11 @@ def get_repo_cache_path(remote_repo: str) -> Path:
 
 
 def ensure_cache_exists(remote_repo: str):
+    # The directory `objects/info` is the last one that is created by
+    # `git init`. If it does not exist, the creation of the cache might
+    # have been interrupted. Repeating `git init` completes it.
     cache_path = get_repo_cache_path(remote_repo)
-    if not cache_path.exists():
+    if not (cache_path / ".git" / "objects" / "info").exists():
         git_init(str(cache_path))
 
 
-- 
2.43.0


From ce2955a36a91981c6afca31da2c8c704120ffd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:23 +0000
Subject: [PATCH 36/40] fix: load metadata before comparing or serialising it

---
 dataladmetadatamodel/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 4078cfe..238d092 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -239,6 +239,8 @@ class Metadata(MappableObject):
         self.instance_sets: Dict[str, MetadataInstanceSet] = dict()
 
     def __eq__(self, other):
+        self.ensure_mapped()
+        other.ensure_mapped()
         return self.instance_sets == other.instance_sets
 
     @staticmethod
@@ -292,6 +294,7 @@ class Metadata(MappableObject):
         self.instance_sets[extractor_name] = instance_set
 
     def to_json(self) -> str:
+        self.ensure_mapped()
         return json.dumps({
             "@": dict(
                 type="Metadata",
-- 
2.43.0


From 0857dc7a4e070e2c9dc3224d3051932140eefd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:33 +0000
Subject: [PATCH 37/40] fix: keep listed elements part of the tree that lists
 them

---
 dataladmetadatamodel/mtreenode.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dataladmetadatamodel/mtreenode.py b/dataladmetadatamodel/mtreenode.py
index 6c83f9f..ee7beaf 100644
--- a/dataladmetadatamodel/mtreenode.py
+++ b/dataladmetadatamodel/mtreenode.py
@@ -7,10 +7,7 @@ from typing import (
     Union,
 )
 
-from dataladmetadatamodel.mappableobject import (
-    MappableObject,
-    ensure_mapped,
-)
+from dataladmetadatamodel.mappableobject import MappableObject
 from dataladmetadatamodel.metadatapath import MetadataPath
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -177,14 +174,17 @@ class MTreeNode(MappableObject):
         if show_intermediate:
             yield MetadataPath(""), self
 
-        with ensure_mapped(self):
-            for child_name, child_node in self.child_nodes.items():
-                if not isinstance(child_node, MTreeNode):
-                    yield MetadataPath(child_name), child_node
-                else:
-                    for sub_path, tree_node in child_node.get_paths_recursive(
-                            show_intermediate):
-                        yield MetadataPath(child_name) / sub_path, tree_node
+        # Keep the node mapped. If it was purged after the iteration,
+        # the yielded objects would not be part of the tree anymore,
+        # and changes to them would get lost.
+        self.ensure_mapped()
+        for child_name, child_node in self.child_nodes.items():
+            if not isinstance(child_node, MTreeNode):
+                yield MetadataPath(child_name), child_node
+            else:
+                for sub_path, tree_node in child_node.get_paths_recursive(
+                        show_intermediate):
+                    yield MetadataPath(child_name) / sub_path, tree_node
 
     @staticmethod
     def is_root_path(path: MetadataPath) -> bool:
-- 
2.43.0


From 3be4a4df7c2b6b31d7318d44fedb43068af4c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 38/40] fix: do not forget where loaded parts are saved

---
 dataladmetadatamodel/mappableobject.py | 6 ++++++
 dataladmetadatamodel/mtreeproxy.py     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index aad5179..f081080 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -149,6 +149,12 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             self.mapped = True
             self.saved_sub_locations = self._get_sub_locations()
 
+            # If the object is saved on other realms as well, its
+            # sub-objects are saved there too.
+            for sub_object in self.modifiable_sub_objects:
+                for saved_on_realm in self.saved_on:
+                    sub_object.set_saved_on(saved_on_realm)
+
         else:
 
             logger.debug(
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 64ec95c..aaa5ef8 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -114,6 +114,9 @@ class MTreeProxy:
     def purge(self):
         return self.mtree.purge()
 
+    def set_saved_on(self, destination: str):
+        self.mtree.set_saved_on(destination)
+
     def is_saved_on(self, destination: str):
         return self.mtree.is_saved_on(destination)
 
-- 
2.43.0


From 42dd28e5150ed31372fe2f3bd1c20f88464ef2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 39/40] fix: keep unknown dataset identifiers and versions when
 saving metadata root records

---
 .../gitmapper/metadatarootrecordmapper.py       | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index c1d0a6f..bfe9cad 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -52,8 +52,11 @@ class MetadataRootRecordGitMapper(Mapper):
 
         # Do not touch the save state of the metadata root record, it
         # might be saved on other realms as well.
-        metadata_root_record.dataset_identifier = UUID(
-            json_object[Strings.DATASET_IDENTIFIER])
+        dataset_identifier = json_object[Strings.DATASET_IDENTIFIER]
+        metadata_root_record.dataset_identifier = (
+            UUID(dataset_identifier)
+            if dataset_identifier is not None
+            else None)
         metadata_root_record.dataset_version = json_object[
             Strings.DATASET_VERSION]
         metadata_root_record.dataset_level_metadata = metadata
@@ -88,8 +91,14 @@ class MetadataRootRecordGitMapper(Mapper):
             add_blob_reference(dataset_level_metadata_reference.location, realm)
 
         json_object = {
-            Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
-            Strings.DATASET_VERSION: str(mrr.dataset_version),
+            Strings.DATASET_IDENTIFIER: (
+                str(mrr.dataset_identifier)
+                if mrr.dataset_identifier is not None
+                else None),
+            Strings.DATASET_VERSION: (
+                str(mrr.dataset_version)
+                if mrr.dataset_version is not None
+                else None),
             Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),
             Strings.FILE_TREE: file_tree_reference.to_json_obj()}
 
-- 
2.43.0


From 95d15f3c68c46c2ff0772719c57e21e8f240750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:30 +0000
Subject: [PATCH 40/40] fix: save metadata if runs were added to the instance
 set of an extractor

Metadata.extractor_runs_for_extractor() and Metadata.extractor_runs give access
to instance sets. Adding an instance to such a set did not mark the metadata as
modified, and the change was lost, if the metadata had been saved before.
---
 dataladmetadatamodel/metadata.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 238d092..b8a0edf 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -146,6 +146,7 @@ class MetadataInstanceSet:
 
         self.parameter_set = list()
         self._instances = dict()
+        self.addition_count = 0
         for metadata_instance in initial_metadata_instances or []:
             self.add_metadata_instance(metadata_instance)
 
@@ -157,6 +158,7 @@ class MetadataInstanceSet:
             self.parameter_set.append(metadata_instance.configuration)
         instance_key = self.parameter_set.index(metadata_instance.configuration)
         self._instances[instance_key] = metadata_instance
+        self.addition_count += 1
 
     @property
     def instances(self) -> Dict:
@@ -254,6 +256,23 @@ class Metadata(MappableObject):
     def modifiable_sub_objects_impl(self) -> Iterable[MappableObject]:
         return []
 
+    def is_saved_on(self, destination: str) -> bool:
+        # Instance sets are no mappable objects, but instances can be
+        # added to them independent of this object. If that happened
+        # since this object was saved, this object is modified.
+        if (
+                self.mapped
+                and self.saved_sub_locations is not None
+                and self.saved_sub_locations != self._get_sub_locations()):
+            self.touch()
+        return super().is_saved_on(destination)
+
+    def _get_sub_locations(self) -> List[Tuple[str, int]]:
+        return [
+            (extractor_name, instance_set.addition_count)
+            for extractor_name, instance_set in self.instance_sets.items()
+        ]
+
     @property
     def extractors(self) -> Generator[str, None, None]:
         self.ensure_mapped()
-- 
2.43.0

