From a372be370903b11536d62489fe124148ec345312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 01/41] fix: apigear export fails when the output directory
 exists

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index df72495..09bbb93 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -508,7 +508,7 @@ def cli(
     log.info("Generating ApiGear output...")
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
-        return
+        exit(1)
     output_dir.mkdir(exist_ok=True, parents=True)
 
     layers = {}
-- 
2.43.0


From 94c473c8351ceb17f1d6835260baf51600acf912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 02/41] fix: overlay of an entry changes other entries sharing
 its YAML alias

---
 src/vss_tools/vspec/vspec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index a36ef8c..e2764c9 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -58,6 +58,8 @@ def deep_update(base: dict[str, Any], update: dict[str, Any]) -> None:
     for key, value in update.items():
         if isinstance(value, dict):
             if key in base and isinstance(base[key], dict):
+                # YAML aliases share one mapping between several entries
+                base[key] = dict(base[key])
                 deep_update(base[key], value)
             else:
                 base[key] = value
-- 
2.43.0


From 558be8119e7d849cda35e745fe7c85b061254636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 03/41] fix: further types files do not redefine existing types

---
 src/vss_tools/vspec/main.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..1afdc1f 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -119,10 +119,9 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
             log.error(f"Types model has orphans\n{orphans}")
             exit(1)
         if types_root:
-            node: VSSNode
-            for node in PreOrderIter(root):
-                if not types_root.connect(node.get_fqn(), node):
-                    raise MultipleTypeTreesException()
+            if root.get_fqn() != types_root.get_fqn():
+                raise MultipleTypeTreesException()
+            types_root.merge(root)
         else:
             types_root = root
 
-- 
2.43.0


From a6a1aeaf337e152b5f7137abe4aff0b8b51e9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 04/41] fix: keep the instance marker when an instance gets its
 own definition

---
 src/vss_tools/vspec/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..8974956 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -129,7 +129,8 @@ class VSSNode(Node):  # type: ignore[misc]
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
         self_data = self.data.as_dict(exclude_fields=["fqn"])
-        other_data = other.data.as_dict(exclude_fields=["fqn"])
+        # Whether a node has been created from an instance is not up to "other"
+        other_data = other.data.as_dict(exclude_fields=["fqn", "is_instance"])
 
         deep_update(self_data, other_data)
         self.data = get_vss_raw(self_data, self.get_fqn())
-- 
2.43.0


From 0d96792d0c578096e7268642fdbb4609cb9ea7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 05/41] fix: remove deleted nodes from the types tree

---
 src/vss_tools/vspec/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 1afdc1f..9c4178f 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -125,6 +125,13 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
         else:
             types_root = root
 
+    if types_root:
+        deleted = findall(types_root, filter_=lambda n: getattr(n.data, "delete", False))
+        for node in deleted:
+            # A deleted struct can not be used as a datatype
+            dynamic_datatypes.difference_update(n.get_fqn() for n in PreOrderIter(node))
+        types_root.delete_nodes(deleted)
+
     if dynamic_datatypes:
         log.info(f"Dynamic datatypes added={len(dynamic_datatypes)}")
         log.debug(f"Dynamic datatypes:\n{dynamic_datatypes}")
-- 
2.43.0


From 1bc05596882e095d8cf1e29dbd1f8605fc4f4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 06/41] fix: do not accept a bool as a number

---
 src/vss_tools/vspec/datatypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..07b7e41 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -26,7 +26,8 @@ def is_xintx(value: Any, signed: bool, bits: int):
         values = value
 
     for v in values:
-        if not isinstance(v, int):
+        # A bool is an int in Python but no integer value of a datatype
+        if not isinstance(v, int) or isinstance(v, bool):
             return False
         if not signed and v < 0:
             return False
@@ -76,7 +77,8 @@ def is_x(value: Any, c: type) -> bool:
     values = [value]
     if isinstance(value, list):
         values = value
-    return all([isinstance(v, c) for v in values])
+    # A bool is an int in Python but no number
+    return all([isinstance(v, c) and (c is bool or not isinstance(v, bool)) for v in values])
 
 
 def is_bool(value: Any) -> bool:
-- 
2.43.0


From 482eaf48a39b5b5379c68692d1ff3b405ec42187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 07/41] fix: check falsy default values and an array size of 0

---
 src/vss_tools/vspec/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..c90d945 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -203,7 +203,7 @@ class VSSDataDatatype(VSSData):
                 assert isinstance(
                     self.default, list
                 ), f"'default' with type '{type(self.default)}' does not match datatype '{self.datatype}'"
-                if self.arraysize:
+                if self.arraysize is not None:
                     assert len(self.default) == self.arraysize, "'default' array size does not match 'arraysize'"
                 for v in self.default:
                     assert Datatypes.is_datatype(v, self.datatype), f"'{v}' is not of type '{self.datatype}'"
@@ -222,7 +222,7 @@ class VSSDataDatatype(VSSData):
         Checks that the given default values
         are in the allowed list
         """
-        if self.default and self.allowed:
+        if self.default is not None and self.allowed:
             values = self.default
             if not isinstance(self.default, list):
                 values = [self.default]
-- 
2.43.0


From be365d9338f418e9f743935bf0857944ab51ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 08/41] fix: nest instances below a range of one element

---
 src/vss_tools/vspec/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 8974956..2c7cd2c 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -447,7 +447,7 @@ def expand_instance(
     # or when specifying instances as a list entry
     # Otherwise next instance generation call will
     # attach nodes to the same roots again
-    if len(names) > 1 or isinstance(instance, list):
+    if names != requested_instances or isinstance(instance, list):
         return nodes, nodes
     else:
         return roots, nodes
-- 
2.43.0


From d7015495e7ee49cb6e495885307736d71abc0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 09/41] fix: reject a constUID with a trailing newline

---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index c90d945..5cd5d4d 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -120,7 +120,7 @@ class VSSData(VSSRaw):
         if v is None:
             return v
         pattern = r"^0x[0-9A-Fa-f]{8}$"
-        assert bool(re.match(pattern, v)), f"'{v}' is not a valid 'constUID'"
+        assert bool(re.fullmatch(pattern, v)), f"'{v}' is not a valid 'constUID'"
         return v
 
 
-- 
2.43.0


From 3fc400da2fd4bc6069701d8dc6758a84f5fd48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 10/41] fix: match namespaced struct names by whole segments

---
 src/vss_tools/vspec/datatypes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index 07b7e41..d7dc738 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -240,17 +240,20 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    segments = fqn.split(".")
+    # Types of an inner namespace take precedence over the ones of an outer namespace
+    for t in sorted(dynamic_datatypes, key=lambda t: (t.count("."), t)):
+        t_segments = t.split(".")
         # This excludes referencing the own struct as a datatype
-        if fqn.startswith(t):
+        if segments[: len(t_segments)] == t_segments:
             continue
 
         # fqn: Types.A.B.C.x_property
         # t: Types.A.B.D
-        # We are checking whether fqn starts with Types.A.B
+        # We are checking whether fqn is located below Types.A.B
         # in this case we add {D: Types.A.B.D}
-        if fqn.startswith(".".join(t.split(".")[:-1])):
-            fqn_namespaced_datatypes[(t.split(".")[-1])] = t
+        if segments[: len(t_segments) - 1] == t_segments[:-1]:
+            fqn_namespaced_datatypes[t_segments[-1]] = t
 
     if fqn_namespaced_datatypes:
         log.debug(f"Namespaced datatypes, {fqn=}, {fqn_namespaced_datatypes=}")
-- 
2.43.0


From de7d841db6bae992fe50c05df779ca87f3b8c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 11/41] fix: reject node names with a trailing newline

---
 src/vss_tools/vspec/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 2c7cd2c..1f032ba 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -281,9 +281,9 @@ class VSSNode(Node):  # type: ignore[misc]
         """
         violations = []
         log.debug(f"Checking node name compliance for {self.name}")
-        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*$")
+        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*")
         for node in PreOrderIter(self):
-            match = re.match(camel_case_pattern, node.name)
+            match = re.fullmatch(camel_case_pattern, node.name)
             if not match:
                 violations.append([node.get_fqn(), "not CamelCase"])
             if isinstance(node.data, VSSDataDatatype):
-- 
2.43.0


From 89e5d2bc285b0ef8a403d7d6ad44419a433b3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 12/41] fix: validate static UIDs with the case sensitivity
 they are generated with

---
 src/vss_tools/vspec/utils/vss2id_val.py    | 2 +-
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 8231e32..96782f2 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -21,7 +21,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
 
     @param signals_dict: to be exported dict of all signals containing static UID
     @param validation_tree: tree loaded from validation file
-    @param strict
+    @param strict: whether the static UIDs are case-sensitive
     @return: None
     """
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..47b0b14 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,7 +213,7 @@ def cli(
             types=types,
             expand=expand,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w") as f:
-- 
2.43.0


From 744e2fee7fb7074a6c8550a5a11801fb68a5e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 13/41] fix: detect duplicate static UIDs that differ only in
 letter case

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 47b0b14..612e64a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if node_id.lower() == value.lower():
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From 890c8ad81ec27af3d9f9e9ac069bdb4f75239c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 14/41] fix: validate former names against entries without a
 static UID

---
 src/vss_tools/vspec/utils/vss2id_val.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 96782f2..3060158 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -55,7 +55,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
             for fka_val in v["fka"]:
                 old_static_uid = "0x" + fnv1_32_wrapper(fka_val, v, strict_mode)
                 for i, validation_node in enumerate(validation_tree_nodes):
-                    if old_static_uid == validation_node.data.staticUID:
+                    if old_static_uid == getattr(validation_node.data, "staticUID", None):
                         log.warning(
                             f"[Validation] SEMANTIC NAME CHANGE or PATH CHANGE for '{k}', "
                             f"it used to be '{validation_node.get_fqn()}'."
-- 
2.43.0


From 507ff4e652b9708222673fc1ebc2b7608da09e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 15/41] fix: apply the extended attribute selection to all
 nodes of a JSON export

---
 src/vss_tools/vspec/vssexporters/vss2json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..d3eaab3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -27,7 +27,7 @@ def get_data(node: VSSNode, with_extra_attributes: bool = True, extended_attribu
     if len(node.children) > 0:
         data["children"] = {}
     for child in node.children:
-        data["children"][child.name] = get_data(child)
+        data["children"][child.name] = get_data(child, with_extra_attributes, extended_attributes)
     return data
 
 
@@ -88,7 +88,9 @@ def cli(
     signals_data = {tree.name: get_data(tree, extend_all_attributes, extended_attributes)}
 
     if datatype_tree:
-        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes)}
+        types_data: dict[str, Any] = {
+            datatype_tree.name: get_data(datatype_tree, extend_all_attributes, extended_attributes)
+        }
         if not types_output:
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
-- 
2.43.0


From b1c66c7d50069c89007f2f0ee73e854426f5e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 16/41] fix: export only the selected extended attributes in a
 JSON schema, in a fixed order

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..a053267 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -54,6 +54,7 @@ def export_node(
     node: VSSNode,
     print_uuid: bool,
     all_extended_attributes: bool,
+    extended_attributes: tuple[str, ...],
     no_additional_properties: bool,
     require_all_properties: bool,
 ):
@@ -111,7 +112,9 @@ def export_node(
         if print_uuid:
             json_dict[node.name]["x-uuid"] = node.uuid
 
-    for field in data.get_extra_attributes():
+    for field in sorted(data.get_extra_attributes()):
+        if not all_extended_attributes and field not in extended_attributes:
+            continue
         json_dict[node.name][field] = getattr(data, field)
 
     # Generate child nodes
@@ -127,6 +130,7 @@ def export_node(
                 child,
                 print_uuid,
                 all_extended_attributes,
+                extended_attributes,
                 no_additional_properties,
                 require_all_properties,
             )
@@ -203,6 +207,7 @@ def cli(
         tree,
         uuid,
         extend_all_attributes,
+        extended_attributes,
         no_additional_properties,
         require_all_properties,
     )
@@ -215,6 +220,7 @@ def cli(
             datatype_tree,
             uuid,
             extend_all_attributes,
+            extended_attributes,
             no_additional_properties,
             require_all_properties,
         )
-- 
2.43.0


From e628db63610a4bce7f442ce8428afa5c9f0e35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 17/41] fix: export falsy defaults in a JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index a053267..374a3ab 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -81,7 +81,7 @@ def export_node(
         json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
-    if default:
+    if default is not None:
         json_dict[node.name]["default"] = default
 
     if isinstance(data, VSSDataStruct):
-- 
2.43.0


From 9dcd4ebdb0be5aac95e6274a99baa84cc447b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 18/41] fix: export user-defined types in a JSON schema with
 all extended attributes

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 374a3ab..b320812 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -212,9 +212,8 @@ def cli(
         require_all_properties,
     )
 
-    # Add data types to the schema
+    data_types_json_schema: Dict[str, Any] = {}
     if datatype_tree is not None:
-        data_types_json_schema: Dict[str, Any] = {}
         export_node(
             data_types_json_schema,
             datatype_tree,
@@ -224,8 +223,6 @@ def cli(
             no_additional_properties,
             require_all_properties,
         )
-        if extend_all_attributes:
-            signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
 
     # VSS models only have one root, so there should only be one
     # key in the dict
@@ -239,5 +236,9 @@ def cli(
         "type": "object",
         **signals_json_schema,
     }
+    # Add data types to the schema
+    if data_types_json_schema and extend_all_attributes:
+        json_schema["x-ComplexDataTypes"] = data_types_json_schema
+
     with open(output, "w", encoding="utf-8") as output_file:
         json.dump(json_schema, output_file, indent=indent, sort_keys=False)
-- 
2.43.0


From 007decce4928663677b6ae17bb5f34facf5484ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 19/41] fix: map numeric and user-defined datatypes in a JSON
 schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index b320812..ec38d45 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -17,6 +17,7 @@ import rich_click as click
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
+from vss_tools.vspec.datatypes import is_array
 from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.model import VSSDataBranch, VSSDataDatatype, VSSDataStruct
 from vss_tools.vspec.tree import VSSNode
@@ -33,6 +34,7 @@ type_map = {
     "boolean": "boolean",
     "float": "number",
     "double": "number",
+    "numeric": "number",
     "string": "string",
     "int8[]": "array",
     "uint8[]": "array",
@@ -45,6 +47,7 @@ type_map = {
     "boolean[]": "array",
     "float[]": "array",
     "double[]": "array",
+    "numeric[]": "array",
     "string[]": "array",
 }
 
@@ -66,7 +69,7 @@ def export_node(
     }
 
     if isinstance(data, VSSDataDatatype):
-        json_dict[node.name]["type"] = type_map[data.datatype]
+        json_dict[node.name]["type"] = type_map.get(data.datatype, "array" if is_array(data.datatype) else "object")
 
     min = getattr(data, "min", None)
     if min is not None:
-- 
2.43.0


From fc09c7501a9613e11e65fdce57d92f226b43b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 20/41] fix: escape every DDS-IDL keyword, in references too

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..22e8b19 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -145,13 +145,23 @@ idl_keywords = [
 ]
 
 
+reserved_words = {word.lower() for word in [*c_keywords, *idl_keywords, *keyword.kwlist]}
+
+
 def getAllowedName(name):
-    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower):
+    if name.lower() in reserved_words:
         return "_" + name
     else:
         return name
 
 
+def getAllowedTypeName(fqn):
+    """
+    Translates the fully qualified name of a user-defined type, using the same names as in its declaration
+    """
+    return "::".join(getAllowedName(name) for name in fqn.split("."))
+
+
 def get_allowed_enum_literal(name: str):
     """
     Check if this is is an allowed literal name, if not add prefix.
@@ -246,7 +256,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                         datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
                         arraysize = "[" + str(arraysize) + nodevalueArray[1]
                 else:  # no primitive type. this is custom
-                    datatype = datatype.replace(".", "::")  # custom data type
+                    datatype = getAllowedTypeName(datatype)  # custom data type
 
         except AttributeError:
             pass
@@ -358,7 +368,9 @@ class StructExporter(object):
             self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
         else:
             datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = datatype.replace(".", "::").split("[", 1)[0]
+            datatype_str = datatype.split("[", 1)[0]
+            if "." in datatype_str:
+                datatype_str = getAllowedTypeName(datatype_str)
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From f57d367056cd90966e583a13dbea7e12da5fc4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 21/41] fix: forward declare struct types of any types tree in
 DDS-IDL

---
 .../vspec/vssexporters/vss2ddsidl.py          | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 22e8b19..c887d69 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -328,12 +328,19 @@ class StructExporter(object):
     def __init__(self):
         self.str_buf = ""
         self.structs_seen = []
+        self.forwards = []
 
     def export(self, root) -> str:
         self.str_buf = ""
         self.structs_seen = []
+        self.forwards = []
         self.export_data_type_node(root)
-        return self.str_buf
+        forward_declarations = ""
+        for fqn in self.forwards:
+            *modules, name = [getAllowedName(part) for part in fqn.split(".")]
+            forward_declarations += "".join(f"module {module} {{\n" for module in modules)
+            forward_declarations += f"struct {name};\n" + "};\n" * len(modules)
+        return forward_declarations + self.str_buf
 
     def export_data_type_node(self, node: VSSNode):
         """
@@ -347,25 +354,16 @@ class StructExporter(object):
             suffix = "};\n"
         elif isinstance(node.data, VSSDataStruct):
             # check if the properties use structs that have not been seen before
-            # if not, add a forward declaration
-            fwds = []
+            # if so, add a forward declaration in the module of the struct
             for c in node.children:
                 datatype = getattr_nn(c.data, "datatype", "")
-                if not datatype.startswith("Types."):
-                    continue
-
-                datatype_str = datatype(".", "::").split("[", 1)[0]
-                if datatype_str not in self.structs_seen:
-                    base_type = datatype_str.split("::")[-1]
-                    fwds.append(base_type)
-
-            fwds.sort()
-            for f in set(fwds):
-                prefix += f"struct {f};\n"
+                fqn = datatype.split("[", 1)[0]
+                if "." in fqn and fqn not in self.structs_seen and fqn not in self.forwards:
+                    self.forwards.append(fqn)
 
             prefix += f"struct {getAllowedName(node.name)}" + " {\n"
             suffix = "};\n"
-            self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
+            self.structs_seen.append(node.get_fqn())
         else:
             datatype = getattr_nn(node.data, "datatype", "")
             datatype_str = datatype.split("[", 1)[0]
-- 
2.43.0


From c84080f7fb796de80021ee9498147ff08d140616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 22/41] fix: start every DDS-IDL export with an empty buffer

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index c887d69..b2724f3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -386,6 +386,7 @@ def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False)
     """This method is used to traverse through the root VSS node to build
     -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
     """
+    idl_file_buffer.clear()
     export_node(root, generate_uuids, generate_all_idl_features)
     file.write("\n".join(idl_file_buffer))
     log.info("IDL file generated at location : " + file.name)
-- 
2.43.0


From 4125323477e974b30e16ff1cdc63c6bb73181cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 23/41] fix: map numeric and arrays of user-defined types in
 DDS-IDL

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index b2724f3..4ced53b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -194,6 +194,7 @@ dataTypesMap_covesa_dds = {
     "float": "float",
     "double": "double",
     "string": "string",
+    "numeric": "double",
 }
 
 
@@ -254,7 +255,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     nodevalueArray = datatype.split("[", 1)
                     if str(nodevalueArray[0]) in dataTypesMap_covesa_dds:
                         datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
-                        arraysize = "[" + str(arraysize) + nodevalueArray[1]
+                    else:
+                        datatype = getAllowedTypeName(nodevalueArray[0])
+                    arraysize = "[" + str(arraysize) + nodevalueArray[1]
                 else:  # no primitive type. this is custom
                     datatype = getAllowedTypeName(datatype)  # custom data type
 
@@ -369,6 +372,8 @@ class StructExporter(object):
             datatype_str = datatype.split("[", 1)[0]
             if "." in datatype_str:
                 datatype_str = getAllowedTypeName(datatype_str)
+            if datatype_str == "numeric":
+                datatype_str = dataTypesMap_covesa_dds[datatype_str]
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From 04919433e32c1b895bae3a8bcb053be1246b4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 24/41] fix: export falsy and enum defaults in DDS-IDL

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4ced53b..5fdd910 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -174,7 +174,7 @@ def get_allowed_enum_literal(name: str):
     Python code by Eclipse Cyclone DDS idlc Python Backend.
     By that reason we now add a regular character instead.
     """
-    if name[0].isdigit():
+    if not name or name[0].isdigit():
         return "d" + name
     return name
 
@@ -269,9 +269,8 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         max = getattr(node.data, "max")
 
         default = getattr(node.data, "default")
-        if default:
-            if isinstance(default, str) and not enum_created:
-                default = '"' + default + '"'
+        if isinstance(default, str):
+            default = get_allowed_enum_literal(default) if enum_created else '"' + default + '"'
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
-- 
2.43.0


From a072b3dff7066c5c02db4e43d10ec2dfc00e5633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 25/41] fix: map numeric in protobuf

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..c783ab3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -35,6 +35,7 @@ mapped = {
     "int8": "int32",
     "int16": "int32",
     "boolean": "bool",
+    "numeric": "double",
 }
 
 
-- 
2.43.0


From b932ded81173f9ca51a8fdb6ef262ea7b1fd9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 26/41] fix: refuse illegal protobuf field numbers

---
 .../vspec/vssexporters/vss2protobuf.py        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index c783ab3..a6f6c66 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -28,6 +28,7 @@ from vss_tools.vspec.tree import VSSNode
 
 PATH_DELIMITER = "."
 DIR_DELIMITER = "/"
+MAX_FIELD_NUMBER = 2**29 - 1
 
 mapped = {
     "uint16": "uint32",
@@ -143,10 +144,22 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
                     )
                 )
                 sys.exit(-1)
-            fieldNumber = int(int(getattr(node.data, "staticUID"), 0) / 8)
+            fieldNumber = int(getattr(node.data, "staticUID"), 0) // 8
+            if fieldNumber < 1 or fieldNumber > MAX_FIELD_NUMBER:
+                log.fatal(
+                    (
+                        f"Aborting because field number {fieldNumber} for signal {node.name} is not in the "
+                        f"range from 1 to {MAX_FIELD_NUMBER}. Consider changing the signal to alter the staticUID."
+                    )
+                )
+                sys.exit(-1)
             if fieldNumber < 20000 and fieldNumber >= 19000:
-                log.fatal("""Aborting because field number {fieldNumber} for signal {node.name} is in
-                reservered range between 19000 and 20000. Consider changing the signal to alter the staticUID.""")
+                log.fatal(
+                    (
+                        f"Aborting because field number {fieldNumber} for signal {node.name} is in "
+                        "reserved range between 19000 and 20000. Consider changing the signal to alter the staticUID."
+                    )
+                )
                 sys.exit(-1)
             if fieldNumber in usedKeys:
                 log.fatal(
-- 
2.43.0


From dc97e27403497c3e32dd232e2e6dad312dd60f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 27/41] fix: write each protobuf types file once

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index a6f6c66..ef51348 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -62,6 +62,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    initialized: set[Path] = set()
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -73,12 +74,14 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
+        imports = []
+        if out_file not in initialized:
+            initialized.add(out_file)
             init_package_file(out_file, ".".join(struct_path.parent.parts))
-
-        with open(out_file, "a") as fd:
-            imports = []
-            for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
+            # The imports of all structs of the file
+            for c_node in findall(
+                tree, filter_=lambda n: isinstance(n.data, VSSDataDatatype) and n.parent.parent == node.parent
+            ):
                 datatype = c_node.data.datatype
                 if "." not in datatype:
                     continue
@@ -86,6 +89,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
                 if c_struct_path.parent != struct_path.parent:
                     imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
 
+        with open(out_file, "a") as fd:
             write_imports(fd, imports)
 
             fd.write(f"message {struct_path.name} {{" + "\n")
-- 
2.43.0


From c1bf2f54c40391897449b77ab5f0e8342ed600bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 28/41] fix: map numeric in GraphQL

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..b476469 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -57,6 +57,8 @@ GRAPHQL_TYPE_MAPPING = {
     Datatypes.BOOLEAN_ARRAY[0]: GraphQLList(GraphQLBoolean),
     Datatypes.STRING[0]: GraphQLString,
     Datatypes.STRING_ARRAY[0]: GraphQLList(GraphQLString),
+    Datatypes.NUMERIC[0]: GraphQLFloat,
+    Datatypes.NUMERIC_ARRAY[0]: GraphQLList(GraphQLFloat),
 }
 
 
-- 
2.43.0


From 742bd9045daba74df68f130dbcc09e07850baa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 29/41] fix: write allowed values that are no strings to binary

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..15b83a3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -40,7 +40,7 @@ from vss_tools.vspec.tree import VSSNode
 def allowedString(allowedList):
     allowedStr = ""
     for elem in allowedList:
-        allowedStr += hexAllowedLen(elem) + elem
+        allowedStr += hexAllowedLen(str(elem)) + str(elem)
     return allowedStr
 
 
-- 
2.43.0


From 2a9e07498375f89ca12860aa1bdc72b3b4530cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 30/41] fix: count bytes in binary length fields

---
 .../vspec/vssexporters/vss2binary.py          | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 15b83a3..af4fa5f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -26,6 +26,7 @@
 # the length is 0.
 
 import struct
+import sys
 from pathlib import Path
 from typing import BinaryIO
 
@@ -45,8 +46,9 @@ def allowedString(allowedList):
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    allowedLen = checked_len(allowed.encode(), 0xFF)
+    hexDigit1 = allowedLen // 16
+    hexDigit2 = allowedLen - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -57,10 +59,19 @@ def intToHexChar(hexInt):
         return chr(hexInt - 10 + ord("A"))
 
 
+# Number of bytes of an encoded text. Aborts if the length field cannot hold it
+def checked_len(data: bytes, limit: int) -> int:
+    if len(data) > limit:
+        log.fatal(f"Aborting because the text is too long for the binary format ({len(data)} > {limit} bytes): {data!r}")
+        sys.exit(-1)
+    return len(data)
+
+
 # Create a struct containing the length of the string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    data = s.encode()
+    pack = struct.pack(f"{checked_len(data, 0xFF)+1}p", data)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
@@ -68,7 +79,8 @@ def create_l8v_string(s: str) -> bytes:
 # Create a struct containing the length of the string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    data = s.encode()
+    pack = struct.pack(f"=H{checked_len(data, 0xFFFF)}s", len(data), data)
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
-- 
2.43.0


From 5872fceb87edbe17ef51c01cbbfd992a74ef25ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 31/41] fix: keep siblings with colliding GraphQL field names

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b476469..d5ee543 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -120,8 +120,13 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
     # we only consider nodes that either have children or are datatype leafs
-    valid = (c for c in node.children if len(c.children) or hasattr(c.data, "datatype"))
-    return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
+    valid = [c for c in node.children if len(c.children) or hasattr(c.data, "datatype")]
+    names = [camel_back(c.name) for c in valid]
+    # siblings that would get the same field name keep their own names
+    return {
+        c.name if names.count(name) > 1 else name: field(c, type=to_gql_type(c, additional_leaf_fields))
+        for c, name in zip(valid, names)
+    }
 
 
 def field(node: VSSNode, description_prefix="", type=GraphQLString) -> GraphQLField:
-- 
2.43.0


From 244fab21830570e1839ee254e494f38699d87cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 32/41] fix: escape the C keywords inline and restrict in
 DDS-IDL

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 5fdd910..31a9bb3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -39,9 +39,11 @@ c_keywords = [
     "for",
     "goto",
     "if",
+    "inline",
     "int",
     "long",
     "register",
+    "restrict",
     "return",
     "short",
     "signed",
-- 
2.43.0


From b731db9c9fc1d52d23787f6d343a174b89d371ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 33/41] fix: map numeric to float64 in the ApiGear export

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 09bbb93..a06e149 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -150,7 +150,7 @@ def get_apigear_datatype(t: str) -> typing.Optional[ApiGearType]:
         apigear_type = ApiGearType(ApiGearBasicType.INT64.value)
     elif t == "float":
         apigear_type = ApiGearType(ApiGearBasicType.FLOAT32.value)
-    elif t == "double":
+    elif t in ["double", "numeric"]:
         apigear_type = ApiGearType(ApiGearBasicType.FLOAT64.value)
     elif t == "boolean":
         apigear_type = ApiGearType(ApiGearBasicType.BOOL.value)
-- 
2.43.0


From 56b60a1c947ce4b0baa43ee68f85ccda83b9e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 34/41] fix: tell apart protobuf messages with equal
 concatenated names

---
 .../vspec/vssexporters/vss2protobuf.py        | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index ef51348..35c8772 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -10,6 +10,7 @@
 #
 
 import sys
+from collections import Counter
 from io import TextIOWrapper
 from pathlib import Path
 
@@ -40,6 +41,18 @@ mapped = {
 }
 
 
+def get_message_names(tree: VSSNode) -> dict[str, str]:
+    """
+    The message name of each branch, by its fully qualified name.
+
+    It is the concatenation of the names in the path (A.B.C -> ABC). Branches whose concatenated names
+    would be the same (A.BC and AB.C) are told apart with underscores.
+    """
+    branches = findall(tree, filter_=lambda n: isinstance(n.data, VSSDataBranch))
+    count = Counter(node.get_fqn("") for node in branches)
+    return {node.get_fqn(): node.get_fqn("" if count[node.get_fqn("")] == 1 else "_") for node in branches}
+
+
 def init_package_file(path: Path, package_name: str):
     with open(path, "w") as f:
         log.info(f"Initializing {path}, package {package_name}")
@@ -93,7 +106,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
             write_imports(fd, imports)
 
             fd.write(f"message {struct_path.name} {{" + "\n")
-            print_messages(node.children, fd, static_uid, add_optional)
+            print_messages(node.children, fd, static_uid, add_optional, {})
             fd.write("}\n\n")
             log.info(f"Wrote {struct_path.name} to {out_file}")
 
@@ -111,9 +124,10 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
     write_imports(fd, imports)
 
     # write proto messages to file
+    message_names = get_message_names(tree)
     for node in findall(tree, filter_=lambda node: isinstance(node.data, VSSDataBranch)):
-        fd.write(f"message {node.get_fqn('')} {{" + "\n")
-        print_messages(node.children, fd, static_uid, add_optional)
+        fd.write(f"message {message_names[node.get_fqn()]} {{" + "\n")
+        print_messages(node.children, fd, static_uid, add_optional, message_names)
         fd.write("}\n\n")
 
 
@@ -125,7 +139,13 @@ def write_imports(fd: TextIOWrapper, imports: list[str]):
     fd.write("\n")
 
 
-def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def print_messages(
+    nodes: tuple[VSSNode],
+    fd: TextIOWrapper,
+    static_uid: bool,
+    add_optional: bool,
+    message_names: dict[str, str],
+):
     usedKeys: dict[int, str] = {}
     for i, node in enumerate(nodes, 1):
         if isinstance(node.data, VSSDataDatatype):
@@ -136,7 +156,7 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
             elif add_optional:
                 data_type = "optional " + data_type
         else:
-            data_type = node.get_fqn("")
+            data_type = message_names[node.get_fqn()]
             if add_optional:
                 data_type = "optional " + data_type
         if static_uid:
-- 
2.43.0


From 7ea0409a3e45ed488b948ef26817bd593381fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 35/41] fix: do not merge differing instances in the Go export

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 39 +++++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..4939aa8 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -11,6 +11,7 @@ from __future__ import annotations
 
 import re
 from pathlib import Path
+from typing import Any
 
 import rich_click as click
 from anytree import PreOrderIter
@@ -75,23 +76,43 @@ def add_children_map_entries(root: VSSNode, fqn: str, replace: str, map: dict[st
         add_children_map_entries(child, fqn, replace, map)
 
 
+def get_structure(node: VSSNode) -> dict[str, Any]:
+    """
+    The types, datatypes and names of everything below a node
+    """
+    return {
+        child.name: (child.data.type, getattr(child.data, "datatype", None), get_structure(child))
+        for child in node.children
+    }
+
+
 def get_instance_mapping(root: VSSNode | None) -> dict[str, str]:
     """
     Constructing a rename map of fqn->new_name.
     The new name has instances stripped and appending "I<N>" instead
-    where N is the depth of the instance
+    where N is the depth of the instance.
+    Instances that differ, e.g. because an overlay extends one of them, keep their names.
     """
     if root is None:
         return {}
     instance_map: dict[str, str] = {}
-    for node in PreOrderIter(root):
-        if isinstance(node.data, VSSDataBranch):
-            if node.data.is_instance:
-                instance_root, depth = get_instance_root(node)
-                new_name = instance_root.get_fqn() + "." + "I" + str(depth)
-                fqn = node.get_fqn()
-                instance_map[fqn] = new_name
-                add_children_map_entries(node, fqn, instance_root.get_fqn(), instance_map)
+    instances = [node for node in PreOrderIter(root) if isinstance(node.data, VSSDataBranch) and node.data.is_instance]
+    structures: dict[str, dict[str, Any]] = {}
+    different: set[str] = set()
+    for node in instances:
+        instance_root, depth = get_instance_root(node)
+        new_name = instance_root.get_fqn() + "." + "I" + str(depth)
+        structure = get_structure(node)
+        if structures.setdefault(new_name, structure) != structure:
+            different.add(new_name)
+    for node in instances:
+        instance_root, depth = get_instance_root(node)
+        new_name = instance_root.get_fqn() + "." + "I" + str(depth)
+        if new_name in different:
+            continue
+        fqn = node.get_fqn()
+        instance_map[fqn] = new_name
+        add_children_map_entries(node, fqn, instance_root.get_fqn(), instance_map)
     return instance_map
 
 
-- 
2.43.0


From 6b1ae25e03ba76d00b6fb54fca2b9c11e27d1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 36/41] fix: keep Go struct names unique without dots

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 32 ++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 4939aa8..8f26e76 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -10,6 +10,7 @@
 from __future__ import annotations
 
 import re
+from collections import Counter
 from pathlib import Path
 from typing import Any
 
@@ -188,6 +189,24 @@ def get_go_structs(root: VSSNode | None, map: dict[str, str], type_tree: bool =
     return structs
 
 
+def separate_names(structs: dict[str, GoStruct]) -> None:
+    """
+    Uses underscores in the names of structs that would be the same without dots (A.BC and AB.C)
+    """
+    count = Counter(struct.name.replace(".", "") for struct in structs.values())
+    rename = {
+        struct.name: struct.name.replace(".", "_")
+        for struct in structs.values()
+        if count[struct.name.replace(".", "")] > 1
+    }
+    for struct in structs.values():
+        struct.name = rename.get(struct.name, struct.name)
+        for member in struct.members:
+            array = "[]" if member.datatype.startswith("[]") else ""
+            name = member.datatype[len(array) :]
+            member.datatype = array + rename.get(name, name)
+
+
 def get_prefixes(structs: dict[str, GoStruct]) -> list[str]:
     """
     Gets all current prefixes from the given structs.
@@ -220,14 +239,16 @@ def get_prefix_strip_conflicts(prefix: str, structs: dict[str, GoStruct]) -> int
         split = struct.name.split(".")
         sp = split[0]
         if len(split) == 1:
-            structs_new.append(struct.name)
+            new_name = struct.name
         else:
-            if sp != prefix:
-                structs_new.append(struct.name)
+            if sp != prefix or is_only_instance(".".join(split[1:])):
+                new_name = struct.name
             else:
                 log.debug(f"Stripping, {prefix=}, {struct.name=}")
-                structs_new.append(".".join(split[1:]))
-                log.debug(f"New name: {structs_new[-1]}")
+                new_name = ".".join(split[1:])
+                log.debug(f"New name: {new_name}")
+        # The names are written without dots
+        structs_new.append(new_name.replace(".", ""))
 
     return len(structs_new) - len(set(structs_new))
 
@@ -323,6 +344,7 @@ def cli(
     datatype_structs = get_go_structs(datatype_tree, instance_map, True)
     log.info(f"Datatype structs, amount={len(datatype_structs)}")
     structs.update(datatype_structs)
+    separate_names(structs)
 
     if short_names:
         rounds = 0
-- 
2.43.0


From 8331f599aebab8b736464d835fb6415c179f5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 37/41] fix: forget units and types of an earlier load

---
 src/vss_tools/vspec/main.py                | 7 +++++++
 src/vss_tools/vspec/vssexporters/vss2id.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 9c4178f..c616a35 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -200,11 +200,18 @@ def get_trees(
     types: tuple[Path, ...] = (),
     overlays: tuple[Path, ...] = (),
     expand: bool = True,
+    keep_definitions: bool = False,
 ) -> tuple[VSSNode, VSSNode | None]:
     """
     Loading vspec files, building and validating trees (types and normal).
     Returning a tuple of the root and the types tree
+    Quantities, units and types loaded by an earlier call are only known if
+    'keep_definitions' is set
     """
+    if not keep_definitions:
+        dynamic_quantities.clear()
+        dynamic_units.clear()
+        dynamic_datatypes.clear()
     if extended_attributes:
         log.info(f"User defined extra attributes: {extended_attributes}")
     try:
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 612e64a..af3c858 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -212,6 +212,7 @@ def cli(
             units=units,
             types=types,
             expand=expand,
+            keep_definitions=True,
         )
         vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
-- 
2.43.0


From dc4febcbb0a750ac7b43830a579d6af2360b54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 38/41] fix: compare whole path segments when SAMM selects
 signals

---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py        | 5 +++--
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py        | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 63ec712..30149ee 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -173,8 +173,9 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
     #           Vehicle.Cabin.Door.Window.Position
 
     for selected_signal_path in selected_signals_paths:
-        node_is_selected = selected_signal_path.startswith(vss_node_path) or vss_node_path.startswith(
-            selected_signal_path
+        # Compare whole path segments: Vehicle.Cabin does not select Vehicle.CabinLight
+        node_is_selected = f"{selected_signal_path}.".startswith(f"{vss_node_path}.") or f"{vss_node_path}.".startswith(
+            f"{selected_signal_path}."
         )
 
         if node_is_selected:
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..90f69b4 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -206,7 +206,7 @@ def cli(
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
         with open(signals_file, "r") as f:
-            included_signals_input = f.read().splitlines()
+            included_signals_input = [line.strip() for line in f.read().splitlines() if line.strip()]
 
     else:
         log.info("No signals selected.\nCreating model for the whole VSS tree.\n")
-- 
2.43.0


From 66dd6197fc2b67a9ee822a7f1e3d5bde3dd92aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 39/41] fix: write allowed values that are not strings in SAMM

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..992c73c 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -477,7 +477,8 @@ def get_enum_values(collection_to_process: list[str] | str):
         if type(value) is str:
             enum_values += '"' + value + '" '
         else:
-            enum_values += value + " "
+            # Numbers as they are, booleans as true or false
+            enum_values += (str(value).lower() if type(value) is bool else str(value)) + " "
 
     return Literal(f"( {enum_values.strip()} )")
 
-- 
2.43.0


From 0f47bc80584ed14d8b64479c4ba29831dac57efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 40/41] fix: forget SAMM namespace and node names of an earlier
 export

---
 .../vssexporters/vss2samm/helpers/namespaces.py  | 16 +++++++++-------
 .../vss2samm/helpers/samm_concepts.py            |  3 +--
 .../vssexporters/vss2samm/helpers/ttl_helper.py  |  2 +-
 .../vspec/vssexporters/vss2samm/vss2samm.py      |  3 +++
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/namespaces.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/namespaces.py
index 75bf46c..0de6a85 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/namespaces.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/namespaces.py
@@ -12,12 +12,19 @@ from vss_tools import log
 from ..config import config as cfg
 
 
+# Below formatted namespace should look like: urn:samm:com.covesa.vss.spec:5.0.0#
+# and is used for the ":" bindings of the converted to TTLs, VSS Aspect models
+# that will refer to the user specified output_namespace
+def samm_output_namespace() -> str:
+    return f"{samm_prefix}:{cfg.OUTPUT_NAMESPACE}:{cfg.VSPEC_VERSION}#"
+
+
 def get_vspec_uri(node_name: str):
-    return URIRef(f"{samm_output_namespace}{node_name}")
+    return URIRef(f"{samm_output_namespace()}{node_name}")
 
 
 def get_node_name_from_vspec_uri(node_uri: URIRef):
-    return node_uri.replace(samm_output_namespace, "")
+    return node_uri.replace(samm_output_namespace(), "")
 
 
 def get_unit_uri(unit_name: str):
@@ -35,8 +42,3 @@ Namespaces = {
     "samm-e": f"{samm_base_namespace}:entity:{cfg.SAMM_VERSION}#",
     "unit": f"{samm_base_namespace}:unit:{cfg.SAMM_VERSION}#",
 }
-
-# Below formatted namespace should look like: urn:samm:com.covesa.vss.spec:5.0.0#
-# and is used for the ":" bindings of the converted to TTLs, VSS Aspect models
-# that will refer to the user specified output_namespace
-samm_output_namespace = f"{samm_prefix}:{cfg.OUTPUT_NAMESPACE}:{cfg.VSPEC_VERSION}#"
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
index 9a8a13d..101ce09 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
@@ -33,7 +33,6 @@ class VSSConcepts(Enum):
     VEHICLE_STAT = "StaticVehicleProperty"
 
     def __init__(self, vss_name):
-        self.ns = samm_output_namespace
         self.vsso_name = vss_name
 
     @property
@@ -42,7 +41,7 @@ class VSSConcepts(Enum):
 
     @property
     def uri_string(self):
-        return f"{self.ns}{self.value}"
+        return f"{samm_output_namespace()}{self.value}"
 
 
 class SammConcepts(Enum):
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 7d1791d..19d7efa 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -158,7 +158,7 @@ def handle_branch_node(
             # Each child should be a leaf node of its parent - i.e. NO ASPECTS and no split for child nodes
             child_node_uri = handle_vss_node(path_to_ttl, graph, child_node, False, False)
 
-        if child_node_uri and child_node_uri != "DEPRECATED" and str(child_node_uri) != samm_output_namespace:
+        if child_node_uri and child_node_uri != "DEPRECATED" and str(child_node_uri) != samm_output_namespace():
             # Each property should have payloadName = property name,
             # so to avoid the prefixed ttl_name when generating APIs and JSON payloads
             properties_uris.append((child_node_uri, ("payloadName", child_node.name)))
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 90f69b4..e514848 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -244,6 +244,9 @@ def cli(
     parsed_tree_uri = None
 
     if vss_helper is not None and ttl_helper is not None:
+        # Forget the node names of an earlier export
+        vss_helper.top_vss_tree_unique_node_names.clear()
+
         # NOTE: below used parse_vss_tree function will store generated RDF Graph to dedicated TTL file
         if len(included_signals_input) > 0:
             # Filter the VSS tree based on included_signals_input
-- 
2.43.0


From eb1d1d14af835f6996b9bcec4d22c7413e5bd76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 41/41] fix: export zero and false defaults in SAMM

---
 .../vssexporters/vss2samm/helpers/ttl_builder_helper.py   | 8 ++++----
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 992c73c..36efe8b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -197,7 +197,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default:  # type: ignore
+                if vss_node.data.default is not None:  # type: ignore
                     __add_node_tuple(
                         graph,
                         node_char_uri,
@@ -245,7 +245,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
 
                     rdf_type = SammConcepts.CHARACTERISTIC
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     __add_node_tuple(
                         graph,
                         node_uri,
@@ -257,7 +257,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle CHARACTERISTIC type nodes
                 log.debug(" -- set regular node values")
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     if (
                         hasattr(vss_node.data, "unit")
                         and vss_node.data.unit
@@ -277,7 +277,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                         #       Example: '2000-01-01T14:23:00',
                         #                '0001-01-01T00:00:00.00000+00:00',
                         #                '2023-11-27T16:26:05.671Z'
-                        if not vss_node.data.default.startswith("0000"):
+                        if not str(vss_node.data.default).startswith("0000"):
                             # Add property node exampleValue date time - TIMESTAMP, if is provided and valid
                             __add_node_tuple(
                                 graph,
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 30149ee..48fec91 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -431,7 +431,7 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if not vss_node.data.default else SammCConcepts.STATE  # type: ignore
+        return SammCConcepts.ENUM if vss_node.data.default is None else SammCConcepts.STATE  # type: ignore
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0

