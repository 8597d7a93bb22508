From b54fc5aaaf59eef2376a2fc96dc1bff1b8cec0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:18 +0000
Subject: [PATCH 01/11] fix: write the header include of a C file even if a
 later sequence has no initialiser

---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..b3ebcf3 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # TODO prevent overriding existing keys
-- 
2.43.0


From 2a385c3af7e5f4b8ca9cea107ba37177bfa33e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:18 +0000
Subject: [PATCH 02/11] fix: end include directives of the C and binary
 generators with .h

---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From 505e2568ea728bdc85961edcd6a33ea16fabcf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:18 +0000
Subject: [PATCH 03/11] fix: raise an error on circular types and imports
 instead of looping forever

---
 asn1_parser/generators/cfs/module_sorter.py | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/asn1_parser/generators/cfs/module_sorter.py b/asn1_parser/generators/cfs/module_sorter.py
index 0bf9274..4b8163e 100644
--- a/asn1_parser/generators/cfs/module_sorter.py
+++ b/asn1_parser/generators/cfs/module_sorter.py
@@ -40,6 +40,7 @@ class ModuleSorter:
             Definitions
         ] = asn1_module.get_definitions().copy()
         while len(not_yet_defined) > 0:
+            number_not_yet_defined = len(not_yet_defined)
             # copy(): do not modify something we iterate on
             for definition in not_yet_defined.copy():
                 if isinstance(definition, (Sequence, Choice)):
@@ -73,6 +74,17 @@ class ModuleSorter:
                     raise NotImplementedError(
                         f"{definition} (of type {type(definition)})"
                     )
+            if len(not_yet_defined) == number_not_yet_defined:
+                # pylint: disable=import-outside-toplevel
+                from asn1_parser.asn1.validation.asn1_bundle_validator import (
+                    ASN1ConsistencyError,
+                )
+
+                raise ASN1ConsistencyError(
+                    "Circular or undefined types in "
+                    f"'{asn1_module.get_module_name()}': "
+                    f"{[d.get_type_name() for d in not_yet_defined]}"
+                )
 
         return already_defined
 
@@ -87,6 +99,7 @@ class ModuleSorter:
         ]
         import_names: List[str] = ModuleSorter._get_import_names(module_list)
         while len(module_list):
+            number_of_modules = len(module_list)
             for module_index, module_name in enumerate(module_names):
                 if module_name not in import_names:
                     module_to_reorder = module_list[module_index]
@@ -97,6 +110,15 @@ class ModuleSorter:
                     # Regenerate import_list, to omit
                     # the file that we just reordered
                     import_names = ModuleSorter._get_import_names(module_list)
+            if len(module_list) == number_of_modules:
+                # pylint: disable=import-outside-toplevel
+                from asn1_parser.asn1.validation.asn1_bundle_validator import (
+                    ASN1ConsistencyError,
+                )
+
+                raise ASN1ConsistencyError(
+                    f"Circular imports between the modules {module_names}"
+                )
         return module_order
 
     @staticmethod
-- 
2.43.0


From eeb152b80d96945cbcf9f41948ec6d497e05234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:18 +0000
Subject: [PATCH 04/11] fix: COSMOS items of unconstrained BOOLEAN and BOOLEAN
 arrays are not identifiers

---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From 295aa1327cd31366f65c76cca49973dd6a075463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 05/11] fix: reject duplicate module names in the COSMOS
 command as in the others

---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..d088505 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -164,6 +165,7 @@ class ASN1BundleBuilder:
         module_list: List[Asn1Module],
         config: Union[
             GenerateCFSCommandConfig,
+            GenerateCosmosCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
         ],
-- 
2.43.0


From 4f87ea9152d9af15d5a48a82ad40a4150dc85c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 06/11] fix: COSMOS generator does not extend the WITH
 COMPONENTS list of the parsed model

---
 asn1_parser/generators/cosmos/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..1557a8d 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,8 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    # copy(): do not modify the intermediate representation
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From ade71a8ddb9d58d7b970a988297d1607925f923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 07/11] fix: COSMOS generator accepts an application process
 identifier without a value

---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 1557a8d..eec3e73 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -218,7 +218,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From 089b7ca6486e880aaf1eb3f53f542e205f71b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 08/11] fix: reject enumeration positions that include negative
 values but sum up to zero

---
 asn1_parser/asn1/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..1135c02 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,7 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if not any(e.get_pos() for e in model.get_enum()):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 54b890366f19e95c2a837030d5b5f3ebb147d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:29 +0000
Subject: [PATCH 09/11] fix: reject a type definition that refers to an
 undefined type

---
 asn1_parser/asn1/processor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 1135c02..3ca9c13 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -65,14 +65,14 @@ def model_processor_check_used_types_defined(
 
     defined_types: List[str] = _check_types_once_defined(model)
     for definition in model.get_definitions():
-        key_type_pair_list: List[KeyTypePair] = []
+        typed_item_list: List[Union[KeyTypePair, SimpleDefinition]] = []
         if isinstance(definition, (Sequence, Choice)):
-            key_type_pair_list = definition.get_children()
-        else:
-            pass
+            typed_item_list.extend(definition.get_children())
+        elif isinstance(definition, SimpleDefinition):
+            typed_item_list.append(definition)
 
-        for key_type_pair in key_type_pair_list:
-            type_name: str = key_type_pair.get_asn_type().get_type_name()
+        for typed_item in typed_item_list:
+            type_name: str = typed_item.get_asn_type().get_type_name()
             if isinstance(type_name, str):
                 if type_name not in defined_types:
                     module = model.get_module_name()
-- 
2.43.0


From 1c9d706cef2b183b550c7fd93d255d217598cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:35 +0000
Subject: [PATCH 10/11] fix: end each alternative of a C union with a line
 break, so that its comment does not swallow the next

---
 asn1_parser/generators/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..f50227d 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -303,6 +303,7 @@ class Generator:
                 + CPrinter.asn1_to_c_style_naming(choice_item.get_key())
                 + ";"
                 + choice_comment
+                + "\n"
             )
         data_str += (
             "} "
-- 
2.43.0


From 2bfda0f76de0631eb94825e6d15f8c4bbbfaad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:54 +0000
Subject: [PATCH 11/11] fix: keep the binary values of every constrained member
 of a sequence

---
 asn1_parser/c_data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index b3ebcf3..6d8c1bd 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -84,8 +84,8 @@ class CData:
             self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
-        # TODO prevent overriding existing keys
-        self._binary_init.update(other_cdata.get_binary_init())
+        for key, binary_init_list in other_cdata.get_binary_init().items():
+            self.add_binary_init(key, binary_init_list)
 
     def add_data(self, data_string: str) -> None:
         self._data.append(data_string)
@@ -115,5 +115,4 @@ class CData:
         self._init_include = init_include
 
     def add_binary_init(self, key: str, binary_init_list: List[bytes]) -> None:
-        # TODO prevent overriding existing keys
-        self.get_binary_init()[key] = binary_init_list
+        self.get_binary_init().setdefault(key, []).extend(binary_init_list)
-- 
2.43.0

