From e3aa0c0c0bef0b2e1a22ca567cd5b460b12d45ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 01/32] fix: do not loop forever on a memory region outside of
 chip memory types

A memory region (or the rest of it), which does not start in any chip memory
type and ends at the same address as an already processed one, was appended
over and over again, because only zero size regions are expected here.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f508279..fc59f1d 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -903,7 +903,7 @@ def _split_memory_regions(memory_regions: List[Dict[str, Any]], memory_types: Di
                 # rtc_fast_reserved_seg for esp32. We could probably just skip
                 # such memory regions, but let's sanity check this situation.
                 for mem_reg_splitted in memory_regions_splitted.copy():
-                    if mem_reg_origin + mem_reg_length == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
+                    if not mem_reg_length and mem_reg_origin == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
                         memory_regions_splitted.append(
                             {
                                 'name': mem_reg['name'],
-- 
2.43.0


From 70f3f4811fffab198a1c4ea8af96c3442620f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 02/32] fix: account the whole fill of an empty input section

The size variable of the enclosing function holds whatever was parsed last,
or nothing at all, but not the fill size of the input section being added.
---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3596c36..955363a 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -210,7 +210,7 @@ class MapFile:
                 # so it can be accounted here.
                 for s in reversed(output_section['input_sections']):
                     if s['size']:
-                        s['fill'] += size
+                        s['fill'] += input_section['fill']
                         break
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
-- 
2.43.0


From a7577f2a3db82766e84dfa0faeda05241fd95bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 03/32] fix: disregard also the first input section outside of
 its output section

---
 esp_idf_size/mapfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 955363a..86bd478 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -183,10 +183,6 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
-            if not output_section['input_sections']:
-                output_section['input_sections'].append(input_section)
-                return
-
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
@@ -196,6 +192,10 @@ class MapFile:
                 # zero. Note that padding is still considered in the calculation.
                 input_section['size'] = 0
 
+            if not output_section['input_sections']:
+                output_section['input_sections'].append(input_section)
+                return
+
             last_input_section = output_section['input_sections'][-1]
             if last_input_section['address'] == input_section['address']:
                 # The current input section is at the same address as the previous one,
-- 
2.43.0


From 34d65881d1c78a9e3689695912b8c9456896bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 04/32] fix: handle archive and object paths that contain
 parentheses

---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 86bd478..fcef408 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -122,7 +122,8 @@ class MapFile:
         return target
 
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
-        idx = s.find('(')
+        # The path may contain parentheses too, e.g. "C:/Program Files (x86)/lib.a(obj.o)".
+        idx = s.rfind('(') if s.endswith(')') else -1
         if idx == -1:
             # Object file linked directly without archive. As in the original parser,
             # assign a default archive for such object file.
-- 
2.43.0


From 4b347c759da842c9a0afe3830004ec43e2b5e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 05/32] fix: report the map file name if the memory map section
 is missing

---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index fcef408..9a062f2 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -374,7 +374,7 @@ class MapFile:
                     )
 
         if not found:
-            raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
+            raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
         log.debug('linker map output sections', output_sections)
 
-- 
2.43.0


From a285742c0625a4d954f70bec4ae94c16f17ffb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 06/32] fix: use the last byte of SLEB128 value for its sign

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b20dd3c..a97fde1 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -2126,7 +2126,7 @@ class Elf:
         # SLEB128 is stored in two's complement, use ULEB128 and
         # sign extend it if necessary.
         value, offset_new = self.get_uleb128(data, offset)
-        msb = data[offset - 1]
+        msb = data[offset_new - 1]
         if not msb & 0x40:
             # SLEB128 sign bit is 7'th bit in MSB. If not set
             # it's not negative number.
-- 
2.43.0


From e089232fafe82e7ec70cc5f3fd493881731c0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 07/32] fix: return already evaluated DWARF attribute

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a97fde1..57662b7 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1765,7 +1765,7 @@ class Dwarf_CU:
 
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
-            return attr['eval']
+            return attr['evaluated']
 
         form = attr['form']
         value = attr['value']
-- 
2.43.0


From ea2831fe936c07ede348dad267b3481dabb8f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 08/32] fix: DW_FORM_ref_sig8 is 8 bytes long

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 57662b7..1d4f17a 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1730,7 +1730,7 @@ class Dwarf_CU:
         elif form == DW_FORM_ref_addr:
             value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
-            value, offset = self._elf.get_uint8(data, offset)
+            value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
             value, offset = self._elf.get_uint32(data, offset)
         elif form == DW_FORM_ref_sup8:
-- 
2.43.0


From 2016b166787d112776130899d9a0818d45b6a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 09/32] fix: aggregate section sizes in unified summaries

With --unify, several archives, object files or symbols with the same name can
contribute to a single section of one summary entry. Only the last contribution
was kept for the section, while the memory type and total were aggregated.
---
 esp_idf_size/memorymap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index fc59f1d..31c3661 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -755,12 +755,12 @@ def get_symbols_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Dic
 
         symbol_mem_type = symbol['memory_types'][mem_type_name]
         size = symbol_info['size']
-        symbol_mem_type['sections'][section_name]['size'] = size
+        symbol_mem_type['sections'][section_name]['size'] += size
         symbol_mem_type['size'] += size
         symbol['size'] += size
 
         size = symbol_info['size_diff']
-        symbol_mem_type['sections'][section_name]['size_diff'] = size
+        symbol_mem_type['sections'][section_name]['size_diff'] += size
         symbol_mem_type['size_diff'] += size
         symbol['size_diff'] += size
 
@@ -803,12 +803,12 @@ def get_object_files_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -
 
         object_file_mem_type = object_file['memory_types'][mem_type_name]
         size = object_file_info['size']
-        object_file_mem_type['sections'][section_name]['size'] = size
+        object_file_mem_type['sections'][section_name]['size'] += size
         object_file_mem_type['size'] += size
         object_file['size'] += size
 
         size = object_file_info['size_diff']
-        object_file_mem_type['sections'][section_name]['size_diff'] = size
+        object_file_mem_type['sections'][section_name]['size_diff'] += size
         object_file_mem_type['size_diff'] += size
         object_file['size_diff'] += size
 
@@ -836,12 +836,12 @@ def get_archives_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Di
 
         archive_mem_type = archive['memory_types'][mem_type_name]
         size = archive_info['size']
-        archive_mem_type['sections'][section_name]['size'] = size
+        archive_mem_type['sections'][section_name]['size'] += size
         archive_mem_type['size'] += size
         archive['size'] += size
 
         size = archive_info['size_diff']
-        archive_mem_type['sections'][section_name]['size_diff'] = size
+        archive_mem_type['sections'][section_name]['size_diff'] += size
         archive_mem_type['size_diff'] += size
         archive['size_diff'] += size
 
-- 
2.43.0


From 86a9452c84fe7976579878e2841de8d491b5a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:50 +0000
Subject: [PATCH 10/32] fix: aggregate sizes of equally named symbols

An archive can contain several object files with the same name, and each of them
can have e.g. a static symbol with the same name. Only the last one was accounted.
---
 esp_idf_size/memorymap.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 31c3661..74351b7 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1266,11 +1266,13 @@ def _add_archives_to_sections(sections: List[Dict[str, Any]]) -> None:
             object_file['size'] += input_section['size']
 
             for symbol in input_section['symbols']:
-                object_file['symbols'][symbol['name']] = {
-                    'abbrev_name': symbol['name'],
-                    'size': symbol['size'],
-                    'size_diff': 0,
-                }
+                if symbol['name'] not in object_file['symbols']:
+                    object_file['symbols'][symbol['name']] = {
+                        'abbrev_name': symbol['name'],
+                        'size': 0,
+                        'size_diff': 0,
+                    }
+                object_file['symbols'][symbol['name']]['size'] += symbol['size']
 
         section['abbrev_name'] = _abbrev(section['name'])
         section['archives'] = archives
-- 
2.43.0


From 1d543463f34e0e2fce7b2b259cd5d4d870ff3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 11/32] fix: use the elf object passed to get()

The elf argument was always overwritten with None before it could be used.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 74351b7..2ebe457 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -195,7 +195,7 @@ def get(
         'memory_types': {},
     }
 
-    proj_desc = map_fn = elf = target = None
+    proj_desc = map_fn = target = None
 
     map_fn = os.path.abspath(input_fn)
 
-- 
2.43.0


From 0ec5f1beedc10fa77dbcf8d3f0aa1165aebabc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:24 +0000
Subject: [PATCH 12/32] fix: do not add None key to unified symbols

Leaf nodes have no children, but unify() added an empty dictionary with None
key into each symbol, which is also visible in the raw format.
---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 2ebe457..3428744 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -461,8 +461,9 @@ def unify(memory_map: Dict[str, Any]) -> None:
                     'abbrev_name': original_item_info['abbrev_name'],
                     'size': original_item_info['size'],
                     'size_diff': original_item_info['size_diff'],
-                    sublevel: {},
                 }
+                if sublevel is not None:
+                    unified_item_info[sublevel] = {}
                 unified[original_item_name_abbrev] = unified_item_info
             else:
                 unified_item_info['size'] += original_item_info['size']
-- 
2.43.0


From 17fe341de0a2df8d6e89bb7a509ec9bdc70e4aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:19 +0000
Subject: [PATCH 13/32] fix: ignore flash size also in the reference memory map

The flash size was kept in the reference memory map, so the difference of two
equal projects was reported as if the whole flash has been removed.
---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 5d27fb9..820b780 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -127,7 +127,7 @@ def _run(args: Dict[str, Any]) -> None:
             if not args['show_unused']:
                 memorymap.remove_unused(memmap_ref)
             if not args['use_flash_size']:
-                memorymap.ignore_flash_size(memmap)
+                memorymap.ignore_flash_size(memmap_ref)
             memmap = memorymap.diff(memmap, memmap_ref)
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
-- 
2.43.0


From 87f452dc34628eaf3bfde7e23e0cdc814a392e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:19 +0000
Subject: [PATCH 14/32] fix: do not lose sections with the same abbreviated
 name in json

Sections like .dram0.bss and .dram1.bss share the same abbreviated name and the
latter one overwrote the size of the former one.
---
 esp_idf_size/format_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index fad4a18..880abad 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -28,9 +28,9 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         summary['layout'].append(mem_type)
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
-            mem_type['parts'][name] = {
-                'size': section_info['size'],
-            }
+            # Abbreviated section names do not have to be unique, so aggregate the sizes.
+            part = mem_type['parts'].setdefault(name, {'size': 0})
+            part['size'] += section_info['size']
 
     log.print(json.dumps(summary, indent=4))
 
-- 
2.43.0


From 4ed3e2a95dd317d7357ff0716b96d4075001a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:19 +0000
Subject: [PATCH 15/32] fix: do not truncate the percentage used for sorting

The Used [%] column was sorted only by the integer part of the percentage.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 3428744..12f1cad 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -669,7 +669,7 @@ def _get_summary_memory_types(memory_map: Dict[str, Any]) -> Dict[str, Any]:
 
 
 def sort_dict_by_key(dictionary: Dict[str, Any], key: str, reverse: bool) -> Dict[str, Any]:
-    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: int(item[1][key]), reverse=reverse)}
+    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: item[1][key], reverse=reverse)}
 
 
 def get_summary_sorted(entries: Dict[str, Any], args: Dict[str, Any]) -> Dict[str, Any]:
-- 
2.43.0


From 642b342737968f0e71184191ca1b6e647636b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:19 +0000
Subject: [PATCH 16/32] fix: do not lose parts of split output section in the
 same memory type

Parts of an output section, split at memory regions boundary, share the same
name. If more of them end up in the same memory type, the last one overwrote
the others, while the memory type usage accounted all of them.
---
 esp_idf_size/memorymap.py | 58 +++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 12f1cad..f7a5ec9 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1466,6 +1466,40 @@ def _get_mem_type_map(
     # were already assigned to this memory type.
     memory_types_regions: Dict[str, Any] = {}
 
+    def add_section(mem_type_alias: str, name: str, abbrev_name: str, map_section: Dict[str, Any]) -> None:
+        # Account the output section into the memory type. More parts of the same split output section
+        # may be assigned to the same memory type, in which case their sizes are aggregated.
+        memory_map[mem_type_alias]['used'] += map_section['size']
+        sections = memory_map[mem_type_alias]['sections']
+        if name not in sections:
+            sections[name] = {
+                'abbrev_name': abbrev_name,
+                'size': map_section['size'],
+                'size_diff': 0,
+                'archives': map_section['archives'],
+            }
+            return
+
+        sections[name]['size'] += map_section['size']
+        for archive_name, archive_info in map_section['archives'].items():
+            archives = sections[name]['archives']
+            if archive_name not in archives:
+                archives[archive_name] = archive_info
+                continue
+            archives[archive_name]['size'] += archive_info['size']
+            for object_file_name, object_file_info in archive_info['object_files'].items():
+                object_files = archives[archive_name]['object_files']
+                if object_file_name not in object_files:
+                    object_files[object_file_name] = object_file_info
+                    continue
+                object_files[object_file_name]['size'] += object_file_info['size']
+                for symbol_name, symbol_info in object_file_info['symbols'].items():
+                    symbols = object_files[object_file_name]['symbols']
+                    if symbol_name not in symbols:
+                        symbols[symbol_name] = symbol_info
+                        continue
+                    symbols[symbol_name]['size'] += symbol_info['size']
+
     # Create entry for each memory type found in the chip info yaml.
     for mem_type_name, mem_type_info in memory_types.items():
         mem_type_alias = mem_type_info['name']
@@ -1526,13 +1560,7 @@ def _get_mem_type_map(
             # the address-based region lookup, which cannot disambiguate on
             # chips where the PSRAM and flash data linker regions share an
             # address window.
-            memory_map[ext_ram_alias]['used'] += map_section['size']
-            memory_map[ext_ram_alias]['sections'][map_section['name']] = {
-                'abbrev_name': map_section['abbrev_name'],
-                'size': map_section['size'],
-                'size_diff': 0,
-                'archives': map_section['archives'],
-            }
+            add_section(ext_ram_alias, map_section['name'], map_section['abbrev_name'], map_section)
             continue
         prev_mem_reg = None
         for mem_reg in memory_regions_sorted:
@@ -1547,13 +1575,7 @@ def _get_mem_type_map(
                         f'(addr: {address}, size: {mem_reg["length"]})'
                     )
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section['name']] = {
-                    'abbrev_name': map_section['abbrev_name'],
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                add_section(mem_type_alias, map_section['name'], map_section['abbrev_name'], map_section)
                 break
             elif address > map_section['address'] and prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
@@ -1577,13 +1599,7 @@ def _get_mem_type_map(
                 # clearly mark the overflow part of the output memory section, append "_overflow" to its name.
                 map_section_name = map_section['name'] + '_overflow'
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section_name] = {
-                    'abbrev_name': _abbrev(map_section_name),
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                add_section(mem_type_alias, map_section_name, _abbrev(map_section_name), map_section)
                 break
 
             prev_mem_reg = mem_reg
-- 
2.43.0


From 8af1241db68d5360950a9bcc14f0c7bc02b8c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 17/32] fix: assign overflowed output section to the preceding
 memory region

An output section above the last memory region was not accounted at all and
an output section below the first one was assigned to it as its overflow.
---
 esp_idf_size/memorymap.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f7a5ec9..5cdab3c 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1577,7 +1577,11 @@ def _get_mem_type_map(
 
                 add_section(mem_type_alias, map_section['name'], map_section['abbrev_name'], map_section)
                 break
-            elif address > map_section['address'] and prev_mem_reg:
+            if address <= map_section['address']:
+                prev_mem_reg = mem_reg
+
+        else:
+            if prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
 
                 # Output section does not map into any memory region. This may happen e.g. when memory region
@@ -1600,11 +1604,8 @@ def _get_mem_type_map(
                 map_section_name = map_section['name'] + '_overflow'
 
                 add_section(mem_type_alias, map_section_name, _abbrev(map_section_name), map_section)
-                break
-
-            prev_mem_reg = mem_reg
+                continue
 
-        else:
             log.warn(
                 f'cannot assign output section {map_section["name"]}'
                 f'(addr: {map_section["address"]}, size: {map_section["size"]}) to any memory type'
-- 
2.43.0


From 1e61697b47663073d011d1478e7587a185774b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 18/32] fix: do not lose the rest of expanded input section

The part of an input section, which is not covered by any symbol, was dropped
if there was no other symbol with higher address. Also do not overwrite the
fill of the preceding input section if the current one is empty.
---
 esp_idf_size/memorymap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 5cdab3c..ac985b2 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1414,17 +1414,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec['size'] -= sym.st_size
                 else:
                     # No other symbols fit into this input section
-                    if isec['size'] or not isecs_new:
-                        # There is some part(tail) of the original input section, which
-                        # was not covered by any symbol. Or no symbol fits into this
-                        # input section at all and isecs_new is empty.
-                        isecs_new.append(isec)
-                    else:
-                        # Whole input section was covered by symbols. If it had filling,
-                        # account it into the lastly added input section.
-                        isecs_new[-1]['fill'] = isec['fill']
                     break
 
+            if isec['size'] or not isecs_new:
+                # There is some part(tail) of the original input section, which
+                # was not covered by any symbol. Or no symbol fits into this
+                # input section at all and isecs_new is empty.
+                isecs_new.append(isec)
+            else:
+                # Whole input section was covered by symbols. If it had filling,
+                # account it into the lastly added input section.
+                isecs_new[-1]['fill'] += isec['fill']
+
         # Finally assign expanded input sections into the output section
         osec['input_sections'] = isecs_new
 
-- 
2.43.0


From d487c7501aad7129796974499847be0edddbda83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 19/32] fix: do not interpret names as markup in json formats

Archive, object file or symbol names with square brackets were interpreted as
rich markup, so part of the name was missing in the json output or the command
failed.
---
 esp_idf_size/format_json.py | 10 +++++-----
 esp_idf_size/format_raw.py  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index 880abad..3c7ffff 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -32,32 +32,32 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             part = mem_type['parts'].setdefault(name, {'size': 0})
             part['size'] += section_info['size']
 
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_object_files(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_object_files_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_archives_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_symbols(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_symbols_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives_dependencies(
     memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
     arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-    log.print(json.dumps(arch_deps, indent=4))
+    log.print(json.dumps(arch_deps, indent=4), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_raw.py b/esp_idf_size/format_raw.py
index b77f5f7..4df9f6e 100644
--- a/esp_idf_size/format_raw.py
+++ b/esp_idf_size/format_raw.py
@@ -11,6 +11,6 @@ from .elf import Elf
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
     if args['archive_dependencies']:
         arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-        log.print(json.dumps(arch_deps, indent=4))
+        log.print(json.dumps(arch_deps, indent=4), markup=False)
     else:
-        log.print(json.dumps(memmap, indent=4))
+        log.print(json.dumps(memmap, indent=4), markup=False)
-- 
2.43.0


From e4d58ab1b9e94dd7cd4ff0ff851d82c6d682f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 20/32] fix: do not interpret names as markup in table, csv,
 tree and dot formats

Archive, object file, section or symbol names with square brackets were
interpreted as rich markup, so part of the name was missing in the output or
the command failed.
---
 esp_idf_size/format_dot.py   |  6 +++---
 esp_idf_size/format_table.py | 24 ++++++++++++------------
 esp_idf_size/format_tree.py  | 15 ++++++++-------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 4beb792..788faf3 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -24,7 +24,7 @@ def show_archives_dependencies(
         shape = 'box' if name in arch_deps else 'ellipse'
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
-        lines.append(rf'"{name}" \[shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
+        lines.append(f'"{name}" [shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -41,12 +41,12 @@ def show_archives_dependencies(
                 line = f'"{arch_name}" -> "{arch_dep_name}"'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += rf' \[label="{syms_str}"]'
+                line += f' [label="{syms_str}"]'
             lines += [line]
 
     lines += ['}']
 
-    log.print('\n'.join(lines))
+    log.print('\n'.join(lines), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 654d81a..13cc85c 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -166,7 +166,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
             if mem_type_info['size']:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     color_diff(round(section_info['pct'], 2), round(section_info['pct_diff'], 2), args['diff']),
                     '',
@@ -175,7 +175,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 )
             else:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     '',
                     '',
@@ -221,17 +221,17 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
                 columns.append(Column(info, size, diff))
 
         name = entry_info['abbrev_name'] if args['abbrev'] else entry_name
-        rows.append(Row(name, columns))
+        rows.append(Row(escape(name), columns))
 
     try:
         args['sort'] = int(args['sort'])
     except ValueError:
         for idx, column in enumerate(table.columns):
-            if column.header == args['sort']:
+            if str(Text.from_markup(column.header)) == args['sort']:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{args["sort"]}" not found')
+            log.die(f'Column "{escape(args["sort"])}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -274,7 +274,7 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
@@ -297,7 +297,7 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
@@ -311,7 +311,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     symbols_summary = memorymap.get_symbols_summary(memmap, args)
     symbols_summary = memorymap.get_summary_filtered(symbols_summary, args)
 
-    table = Table(title=f'Symbols within archive: {args["archive_details"]} (Not all symbols may be reported)')
+    table = Table(title=f'Symbols within archive: {escape(args["archive_details"])} (Not all symbols may be reported)')
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
@@ -320,7 +320,7 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
@@ -352,17 +352,17 @@ def get_archives_dependencies_table(
         table.add_column('Symbols', overflow='fold')
 
     for arch_name, arch_info in arch_deps.items():
-        arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
+        arch_name_abbrev = escape(arch_info['abbrev_name'] if args['abbrev'] else arch_name)
         for cnt, arch_dep in enumerate(arch_info['archives'].items(), start=1):
             arch_dep_name, arch_dep_info = arch_dep
-            arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
+            arch_dep_name_abbrev = escape(arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name)
             if cnt == 1:
                 row = [arch_name_abbrev, str(arch_info['size']), arch_dep_name_abbrev, str(arch_dep_info['size'])]
             else:
                 row = ['', '', arch_dep_name_abbrev, str(arch_dep_info['size'])]
 
             if args['dep_symbols']:
-                row += ['\n'.join(arch_dep_info['symbols'])]
+                row += [escape('\n'.join(arch_dep_info['symbols']))]
             if cnt == len(arch_info['archives']):
                 table.add_row(*row, end_section=True)
             else:
diff --git a/esp_idf_size/format_tree.py b/esp_idf_size/format_tree.py
index 62de334..444d198 100644
--- a/esp_idf_size/format_tree.py
+++ b/esp_idf_size/format_tree.py
@@ -3,6 +3,7 @@
 
 from typing import Any, Dict, Optional
 
+from rich.markup import escape
 from rich.tree import Tree
 
 from . import deps, log, mapfile, memorymap
@@ -27,22 +28,22 @@ def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
             size = color_diff(section_info['size'], section_info['size_diff'], args['diff'])
-            section_tree = mem_type_tree.add(f'{name} {size}', style='bright_blue', guide_style='bright_blue')
+            section_tree = mem_type_tree.add(f'{escape(name)} {size}', style='bright_blue', guide_style='bright_blue')
 
             for archive_name, archive_info in section_info['archives'].items():
                 name = archive_info['abbrev_name'] if args['abbrev'] else archive_name
                 size = color_diff(archive_info['size'], archive_info['size_diff'], args['diff'])
-                archive_tree = section_tree.add(f'{name} {size}', style='green', guide_style='green')
+                archive_tree = section_tree.add(f'{escape(name)} {size}', style='green', guide_style='green')
 
                 for object_file_name, object_file_info in archive_info['object_files'].items():
                     name = object_file_info['abbrev_name'] if args['abbrev'] else object_file_name
                     size = color_diff(object_file_info['size'], object_file_info['size_diff'], args['diff'])
-                    symbol_tree = archive_tree.add(f'{name} {size}', style='default', guide_style='default')
+                    symbol_tree = archive_tree.add(f'{escape(name)} {size}', style='default', guide_style='default')
 
                     for symbol_name, symbol_info in object_file_info['symbols'].items():
                         name = symbol_name
                         size = color_diff(symbol_info['size'], symbol_info['size_diff'], args['diff'])
-                        symbol_tree.add(f'{name} {size}', style='default', guide_style='default')
+                        symbol_tree.add(f'{escape(name)} {size}', style='default', guide_style='default')
 
     log.print(tree)
 
@@ -61,18 +62,18 @@ def show_archives_dependencies(
     for arch_name, arch_info in arch_deps.items():
         arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
         arch_size = arch_info['size']
-        arch_tree = tree.add(f'{arch_name_abbrev} {arch_size}', style='dark_orange', guide_style='dark_orange')
+        arch_tree = tree.add(f'{escape(arch_name_abbrev)} {arch_size}', style='dark_orange', guide_style='dark_orange')
 
         for arch_dep_name, arch_dep_info in arch_info['archives'].items():
             arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
             arch_dep_size = arch_dep_info['size']
             dep_tree = arch_tree.add(
-                f'{arch_dep_name_abbrev} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
+                f'{escape(arch_dep_name_abbrev)} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
             )
 
             if args['dep_symbols']:
                 for sym in arch_dep_info['symbols']:
-                    dep_tree.add(sym, style='default', guide_style='default')
+                    dep_tree.add(escape(sym), style='default', guide_style='default')
 
     log.print(tree)
 
-- 
2.43.0


From db99487c68ffc31d96bf101cb840541857199101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:51 +0000
Subject: [PATCH 21/32] fix: DW_FORM_implicit_const value is a signed LEB128
 number

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 1d4f17a..8b24afa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1494,7 +1494,7 @@ class Dwarf_Abbrev_Attr:
             # attributes with this form, the attribute specification contains a third part, which is
             # a signed LEB128 number. The value of this number is used as the value of the
             # attribute, and no value is stored in the .debug_info section.
-            self.value, offset = elf.get_uleb128(data, offset)
+            self.value, offset = elf.get_sleb128(data, offset)
         else:
             self.value = None
         self.size = offset - self.offset
-- 
2.43.0


From 05c28d6a7a2c566670431b14a471eb2a43fdb660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:51 +0000
Subject: [PATCH 22/32] fix: compare whole directory names when looking for
 symbol component

A compilation unit was assigned to a component just because the name of its
directory started with the name of the component's directory.
---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index ac985b2..3fd5bd3 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1298,7 +1298,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
         # Find component to which the symbol belongs to
         for component in components:
             # NOTE: Elf_Sym is dynamically extended with cu_path and archive_path attribute and mypy doesn't like it
-            if sym.cu_path.startswith(component['component_path']):  # type: ignore
+            if sym.cu_path.startswith(component['component_path'] + '/'):  # type: ignore
                 # The components list is sorted based on component_path length, from longest to shortest.
                 # The longest possible match was found, so return. There is no need to search further.
                 return component
-- 
2.43.0


From 43f3b5b19b97106c9591fef3d4f954845b6611b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:54 +0000
Subject: [PATCH 23/32] fix: keep the value of DW_FORM_loclistx and
 DW_FORM_rnglistx attributes

The decoded index was assigned to an unused variable, so the value of the
attribute was None and formatting it with get_attr_str() raised TypeError.
---
 esp_idf_size/elf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 8b24afa..38b0573 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1694,7 +1694,7 @@ class Dwarf_CU:
 
         # loclist class
         elif form == DW_FORM_loclistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # loclistsptr class
@@ -1705,7 +1705,7 @@ class Dwarf_CU:
 
         # rnglist class
         elif form == DW_FORM_rnglistx:
-            size, offset = self._elf.get_uleb128(data, offset)
+            value, offset = self._elf.get_uleb128(data, offset)
         # DW_FORM_sec_offset handled in addrptr class
 
         # rnglistsptr
-- 
2.43.0


From 42ef6f2839010b9d408d411c5879c6777c18014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:52 +0000
Subject: [PATCH 24/32] fix: do not fail to load symbols if there are no input
 sections

memorymap.get() raised IndexError if an ELF file was available, but none of the
selected output sections had an input section.
---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 3fd5bd3..c532579 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1133,6 +1133,10 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
 
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
 
+    if not isections:
+        # There are no input sections to which the symbols could be assigned.
+        return
+
     # Add ELF symbols into input sections
     isec = isections.pop(0)
     for symbol in symbols:
-- 
2.43.0


From 525315970037f998a4a82f9b7b1cbafc8fea717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:41 +0000
Subject: [PATCH 25/32] fix: count a memory region listed again only once for
 memory types with two address windows

---
 esp_idf_size/memorymap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index c532579..4f01eb1 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1534,8 +1534,8 @@ def _get_mem_type_map(
                 mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
             for mem_type_reg in memory_types_regions[mem_type_alias]:
                 mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_type_offset == mem_reg_offset and mem_type_reg['length'] == mem_reg['length']:
-                    # The current memory region has the same offset to the already added memory region as
+                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
+                    # The current memory region is the already added memory region again, or it has the same offset to it as
                     # offset in memory type(primary and secondary address offset). The length also matches, so this
                     # memory region is mapped into the same memory as region that was already added to the
                     # memory type. Skip it, so we don't account the size of the memory region twice into the total
-- 
2.43.0


From d6450c21a644052ec9e5b071ecb803eeaf49ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:04 +0000
Subject: [PATCH 26/32] fix: keep an empty input section without symbols and
 its fill when expanding LTO input sections

An empty input section of the artificial archive was removed, and the fill
behind it was added to the input section in front of it, which may belong to a
different archive.
---
 esp_idf_size/memorymap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 4f01eb1..f7474a9 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1363,6 +1363,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                 continue
             # Go through symbols, for which we have CU names, and create new input
             # sections.
+            isecs_cnt = len(isecs_new)
             for addr, sym in symbols.items():
                 if addr < isec['address']:
                     # Symbol is not part of this input section
@@ -1420,10 +1421,10 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     # No other symbols fit into this input section
                     break
 
-            if isec['size'] or not isecs_new:
+            if isec['size'] or len(isecs_new) == isecs_cnt:
                 # There is some part(tail) of the original input section, which
                 # was not covered by any symbol. Or no symbol fits into this
-                # input section at all and isecs_new is empty.
+                # input section at all and it is kept as is.
                 isecs_new.append(isec)
             else:
                 # Whole input section was covered by symbols. If it had filling,
-- 
2.43.0


From b3c04f10792ea77e27d7680691867f5ebd446113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:15 +0000
Subject: [PATCH 27/32] fix: an output section without address and content has
 size zero

The linker prints just the name of an output section which has no content at
all, e.g. '.empty : { }', followed by an empty line. The section was kept with
address and size None, and the memory map could not be created.
---
 esp_idf_size/mapfile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 9a062f2..f64dcee 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -237,6 +237,11 @@ class MapFile:
                 line = line.strip()
                 if not line:
                     # Empty line marks end of output section
+                    if output_section['address'] is None:
+                        # Output section without address, size and content, like
+                        # .empty : { }
+                        output_section['address'] = 0
+                        output_section['size'] = 0
                     if input_section:
                         add_input_section(output_section, input_section)
                     output_sections.append(output_section)
-- 
2.43.0


From 3b988a6b2cf6370dc30cd9e0d76583733846ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:41 +0000
Subject: [PATCH 28/32] fix: keep the last output section of a map file without
 cross reference table

Output sections were added to the result only by the empty line behind them.
Without the cross reference table the map file ends right after the last
output section, which was silently dropped.
---
 esp_idf_size/mapfile.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index f64dcee..8470a73 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -216,6 +216,16 @@ class MapFile:
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
 
+        def add_output_section(output_section: Dict[str, Any], input_section: Dict[str, Any]) -> None:
+            if output_section['address'] is None:
+                # Output section without address, size and content, like
+                # .empty : { }
+                output_section['address'] = 0
+                output_section['size'] = 0
+            if input_section:
+                add_input_section(output_section, input_section)
+            output_sections.append(output_section)
+
         output_sections: List[Dict[str, Any]] = []
         output_section: Dict[str, Any] = {}
         input_section: Dict[str, Any] = {}
@@ -237,14 +247,7 @@ class MapFile:
                 line = line.strip()
                 if not line:
                     # Empty line marks end of output section
-                    if output_section['address'] is None:
-                        # Output section without address, size and content, like
-                        # .empty : { }
-                        output_section['address'] = 0
-                        output_section['size'] = 0
-                    if input_section:
-                        add_input_section(output_section, input_section)
-                    output_sections.append(output_section)
+                    add_output_section(output_section, input_section)
                     in_output_section = False
                     in_input_section = False
                     output_section = {}
@@ -381,6 +384,10 @@ class MapFile:
         if not found:
             raise MapFileException(f'cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
+        if in_output_section:
+            # Without the cross reference table, the map file ends right after the last output section.
+            add_output_section(output_section, input_section)
+
         log.debug('linker map output sections', output_sections)
 
         # Skip already processed lines
-- 
2.43.0


From dcbbac94eacc31b0ef414704043e585ce9675152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:52 +0000
Subject: [PATCH 29/32] fix: report a malformed chip description as
 MemMapException

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f7474a9..b8e461e 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1445,7 +1445,7 @@ def _get_memory_types(target: str) -> Dict[str, Any]:
         fn = os.path.join(directory, 'chip_info', target + '.yaml')
         with open(fn) as f:
             memory_types = yaml.safe_load(f)
-    except (OSError, ValueError) as e:
+    except (OSError, ValueError, yaml.YAMLError) as e:
         raise MemMapException(f'cannot read memory types file: {e}')
 
     for name, info in memory_types.items():
-- 
2.43.0


From 108fc6ee2f3da41f46f3b1c5cab362bac3ec406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 30/32] fix: image size missed sections with file contents
 other than SHT_PROGBITS, e.g. SHT_INIT_ARRAY

---
 esp_idf_size/memorymap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index b8e461e..f4efa9e 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -62,7 +62,7 @@ import yaml
 from esp_pylib.errors import FatalError
 
 from . import log, mapfile
-from .elf import SHF_ALLOC, SHT_PROGBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
+from .elf import SHF_ALLOC, SHT_NOBITS, STT_FUNC, STT_OBJECT, Elf, Elf_Exception, Elf_Shdr, Elf_Sym
 
 VERSION = '1.0'
 
@@ -1231,7 +1231,8 @@ def _get_image_size(elf_sections: Optional[Dict[str, Elf_Shdr]], sections: List[
         return size
 
     for name, info in elf_sections.items():
-        if info.sh_type != SHT_PROGBITS:
+        if info.sh_type == SHT_NOBITS:
+            # No content in the file. Others than SHT_PROGBITS do have it, e.g. SHT_INIT_ARRAY.
             continue
         size += info.sh_size
 
-- 
2.43.0


From a41eb04e9fb1009619278193d3d51398ec8a486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 31/32] fix: lines of the map file were split at line separator
 characters in paths

---
 esp_idf_size/mapfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 8470a73..7b25e2f 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -29,7 +29,8 @@ class MapFile:
     def _get_mapfile_lines(self, fn: str) -> List[str]:
         try:
             with open(fn, encoding='utf-8') as f:
-                lines = f.read().splitlines()
+                # Not splitlines(), paths may contain characters it takes for line boundaries, e.g. U+2028.
+                lines = f.read().split('\n')
         except (OSError, ValueError) as e:
             raise MapFileException(f'cannot read linker map file: {e}')
 
-- 
2.43.0


From e029f8f152da33fca9f5b206f9933026ff5bb5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:38 +0000
Subject: [PATCH 32/32] fix: malformed numbers and cross references in a map
 file were not reported as MapFileException

---
 esp_idf_size/mapfile.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 7b25e2f..6f42082 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -21,10 +21,13 @@ class MapFile:
         self.fn = fn
         self.lines = self._get_mapfile_lines(fn)
         self.line_idx = 0
-        self.memory_regions = self._get_memory_regions()
-        self.target = self._get_target()
-        self.sections = self._get_sections()
-        self.cross_reference_table = self._get_cross_reference_table()
+        try:
+            self.memory_regions = self._get_memory_regions()
+            self.target = self._get_target()
+            self.sections = self._get_sections()
+            self.cross_reference_table = self._get_cross_reference_table()
+        except (IndexError, ValueError) as e:
+            raise MapFileException(f'cannot parse linker map file "{fn}": {e}')
 
     def _get_mapfile_lines(self, fn: str) -> List[str]:
         try:
-- 
2.43.0

