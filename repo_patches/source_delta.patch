From 5da6bbcfa0a1f4a9ce2f78140bb77d3b0d9d4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 01/38] fix: do not loop forever on a memory region that starts
 outside any memory type

---
 esp_idf_size/memorymap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f508279..cef2f81 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -903,7 +903,10 @@ def _split_memory_regions(memory_regions: List[Dict[str, Any]], memory_types: Di
                 # rtc_fast_reserved_seg for esp32. We could probably just skip
                 # such memory regions, but let's sanity check this situation.
                 for mem_reg_splitted in memory_regions_splitted.copy():
-                    if mem_reg_origin + mem_reg_length == mem_reg_splitted['origin'] + mem_reg_splitted['length']:
+                    if (
+                        not mem_reg_length
+                        and mem_reg_origin == mem_reg_splitted['origin'] + mem_reg_splitted['length']
+                    ):
                         memory_regions_splitted.append(
                             {
                                 'name': mem_reg['name'],
-- 
2.43.0


From 1df3ce7f2246f3c31208a7644fd80fba910a1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:01 +0000
Subject: [PATCH 02/38] fix: account a memory region listed twice only once in
 memory types with a secondary address

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index cef2f81..10a1a05 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1495,7 +1495,7 @@ def _get_mem_type_map(
                 mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
             for mem_type_reg in memory_types_regions[mem_type_alias]:
                 mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_type_offset == mem_reg_offset and mem_type_reg['length'] == mem_reg['length']:
+                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
                     # The current memory region has the same offset to the already added memory region as
                     # offset in memory type(primary and secondary address offset). The length also matches, so this
                     # memory region is mapped into the same memory as region that was already added to the
-- 
2.43.0


From 1123ad16c96188b6ab55cc63c941e05cc07bbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:33 +0000
Subject: [PATCH 03/38] fix: merge parts of an output section that fall into
 the same memory type

---
 esp_idf_size/memorymap.py | 42 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 10a1a05..d979a4e 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1458,6 +1458,24 @@ def _get_memory_types(target: str) -> Dict[str, Any]:
     return memory_types
 
 
+def _add_section_to_mem_type(mem_type: Dict[str, Any], name: str, section: Dict[str, Any]) -> None:
+    # Account output section, or its part, into memory type. Several parts of one output section may end up in
+    # the same memory type, so the section and everything it contains is merged with what is already there.
+    def merge(dst: Dict[str, Any], src: Dict[str, Any], levels: List[str]) -> None:
+        dst['size'] += src['size']
+        if not levels:
+            return
+        for child_name, child in src[levels[0]].items():
+            if child_name in dst[levels[0]]:
+                merge(dst[levels[0]][child_name], child, levels[1:])
+            else:
+                dst[levels[0]][child_name] = child
+
+    mem_type['used'] += section['size']
+    entry = {'abbrev_name': _abbrev(name), 'size': 0, 'size_diff': 0, 'archives': {}}
+    merge(mem_type['sections'].setdefault(name, entry), section, ['archives', 'object_files', 'symbols'])
+
+
 def _get_mem_type_map(
     memory_types: Dict[str, Any], memory_regions: List[Dict[str, Any]], map_sections: List[Dict[str, Any]]
 ) -> Dict[str, Any]:
@@ -1526,13 +1544,7 @@ def _get_mem_type_map(
             # the address-based region lookup, which cannot disambiguate on
             # chips where the PSRAM and flash data linker regions share an
             # address window.
-            memory_map[ext_ram_alias]['used'] += map_section['size']
-            memory_map[ext_ram_alias]['sections'][map_section['name']] = {
-                'abbrev_name': map_section['abbrev_name'],
-                'size': map_section['size'],
-                'size_diff': 0,
-                'archives': map_section['archives'],
-            }
+            _add_section_to_mem_type(memory_map[ext_ram_alias], map_section['name'], map_section)
             continue
         prev_mem_reg = None
         for mem_reg in memory_regions_sorted:
@@ -1547,13 +1559,7 @@ def _get_mem_type_map(
                         f'(addr: {address}, size: {mem_reg["length"]})'
                     )
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section['name']] = {
-                    'abbrev_name': map_section['abbrev_name'],
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                _add_section_to_mem_type(memory_map[mem_type_alias], map_section['name'], map_section)
                 break
             elif address > map_section['address'] and prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
@@ -1577,13 +1583,7 @@ def _get_mem_type_map(
                 # clearly mark the overflow part of the output memory section, append "_overflow" to its name.
                 map_section_name = map_section['name'] + '_overflow'
 
-                memory_map[mem_type_alias]['used'] += map_section['size']
-                memory_map[mem_type_alias]['sections'][map_section_name] = {
-                    'abbrev_name': _abbrev(map_section_name),
-                    'size': map_section['size'],
-                    'size_diff': 0,
-                    'archives': map_section['archives'],
-                }
+                _add_section_to_mem_type(memory_map[mem_type_alias], map_section_name, map_section)
                 break
 
             prev_mem_reg = mem_reg
-- 
2.43.0


From 27be4568bbad75ee4df9a2d997cb804ddc93b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:51 +0000
Subject: [PATCH 04/38] fix: report overflow of the memory region with the
 highest address

---
 esp_idf_size/memorymap.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index d979a4e..f522d1f 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1561,7 +1561,10 @@ def _get_mem_type_map(
 
                 _add_section_to_mem_type(memory_map[mem_type_alias], map_section['name'], map_section)
                 break
-            elif address > map_section['address'] and prev_mem_reg:
+            if address <= map_section['address']:
+                prev_mem_reg = mem_reg
+        else:
+            if prev_mem_reg:
                 mem_type_alias = prev_mem_reg['type']['name']
 
                 # Output section does not map into any memory region. This may happen e.g. when memory region
@@ -1584,15 +1587,11 @@ def _get_mem_type_map(
                 map_section_name = map_section['name'] + '_overflow'
 
                 _add_section_to_mem_type(memory_map[mem_type_alias], map_section_name, map_section)
-                break
-
-            prev_mem_reg = mem_reg
-
-        else:
-            log.warn(
-                f'cannot assign output section {map_section["name"]}'
-                f'(addr: {map_section["address"]}, size: {map_section["size"]}) to any memory type'
-            )
+            else:
+                log.warn(
+                    f'cannot assign output section {map_section["name"]}'
+                    f'(addr: {map_section["address"]}, size: {map_section["size"]}) to any memory type'
+                )
 
     return memory_map
 
-- 
2.43.0


From 73b8ff97cdb2e29b7120ae97972a5d712c8a7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 05/38] fix: sum sizes of equally named symbols within one
 object file

---
 esp_idf_size/memorymap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index f522d1f..7433262 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1269,6 +1269,10 @@ def _add_archives_to_sections(sections: List[Dict[str, Any]]) -> None:
             object_file['size'] += input_section['size']
 
             for symbol in input_section['symbols']:
+                if symbol['name'] in object_file['symbols']:
+                    # Static symbols or input sections with the same name, for example literals.
+                    object_file['symbols'][symbol['name']]['size'] += symbol['size']
+                    continue
                 object_file['symbols'][symbol['name']] = {
                     'abbrev_name': symbol['name'],
                     'size': symbol['size'],
-- 
2.43.0


From 6adb8183631c17576b26172889dd05283e048741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:18 +0000
Subject: [PATCH 06/38] fix: handle parentheses in paths of object files and
 archives

---
 esp_idf_size/mapfile.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 3596c36..a8aa156 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -122,7 +122,16 @@ class MapFile:
         return target
 
     def _get_archive_object_file(self, s: str) -> Tuple[str, str]:
-        idx = s.find('(')
+        # The object file is in the parentheses at the very end. Both the path and the object file name
+        # may contain parentheses too, for example "C:/Program Files (x86)/libc.a(memcpy.o)".
+        idx = -1
+        if s.endswith(')'):
+            depth = 0
+            for i in range(len(s) - 1, -1, -1):
+                depth += {')': 1, '(': -1}.get(s[i], 0)
+                if not depth:
+                    idx = i
+                    break
         if idx == -1:
             # Object file linked directly without archive. As in the original parser,
             # assign a default archive for such object file.
-- 
2.43.0


From 809e03c753ae66d8b5fc0271950208838ff6bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:30 +0000
Subject: [PATCH 07/38] fix: account the whole padding of an empty input
 section to the preceding one

---
 esp_idf_size/mapfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index a8aa156..619a198 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -219,7 +219,7 @@ class MapFile:
                 # so it can be accounted here.
                 for s in reversed(output_section['input_sections']):
                     if s['size']:
-                        s['fill'] += size
+                        s['fill'] += input_section['fill']
                         break
                 input_section['fill'] = 0
             output_section['input_sections'].append(input_section)
-- 
2.43.0


From 9d2e98e398d5a3cbfec9179ecdd7cc88aead9174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:30 +0000
Subject: [PATCH 08/38] fix: account explicit data given by an expression

---
 esp_idf_size/mapfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 619a198..870e8e6 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -340,9 +340,9 @@ class MapFile:
                         # Output section may contain explicit data
                         # https://sourceware.org/binutils/docs/ld/Output-Section-Data.html
                         # We account them the same as for *fill* into the previous input
-                        # section.
+                        # section. The linker appends the expression if the value is not a plain number.
                         split = line.split()
-                        if len(split) == 4 and split[2] in self.EXPLICIT_BYTES:
+                        if len(split) >= 4 and split[2] in self.EXPLICIT_BYTES:
                             input_section['fill'] += int(split[1], 0)
 
             elif line.startswith('.'):
-- 
2.43.0


From ce7fbb72ddc281170f97e4e560c0caa631f9d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:30 +0000
Subject: [PATCH 09/38] fix: do not report a parser error for padding after
 leading empty input sections

---
 esp_idf_size/mapfile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 870e8e6..ceaf6b5 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -396,13 +396,15 @@ class MapFile:
             if not section['input_sections']:
                 # Output section doesn't have any input sections, so it can be skipped
                 continue
-            # Start at the first input section address. There might be alignment(fill) between
+            # Start at the first non-empty input section address. There might be alignment(fill) between
             # output sections address and first input section address, which is not accounted.
-            start_addr = section['input_sections'][0]['address']
+            start_addr = None
             offset = 0
             for input_section in section['input_sections']:
                 if not input_section['size']:
                     continue
+                if start_addr is None:
+                    start_addr = input_section['address']
                 if start_addr + offset != input_section['address']:
                     msg = (
                         f'Input section {input_section["name"]} at {hex(input_section["address"])} '
-- 
2.43.0


From 72fb981efae31ae57b78033d06f8e0bad63eba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:44 +0000
Subject: [PATCH 10/38] fix: report input sections behind the last ELF symbol
 and cope with no input sections at all

---
 esp_idf_size/memorymap.py | 45 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 7433262..4f0f3a8 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1135,6 +1135,9 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
 
     isections = [s for s in sorted(isections, key=lambda s: s.get('address', 0))]  # s.get used to help mypy
 
+    if not isections:
+        return
+
     # Add ELF symbols into input sections
     isec = isections.pop(0)
     for symbol in symbols:
@@ -1146,26 +1149,6 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
                 # Sanity check that we found input section for symbol
                 raise MemMapException(f'cannot find input section for symbol {sym_name}({sym_addr})')
 
-            if not isec['symbols']:
-                # Input section does not have any ELF symbols assigned.
-                # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
-                # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
-                # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
-                # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
-                # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
-                # lib_a-vfprintf.o 657
-                # ├── blanks.1 16
-                # ├── zeroes.0 16
-                # ├── .rodata.str1.4 53
-                # └── .srodata.cst8 32
-                isec['symbols'].append(
-                    {
-                        'name': isec['name'],
-                        'address': isec['address'],
-                        'size': isec['size'],
-                    }
-                )
-
             # Jump to next input section
             isec = isections.pop(0)
 
@@ -1194,6 +1177,28 @@ def _add_symbols_to_sections(elf: Optional[Elf], osections: List[Dict[str, Any]]
             }
         )
 
+    for osec in osections:
+        for isec in osec['input_sections']:
+            if not isec['symbols']:
+                # Input section does not have any ELF symbols assigned.
+                # In e.g. .data or .rodata sections, there might be literals, which do not have symbols
+                # in symbol table. Since the binary is compiled with -fdata-sections, let's add the input
+                # section as "symbol". This should avoid displaying "holes" in the reports. Generally it's
+                # still possible that some libraries/objects, which are e.g. not compiled with -fdata-sections,
+                # may still be missing some "symbols". For example libc.a->lib_a-vfprintf.o: 657 != 117
+                # lib_a-vfprintf.o 657
+                # ├── blanks.1 16
+                # ├── zeroes.0 16
+                # ├── .rodata.str1.4 53
+                # └── .srodata.cst8 32
+                isec['symbols'].append(
+                    {
+                        'name': isec['name'],
+                        'address': isec['address'],
+                        'size': isec['size'],
+                    }
+                )
+
     log.debug('linker map output sections filtered with symbols', osections)
 
 
-- 
2.43.0


From 04dfb8bdfaff12875e3f12a6bd357a9e5b2b1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:52 +0000
Subject: [PATCH 11/38] fix: take the sign of a signed LEB128 number from its
 last byte

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index b20dd3c..a97fde1 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -2126,7 +2126,7 @@ class Elf:
         # SLEB128 is stored in two's complement, use ULEB128 and
         # sign extend it if necessary.
         value, offset_new = self.get_uleb128(data, offset)
-        msb = data[offset - 1]
+        msb = data[offset_new - 1]
         if not msb & 0x40:
             # SLEB128 sign bit is 7'th bit in MSB. If not set
             # it's not negative number.
-- 
2.43.0


From 5a99fadf43555194be91240a05acb350f1d8596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:52 +0000
Subject: [PATCH 12/38] fix: decode DW_FORM_implicit_const as a signed number

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a97fde1..1a567f7 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1494,7 +1494,7 @@ class Dwarf_Abbrev_Attr:
             # attributes with this form, the attribute specification contains a third part, which is
             # a signed LEB128 number. The value of this number is used as the value of the
             # attribute, and no value is stored in the .debug_info section.
-            self.value, offset = elf.get_uleb128(data, offset)
+            self.value, offset = elf.get_sleb128(data, offset)
         else:
             self.value = None
         self.size = offset - self.offset
-- 
2.43.0


From f8bdd4a12729f86c709fa750bc44eb9ad2099688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:52 +0000
Subject: [PATCH 13/38] fix: DW_FORM_ref_sig8 takes eight bytes

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 1a567f7..a861046 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1730,7 +1730,7 @@ class Dwarf_CU:
         elif form == DW_FORM_ref_addr:
             value, offset = self.get_offset(data, offset)
         elif form == DW_FORM_ref_sig8:
-            value, offset = self._elf.get_uint8(data, offset)
+            value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
             value, offset = self._elf.get_uint32(data, offset)
         elif form == DW_FORM_ref_sup8:
-- 
2.43.0


From a2a005f167229b0642c1a1fa00db1c2e21faa35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:52 +0000
Subject: [PATCH 14/38] fix: return the cached value of an already evaluated
 DWARF attribute

---
 esp_idf_size/elf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index a861046..8b24afa 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1765,7 +1765,7 @@ class Dwarf_CU:
 
     def get_attr_eval(self, attr: Dict[str, Any]) -> Optional[Any]:
         if 'evaluated' in attr:
-            return attr['eval']
+            return attr['evaluated']
 
         form = attr['form']
         value = attr['value']
-- 
2.43.0


From 319fa33eb09f7ab71a56c2067c4a0f5e584eefb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:52 +0000
Subject: [PATCH 15/38] fix: accept empty DWARF location descriptions of
 optimized out objects

---
 esp_idf_size/elf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 8b24afa..579b6d8 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1805,6 +1805,10 @@ class Dwarf_CU:
                     stack = [None]
                     break
 
+            if not stack:
+                # Empty location description, the object was optimized out (Dwarf5: 2.6.1.1.4).
+                stack = [None]
+
             if len(stack) != 1:
                 raise Elf_Exception(f'invalid DWARF stack {stack}')
 
-- 
2.43.0


From 79b9b429d26e8da6f6856cbfefbb8d507ae8a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:16 +0000
Subject: [PATCH 16/38] fix: do not add a stray empty entry to symbols of a
 unified memory map

---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 4f0f3a8..275cb7f 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -461,8 +461,9 @@ def unify(memory_map: Dict[str, Any]) -> None:
                     'abbrev_name': original_item_info['abbrev_name'],
                     'size': original_item_info['size'],
                     'size_diff': original_item_info['size_diff'],
-                    sublevel: {},
                 }
+                if sublevel is not None:
+                    unified_item_info[sublevel] = {}
                 unified[original_item_name_abbrev] = unified_item_info
             else:
                 unified_item_info['size'] += original_item_info['size']
-- 
2.43.0


From 8bcd95b36fa83e26a322725bfc944100ec34e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:15 +0000
Subject: [PATCH 17/38] fix: sum section sizes of unified object files and
 symbols instead of keeping the last one

---
 esp_idf_size/memorymap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 275cb7f..8a1868d 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -756,12 +756,12 @@ def get_symbols_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -> Dic
 
         symbol_mem_type = symbol['memory_types'][mem_type_name]
         size = symbol_info['size']
-        symbol_mem_type['sections'][section_name]['size'] = size
+        symbol_mem_type['sections'][section_name]['size'] += size
         symbol_mem_type['size'] += size
         symbol['size'] += size
 
         size = symbol_info['size_diff']
-        symbol_mem_type['sections'][section_name]['size_diff'] = size
+        symbol_mem_type['sections'][section_name]['size_diff'] += size
         symbol_mem_type['size_diff'] += size
         symbol['size_diff'] += size
 
@@ -804,12 +804,12 @@ def get_object_files_summary(memory_map: Dict[str, Any], args: Dict[str, Any]) -
 
         object_file_mem_type = object_file['memory_types'][mem_type_name]
         size = object_file_info['size']
-        object_file_mem_type['sections'][section_name]['size'] = size
+        object_file_mem_type['sections'][section_name]['size'] += size
         object_file_mem_type['size'] += size
         object_file['size'] += size
 
         size = object_file_info['size_diff']
-        object_file_mem_type['sections'][section_name]['size_diff'] = size
+        object_file_mem_type['sections'][section_name]['size_diff'] += size
         object_file_mem_type['size_diff'] += size
         object_file['size_diff'] += size
 
-- 
2.43.0


From 3ff0ffb98ce5218d431a69e10f08d43d9c81b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 18/38] fix: ignore the flash size of the reference project too

---
 esp_idf_size/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 5d27fb9..820b780 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -127,7 +127,7 @@ def _run(args: Dict[str, Any]) -> None:
             if not args['show_unused']:
                 memorymap.remove_unused(memmap_ref)
             if not args['use_flash_size']:
-                memorymap.ignore_flash_size(memmap)
+                memorymap.ignore_flash_size(memmap_ref)
             memmap = memorymap.diff(memmap, memmap_ref)
             if memmap['target'] != memmap['target_diff']:
                 log.warn(
-- 
2.43.0


From 1edcf237100dce3cccfe229e5fdc5f0cfd22b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 19/38] fix: sum sections with the same abbreviated name in the
 JSON summary

---
 esp_idf_size/format_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index fad4a18..3ee9efc 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -28,9 +28,9 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         summary['layout'].append(mem_type)
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
-            mem_type['parts'][name] = {
-                'size': section_info['size'],
-            }
+            # Sections may share one abbreviated name.
+            part = mem_type['parts'].setdefault(name, {'size': 0})
+            part['size'] += section_info['size']
 
     log.print(json.dumps(summary, indent=4))
 
-- 
2.43.0


From 8aa2a790feeefdb0bdaa23c4b8d4413d664268c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 20/38] fix: do not interpret names in JSON, raw and DOT output
 as console markup

---
 esp_idf_size/format_dot.py  |  6 +++---
 esp_idf_size/format_json.py | 10 +++++-----
 esp_idf_size/format_raw.py  |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 4beb792..788faf3 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -24,7 +24,7 @@ def show_archives_dependencies(
         shape = 'box' if name in arch_deps else 'ellipse'
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
-        lines.append(rf'"{name}" \[shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
+        lines.append(f'"{name}" [shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -41,12 +41,12 @@ def show_archives_dependencies(
                 line = f'"{arch_name}" -> "{arch_dep_name}"'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += rf' \[label="{syms_str}"]'
+                line += f' [label="{syms_str}"]'
             lines += [line]
 
     lines += ['}']
 
-    log.print('\n'.join(lines))
+    log.print('\n'.join(lines), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_json.py b/esp_idf_size/format_json.py
index 3ee9efc..a468bfd 100644
--- a/esp_idf_size/format_json.py
+++ b/esp_idf_size/format_json.py
@@ -32,32 +32,32 @@ def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
             part = mem_type['parts'].setdefault(name, {'size': 0})
             part['size'] += section_info['size']
 
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_object_files(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_object_files_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_archives_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_symbols(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     summary = memorymap.get_symbols_summary(memmap, args)
     summary = memorymap.get_summary_sorted(summary, args)
-    log.print(json.dumps(summary, indent=4))
+    log.print(json.dumps(summary, indent=4), markup=False)
 
 
 def show_archives_dependencies(
     memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
     arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-    log.print(json.dumps(arch_deps, indent=4))
+    log.print(json.dumps(arch_deps, indent=4), markup=False)
 
 
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
diff --git a/esp_idf_size/format_raw.py b/esp_idf_size/format_raw.py
index b77f5f7..4df9f6e 100644
--- a/esp_idf_size/format_raw.py
+++ b/esp_idf_size/format_raw.py
@@ -11,6 +11,6 @@ from .elf import Elf
 def show(memmap: Dict[str, Any], map_file: mapfile.MapFile, elf: Optional[Elf], args: Dict[str, Any]) -> None:
     if args['archive_dependencies']:
         arch_deps = deps.get_archives_dependencies(map_file, memmap, elf, args)
-        log.print(json.dumps(arch_deps, indent=4))
+        log.print(json.dumps(arch_deps, indent=4), markup=False)
     else:
-        log.print(json.dumps(memmap, indent=4))
+        log.print(json.dumps(memmap, indent=4), markup=False)
-- 
2.43.0


From 269ed7503fb183c0ce376ad7b603114d6e47fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 21/38] fix: do not interpret names in tables, CSV and trees as
 console markup

---
 esp_idf_size/format_table.py | 43 ++++++++++++++++++++----------------
 esp_idf_size/format_tree.py  | 19 ++++++++--------
 2 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/esp_idf_size/format_table.py b/esp_idf_size/format_table.py
index 654d81a..1432882 100644
--- a/esp_idf_size/format_table.py
+++ b/esp_idf_size/format_table.py
@@ -15,8 +15,8 @@ from .elf import Elf
 def show_diff_info(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
     if not args['diff']:
         return
-    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(memmap['project_path']))
-    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(memmap['project_path_diff']))
+    log.eprint('[bold]CURRENT[/]   project file: "{}"'.format(escape(memmap['project_path'])))
+    log.eprint('[bold]REFERENCE[/] project file: "{}"'.format(escape(memmap['project_path_diff'])))
     log.eprint(
         'Difference is counted as [bold]CURRENT - REFERENCE[/], i.e. a positive '
         r'number means that [bold]CURRENT[/] is larger.'
@@ -142,7 +142,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     for mem_type_name, mem_type_info in mem_types_sorted.items():
         if mem_type_info['size']:
             table.add_row(
-                mem_type_name,
+                escape(mem_type_name),
                 color_diff(mem_type_info['used'], mem_type_info['used_diff'], args['diff']),
                 color_diff(round(mem_type_info['pct'], 2), round(mem_type_info['pct_diff'], 2), args['diff']),
                 color_size(mem_type_info['remain'], mem_type_info['remain_diff'], args['diff']),
@@ -151,7 +151,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
             )
         else:
             table.add_row(
-                mem_type_name,
+                escape(mem_type_name),
                 color_diff(mem_type_info['used'], mem_type_info['used_diff'], args['diff']),
                 '',
                 '',
@@ -166,7 +166,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
             if mem_type_info['size']:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     color_diff(round(section_info['pct'], 2), round(section_info['pct_diff'], 2), args['diff']),
                     '',
@@ -175,7 +175,7 @@ def get_summary_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
                 )
             else:
                 table.add_row(
-                    f'   {name}',
+                    f'   {escape(name)}',
                     color_diff(section_info['used'], section_info['used_diff'], args['diff']),
                     '',
                     '',
@@ -227,11 +227,11 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
         args['sort'] = int(args['sort'])
     except ValueError:
         for idx, column in enumerate(table.columns):
-            if column.header == args['sort']:
+            if str(Text.from_markup(column.header)) == args['sort']:
                 args['sort'] = idx
                 break
         else:
-            log.die(f'Column "{args["sort"]}" not found')
+            log.die(f'Column "{escape(args["sort"])}" not found')
 
     if args['sort'] == 0:
         log.die('Sorting based on column 0, which contains row description, is not supported.')
@@ -255,7 +255,7 @@ def _get_table_sorted(summary: Dict[str, Any], table: Table, args: Dict[str, Any
     # Return only simple list of rows, where each row is a list
     # of columns to be printed in table.
     for row in rows:
-        cols = [row.name] + [col.info for col in row.columns]
+        cols = [escape(row.name)] + [col.info for col in row.columns]
         rows_final.append(cols)
 
     return rows_final
@@ -271,10 +271,10 @@ def get_object_files_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Tabl
 
     for object_file_name, object_file_info in object_files_summary.items():
         for mem_type_name, mem_type_info in object_file_info['memory_types'].items():
-            table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
+            table.add_column(escape(mem_type_name), overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(object_files_summary, table, args)
@@ -294,10 +294,10 @@ def get_archives_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
 
     for archive_name, archive_info in archives_summary.items():
         for mem_type_name, mem_type_info in archive_info['memory_types'].items():
-            table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
+            table.add_column(escape(mem_type_name), overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(archives_summary, table, args)
@@ -311,16 +311,16 @@ def get_symbols_table(memmap: Dict[str, Any], args: Dict[str, Any]) -> Table:
     symbols_summary = memorymap.get_symbols_summary(memmap, args)
     symbols_summary = memorymap.get_summary_filtered(symbols_summary, args)
 
-    table = Table(title=f'Symbols within archive: {args["archive_details"]} (Not all symbols may be reported)')
+    table = Table(title=f'Symbols within archive: {escape(args["archive_details"])} (Not all symbols may be reported)')
     table.add_column('Symbol', overflow='fold')
     table.add_column('Total Size', overflow='fold', justify='right')
 
     for symbol_name, symbol_info in symbols_summary.items():
         for mem_type_name, mem_type_info in symbol_info['memory_types'].items():
-            table.add_column(mem_type_name, overflow='fold', justify='right', style='dark_orange')
+            table.add_column(escape(mem_type_name), overflow='fold', justify='right', style='dark_orange')
             for section_name, section_info in mem_type_info['sections'].items():
                 name = section_info['abbrev_name'] if args['abbrev'] else section_name
-                table.add_column(name, overflow='fold', justify='right', style='bright_blue')
+                table.add_column(escape(name), overflow='fold', justify='right', style='bright_blue')
         break
 
     sizes_sorted = _get_table_sorted(symbols_summary, table, args)
@@ -357,12 +357,17 @@ def get_archives_dependencies_table(
             arch_dep_name, arch_dep_info = arch_dep
             arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
             if cnt == 1:
-                row = [arch_name_abbrev, str(arch_info['size']), arch_dep_name_abbrev, str(arch_dep_info['size'])]
+                row = [
+                    escape(arch_name_abbrev),
+                    str(arch_info['size']),
+                    escape(arch_dep_name_abbrev),
+                    str(arch_dep_info['size']),
+                ]
             else:
-                row = ['', '', arch_dep_name_abbrev, str(arch_dep_info['size'])]
+                row = ['', '', escape(arch_dep_name_abbrev), str(arch_dep_info['size'])]
 
             if args['dep_symbols']:
-                row += ['\n'.join(arch_dep_info['symbols'])]
+                row += [escape('\n'.join(arch_dep_info['symbols']))]
             if cnt == len(arch_info['archives']):
                 table.add_row(*row, end_section=True)
             else:
diff --git a/esp_idf_size/format_tree.py b/esp_idf_size/format_tree.py
index 62de334..662f5ce 100644
--- a/esp_idf_size/format_tree.py
+++ b/esp_idf_size/format_tree.py
@@ -3,6 +3,7 @@
 
 from typing import Any, Dict, Optional
 
+from rich.markup import escape
 from rich.tree import Tree
 
 from . import deps, log, mapfile, memorymap
@@ -20,29 +21,29 @@ def show_memmap(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
         used = color_diff(mem_type_info['used'], mem_type_info['used_diff'], args['diff'])
         if mem_type_info['size']:
             size = color_size(mem_type_info['size'], mem_type_info['size_diff'], args['diff'])
-            mem_type_tree = tree.add(f'{mem_type_name} {used} / {size}', style='dark_orange', guide_style='dark_orange')
+            mem_type_tree = tree.add(f'{escape(mem_type_name)} {used} / {size}', style='dark_orange', guide_style='dark_orange')
         else:
-            mem_type_tree = tree.add(f'{mem_type_name} {used}', style='dark_orange', guide_style='dark_orange')
+            mem_type_tree = tree.add(f'{escape(mem_type_name)} {used}', style='dark_orange', guide_style='dark_orange')
 
         for section_name, section_info in mem_type_info['sections'].items():
             name = section_info['abbrev_name'] if args['abbrev'] else section_name
             size = color_diff(section_info['size'], section_info['size_diff'], args['diff'])
-            section_tree = mem_type_tree.add(f'{name} {size}', style='bright_blue', guide_style='bright_blue')
+            section_tree = mem_type_tree.add(f'{escape(name)} {size}', style='bright_blue', guide_style='bright_blue')
 
             for archive_name, archive_info in section_info['archives'].items():
                 name = archive_info['abbrev_name'] if args['abbrev'] else archive_name
                 size = color_diff(archive_info['size'], archive_info['size_diff'], args['diff'])
-                archive_tree = section_tree.add(f'{name} {size}', style='green', guide_style='green')
+                archive_tree = section_tree.add(f'{escape(name)} {size}', style='green', guide_style='green')
 
                 for object_file_name, object_file_info in archive_info['object_files'].items():
                     name = object_file_info['abbrev_name'] if args['abbrev'] else object_file_name
                     size = color_diff(object_file_info['size'], object_file_info['size_diff'], args['diff'])
-                    symbol_tree = archive_tree.add(f'{name} {size}', style='default', guide_style='default')
+                    symbol_tree = archive_tree.add(f'{escape(name)} {size}', style='default', guide_style='default')
 
                     for symbol_name, symbol_info in object_file_info['symbols'].items():
                         name = symbol_name
                         size = color_diff(symbol_info['size'], symbol_info['size_diff'], args['diff'])
-                        symbol_tree.add(f'{name} {size}', style='default', guide_style='default')
+                        symbol_tree.add(f'{escape(name)} {size}', style='default', guide_style='default')
 
     log.print(tree)
 
@@ -61,18 +62,18 @@ def show_archives_dependencies(
     for arch_name, arch_info in arch_deps.items():
         arch_name_abbrev = arch_info['abbrev_name'] if args['abbrev'] else arch_name
         arch_size = arch_info['size']
-        arch_tree = tree.add(f'{arch_name_abbrev} {arch_size}', style='dark_orange', guide_style='dark_orange')
+        arch_tree = tree.add(f'{escape(arch_name_abbrev)} {arch_size}', style='dark_orange', guide_style='dark_orange')
 
         for arch_dep_name, arch_dep_info in arch_info['archives'].items():
             arch_dep_name_abbrev = arch_dep_info['abbrev_name'] if args['abbrev'] else arch_dep_name
             arch_dep_size = arch_dep_info['size']
             dep_tree = arch_tree.add(
-                f'{arch_dep_name_abbrev} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
+                f'{escape(arch_dep_name_abbrev)} {arch_dep_size}', style='bright_blue', guide_style='bright_blue'
             )
 
             if args['dep_symbols']:
                 for sym in arch_dep_info['symbols']:
-                    dep_tree.add(sym, style='default', guide_style='default')
+                    dep_tree.add(escape(sym), style='default', guide_style='default')
 
     log.print(tree)
 
-- 
2.43.0


From 3d763a3db6b1dd118e198c166bd8410143c8fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:29 +0000
Subject: [PATCH 22/38] fix: escape quotes in CSV fields

---
 esp_idf_size/format_csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index c9e1cbf..c5d0e65 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -19,7 +19,8 @@ def show_table(table: Table) -> None:
     for x, col in enumerate(table.columns):
         matrix[0][x] = f'"{col.header}"'
         for y, cell in enumerate(col.cells, start=1):
-            cell = cell.strip()
+            # Quotes within a quoted field are doubled (RFC 4180).
+            cell = cell.strip().replace('"', '""')
             matrix[y][x] = f'"{cell}"'
 
     for row in matrix:
-- 
2.43.0


From 179d726f2207bc0745a5e6661b47233dac1f12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:37 +0000
Subject: [PATCH 23/38] fix: report archive dependencies in an order that does
 not depend on the hash seed

---
 esp_idf_size/deps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp_idf_size/deps.py b/esp_idf_size/deps.py
index 0e22228..95b16e2 100644
--- a/esp_idf_size/deps.py
+++ b/esp_idf_size/deps.py
@@ -29,7 +29,7 @@ def get_archives_deps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) -> Di
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = dict.fromkeys(ref[0] for ref in refs[1:])
 
         for ref_archive in ref_archives:
             if ref_archive not in archives:
@@ -72,7 +72,7 @@ def get_archives_revdeps(crt: Dict[str, Any], archives_sizes: Dict[str, Any]) ->
 
     for sym, refs in crt.items():
         def_archive = refs[0][0]
-        ref_archives = {ref[0] for ref in refs[1:]}
+        ref_archives = dict.fromkeys(ref[0] for ref in refs[1:])
 
         if def_archive not in archives:
             archives[def_archive] = {
-- 
2.43.0


From e7b34a2d2ef067a9c31700d59c148b1da1bbd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:26 +0000
Subject: [PATCH 24/38] fix: do not truncate percentages when sorting by them

---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 8a1868d..2c9d886 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -669,7 +669,8 @@ def _get_summary_memory_types(memory_map: Dict[str, Any]) -> Dict[str, Any]:
 
 
 def sort_dict_by_key(dictionary: Dict[str, Any], key: str, reverse: bool) -> Dict[str, Any]:
-    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: int(item[1][key]), reverse=reverse)}
+    # The key might not be an integer, e.g. percentage, so don't truncate it.
+    return {k: v for k, v in sorted(dictionary.items(), key=lambda item: item[1][key], reverse=reverse)}
 
 
 def get_summary_sorted(entries: Dict[str, Any], args: Dict[str, Any]) -> Dict[str, Any]:
-- 
2.43.0


From f7be129e6f1a3185e5e094ba489a4aaf7badfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 25/38] fix: use the ELF file given by the caller

---
 esp_idf_size/memorymap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 2c9d886..4912e4c 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -195,7 +195,7 @@ def get(
         'memory_types': {},
     }
 
-    proj_desc = map_fn = elf = target = None
+    proj_desc = map_fn = target = None
 
     map_fn = os.path.abspath(input_fn)
 
-- 
2.43.0


From 1981b1b8c7a59f6ef2a934fbed0c4c1025e6a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 26/38] fix: compare whole path elements when looking for the
 component of a compilation unit

---
 esp_idf_size/memorymap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 4912e4c..c498318 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1309,7 +1309,8 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
         # Find component to which the symbol belongs to
         for component in components:
             # NOTE: Elf_Sym is dynamically extended with cu_path and archive_path attribute and mypy doesn't like it
-            if sym.cu_path.startswith(component['component_path']):  # type: ignore
+            # Compare whole path elements, /components/foobar/foobar.c is not part of /components/foo.
+            if sym.cu_path.startswith(component['component_path'].rstrip('/') + '/'):  # type: ignore
                 # The components list is sorted based on component_path length, from longest to shortest.
                 # The longest possible match was found, so return. There is no need to search further.
                 return component
-- 
2.43.0


From a0e38167263f9a522d0d6b04412556c77b6332aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 27/38] fix: keep what debug information does not cover of an
 input section without archive

---
 esp_idf_size/memorymap.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index c498318..5b225f5 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1371,16 +1371,18 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                 continue
             # Go through symbols, for which we have CU names, and create new input
             # sections.
+            expanded = False
             for addr, sym in symbols.items():
                 if addr < isec['address']:
                     # Symbol is not part of this input section
                     continue
-                elif addr == isec['address'] and isec['size']:
+                elif addr >= isec['address'] + isec['size']:
+                    # No other symbols fit into this input section
+                    break
+                elif addr == isec['address']:
                     # Symbol starts at the same address as input section.
                     # Create new input section covered by the symbol, insert it
                     # into isecs_new and adjust isec address and size.
-                    # Do this only if there is some size left, because
-                    # previous symbol may have covered the rest of the input section.
                     isec_new = {
                         'name': sym.name,
                         'address': sym.st_value,
@@ -1393,7 +1395,7 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec['address'] += sym.st_size
                     isec['size'] -= sym.st_size
 
-                elif addr < isec['address'] + isec['size']:
+                else:
                     # There is a gap between isec address and symbol address, for which
                     # we have no symbol with CU info. Create copy of the original
                     # isec with reduced size and keep it in the artificial '(exe)' archive.
@@ -1424,18 +1426,17 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isecs_new.append(isec_new)
                     isec['address'] += sym.st_size
                     isec['size'] -= sym.st_size
-                else:
-                    # No other symbols fit into this input section
-                    if isec['size'] or not isecs_new:
-                        # There is some part(tail) of the original input section, which
-                        # was not covered by any symbol. Or no symbol fits into this
-                        # input section at all and isecs_new is empty.
-                        isecs_new.append(isec)
-                    else:
-                        # Whole input section was covered by symbols. If it had filling,
-                        # account it into the lastly added input section.
-                        isecs_new[-1]['fill'] = isec['fill']
-                    break
+                expanded = True
+
+            if isec['size'] or not expanded:
+                # There is some part(tail) of the original input section, which
+                # was not covered by any symbol. Or no symbol fits into this
+                # input section at all.
+                isecs_new.append(isec)
+            else:
+                # Whole input section was covered by symbols. If it had filling,
+                # account it into the lastly added input section.
+                isecs_new[-1]['fill'] = isec['fill']
 
         # Finally assign expanded input sections into the output section
         osec['input_sections'] = isecs_new
-- 
2.43.0


From 712dc6c4d52f9372b677bfbab991ce47de988187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 28/38] fix: do not let a symbol with debug information exceed
 its input section

---
 esp_idf_size/memorymap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 5b225f5..1e1291a 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1386,14 +1386,14 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec_new = {
                         'name': sym.name,
                         'address': sym.st_value,
-                        'size': sym.st_size,
+                        'size': min(sym.st_size, isec['size']),
                         'archive': sym.archive_path,  # type: ignore
                         'object_file': Path(str(sym.cu_name)).name,
                         'fill': 0,
                     }
                     isecs_new.append(isec_new)
-                    isec['address'] += sym.st_size
-                    isec['size'] -= sym.st_size
+                    isec['address'] += isec_new['size']
+                    isec['size'] -= isec_new['size']
 
                 else:
                     # There is a gap between isec address and symbol address, for which
@@ -1418,14 +1418,14 @@ def _expand_input_sections(map_file: mapfile.MapFile, proj_desc: Optional[Dict[s
                     isec_new = {
                         'name': sym.name,
                         'address': sym.st_value,
-                        'size': sym.st_size,
+                        'size': min(sym.st_size, isec['size']),
                         'archive': sym.archive_path,  # type: ignore
                         'object_file': Path(str(sym.cu_name)).name,
                         'fill': 0,
                     }
                     isecs_new.append(isec_new)
-                    isec['address'] += sym.st_size
-                    isec['size'] -= sym.st_size
+                    isec['address'] += isec_new['size']
+                    isec['size'] -= isec_new['size']
                 expanded = True
 
             if isec['size'] or not expanded:
-- 
2.43.0


From 21d2df27ae017ed876601c3497c9dd17f1b9e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 29/38] fix: use debug information for tree and archive
 dependency reports when asked to

---
 esp_idf_size/main.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/main.py b/esp_idf_size/main.py
index 820b780..73d6385 100644
--- a/esp_idf_size/main.py
+++ b/esp_idf_size/main.py
@@ -113,7 +113,15 @@ def _run(args: Dict[str, Any]) -> None:
 
         if args['use_dwarf']:
             # We need DWARF only for detailed outputs like archives
-            args['use_dwarf'] = any((args['archive_details'], args['archives'], args['files'], args['format'] == 'raw'))
+            args['use_dwarf'] = any(
+                (
+                    args['archive_details'],
+                    args['archives'],
+                    args['files'],
+                    args['archive_dependencies'],
+                    args['format'] in ('raw', 'tree'),
+                )
+            )
 
         map_file = mapfile.MapFile(args['input_file'])
         elf = memorymap.get_elf(args['input_file'])
-- 
2.43.0


From f6f5493ef36d2488a67aa60b701a02dc9e337fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:02 +0000
Subject: [PATCH 30/38] fix: escape quotes in DOT output

---
 esp_idf_size/format_dot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/format_dot.py b/esp_idf_size/format_dot.py
index 788faf3..d2ba709 100644
--- a/esp_idf_size/format_dot.py
+++ b/esp_idf_size/format_dot.py
@@ -7,6 +7,12 @@ from . import deps, log, mapfile, memorymap
 from .elf import Elf
 
 
+def quote(s: str) -> str:
+    # Double-quoted ID, see https://graphviz.org/doc/info/lang.html
+    s = s.replace('\\', '\\\\').replace('"', '\\"')
+    return f'"{s}"'
+
+
 def show_archives_dependencies(
     map_file: mapfile.MapFile, memmap: Dict[str, Any], elf: Optional[Elf], args: Dict[str, Any]
 ) -> None:
@@ -24,7 +30,8 @@ def show_archives_dependencies(
         shape = 'box' if name in arch_deps else 'ellipse'
         color = 'darkorange3' if name in arch_deps else 'azure'
         # Archive not previously seen, so add a node for it.
-        lines.append(f'"{name}" [shape={shape}, label="{name_abbrev} ({size})", style=filled, fillcolor="{color}"]')
+        label = quote(f'{name_abbrev} ({size})')
+        lines.append(f'{quote(name)} [shape={shape}, label={label}, style=filled, fillcolor="{color}"]')
         seen.append(name)
 
     for arch_name, arch_info in arch_deps.items():
@@ -36,12 +43,12 @@ def show_archives_dependencies(
             add_node(arch_dep_name, arch_dep_name_abbrev, arch_dep_info['size'])
 
             if args['dep_reverse']:
-                line = f'"{arch_dep_name}" -> "{arch_name}"'
+                line = f'{quote(arch_dep_name)} -> {quote(arch_name)}'
             else:
-                line = f'"{arch_name}" -> "{arch_dep_name}"'
+                line = f'{quote(arch_name)} -> {quote(arch_dep_name)}'
             if args['dep_symbols']:
                 syms_str = '\n'.join(arch_dep_info['symbols'])
-                line += f' [label="{syms_str}"]'
+                line += f' [label={quote(syms_str)}]'
             lines += [line]
 
     lines += ['}']
-- 
2.43.0


From 822e3428e8200930ec34a59e245c2999e0d43bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:23 +0000
Subject: [PATCH 31/38] fix: do not lose the last output section of a map
 without cross reference table

The linker separates output sections by empty lines, but prints none after
the last one. Without a cross reference table the map file ends there and
the section was not added.
---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index ceaf6b5..4a4f911 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -381,6 +381,12 @@ class MapFile:
                         f'in "Linker script and memory map" section in "{self.fn}" map file'
                     )
 
+        if in_output_section:
+            # The last output section is not followed by an empty line.
+            if input_section:
+                add_input_section(output_section, input_section)
+            output_sections.append(output_section)
+
         if not found:
             raise MapFileException('cannot parse "Linker script and memory map" section in "{self.fn}" map file')
 
-- 
2.43.0


From 1aa2f030b7c342f7429c01c943cc614e6ca5e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:36 +0000
Subject: [PATCH 32/38] fix: account memory shared by overlapping memory
 regions only once

---
 esp_idf_size/memorymap.py | 51 +++++++++++++++------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/esp_idf_size/memorymap.py b/esp_idf_size/memorymap.py
index 1e1291a..f6c89f2 100644
--- a/esp_idf_size/memorymap.py
+++ b/esp_idf_size/memorymap.py
@@ -1493,9 +1493,9 @@ def _get_mem_type_map(
     memory_types: Dict[str, Any], memory_regions: List[Dict[str, Any]], map_sections: List[Dict[str, Any]]
 ) -> Dict[str, Any]:
     memory_map: Dict[str, Any] = {}
-    # Dictionary of memory types, where key is memory type alias and value is a list of memory regions, which
-    # were already assigned to this memory type.
-    memory_types_regions: Dict[str, Any] = {}
+    # Dictionary of memory types, where key is memory type alias and value is a dictionary with ranges, occupied by
+    # memory regions, within the memory types(keyed by their primary address) sharing this alias.
+    memory_types_ranges: Dict[str, Any] = {}
 
     # Create entry for each memory type found in the chip info yaml.
     for mem_type_name, mem_type_info in memory_types.items():
@@ -1507,40 +1507,27 @@ def _get_mem_type_map(
             'used_diff': 0,
             'sections': {},
         }
-        memory_types_regions[mem_type_alias] = []
+        memory_types_ranges[mem_type_alias] = {}
 
     # Calculate memory type sizes based on the memory regions found in linker map file
     for mem_reg in memory_regions:
         mem_type_info = mem_reg['type']
         mem_type_alias = mem_type_info['name']
-        if not memory_types_regions[mem_type_alias]:
-            # This memory type does not yet have any memory region assigned
-            memory_map[mem_type_alias]['size'] = mem_reg['length']
-            memory_types_regions[mem_type_alias].append(mem_reg)
-        else:
-            # There are some memory regions assigned to this memory type. We need to check
-            # if the memory region, which is currently being added, isn't an alias for already
-            # added memory region. This is for example case of DIRAM.
-            mem_type_offset = 0
-            if mem_type_info['secondary_address']:
-                mem_type_offset = abs(mem_type_info['primary_address'] - mem_type_info['secondary_address'])
-            for mem_type_reg in memory_types_regions[mem_type_alias]:
-                mem_reg_offset = abs(mem_type_reg['origin'] - mem_reg['origin'])
-                if mem_reg_offset in (0, mem_type_offset) and mem_type_reg['length'] == mem_reg['length']:
-                    # The current memory region has the same offset to the already added memory region as
-                    # offset in memory type(primary and secondary address offset). The length also matches, so this
-                    # memory region is mapped into the same memory as region that was already added to the
-                    # memory type. Skip it, so we don't account the size of the memory region twice into the total
-                    # memory type size.
-                    memory_types_regions[mem_type_alias].append(mem_reg)
-                    log.debug('found memory region alias', mem_reg, mem_type_reg)
-                    break
-            else:
-                # Another memory region, which needs to be added to the memory type. We have not found
-                # any alias for this one and it does not overlap with already added memory regions, so
-                # account its size into the total memory type size.
-                memory_map[mem_type_alias]['size'] += mem_reg['length']
-                memory_types_regions[mem_type_alias].append(mem_reg)
+        # Offset of the memory region from the beginning of the memory type. The same memory may be accessible also at
+        # the secondary address and both addresses, for example in case of DIRAM, give the same offset.
+        offset = mem_reg['origin'] - mem_type_info['primary_address']
+        if not 0 <= offset < mem_type_info['length']:
+            offset = mem_reg['origin'] - mem_type_info['secondary_address']
+        ranges = memory_types_ranges[mem_type_alias].setdefault(mem_type_info['primary_address'], [])
+        ranges.append((offset, offset + mem_reg['length']))
+
+    # Several memory regions may be mapped into the same memory, so account each byte of memory type only once.
+    for mem_type_alias, mem_type_ranges in memory_types_ranges.items():
+        for ranges in mem_type_ranges.values():
+            accounted = 0
+            for start, end in sorted(ranges):
+                memory_map[mem_type_alias]['size'] += max(end - max(start, accounted), 0)
+                accounted = max(end, accounted)
 
     # Add linker output sections into memory types.
     memory_regions_sorted = [r for r in sorted(memory_regions, key=lambda r: r['origin'] or 0)]
-- 
2.43.0


From ff94233a1f6ad3d09db65d5aba7e779ab904e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:04 +0000
Subject: [PATCH 33/38] fix: DW_FORM_ref_addr has the size of an address in
 DWARF 2

---
 esp_idf_size/elf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index 579b6d8..f59104a 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1728,7 +1728,8 @@ class Dwarf_CU:
             value, offset = self._elf.get_uleb128(data, offset)
             value += self.offset
         elif form == DW_FORM_ref_addr:
-            value, offset = self.get_offset(data, offset)
+            # Dwarf2: 7.5.4 the reference has the size of an address, since Dwarf3 the size of an offset
+            value, offset = (self.get_address if self.version <= 2 else self.get_offset)(data, offset)
         elif form == DW_FORM_ref_sig8:
             value, offset = self._elf.get_uint64(data, offset)
         elif form == DW_FORM_ref_sup4:
-- 
2.43.0


From 10b9523b71ead73a2659f57156f70ee5e27d465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:30 +0000
Subject: [PATCH 34/38] fix: read output sections with a load address

---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 4a4f911..109e4ed 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -266,6 +266,9 @@ class MapFile:
                     output_section['size'] = 0
 
                     split = line.split()
+                    if split[2:4] == ['load', 'address']:
+                        # Printed only if the load address is different from the address.
+                        split = split[:2]
                     if len(split) == 2:
                         try:
                             address = int(split[0], 0)
@@ -369,6 +372,9 @@ class MapFile:
                 }
 
                 split = line.split()
+                if split[3:5] == ['load', 'address']:
+                    # Printed only if the load address is different from the address.
+                    split = split[:3]
                 if len(split) == 1:
                     output_section['name'] = split[0]
                 elif len(split) == 3:
-- 
2.43.0


From 46d319e9dbcc764fc48a08ba56fdc0fbe8e35f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:36 +0000
Subject: [PATCH 35/38] fix: ignore an input section outside of its output
 section also if it is the first one

---
 esp_idf_size/mapfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index 109e4ed..d7c0c8e 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -192,10 +192,6 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
-            if not output_section['input_sections']:
-                output_section['input_sections'].append(input_section)
-                return
-
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
@@ -205,6 +201,10 @@ class MapFile:
                 # zero. Note that padding is still considered in the calculation.
                 input_section['size'] = 0
 
+            if not output_section['input_sections']:
+                output_section['input_sections'].append(input_section)
+                return
+
             last_input_section = output_section['input_sections'][-1]
             if last_input_section['address'] == input_section['address']:
                 # The current input section is at the same address as the previous one,
-- 
2.43.0


From 23e0eaa07e6c29884452cca2312609d5ffb3e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 36/38] fix: refuse a linker map that ends within an input
 section

---
 esp_idf_size/mapfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esp_idf_size/mapfile.py b/esp_idf_size/mapfile.py
index d7c0c8e..cbe2622 100644
--- a/esp_idf_size/mapfile.py
+++ b/esp_idf_size/mapfile.py
@@ -192,6 +192,12 @@ class MapFile:
              .rodata.str1.1
                             0x0000000000402013       0x12 test2.o
             """
+            if input_section['address'] is None:
+                raise MapFileException(
+                    f'missing address and size of input section "{input_section["name"]}" '
+                    f'in "Linker script and memory map" section in "{self.fn}" map file'
+                )
+
             if (
                 input_section['address'] < output_section['address']
                 or input_section['address'] >= output_section['address'] + output_section['size']
-- 
2.43.0


From 34834c98d675c560330a477bfa665164ab4a0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:42 +0000
Subject: [PATCH 37/38] fix: quote headers and evaluate markup per field in CSV
 output

---
 esp_idf_size/format_csv.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/esp_idf_size/format_csv.py b/esp_idf_size/format_csv.py
index c5d0e65..90930e5 100644
--- a/esp_idf_size/format_csv.py
+++ b/esp_idf_size/format_csv.py
@@ -4,6 +4,7 @@
 from typing import Any, Dict, Optional
 
 from rich.table import Table
+from rich.text import Text
 
 from . import format_table, log, mapfile
 from .elf import Elf
@@ -13,18 +14,22 @@ def show_table(table: Table) -> None:
     """Print Rich Table in CSV format"""
 
     # The plus one is for header cell
-    matrix = [[''] * len(table.columns) for row in range(len(table.rows) + 1)]
+    matrix = [[Text()] * len(table.columns) for row in range(len(table.rows) + 1)]
+
+    def quote(cell: str) -> Text:
+        # Quotes within a quoted field are doubled (RFC 4180). The markup is evaluated per
+        # field, so brackets in different fields of a row do not form a tag.
+        cell = cell.replace('"', '""')
+        return Text.from_markup(f'"{cell}"', emoji=False)
 
     # Rich Table stores cells in columns so transform it to rows.
     for x, col in enumerate(table.columns):
-        matrix[0][x] = f'"{col.header}"'
+        matrix[0][x] = quote(str(col.header))
         for y, cell in enumerate(col.cells, start=1):
-            # Quotes within a quoted field are doubled (RFC 4180).
-            cell = cell.strip().replace('"', '""')
-            matrix[y][x] = f'"{cell}"'
+            matrix[y][x] = quote(cell.strip())
 
     for row in matrix:
-        log.print(','.join(row))
+        log.print(Text(',').join(row))
 
 
 def show_summary(memmap: Dict[str, Any], args: Dict[str, Any]) -> None:
-- 
2.43.0


From d9b48fc7f3e911f168a7d48335c20c3e7c744ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:12 +0000
Subject: [PATCH 38/38] fix: look up DWARF abbreviations by their code, not by
 their position in the table

---
 esp_idf_size/elf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/esp_idf_size/elf.py b/esp_idf_size/elf.py
index f59104a..6856bcc 100644
--- a/esp_idf_size/elf.py
+++ b/esp_idf_size/elf.py
@@ -1555,7 +1555,7 @@ class Dwarf_CU:
     size: int
 
     _elf: 'Elf'
-    _abbrev_table: Optional[List[Optional[Dwarf_Abbrev_Entry]]]
+    _abbrev_table: Optional[Dict[int, Dwarf_Abbrev_Entry]]  # abbreviation code -> entry
     _die: Optional[Dict[int, Any]]
     _die_offset: int  # offset into the .debug_info for the first DIE
     _data: bytes  # .debug_info section data
@@ -1606,11 +1606,11 @@ class Dwarf_CU:
         self._die_offset = offset
 
     @property
-    def abbrev_table(self) -> List:
+    def abbrev_table(self) -> Dict[int, Dwarf_Abbrev_Entry]:
         if self._abbrev_table is not None:
             return self._abbrev_table
 
-        self._abbrev_table = [None]
+        self._abbrev_table = {}
 
         shdr = self._elf.lookup_shdr('.debug_abbrev')
         if shdr is None:
@@ -1627,7 +1627,7 @@ class Dwarf_CU:
                 break
 
             entry = Dwarf_Abbrev_Entry(self._elf, data, offset)
-            self._abbrev_table.append(entry)
+            self._abbrev_table[entry.code] = entry
             offset += entry.size
 
         return self._abbrev_table
@@ -2207,9 +2207,7 @@ class Elf:
     def dump_abbrev_table(self) -> None:
         for idx, cu in enumerate(self.CUs):
             print(f'<{cu.debug_abbrev_offset:#010x}> CU<{idx}> at offset {cu.offset:#010x}')
-            for entry in cu.abbrev_table:
-                if entry is None:
-                    continue
+            for entry in cu.abbrev_table.values():
                 print(f'<{entry.offset:#010x}>{" ":3}{entry.code} {entry.tag_name} [{entry.children}]')
                 for attr in entry.attrs:
                     print(f'<{attr.offset:#010x}>{" ":6}{attr.attr_name:30} {attr.form_name}')
-- 
2.43.0

