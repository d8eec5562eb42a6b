From 9b766f7e6529a828061abaee9393cb42240bec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 01/59] fix: treat blank RECORD_BYTES as unknown for quantity
 pointers

An absent RECORD_BYTES shows up as None or "" in the identifiers;
quantity_start_byte only recognized None, so a pointer like 5 <RECORDS>
produced '' instead of an undeterminable start byte.
---
 pdr/loaders/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 7c10a37..29859a2 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -42,7 +42,7 @@ def quantity_start_byte(
     # TODO: are there cases in which _these_ aren't 1-indexed?
     if quantity_dict["units"] == "BYTES":
         return quantity_dict["value"] - 1
-    if record_bytes is not None:
+    if record_bytes not in (None, ""):
         return record_bytes * max(quantity_dict["value"] - 1, 0)
 
 
-- 
2.43.0


From b14734c605a778fec545cace91298968c561a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 02/59] fix: read binary data from zip-compressed files

utils.decompress() opens zip archives as ZipExtFile objects, which
np_from_buffered_io() did not recognize as compressed streams; it passed
them to np.fromfile(), which fails on them.
---
 pdr/np_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..4d79aed 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,7 +79,7 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
         n_bytes = None if count is None else count * dtype.itemsize
-- 
2.43.0


From f26da9cfa4e8f726f603efeeabe9251311760575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 03/59] fix: offsets of repeated items in columns not listed in
 byte order

---
 pdr/pd_utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..31876ed 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -127,13 +127,10 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     if "ITEM_BYTES" in fmtdef.columns:
         fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
         column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
-        group_offs = column_groups['SB_OFFSET'].value_counts().sort_index()
-        gix_list, position = [], 0
-        for off, gl in zip(group_offs.index, group_offs.values):
-            itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
-            gix_list += [(i * itemsize) + off for i in range(gl)]
-            position += gl
-        fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
+        item_ix = column_groups.groupby('SB_OFFSET').cumcount()
+        fmtdef.loc[column_groups.index, 'SB_OFFSET'] += (
+            item_ix * column_groups['ITEM_SIZE'].astype(int)
+        )
     pad_length = 0
     end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
     if "ROW_BYTES" in fmtdef.columns:
-- 
2.43.0


From c73c20c57a9b4bb3c610832f292f4059fcdc8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 04/59] fix: row length of binary tables whose last column has
 ITEMS

---
 pdr/pd_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 31876ed..55eb8be 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -132,7 +132,13 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             item_ix * column_groups['ITEM_SIZE'].astype(int)
         )
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    final_width = fmtdef["BYTES"].iloc[-1]
+    # BYTES is the width of all of a COLUMN's ITEMS; SB_OFFSET here is already
+    # that of its last item
+    if "ITEM_BYTES" in fmtdef.columns:
+        if not pd.isna(fmtdef["ITEM_BYTES"].iloc[-1]):
+            final_width = int(fmtdef["ITEM_BYTES"].iloc[-1])
+    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + final_width
     if "ROW_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
-- 
2.43.0


From 5ffd0be03c8da58736c73eed85bd89f5682304b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 05/59] fix: integer overflow in scaled table columns

---
 pdr/loaders/table.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..707cb82 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -100,6 +100,11 @@ def read_table(
     if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
+            if any(record.get(k) for k in ("SCALING_FACTOR", "OFFSET")):
+                # narrow integers silently wrap when multiplied or added to
+                dtype = table[col].dtype
+                if dtype.kind in "iu" and dtype.itemsize < 8:
+                    table[col] = table[col].astype(np.int64)
             if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
                 table[col] = table[col].mul(record["SCALING_FACTOR"])
             else:
-- 
2.43.0


From df14e84931585971175281b4c83813ba29dfa26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 06/59] fix: quantities with an explicitly positive exponent

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..d024029 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -23,7 +23,7 @@ from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
-PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
+PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
-- 
2.43.0


From 25c41c548fa62a5971020ff242faa0aead57bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 07/59] fix: words run together where a value continues on a
 second line

---
 pdr/formats/checkers.py | 4 ++--
 pdr/parselabel/pds3.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..3aadd84 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -754,10 +754,10 @@ def check_special_bit_column_case(
     """
     instrument = identifiers["INSTRUMENT_NAME"]
     if instrument in (
-        "ALPHA PARTICLE X-RAYSPECTROMETER",
+        "ALPHA PARTICLE X-RAY SPECTROMETER",
         "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT",
         "CHEMISTRY AND MINERALOGY INSTRUMENT",
-        "MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING",
+        "MARS ADVANCED RADAR FOR SUBSURFACE AND IONOSPHERE SOUNDING",
     ):
         return True, "MSB_BIT_STRING"
     return False, None
diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index d024029..44f54ca 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -74,8 +74,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join((value_head, *map(str.strip, statement[1:]))).strip()
+        statements.append((parameter, value))
     return statements
 
 
-- 
2.43.0


From 58d7f6c2974ed74a2f725f10cae4c001e6ee6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 08/59] fix: quoted PVL text with # as its first or second
 character

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 44f54ca..8612907 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -316,7 +316,7 @@ def literalize_pvl(
         # warnings.simplefilter("always")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", SyntaxWarning)
-            if (not obj.startswith('"')) and ("#" in obj[1:3]):
+            if re.match(r"\d{1,2}#", obj):
                 return parse_non_base_10(obj)
             return literal_eval(obj)
     except (SyntaxError, ValueError):
-- 
2.43.0


From bdbb952fb015cf43f63ba54260b24352a9fde38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 09/59] fix: END_GROUP without a name did not end the group

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 8612907..f399aca 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|_GROUP|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
-- 
2.43.0


From e8fc17b4e2319559bef791b6c71f6e0d962a231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 10/59] fix: find label endings that lie across the boundary of
 two blocks

---
 pdr/parselabel/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..9dccac6 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -31,10 +31,12 @@ def _scan_to_end_of_label(
     while length < max_size:
         if (chunk := buf.read(50 * 1024)) == b'':
             break
-        for ending in KNOWN_LABEL_ENDINGS:
-            if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
+        # an ending may begin in the text we have already read
+        start = max(len(text) - 20, 0)
         text, length = text + chunk, length + 50 * 1024
+        for ending in KNOWN_LABEL_ENDINGS:
+            if (endmatch := re.search(ending, text[start:])) is not None:
+                return text[: start + endmatch.span()[1]]
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
     return text
-- 
2.43.0


From db477c64cbfea6e41320f42ac6ca14518ee09b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 11/59] fix: prefer an END followed by a line feed to null
 bytes after it

---
 pdr/parselabel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index 9dccac6..ed28b66 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -6,9 +6,9 @@ from typing import Union, IO
 
 
 KNOWN_LABEL_ENDINGS = (
-    re.compile(b"\nEND {0,8}(\r| {8})"),  # common PVL convention
+    # common PVL convention; line feeds are mostly for Chang'e labels
+    re.compile(b"\nEND {0,8}(\r|\n| {8})"),
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
-    b"\nEND\n",  # mostly for Chang'e labels
 )
 """
 Fast regex patterns for generic PVL label endings. They work for almost all PVL 
-- 
2.43.0


From d1348c7f63c8125d470ef043b4be9ddd034c83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 12/59] fix: read 4-byte integer qubes with 4 bytes per sample

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..8ccf9d5 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From 079ddd4337a4708e6d604256429f07dd8336a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 13/59] fix: do not empty an image that has axplanes of no
 items

---
 pdr/loaders/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..5b19d2d 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -182,7 +182,7 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        if (count := props.get(f"{side}_{ax}s")) in (None, 0):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From 5d24f3d5e0dc68229b5c516ff0c23fd8ec9c7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 14/59] fix: refuse integers of widths that cannot be read

---
 pdr/datatypes.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..2f6d0c6 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -24,13 +24,12 @@ def integer_code(
     Translation from integer width, signedness, and byteorder to struct or
     numpy dtype string.
     """
-    # TODO: add struct letter for longlong
-    if sample_bytes == 4:
-        letter = "l"
-    elif sample_bytes == 2:
-        letter = "h"
-    else:
-        letter = "b"
+    letters = {1: "b", 2: "h", 4: "l", 8: "q"}
+    if sample_bytes not in letters:
+        raise NotImplementedError(
+            f"{sample_bytes}-byte integers are not supported."
+        )
+    letter = letters[sample_bytes]
     if signed is False:
         letter = letter.upper()
     if for_numpy is True and sample_bytes in (4, 8):
-- 
2.43.0


From 3dc88d7da1bc27819dd5a6ca4dce3e763b08df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 15/59] fix: refuse images whose samples are not whole bytes

---
 pdr/loaders/queries.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 8ccf9d5..a497941 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -220,6 +220,11 @@ def generic_image_properties(block: MultiDict, sample_type: str) -> ImageProps:
     Construct a dict of image properties later used in the image-loading
     workflow.
     """
+    if block["SAMPLE_BITS"] % 8 != 0:
+        raise NotImplementedError(
+            "Samples that are not a whole number of bytes wide are not "
+            "supported."
+        )
     props = {
         # TODO: BYTES_PER_PIXEL check appears repeated with slight variation
         #  from base_sample_info()
-- 
2.43.0


From 2167be5e6e122bce2b9ae4e3e73125ec8fe8e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 16/59] fix: convert VAX reals when the type is written with a
 blank

---
 pdr/loaders/queries.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index a497941..0c55b85 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -51,7 +51,9 @@ def generic_qube_properties(
     props["sample_type"] = sample_types(
         use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
-    props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
+    props["is_vax_real"] = (
+        use_block["CORE_ITEM_TYPE"].replace(" ", "_") == "VAX_REAL"
+    )
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
         props['axnames'] = block.get("AXIS_NAME")
         if props['axnames'] is None:
@@ -229,7 +231,9 @@ def generic_image_properties(block: MultiDict, sample_type: str) -> ImageProps:
         # TODO: BYTES_PER_PIXEL check appears repeated with slight variation
         #  from base_sample_info()
         "BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),
-        "is_vax_real": block.get("SAMPLE_TYPE") == "VAX_REAL",
+        "is_vax_real": (
+            block.get("SAMPLE_TYPE", "").replace(" ", "_") == "VAX_REAL"
+        ),
         "sample_type": sample_type,
         "nrows": block["LINES"],
         "ncols": block["LINE_SAMPLES"],
-- 
2.43.0


From 855109dfdb63b1938d9be07f503cd02a20278aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 17/59] fix: mask special constants that single precision
 cannot hold exactly

---
 pdr/_scaling.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..70537e5 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -55,12 +55,21 @@ def find_special_constants(
 def mask_specials(obj, specials):
     """"""
     obj = np.ma.masked_array(obj)
+    constants = specials
+    if obj.dtype.kind == "f":
+        # compare at the array's own precision: np.isin() would otherwise
+        # compare, e.g., -1e32 as single and as double, which differ
+        with np.errstate(over="ignore"):
+            constants = [
+                obj.dtype.type(c) if isinstance(c, Number) else c
+                for c in specials
+            ]
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
+        obj.mask = np.ma.mask_or(np.isin(obj.data, constants),
                                  ~np.isfinite(obj.data))
     else:
-        obj.mask = np.isin(obj.data, specials)
+        obj.mask = np.isin(obj.data, constants)
     return obj
 
 
-- 
2.43.0


From d1cc4b74a4641dc0994121db21a28c692cf9a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 18/59] fix: N/A constant of signed 32-bit samples

---
 pdr/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 2f6d0c6..94e7198 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -170,12 +170,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From 4298bb12804aae2881d5b82b7257c0ca2175732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 19/59] fix: scale arrays in place by single numbers

---
 pdr/_scaling.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 70537e5..f74c072 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -131,12 +131,15 @@ def _copy_scale(obj, offset, scale):
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
-        for ix, _ in enumerate(scale):
-            obj[ix] = obj[ix] * scale[ix] + offset[ix]
-    else:
-        obj *= scale
-        obj += offset
+    try:
+        if len(obj) == len(scale) == len(offset) > 1:
+            for ix, _ in enumerate(scale):
+                obj[ix] = obj[ix] * scale[ix] + offset[ix]
+            return obj
+    except TypeError:
+        pass  # len() is not usable on a float object
+    obj *= scale
+    obj += offset
     return obj
 
 
-- 
2.43.0


From 758e2cc8420438b44e08d61a90d4fa40f1ab8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 20/59] fix: integer images no longer wrap around when scaled

---
 pdr/_scaling.py | 67 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index f74c072..adc1811 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -6,6 +6,7 @@ from itertools import product
 from numbers import Integral, Number, Real
 from typing import Optional, Sequence, Union
 
+from dustgoggles.structures import listify
 import numpy as np
 
 from pdr.formats.checkers import specialblock
@@ -73,27 +74,45 @@ def mask_specials(obj, specials):
     return obj
 
 
+def scaled_range(
+    arr: np.ndarray,
+    scale: Union[Integral, Real, Sequence],
+    offset: Union[Integral, Real, Sequence],
+) -> tuple[Real, Real]:
+    """
+    Return the smallest and largest of the numbers involved in multiplying
+    `arr` by `scale` and adding `offset` (of any of its planes).
+    """
+    amin, amax = map(int, (arr.min(), arr.max()))
+    involved = [amin, amax]
+    for s, o in product(listify(scale), listify(offset)):
+        products = (amin * s, amax * s)
+        involved += [s, o, *products, *(p + o for p in products)]
+    return min(involved), max(involved)
+
+
 def fit_to_scale(
     arr: np.ndarray,
-    scale: Union[Integral, Real],
-    offset: Union[Integral, Real]
+    scale: Union[Integral, Real, Sequence],
+    offset: Union[Integral, Real, Sequence],
 ) -> np.ndarray:
     """
     Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
+    range of values while multiplying by `scale` and adding `offset`.
 
     Supports:
 
     float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
     """
-    if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
+    if arr.dtype.char not in 'bBhHiIlLqQnNpPfd':
         raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
+    if casting_to_float(arr, *listify(scale), *listify(offset)) or (
+        arr.dtype.char in 'fd'
+    ):
         bases, widths, infofunc = ('f',), (4, 8), np.finfo
     else:
         bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
+    smin, smax = scaled_range(arr, scale, offset)
     for base, width in product(bases, widths):
         candidate = np.dtype(f'{base}{width}')
         cinfo = infofunc(candidate)
@@ -102,16 +121,35 @@ def fit_to_scale(
     raise TypeError("Unable to find a suitable data type for scaling.")
 
 
+def will_wrap(
+    arr: np.ndarray,
+    scale: Union[Integral, Sequence],
+    offset: Union[Integral, Sequence],
+) -> bool:
+    """
+    Will scaling this array silently wrap around (as integer arrays do)?
+    """
+    if arr.dtype.char not in np.typecodes["AllInteger"]:
+        return False
+    if np.ma.count(arr) == 0:
+        return False
+    smin, smax = scaled_range(arr, scale, offset)
+    info = np.iinfo(arr.dtype)
+    return smin < info.min or smax > info.max
+
+
 def overflow_wrap(array_func):
     @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
+    def with_upcasting(arr, offset, scale, *args, **kwargs):
         with warnings.catch_warnings():
             warnings.filterwarnings("error", message=".*overflow enc.*")
             try:
-                return array_func(arr, scale, offset, *args, **kwargs)
+                if will_wrap(arr, scale, offset):
+                    raise OverflowError
+                return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
                 arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
 
     return with_upcasting
 
@@ -176,14 +214,13 @@ def scale_array(
         return obj
     # try to perform the operation in-place if requested, although if
     # we're casting to float, we can't
-    # TODO: detect rollover cases, etc.
-    if inplace is True and not casting_to_float(obj, scale, offset):
+    to_float = casting_to_float(obj, *listify(scale), *listify(offset))
+    if inplace is True and not to_float:
         return overflow_wrap(_inplace_scale)(obj, offset, scale)
     # if we're casting to float, permit specification of dtype
     # prior to operation (float64 is numpy's default and often excessive)
-    if casting_to_float(obj, scale, offset):
-        if float_dtype is not None:
-            obj = obj.astype(float_dtype)
+    if to_float:
+        obj = obj.astype("float64" if float_dtype is None else float_dtype)
     return overflow_wrap(_copy_scale)(obj, offset, scale)
 
 
-- 
2.43.0


From 33d078f7fc3022db2200b232fe2450d42375029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:35 +0000
Subject: [PATCH 21/59] fix: scale masked unsigned images in place

---
 pdr/_scaling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index adc1811..277962d 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -176,8 +176,9 @@ def _inplace_scale(obj, offset, scale):
             return obj
     except TypeError:
         pass  # len() is not usable on a float object
-    obj *= scale
-    obj += offset
+    # masked unsigned arrays do not accept plain ints
+    obj *= obj.dtype.type(scale)
+    obj += obj.dtype.type(offset)
     return obj
 
 
-- 
2.43.0


From a9db94513c9d88acda2ef8a88e416d80b545bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 22/59] fix: scale images in which every pixel is masked

---
 pdr/_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 277962d..80dd421 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -83,7 +83,9 @@ def scaled_range(
     Return the smallest and largest of the numbers involved in multiplying
     `arr` by `scale` and adding `offset` (of any of its planes).
     """
-    amin, amax = map(int, (arr.min(), arr.max()))
+    amin, amax = 0, 0
+    if np.ma.count(arr) > 0:
+        amin, amax = map(int, (arr.min(), arr.max()))
     involved = [amin, amax]
     for s, o in product(listify(scale), listify(offset)):
         products = (amin * s, amax * s)
@@ -131,8 +133,6 @@ def will_wrap(
     """
     if arr.dtype.char not in np.typecodes["AllInteger"]:
         return False
-    if np.ma.count(arr) == 0:
-        return False
     smin, smax = scaled_range(arr, scale, offset)
     info = np.iinfo(arr.dtype)
     return smin < info.min or smax > info.max
-- 
2.43.0


From 34df81dbe2daf49fceaebd95fb91a038da6f7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 23/59] fix: keep small IBM reals in float64 if float32 would
 lose precision

---
 pdr/pd_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 55eb8be..96b35ca 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -341,7 +341,8 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
             big = absolute.max() > np.finfo(np.float32).max
             nonzero = absolute[absolute > 0]
             if len(nonzero) > 0:
-                small = nonzero.min() < 1e-44
+                # values below the normal range of float32 lose precision
+                small = nonzero.min() < np.finfo(np.float32).tiny
             else:
                 small = False
             if not (big or small):
-- 
2.43.0


From 11ba767650bcd275ae981ace4e021b2bfc1cf43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 24/59] fix: pick the width of IBM reals per item of a column

---
 pdr/pd_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 96b35ca..116e13a 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -332,9 +332,12 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
     for _, field in fmtdef.iterrows():
         if not re.match(r'IBM.*REAL', field['DATA_TYPE']):
             continue
-        func = ibm32_to_np_f32 if field['BYTES'] == 4 else ibm64_to_np_f64
-        converted = func(df[field['NAME']].values)
-        if field['BYTES'] == 4:
+        packed = df[field['NAME']].values
+        # not field['BYTES'], which is the total width of all ITEMS
+        short = packed.dtype.itemsize == 4
+        func = ibm32_to_np_f32 if short else ibm64_to_np_f64
+        converted = func(packed)
+        if short:
             # IBM shorts are wider-range than IEEE shorts; check if we can
             # safely cast them back down to float32
             absolute = abs(converted)
-- 
2.43.0


From 47c087ac0dd35f1f96822a8b64c3ab29c704435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 25/59] fix: convert the IBM reals of images and qubes

---
 pdr/loaders/image.py   | 12 ++++++++++--
 pdr/loaders/queries.py |  4 ++++
 pdr/pdrtypes.py        |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 5b19d2d..adb11de 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -10,7 +10,9 @@ import numpy as np
 import vax
 
 from pdr.loaders.queries import get_image_properties
-from pdr.np_utils import make_c_contiguous, np_from_buffered_io
+from pdr.np_utils import (
+    ibm32_to_np_f32, ibm64_to_np_f64, make_c_contiguous, np_from_buffered_io
+)
 from pdr.pdrtypes import ImageProps, DataIdentifiers
 from pdr.utils import decompress
 
@@ -74,9 +76,15 @@ def extract_single_band_linefix(
 
 
 def convert_if_vax(image: np.ndarray, props: dict) -> np.ndarray:
-    """If an array is in 32-bit VAX real format, convert it to 32-bit float."""
+    """
+    If an array is in 32-bit VAX real format, convert it to 32-bit float; if
+    it is in IBM real format, convert it to 64-bit float.
+    """
     if props.get('is_vax_real') is True:
         return vax.from_vax32(image)
+    if props.get('is_ibm_real') is True:
+        short = image.dtype.itemsize == 4
+        return (ibm32_to_np_f32 if short else ibm64_to_np_f64)(image)
     return image
 
 
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 0c55b85..65eb18f 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -54,6 +54,8 @@ def generic_qube_properties(
     props["is_vax_real"] = (
         use_block["CORE_ITEM_TYPE"].replace(" ", "_") == "VAX_REAL"
     )
+    if use_block["CORE_ITEM_TYPE"].replace(" ", "_") == "IBM_REAL":
+        props["is_ibm_real"] = True
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
         props['axnames'] = block.get("AXIS_NAME")
         if props['axnames'] is None:
@@ -238,6 +240,8 @@ def generic_image_properties(block: MultiDict, sample_type: str) -> ImageProps:
         "nrows": block["LINES"],
         "ncols": block["LINE_SAMPLES"],
     }
+    if block.get("SAMPLE_TYPE", "").replace(" ", "_") == "IBM_REAL":
+        props["is_ibm_real"] = True
     if "BANDS" in block:
         props["nbands"] = block["BANDS"]
         props["band_storage_type"] = block.get("BAND_STORAGE_TYPE", None)
diff --git a/pdr/pdrtypes.py b/pdr/pdrtypes.py
index 30738c1..43610b8 100644
--- a/pdr/pdrtypes.py
+++ b/pdr/pdrtypes.py
@@ -55,6 +55,8 @@ class ImageProps(TypedDict):
     BYTES_PER_PIXEL: Literal[1, 2, 4, 8]
     # Do the elements of the array, when loaded, represent VAX reals?
     is_vax_real: bool
+    # Do the elements of the array, when loaded, represent IBM reals?
+    is_ibm_real: Optional[bool]
     # numpy dtype string
     sample_type: str
     # total number of elements
-- 
2.43.0


From 1e6713f7b71c5067f8e53c9c5a38f08ad84a2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 26/59] fix: order of the bytes of LSB bit strings of 3, 5, 6,
 7, or more than 8 bytes

---
 pdr/bit_handling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..754c043 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -103,6 +103,9 @@ def convert_byte_column_to_bits(
             # make sure they're fixed-length
             .str.zfill(dtype[rec_ix].itemsize * 8)
         )
+    if byte_order == "<":
+        # the last bytes of the field are the most significant
+        bit_series.reverse()
     # TODO: should probably be a single pd.concat operation
     bits = reduce(add, bit_series)
     return bits
-- 
2.43.0


From a21af7c9a3fc11371ca14e7503e21e34853ec866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 27/59] fix: respect ITEM_OFFSET of BIT_COLUMNs

---
 pdr/bit_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index 754c043..1030bb5 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -207,9 +207,10 @@ def get_bit_start_and_size(
         if pvl_obj.get("ITEMS"):
             items = pvl_obj.get("ITEMS")
             item_bits = pvl_obj.get("ITEM_BITS")
+            item_offset = pvl_obj.get("ITEM_OFFSET", item_bits)
             first_item_start_bit = pvl_obj.get("START_BIT")
             for item_index in range(items):
-                start_bit = first_item_start_bit + item_index * item_bits
+                start_bit = first_item_start_bit + item_index * item_offset
                 start_bit_list.append(start_bit)
                 bit_size_list.append(item_bits)
         else:
-- 
2.43.0


From 434180cacdcdc9f35f72d3c6424b8bde52193979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 28/59] fix: count ROW_PREFIX_BYTES in the length of ASCII
 tables

---
 pdr/loaders/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 65eb18f..6530c35 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -486,6 +486,7 @@ def _table_length(block, identifiers, n_records):
                 record_length = block["RECORD_BYTES"]
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
+                record_length += block.get("ROW_PREFIX_BYTES", 0)
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
             elif identifiers["RECORD_BYTES"] is not None:
                 # TODO, probably, and applicable many more places than here:
-- 
2.43.0


From 076cd3863509ae8334df583272a054c568db8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 29/59] fix: find objects that start at a line of a stream file

---
 pdr/loaders/queries.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 6530c35..291293e 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -29,7 +29,9 @@ from pdr.loaders._helpers import (
 )
 from pdr.loaders.handlers import add_bit_column_info
 from pdr.parselabel.pds3 import pointerize, read_pvl, STRUCTUREPAT
-from pdr.utils import append_repeated_object, check_cases, find_repository_root
+from pdr.utils import (
+    append_repeated_object, check_cases, decompress, find_repository_root
+)
 
 if TYPE_CHECKING:
     from pdr.loaders.astrowrap.fits import HDUList
@@ -422,10 +424,16 @@ def data_start_byte(
             start_byte = 0
         elif record_bytes not in [None, ""]:
             start_byte = record_bytes * max(target - 1, 0)
-        elif "ROWS" in block.keys():
+        elif "ROWS" in block.keys() and "ROW_BYTES" in block.keys():
             rows = block["ROWS"]
             row_bytes = block["ROW_BYTES"]
             start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
+        elif identifiers.get("RECORD_TYPE") == "STREAM":
+            # the records of a stream file are its lines
+            with decompress(fn) as stream:
+                start_byte = sum(
+                    len(stream.readline()) for _ in range(target - 1)
+                )
     elif isinstance(target, dict):
         start_byte = quantity_start_byte(target, record_bytes)
     elif isinstance(target, str):
-- 
2.43.0


From 20c663cb11f53898b365cdd4d781b068e29fa881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 30/59] fix: find off-case versions of file names with a
 compression suffix

---
 pdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..ac1ad30 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -94,7 +94,7 @@ def check_cases(
             continue
         matches = tuple(
             filter(
-                lambda p: stem_path(p) == Path(filename).name.lower(),
+                lambda p: path.name.lower() in (p.name.lower(), stem_path(p)),
                 path.parent.iterdir(),
             )
         )
-- 
2.43.0


From 2ba516d6b4811ae2e485f451a4a480d776744e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 31/59] fix: metaget accepts unhashable defaults

---
 pdr/pdr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..2f9fe50 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -132,7 +132,8 @@ class Metadata(MultiDict):
                 f"Returning only the first.",
                 DuplicateKeyWarning,
             )
-        return self._metaget_interior(text, default)
+        value = self._metaget_interior(text)
+        return default if value is None else value
 
     def metaget_(self, text: str, default: Any = None) -> Any:
         """quiet-by-default version of metaget"""
@@ -204,7 +205,7 @@ class Metadata(MultiDict):
         """"""
         return f"Metadata({prettify_multidict(self)})"
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
@@ -1204,16 +1205,15 @@ class Data:
         for key in self.keys():
             yield self[key]
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
-def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
+def _metaget_factory(metadata: Metadata) -> Callable[[str], Any]:
 
-    def metaget_interior(text, default):
+    def metaget_interior(text):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
-        return default if value is None else value
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
 
     return cache(metaget_interior)
 
-- 
2.43.0


From 818d40bbc1599bf74806aa09d559d7b4c4477113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 32/59] fix: Huygens position special case no longer applies to
 other missions' files

---
 pdr/formats/checkers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 3aadd84..26517ea 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,8 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+        or identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
-- 
2.43.0


From 404b921afd760cfb7942abf2e2d3a92c7bfee9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 33/59] fix: scale unsigned PDS4 data by a factor or offset of
 a signed type

---
 pdr/pds4_tools/reader/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..7c1cb18 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -790,7 +790,7 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(scaling_factor, six.integer_types):
             scale_dtype = get_min_integer_numpy_type([scaling_factor])
 
-        data *= np.array(scaling_factor, dtype=scale_dtype)
+        data *= np.array(scaling_factor, dtype=scale_dtype).astype(data.dtype)
 
     if not no_offset:
 
@@ -798,7 +798,7 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(value_offset, six.integer_types):
             offset_dtype = get_min_integer_numpy_type([value_offset])
 
-        data += np.array(value_offset, dtype=offset_dtype)
+        data += np.array(value_offset, dtype=offset_dtype).astype(data.dtype)
 
     # Cast down integers if possible
     # (see note in `adjust_array_data_type` for why this can be necessary)
-- 
2.43.0


From fce5dfc70904c3e2340fd393b31a70fa32931b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 34/59] fix: get_scaled does not alter the unscaled PDS4 array

---
 pdr/_scaling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 80dd421..70a4050 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -232,7 +232,8 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     # TODO: apply bit_mask
     from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
 
-    array = struct.data
+    # scaling happens in place
+    array = struct.data.copy()
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
-- 
2.43.0


From a1684188f8cecf82553d0414ed2c7bb372ca8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 35/59] fix: get_scaled masks special constants of unscaled
 PDS4 arrays

---
 pdr/_scaling.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 70a4050..a0c30c5 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -230,7 +230,10 @@ def scale_array(
 def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
-    from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
+    from pdr.pds4_tools.reader.data_types import (
+        apply_scaling_and_value_offset,
+        mask_special_constants,
+    )
 
     # scaling happens in place
     array = struct.data.copy()
@@ -243,9 +246,9 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
-    array = apply_scaling_and_value_offset(
-        array, special_constants=special_constants, **scale_kwargs
-    )
+    # masked elements are left alone while scaling
+    array = mask_special_constants(array, special_constants)
+    array = apply_scaling_and_value_offset(array, **scale_kwargs)
     if hasattr(array, "mask"):
         return np.ma.masked_array(np.asarray(array.data), array.mask)
     return np.asarray(array)
-- 
2.43.0


From ee2062040d62b3b9f7856b84185aef2ca41bf90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 36/59] fix: mask every special constant of single-precision
 PDS4 data

---
 pdr/pds4_tools/reader/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 7c1cb18..9dbb011 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -1064,7 +1064,7 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
 
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
             if (not key.startswith('valid_')) and compatible_dtypes:
-                data = np.ma.masked_where(data == value, data, copy=copy)
+                data = np.ma.masked_where(data.view(np.ndarray) == value, data, copy=copy)
                 data.set_fill_value(value)
 
     return data
-- 
2.43.0


From bfcfc4713aa77b877c91f8014e746ddbbd971927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 37/59] fix: PDS4 special constants outside the range of the
 data type

---
 pdr/pds4_tools/reader/data_types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 9dbb011..cc7a098 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -1064,8 +1064,12 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
 
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
             if (not key.startswith('valid_')) and compatible_dtypes:
-                data = np.ma.masked_where(data.view(np.ndarray) == value, data, copy=copy)
-                data.set_fill_value(value)
+                mask_array = data.view(np.ndarray) == value
+                data = np.ma.masked_where(mask_array, data, copy=copy)
+
+                # (a constant that does not occur may be one that the data type can not hold)
+                if mask_array.any():
+                    data.set_fill_value(value)
 
     return data
 
-- 
2.43.0


From 64196b5338288a56796388350c69b13320a37b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 38/59] fix: PDS4 bit mask with special constants that do not
 occur

---
 pdr/pds4_tools/reader/read_arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 4c80e7c..78eeac9 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -109,7 +109,7 @@ def _apply_bitmask(data, bit_mask_string, special_constants=None):
     if special_constants is not None:
 
         masked_data = mask_special_constants(data, special_constants=special_constants)
-        non_masked = np.where(masked_data.mask == False)
+        non_masked = np.where(np.ma.getmaskarray(masked_data) == False)
 
         del masked_data
 
-- 
2.43.0


From 7febb27f119efd71eba96428d1ee529b71731143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 39/59] fix: PDS4 bit masks of signed data

---
 pdr/pds4_tools/reader/read_arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 78eeac9..01350aa 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -102,7 +102,7 @@ def _apply_bitmask(data, bit_mask_string, special_constants=None):
 
     # Convert bit mask to binary (python assumes the input is a string describing the integer in MSB format,
     # which is what the PDS4 standard specifies.)
-    bit_mask = int(bit_mask_string, 2)
+    bit_mask = np.array(int(bit_mask_string, 2)).astype(data.dtype)
 
     # Mask Special_Constants values so that bit mask application does not affect them
     non_masked = np.arange(0, len(data))
-- 
2.43.0


From 290586ac09d3500c9dd94063fc686dff8b5a2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 40/59] fix: PDS4 objects of the same name no longer replace
 one another

---
 pdr/pdr.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 2f9fe50..1fc3fa7 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -341,9 +341,14 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        names = [s.id.replace(" ", "_") for s in structure_list.structures]
+        for i, structure in enumerate(structure_list.structures):
+            name = names[i]
+            if names.count(name) > 1:
+                # number them, as we do for duplicate PDS3 pointers
+                name = f"{name}_{names[:i].count(name)}"
+            self._pds4_structures[name] = structure
+            self.index.append(name)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
-- 
2.43.0


From 7a80edff630a3d0d35543e2c82f4aa8f3c3fbf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 41/59] fix: empty fields of PDS4 delimited tables are missing
 values, not zeros

---
 pdr/pd_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 116e13a..4450fd6 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -289,7 +289,13 @@ def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
         # it's slow and acts weird
         return pd.DataFrame(enforce_order_and_object(array))
     # but if it does, do
-    return pd.DataFrame.from_records(enforce_order_and_object(array))
+    df = pd.DataFrame.from_records(enforce_order_and_object(array))
+    if isinstance(array, np.ma.MaskedArray):
+        # from_records() ignores masks
+        for name in array.dtype.names:
+            if np.any(array.mask[name]):
+                df[name] = df[name].mask(np.asarray(array.mask[name]))
+    return df
 
 
 def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
-- 
2.43.0


From f0cddff49b8f9ac201164f2c7e6b096bdc3bfb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 42/59] fix: read FITS pointers as records unless they are
 given in bytes

A record number that happened to be, as a byte number, the position of
another HDU selected that HDU; positions given as <RECORDS> were off by one.
---
 pdr/loaders/queries.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 291293e..06c38c8 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -356,14 +356,14 @@ def get_target(data: PDRLike, name: str) -> PhysicalTarget:
     return target
 
 
-def _agnostic_fits_index(is_header, target, hdulist):
+def _agnostic_fits_index(is_header, target, hdulist, factors=(2880, 1)):
     from pdr.loaders.handlers import hdu_byte_index
 
     hix = hdu_byte_index(hdulist)
     # check both byte and FITS record specification, attempting to weed out
     # the ambiguous edge case where data/header are separated by one record.
     # this will not _always_ work.
-    for factor in (1, 2880):
+    for factor in factors:
         matches = [
             t for t in ((target - 1) * factor, target * factor)
             if t in hix.keys()
@@ -390,12 +390,13 @@ def get_fits_start_byte(
             raise ValueError("This appears to point to the wrong file.")
     elif isinstance(target, (list, tuple)):
         target = target[1]
+    # a number without units of bytes is most likely one of FITS records
+    factors = (2880, 1)
     if isinstance(target, dict):
         if target['units'] == 'BYTES':
-            target = target['value']
-        else:
-            target = target['value'] * 2880
-    return _agnostic_fits_index('HEADER' in name, target, hdulist)
+            factors = (1, 2880)
+        target = target['value']
+    return _agnostic_fits_index('HEADER' in name, target, hdulist, factors)
 
 
 def get_hdulist(fn):
-- 
2.43.0


From 1000f0c26b231008c26c417b31e6613f4acd8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 43/59] fix: return the data of FITS HDUs of the same name that
 contains HEADER

---
 pdr/loaders/handlers.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..9798ac1 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -75,12 +75,7 @@ def handle_fits_file(
         # this is the case when dealing with a FITS file in 'primary' mode.
         # This is a little sloppy, but it is more convenient to handle certain
         # things upstream. may want to collapse the two cases at some point.
-        hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
+        hdu_ix, is_header = hdu_id, False
     try:
         hdr_val = handle_fits_header(hdulist, hdu_ix)
     # astropy.io.fits does not call any verification on read. on 'output'
-- 
2.43.0


From bbdf04770d41f2484a14b879e165e3e3566cf2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 44/59] fix: look at the file's extension, not the pointer's,
 for FILE_NAME pointers

---
 pdr/loaders/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/dispatch.py b/pdr/loaders/dispatch.py
index 2072adc..5fa8308 100644
--- a/pdr/loaders/dispatch.py
+++ b/pdr/loaders/dispatch.py
@@ -125,7 +125,7 @@ def pointer_to_loader(pointer: str, data: Data) -> Loader:
     ):
         return ReadImage()
     if "FILE_NAME" in pointer:
-        return file_extension_to_loader(pointer)
+        return file_extension_to_loader(data.file_mapping[pointer])
     return TBD()
 
 
-- 
2.43.0


From ad394e6acb06a1568dab8773a4e8093baf030be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 45/59] fix: do not take objects called CONTEXT_* or DESCENT_*
 for text

---
 pdr/loaders/dispatch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/dispatch.py b/pdr/loaders/dispatch.py
index 5fa8308..90d325d 100644
--- a/pdr/loaders/dispatch.py
+++ b/pdr/loaders/dispatch.py
@@ -88,13 +88,15 @@ def pointer_to_loader(pointer: str, data: Data) -> Loader:
     if special_pointer_dispatch(pointer, data.identifiers) is not None:
         return special_pointer_dispatch(pointer, data.identifiers)
     if (
-        "TEXT" in pointer
+        # but not CONTEXT
+        re.search("(?<!CON)TEXT", pointer)
         or "PDF" in pointer
         or "MAP_PROJECTION_CATALOG" in pointer
         or "FILENAME" in pointer
     ):
         return ReadText()
-    if "DESC" in pointer:  # probably points to a reference file
+    # probably points to a reference file (but not DESCENT or DESCENDING)
+    if re.search("DESC(?!EN[TD])", pointer):
         return ReadText()
     if "ARRAY" in pointer:
         return ReadArray()
-- 
2.43.0


From 6e81d02b10fb757f04a3d4ec1614ee50a5d7cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 46/59] fix: read ARRAYs without subobjects from compressed
 files

---
 pdr/np_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 4d79aed..fb8bda0 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -82,7 +82,7 @@ def np_from_buffered_io(
     if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
-        n_bytes = None if count is None else count * dtype.itemsize
+        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
         stream = BytesIO(buffered_io.read(n_bytes))
         return np.frombuffer(stream.getbuffer(), dtype=dtype)
     count = -1 if count is None else count
-- 
2.43.0


From e400a04cd9c09c23d8369f37ebcb72e86992186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 47/59] fix: read exponents and numbers like .5 in ASCII ARRAYs

---
 pdr/loaders/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 707cb82..f79f6bc 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -34,6 +34,9 @@ ASCII table.
 """
 
 
+NUMBER_PATTERN = r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?"
+
+
 def read_array(fn, block, start_byte, fmtdef_dt):
     """
     Read an array object from this product and return it as a numpy array.
@@ -53,7 +56,7 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     with open(fn) as stream:
         text = stream.read()
     try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
+        text = tuple(map(float, re.findall(NUMBER_PATTERN, text)))
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-- 
2.43.0


From d29efb7e27d97f3d184eb66dc406a810ae836487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 48/59] fix: place the parts of ARRAYs at their START_BYTEs

---
 pdr/loaders/queries.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 06c38c8..3db846f 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -679,10 +679,11 @@ def parse_array_structure(
     # Sometimes ARRAYS give START_BYTE at top level; sometimes only their
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
-    if "START_BYTE" in fmtdef.columns:
-        fmtdef['START_BYTE'].fillna(1, inplace=True)
+    from pdr.pd_utils import compute_offsets, insert_sample_types_into_df
 
-    from pdr.pd_utils import insert_sample_types_into_df
+    if "START_BYTE" in fmtdef.columns:
+        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
+        fmtdef = compute_offsets(fmtdef)
     return insert_sample_types_into_df(fmtdef, identifiers)
 
 
@@ -690,7 +691,7 @@ def create_placeholder_field(block_info, definition):
     dummy_column = {
         'NAME': f'PLACEHOLDER_{definition["NAME"]}',
         'DATA_TYPE': 'VOID',
-        'START_BYTE': definition['START_BYTE'],
+        'START_BYTE': definition.get('START_BYTE'),
         'BYTES': 0,
         'BLOCK_REPETITIONS': definition.get("REPETITIONS", 1),
         'BLOCK_BYTES': definition.get("BYTES"),
-- 
2.43.0


From dcbe409b12d4273308da09d39c32eea531f6b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 49/59] fix: skip the bytes at the end of a COLLECTION

---
 pdr/loaders/queries.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3db846f..b646aa4 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -679,12 +679,25 @@ def parse_array_structure(
     # Sometimes ARRAYS give START_BYTE at top level; sometimes only their
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
+    import numpy as np
     from pdr.pd_utils import compute_offsets, insert_sample_types_into_df
 
     if "START_BYTE" in fmtdef.columns:
         fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
         fmtdef = compute_offsets(fmtdef)
-    return insert_sample_types_into_df(fmtdef, identifiers)
+    fmtdef, dt = insert_sample_types_into_df(fmtdef, identifiers)
+    # a COLLECTION can be longer than its contents
+    length = block.get("COLLECTION", {}).get("BYTES")
+    if length is not None and length > dt.itemsize:
+        dt = np.dtype(
+            {
+                "names": dt.names,
+                "formats": [dt.fields[n][0] for n in dt.names],
+                "offsets": [dt.fields[n][1] for n in dt.names],
+                "itemsize": length
+            }
+        )
+    return fmtdef, dt
 
 
 def create_placeholder_field(block_info, definition):
-- 
2.43.0


From 14e7274634a8f1229b20f473076dab1f8abe3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 50/59] fix: place blocks that begin with another block

---
 pdr/pd_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 4450fd6..a6f53cd 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -97,6 +97,11 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
         fmt_block = fmtdef.loc[fmtdef["BLOCK_NAME"] == block_name]
         if "PLACEHOLDER" in block_name:
             prior = fmtdef[fmtdef["NAME"] == block_name].squeeze()
+        elif f"PLACEHOLDER_{block_name}" in fmtdef["NAME"].values:
+            # the block may begin with another block
+            prior = fmtdef[
+                fmtdef["NAME"] == f"PLACEHOLDER_{block_name}"
+            ].squeeze()
         else:
             prior = fmtdef.loc[fmt_block.index[0] - 1]
         fmtdef.loc[fmt_block.index, "SB_OFFSET"] += (
-- 
2.43.0


From 67ba28375ef0189d31f861090498416e2d0e389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 51/59] fix: do not make truncated bytes of the numbers in
 ASCII ARRAYs

---
 pdr/loaders/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index f79f6bc..b78de75 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -60,7 +60,7 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-    if "DATA_TYPE" in block.keys():
+    if "DATA_TYPE" in block.keys() and "ASCII" not in block["DATA_TYPE"]:
         array = array.astype(
             sample_types(block["DATA_TYPE"], block["BYTES"], True)
         )
-- 
2.43.0


From 8fcd6920526c95b83005c898a59acad946788d03 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 52/59] fix: do not wrap 32-bit integers around in browse
 images

---
 pdr/browsify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..17c644e 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -277,9 +277,9 @@ def _render_array(
             "Rendering browse images requires the optional pillow dependency."
         )
 
-    # upcast integer data types < 32-bit to prevent unhelpful wraparound
-    if (obj.dtype.char in np.typecodes["AllInteger"]) and (obj.itemsize <= 2):
-        obj = obj.astype(np.int32)
+    # upcast integer data types < 64-bit to prevent unhelpful wraparound
+    if (obj.dtype.char in np.typecodes["AllInteger"]) and (obj.itemsize <= 4):
+        obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.int64)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From 8c9ecc8fea551619e5212c0feea28a30528d9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:57 +0000
Subject: [PATCH 53/59] fix: browse the middle band of images with 3, 7, 11...
 bands

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 17c644e..29fefbc 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -364,7 +364,7 @@ def _format_as_single_band(band_ix, obj):
     for multiband arrays that are not presumably rgb(a), or if we have been
     instructed to by the override_rgba argument, only export a single band.
     """
-    middle_ix = round(obj.shape[0] / 2)
+    middle_ix = obj.shape[0] // 2
     if band_ix is None:
         # by default, dump the middle band.
         warnings.warn(f"dumping only band {middle_ix} of this image")
-- 
2.43.0


From 39313ac1d2b577959348f338e0a8e552382dcfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 54/59] fix: read line prefix tables from the file of their
 image

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 1fc3fa7..eb94d65 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -461,6 +461,9 @@ class Data:
         )
         if is_special is True:
             return self.get_absolute_paths(special_target)
+        if object_name in self._interleaved_objects:
+            # these have no pointers of their own
+            object_name = self._interleaved_objects[object_name]["parent"]
         is_comp, comp_paths = self._check_compressed_file_pointer(object_name)
         if is_comp is True:
             return comp_paths
-- 
2.43.0


From 08bf6dc78394c2e6c5529e7f842336edf3117833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 55/59] fix: skip line suffixes between the rows of line prefix
 tables

---
 pdr/loaders/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index b646aa4..bf91309 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -317,6 +317,7 @@ def _fix_up_line_prefix_table_block(
     if "ROW_SUFFIX_BYTES" not in block.keys():
         block['ROW_SUFFIX_BYTES'] = (
             block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
+            + block.get("LINE_SUFFIX_BYTES", 0)
         )
     return block
 
-- 
2.43.0


From 1d7916a422b58ba6fa551ddb06bebc35bb93b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 56/59] fix: count all of a line's prefix in the rows of line
 prefix tables

---
 pdr/loaders/queries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index bf91309..abf4bfb 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -314,6 +314,8 @@ def _fix_up_line_prefix_table_block(
     block = MultiDict(format_block)
     if "ROWS" not in block.keys():
         block["ROWS"] = block["LINES"]
+    if "ROW_BYTES" not in block.keys() and "LINE_PREFIX_BYTES" in block.keys():
+        block["ROW_BYTES"] = block["LINE_PREFIX_BYTES"]
     if "ROW_SUFFIX_BYTES" not in block.keys():
         block['ROW_SUFFIX_BYTES'] = (
             block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
-- 
2.43.0


From 3a2639c3b7b79eefce925c41bb9aefee9f7a938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 57/59] fix: look for line prefix tables at the place of their
 own image

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index abf4bfb..f600380 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -962,6 +962,6 @@ def standalone_start_byte(
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": "IMAGE"},
+        kwargdict={"data": data, "name": object_name},
     )
     return result['fn'], result['start_byte']
-- 
2.43.0


From 12a13a315c2e2ccd4755aa36f4d072da2b6a38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:57 +0000
Subject: [PATCH 58/59] fix: open products with line prefix tables whose files
 are missing

---
 pdr/pdr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index eb94d65..db6b38b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -383,7 +383,9 @@ class Data:
             )
         # check for a matching prefix table defined at top level with no
         # explicit block
-        if len(preobjs) > 0:
+        # (we can't check them against each other if their files are missing)
+        preobjs = [n for n in preobjs if self._target_path(n) is not None]
+        if len(preobjs) > 0 and self._target_path(imname) is not None:
             from pdr.loaders.queries import standalone_start_byte
 
             im_fn_byte = standalone_start_byte(self, imname)
-- 
2.43.0


From 86d669a707d3be0c151d75b3ff7a83a08db24258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:57 +0000
Subject: [PATCH 59/59] fix: prefer the uncompressed of a product's two files
 if both are there

---
 pdr/pdr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index db6b38b..8e1e4cb 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -493,9 +493,10 @@ class Data:
         mentioned for that object in the label, including those not given as
         top-level pointers.
         """
-        compkeys = {"COMPRESSED_FILE", "UNCOMPRESSED_FILE"}
+        # in this order, because if both files exist, we want the plain one
+        compkeys = ("UNCOMPRESSED_FILE", "COMPRESSED_FILE")
         if (
-            len(compkeys.intersection(self.metadata.keys())) == 2
+            all(k in self.metadata.keys() for k in compkeys)
             and object_name in self.metablock_("UNCOMPRESSED_FILE").keys()
         ):
             blocks = filter(None, [self.metaget_(k) for k in compkeys])
-- 
2.43.0

