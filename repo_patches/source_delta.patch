From 925e64e154f26310fe21c86f44c4733def3e5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 01/44] fix: write bit fields of signed types and reject values
 that do not fit

A storage unit with its top bit set was written through the signed type and
raised, and a value wider than its bit field spilled into the neighbouring
bit fields.
---
 dissect/cstruct/bitbuffer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..ef04182 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -60,6 +60,9 @@ class BitBuffer:
         if self._type is None or self._type.size is None:
             raise ValueError("Invalid state")
 
+        if not 0 <= data < (1 << bits):
+            raise ValueError(f"Value {data} does not fit in a bit field of {bits} bits")
+
         if self.endian == "<":
             self._buffer |= data << (self._type.size * 8 - self._remaining)
         else:
@@ -71,7 +74,9 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
-            self._type._write(self.stream, self._buffer)
+            # The buffer is an unsigned bit pattern, so write it as such, regardless of the signedness of the type
+            size = self._type.size
+            self.stream.write(self._buffer.to_bytes(size, "little" if self.endian == "<" else "big"))
         self._type = None
         self._remaining = 0
         self._buffer = 0
-- 
2.43.0


From e398f1850702fd190c3706987fb49efb26213b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 02/44] fix: compiled reader skipped unpacking a value followed
 by a single byte

A struct format of one value and one pad byte, e.g. "Ix" for a uint32 followed
by a char, was mistaken for padding only, so reading raised a NameError.
---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..911f3d2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -330,7 +330,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From aacab73c6a51171f2d7aeaa5f9c2c13a4b7cfc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 03/44] fix: compiled reading of byte based integers behind
 pointers and enum arrays

Pointers on a pointer type such as uint24 or uint48, and arrays of enums of such
a type, were not parsed as integers by the compiled reader.
---
 dissect/cstruct/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 911f3d2..01ffa69 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -303,10 +303,14 @@ class _ReadSourceGenerator:
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
+                    item_getter = f"_b[i:i + {read_type.size}]"
+                    if issubclass(field_type.type, Pointer):
+                        item_parser = f"_et.__new__(_et, cls.cs.pointer({item_getter}), stream, r)"
+                    else:
+                        item_parser = parser_template.format(type="_et", getter=item_getter)
+                    list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
                     list_comp = f"[{item_parser} for e in {getter}]"
@@ -318,6 +322,8 @@ class _ReadSourceGenerator:
             elif issubclass(field_type, CharArray):
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
+                if issubclass(read_type, Int):
+                    getter = f"cls.cs.pointer({getter})"
                 reads.append(f"_pt = {self._map_field(field)}")
                 parser = f"_pt.__new__(_pt, {getter}, stream, r)"
             else:
-- 
2.43.0


From bebaabb9ebab129d1c5cf18e0ce519d9803cccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 04/44] fix: compiled reader position tracking

Seek to the first field of a block when the previous field did not end there,
don't assume more alignment than the first field of a block gives, only move to
the next bit field storage unit when the current one is exhausted or of another
type (including char versus uint8), align relative to the start of the structure
and read arrays of types that can't be unpacked in bulk through their own type.
---
 dissect/cstruct/compiler.py | 51 ++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 01ffa69..8ecb31a 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -24,7 +24,6 @@ from dissect.cstruct.types import (
     Wchar,
     WcharArray,
 )
-from dissect.cstruct.types.base import BaseArray
 from dissect.cstruct.types.enum import EnumMetaType
 from dissect.cstruct.types.packed import _struct
 
@@ -137,12 +136,11 @@ class _ReadSourceGenerator:
         prev_was_bits = False
         prev_bits_type = None
         bits_remaining = 0
-        bits_rollover = False
 
         def flush() -> Iterator[str]:
             if current_block:
                 if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
+                    yield f"stream.seek(-(stream.tell() - o) & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
 
                 yield from self._generate_packed(current_block)
                 current_block[:] = []
@@ -156,7 +154,7 @@ class _ReadSourceGenerator:
                 current_offset = field.offset
 
             if self.align and field.offset is None:
-                yield f"stream.seek(-stream.tell() & ({field.alignment} - 1), {io.SEEK_CUR})"
+                yield f"stream.seek(-(stream.tell() - o) & ({field.alignment} - 1), {io.SEEK_CUR})"
 
         for field in self.fields:
             field_type = field.type
@@ -185,9 +183,9 @@ class _ReadSourceGenerator:
                 yield from align_to_field(field)
                 yield from self._generate_structure(field)
 
-            # Array of structures and multi-dimensional arrays
+            # Array of structures, multi-dimensional arrays and arrays of types that can't be part of a block
             elif issubclass(field_type, (Array, CharArray, WcharArray)) and (
-                issubclass(field_type.type, Structure) or issubclass(field_type.type, BaseArray) or is_dynamic
+                is_dynamic or not issubclass(_get_read_type(self.cs, field_type.type), (Char, Int, Packed, Wchar))
             ):
                 yield from flush()
                 yield from align_to_field(field)
@@ -198,30 +196,46 @@ class _ReadSourceGenerator:
                 if size is None:
                     raise TypeError(f"Unsupported type for bit field: {field_type}")
 
-                if not prev_was_bits:
-                    prev_bits_type = field_type
-                    prev_was_bits = True
+                prev_was_bits = True
+
+                yield from flush()
 
                 if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
-                    bits_rollover = True
+                    # This bit field starts a new storage unit
+                    yield from align_to_field(field)
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
+                else:
+                    # This bit field continues in the current storage unit, so the stream does not move
+                    size = 0
 
-                yield from flush()
-                yield from align_to_field(field)
+                bits_remaining -= field.bits
                 yield from self._generate_bits(field)
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if current_block and (
+                    # This field is before the end of the current block
+                    (field.offset is not None and (current_offset is None or field.offset < current_offset))
+                    # We can only assume that the start of a block is aligned to its first field
+                    or (self.align and field.offset is None and field.alignment > current_block[0].alignment)
+                ):
+                    yield from flush()
+
+                if not current_block and field.offset is not None and field.offset != current_offset:
+                    yield from align_to_field(field)
+
+                if field.offset is not None:
+                    current_offset = field.offset
                 current_block.append(field)
 
-            if current_offset is not None and size is not None and (not field.bits or bits_rollover):
-                current_offset += size
-                bits_rollover = False
+            # If the field is dynamic, we don't know the offset of what comes after it
+            current_offset = current_offset + size if None not in (current_offset, size) else None
 
         yield from flush()
 
         if self.align:
-            yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"
+            yield f"stream.seek(-(stream.tell() - o) & (cls.alignment - 1), {io.SEEK_CUR})"
 
     def _generate_structure(self, field: Field) -> Iterator[str]:
         template = f"""
@@ -250,7 +264,8 @@ class _ReadSourceGenerator:
             field_type = field_type.type
 
         if issubclass(field_type, Char):
-            field_type = field_type.cs.uint8
+            # Read from a char storage unit, but the value is an integer
+            read_type = lookup
             lookup = "cls.cs.uint8"
 
         template = f"""
-- 
2.43.0


From 718c260ed5377dc2f3cf427ce060a8904d5bfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 05/44] fix: layout of bit fields after a dynamic field and of
 aligned odd sized units

Two bit fields after a dynamic field failed to load, and an aligned bit field of
which the storage size is not a multiple of its alignment (e.g. uint24) got a new
storage unit in the layout while reading and writing continued in the current one.
---
 dissect/cstruct/types/structure.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..a2ba6fd 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -174,7 +174,15 @@ class StructureMetaType(MetaType):
                 # If a field already has an offset, it's leading
                 offset = field.offset
 
-            if align and offset is not None:
+            # The storage type of a bit field
+            field_type = field.type
+            if field.bits and isinstance(field_type, EnumMetaType):
+                field_type = field_type.type
+
+            # A bit field of the same type goes in the current storage unit, as long as that's not exhausted
+            same_unit = field.bits and bits_remaining != 0 and field_type == bits_type
+
+            if align and offset is not None and (not same_unit or field.offset is not None):
                 # Round to next alignment
                 offset += -offset & (field.alignment - 1)
 
@@ -182,19 +190,13 @@ class StructureMetaType(MetaType):
             alignment = max(alignment, field.alignment)
 
             if field.bits:
-                field_type = field.type
-
-                if isinstance(field_type, EnumMetaType):
-                    field_type = field_type.type
-
                 # Bit fields have special logic
                 if (
                     # Exhausted a bit field
-                    bits_remaining == 0
-                    # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
-                    or field_type != bits_type
-                    # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
+                    # Or, moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
+                    not same_unit
+                    # Still processing a bit field, but it's at a different offset due to a manual offset
+                    or (offset is not None and offset > bits_field_offset + bits_type.size)
                 ):
                     # ... if any of this is true, we have to move to the next field
                     bits_type = field_type
-- 
2.43.0


From 5ddfc35cf761124bd7629ea1e1a7f57ec676c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 06/44] fix: align relative to the start of the structure

---
 dissect/cstruct/types/structure.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a2ba6fd..c96aa38 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -255,16 +255,23 @@ class StructureMetaType(MetaType):
                 offset = struct_start + field.offset
                 stream.seek(offset)
 
-            if cls.__align__ and field.offset is None:
+            bit_field_type = (
+                (field.type.type if isinstance(field.type, EnumMetaType) else field.type) if field.bits else None
+            )
+
+            if (
+                cls.__align__
+                and field.offset is None
+                and not (field.bits and bit_buffer._remaining and bit_buffer._type == bit_field_type)
+            ):
                 # Previous field was dynamically sized and we need to align
-                offset += -offset & (field.alignment - 1)
+                offset += -(offset - struct_start) & (field.alignment - 1)
                 stream.seek(offset)
 
             if field.bits:
+                value = bit_buffer.read(bit_field_type, field.bits)
                 if isinstance(field.type, EnumMetaType):
-                    value = field.type(bit_buffer.read(field.type.type, field.bits))
-                else:
-                    value = bit_buffer.read(field.type, field.bits)
+                    value = field.type(value)
 
                 result[field._name] = value
                 continue
@@ -278,7 +285,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)
+            stream.seek(-(stream.tell() - struct_start) & (cls.alignment - 1), io.SEEK_CUR)
 
         # Using type.__call__ directly calls the __init__ method of the class
         # This is faster than calling cls() and bypasses the metaclass __call__ method
@@ -327,7 +334,7 @@ class StructureMetaType(MetaType):
                 )
                 if not bit_buffer._type or is_bitbuffer_boundary:
                     # Previous field was dynamically sized and we need to align
-                    align_pad = -offset & (field.alignment - 1)
+                    align_pad = -(offset - struct_start) & (field.alignment - 1)
                     stream.write(b"\x00" * align_pad)
                     offset += align_pad
 
@@ -349,7 +356,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.write(b"\x00" * (-stream.tell() & (cls.alignment - 1)))
+            stream.write(b"\x00" * (-(stream.tell() - struct_start) & (cls.alignment - 1)))
 
         return num
 
-- 
2.43.0


From 0ef926a1e6ffedfcf58805d1f4c3c3d8927c83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 07/44] fix: compiled reader of an empty array next to byte
 based fields

---
 dissect/cstruct/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 8ecb31a..b0bea9d 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -298,7 +298,7 @@ class _ReadSourceGenerator:
                     count *= read_type.size
                     getter = f"buf[{size}:{size + count}]"
                 else:
-                    getter = f"data[{slice_index}:{slice_index + count}]"
+                    getter = f"data[{slice_index}:{slice_index + count}]" if count else "()"
                     slice_index += count
             elif issubclass(read_type, (Char, Wchar, Int)):
                 getter = f"buf[{size}:{size + read_type.size}]"
@@ -351,7 +351,8 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
+        if slice_index == 0 and (fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x")):
+            # Padding only, there is nothing to unpack
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From 160899336905093e8bbc0ca89cd8201da59fffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 08/44] fix: alignment of an empty structure

---
 dissect/cstruct/types/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c96aa38..c2b73b2 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -160,7 +160,7 @@ class StructureMetaType(MetaType):
         # The current offset, set to None if we become dynamic
         offset = 0
         # The current alignment for this structure
-        alignment = 0
+        alignment = 1
 
         # The current bit field type
         bits_type = None
@@ -440,7 +440,7 @@ class UnionMetaType(StructureMetaType):
 
     def _calculate_size_and_offsets(cls, fields: list[Field], align: bool = False) -> tuple[int | None, int]:
         size = 0
-        alignment = 0
+        alignment = 1
 
         for field in fields:
             if size is not None:
-- 
2.43.0


From 9eeb4c1903a0716922c7f2f6a6a0cbe73366a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 09/44] fix: fixed size arrays with a negative length hold no
 elements

---
 dissect/cstruct/cstruct.py    | 3 +++
 dissect/cstruct/types/base.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..b754310 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -357,6 +357,9 @@ class cstruct:
             if type_.size is None:
                 raise ValueError(f"Cannot create array of dynamic type: {type_.__name__}")
             size = num_entries * type_.size
+            if isinstance(size, int):
+                # A negative length means no elements
+                size = max(0, size)
 
         name = f"{type_.__name__}[]" if null_terminated else f"{type_.__name__}[{num_entries}]"
 
diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..607f657 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -271,7 +271,7 @@ class BaseArray(BaseType):
         if cls.null_terminated:
             return cls.type._write_0(stream, data)
 
-        if not cls.dynamic and cls.num_entries != (actual_size := len(data)):
+        if isinstance(cls.num_entries, int) and max(0, cls.num_entries) != (actual_size := len(data)):
             raise ArraySizeError(f"Expected static array size {cls.num_entries}, got {actual_size} instead.")
 
         return cls.type._write_array(stream, data)
-- 
2.43.0


From b2704c7a89f284ea2b0a56669af17508f08f4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 10/44] fix: to-end-of-stream arrays take only whole elements

---
 dissect/cstruct/types/base.py   | 8 +++++++-
 dissect/cstruct/types/packed.py | 9 +++++++--
 dissect/cstruct/types/wchar.py  | 6 ++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 607f657..c86ad13 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -146,7 +146,13 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
-                result.append(cls._read(stream, context))
+                position = stream.tell()
+                try:
+                    result.append(cls._read(stream, context))
+                except EOFError:
+                    # Only whole elements are part of the array
+                    stream.seek(position)
+                    break
             return result
 
         return [cls._read(stream, context) for _ in range(count)]
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 76e7099..e17a6f5 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import io
 from functools import lru_cache
 from struct import Struct
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
@@ -31,8 +32,12 @@ class Packed(BaseType, Generic[T]):
     def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:
         if count == EOF:
             data = stream.read()
-            length = len(data)
-            count = length // cls.size
+            count = len(data) // cls.size
+            length = cls.size * count
+            if remainder := len(data) - length:
+                # Only whole elements are part of the array
+                stream.seek(-remainder, io.SEEK_CUR)
+                data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..cc85fea 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import io
 import sys
 from typing import Any, BinaryIO, ClassVar
 
@@ -60,6 +61,11 @@ class Wchar(str, BaseType):
         if count != EOF and len(data) != count:
             raise EOFError(f"Read {len(data)} bytes, but expected {count}")
 
+        if count == EOF and len(data) % 2:
+            # Only whole characters are part of the array
+            stream.seek(-1, io.SEEK_CUR)
+            data = data[:-1]
+
         return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))
 
     @classmethod
-- 
2.43.0


From e67d8e5619eb72f4829f140b2e606b0c22a316c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 11/44] fix: keep negative values of flags of a signed type

---
 dissect/cstruct/types/flag.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..55ea2e6 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -1,10 +1,20 @@
 from __future__ import annotations
 
 from enum import IntFlag
+from typing import TYPE_CHECKING
 
 from dissect.cstruct.types.base import BaseType
 from dissect.cstruct.types.enum import PY_311, EnumMetaType
 
+if TYPE_CHECKING:
+    from typing_extensions import Self
+
+
+def _is_signed(type_: type[BaseType]) -> bool:
+    if (packchar := getattr(type_, "packchar", None)) is not None:
+        return packchar.islower()
+    return getattr(type_, "signed", False)
+
 
 class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
     """Flag type supercharged with cstruct functionality.
@@ -45,6 +55,16 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
             base = f"{self.__class__.__name__}." if self.__class__.__name__ else ""
             return f"{base}{self.name}"
 
+        @classmethod
+        def _missing_(cls, value: int) -> Self:
+            if isinstance(value, int) and value < 0 and _is_signed(cls.type):
+                # The standard library would turn this into a positive value, but we need to keep the underlying value
+                new_member = int.__new__(cls, value)
+                new_member._name_ = None
+                new_member._value_ = value
+                return cls._value2member_map_.setdefault(value, new_member)
+            return super()._missing_(value)
+
     else:
 
         def __str__(self) -> str:
-- 
2.43.0


From 83dbc5796c5d40e3b1e69b2d56aa36d872622f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 12/44] fix: equal enum members hash equally

---
 dissect/cstruct/types/enum.py | 2 +-
 dissect/cstruct/types/flag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..6a14162 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -196,7 +196,7 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        return hash((self.__class__, self.value))
 
     @classmethod
     def _missing_(cls, value: int) -> Self:
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 55ea2e6..f600287 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -89,4 +89,4 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        return hash((self.__class__, self.value))
-- 
2.43.0


From 156505197ce63bac6e90469ed398c096d5f20125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 13/44] fix: keep the state of expression evaluation local

Evaluating an expression rewrote its tokens and kept its stacks on the shared
object, which breaks with identifiers called u and when several threads parse.
Also accept type names of multiple words in sizeof.
---
 dissect/cstruct/expression.py | 85 +++++++++++++++++------------------
 1 file changed, 41 insertions(+), 44 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..5992222 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -167,7 +167,7 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        "u-": lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +182,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        "u-": 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -191,8 +191,6 @@ class Expression:
         self.cstruct = cstruct
         self.expression = expression
         self.tokens = ExpressionTokenizer(expression).tokenize()
-        self.stack = []
-        self.queue = []
 
     def __repr__(self) -> str:
         return self.expression
@@ -200,24 +198,24 @@ class Expression:
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
-    def evaluate_exp(self) -> None:
-        operator = self.stack.pop(-1)
+    def evaluate_exp(self, stack: list[str], queue: list[int]) -> None:
+        operator = stack.pop(-1)
         res = 0
 
-        if len(self.queue) < 1:
+        if len(queue) < 1:
             raise ExpressionParserError("Invalid expression: not enough operands")
 
-        right = self.queue.pop(-1)
+        right = queue.pop(-1)
         if operator in self.unary_operators:
             res = self.unary_operators[operator](right)
         else:
-            if len(self.queue) < 1:
+            if len(queue) < 1:
                 raise ExpressionParserError("Invalid expression: not enough operands")
 
-            left = self.queue.pop(-1)
+            left = queue.pop(-1)
             res = self.binary_operators[operator](left, right)
 
-        self.queue.append(res)
+        queue.append(res)
 
     def is_number(self, token: str) -> bool:
         return token.isnumeric() or (len(token) > 2 and token[0] == "0" and token[1] in ("x", "X", "b", "B", "o", "O"))
@@ -225,45 +223,44 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
-        self.stack = []
-        self.queue = []
+        # Expressions are shared between all users of a type, so keep all evaluation state local
+        stack = []
+        queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
 
         context = context or {}
-        tmp_expression = self.tokens
+        tmp_expression = list(self.tokens)
 
         # Unary minus tokens; we change the semantic of '-' depending on the previous token
-        for i in range(len(self.tokens)):
-            if self.tokens[i] == "-":
-                if i == 0:
-                    self.tokens[i] = "u"
-                    continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
-                    continue
+        for i, token in enumerate(tmp_expression):
+            if token == "-" and (i == 0 or tmp_expression[i - 1] in operators or tmp_expression[i - 1] == "("):
+                tmp_expression[i] = "u-"
 
         i = 0
         while i < len(tmp_expression):
             current_token = tmp_expression[i]
             if self.is_number(current_token):
-                self.queue.append(int(current_token, 0))
+                queue.append(int(current_token, 0))
             elif current_token in context:
-                self.queue.append(int(context[current_token]))
+                queue.append(int(context[current_token]))
             elif current_token in self.cstruct.consts:
-                self.queue.append(int(self.cstruct.consts[current_token]))
+                queue.append(int(self.cstruct.consts[current_token]))
             elif current_token in self.unary_operators:
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                if ")" not in tmp_expression[i + 2 :] or tmp_expression[i + 1] != "(":
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+                end = tmp_expression.index(")", i + 2)
+                # Type names can consist of multiple words
+                type_name = tmp_expression[i + 2 : end]
+                if not type_name or not all(word.isidentifier() for word in type_name):
+                    raise ExpressionParserError("Invalid sizeof operation")
+                queue.append(len(self.cstruct.resolve(" ".join(type_name))))
+                i = end
             elif current_token in operators:
-                while (
-                    len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
-                ):
-                    self.evaluate_exp()
-                self.stack.append(current_token)
+                while len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token)):
+                    self.evaluate_exp(stack, queue)
+                stack.append(current_token)
             elif current_token == "(":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -272,7 +269,7 @@ class Expression:
                             f"Parser expected sizeof or an arethmethic operator instead got: '{previous_token}'"
                         )
 
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == ")":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -281,24 +278,24 @@ class Expression:
                             f"Parser expected an expression, instead received empty parenthesis. Index: {i}"
                         )
 
-                if len(self.stack) == 0:
+                if len(stack) == 0:
                     raise ExpressionParserError("Invalid expression")
 
-                while self.stack[-1] != "(":
-                    self.evaluate_exp()
+                while stack[-1] != "(":
+                    self.evaluate_exp(stack, queue)
 
-                self.stack.pop(-1)
+                stack.pop(-1)
             else:
                 raise ExpressionParserError(f"Unmatched token: '{current_token}'")
             i += 1
 
-        while len(self.stack) != 0:
-            if self.stack[-1] == "(":
+        while len(stack) != 0:
+            if stack[-1] == "(":
                 raise ExpressionParserError("Invalid expression")
 
-            self.evaluate_exp()
+            self.evaluate_exp(stack, queue)
 
-        if len(self.queue) != 1:
+        if len(queue) != 1:
             raise ExpressionParserError("Invalid expression")
 
-        return self.queue[0]
+        return queue[0]
-- 
2.43.0


From b0b44b5b99ab26fd04ecb3a778054aa04093844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 14/44] fix: fields take precedence over constants in array
 lengths

---
 dissect/cstruct/parser.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..41d17cf 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -14,6 +14,8 @@ from dissect.cstruct.expression import Expression
 from dissect.cstruct.types import BaseArray, BaseType, Field, Structure
 
 if TYPE_CHECKING:
+    from collections.abc import Iterable
+
     from dissect.cstruct import cstruct
 
 
@@ -207,7 +209,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, {field._name for field in fields})
             fields.append(field)
 
         if register:
@@ -254,7 +256,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, names: Iterable[str] = ()) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -268,12 +270,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, names)
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, names: Iterable[str] = ()
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -294,10 +298,12 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # Preceding fields take precedence over constants, so those can't be evaluated yet
+                    if not any(token in names for token in count.tokens):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From b692b1e30989e8dcfa8da4ce763455dc998f2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 15/44] fix: do not share mutable default values between
 instances

---
 dissect/cstruct/types/base.py      |  5 +-
 dissect/cstruct/types/structure.py | 79 ++++++++++++++++++++++++++++--
 2 files changed, 77 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index c86ad13..20b3e1d 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -249,9 +249,8 @@ class BaseArray(BaseType):
 
     @classmethod
     def __default__(cls) -> BaseType:
-        return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
-        )
+        num_entries = cls.num_entries if isinstance(cls.num_entries, int) else 0
+        return type.__call__(cls, [cls.type.__default__() for _ in range(num_entries)])
 
     @classmethod
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[BaseType]:
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c2b73b2..87858ff 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -17,6 +17,7 @@ from dissect.cstruct.types.base import (
     _is_buffer_type,
     _is_readable_type,
 )
+from dissect.cstruct.types.char import Char
 from dissect.cstruct.types.enum import EnumMetaType
 from dissect.cstruct.types.pointer import Pointer
 
@@ -38,6 +39,13 @@ class Field:
         self.offset = offset
         self.alignment = type_.alignment or 1
 
+    def __default__(self) -> Any:
+        """Return the default value of this field."""
+        if self.bits and issubclass(self.type, Char):
+            # The value of a bit field is always an integer
+            return 0
+        return self.type.__default__()
+
     def __repr__(self) -> str:
         bits_str = f" : {self.bits}" if self.bits else ""
         return f"<Field {self.name} {self.type.__name__}{bits_str}>"
@@ -340,7 +348,7 @@ class StructureMetaType(MetaType):
 
             value = getattr(data, field._name, None)
             if value is None:
-                value = field_type.__default__()
+                value = field.__default__()
 
             if field.bits:
                 if isinstance(field_type, EnumMetaType):
@@ -575,7 +583,7 @@ class Union(Structure, metaclass=UnionMetaType):
             buf.seek(field.offset)
 
         if (value := getattr(self, attr)) is None:
-            value = field.type.__default__()
+            value = field.__default__()
 
         field.type._write(buf, value)
 
@@ -704,6 +712,36 @@ def _make_union__init__(fields: list[str]) -> str:
     return code + (field_init or " pass")
 
 
+@_codegen
+def _make_structure_factory__init__(fields: list[str]) -> str:
+    """Generates an ``__init__`` method for a structure that creates a new default value for every instance.
+
+    Args:
+        fields: List of field names.
+    """
+    field_args = ", ".join(f"{field} = None" for field in fields)
+    field_init = "\n".join(f" self.{name} = {name} if {name} is not None else _d{name}()" for name in fields)
+
+    code = f"def __init__(self{', ' + field_args or ''}):\n"
+    return code + (field_init or " pass")
+
+
+@_codegen
+def _make_union_factory__init__(fields: list[str]) -> str:
+    """Generates an ``__init__`` method for a union that creates a new default value for every instance.
+
+    Args:
+        fields: List of field names.
+    """
+    field_args = ", ".join(f"{field} = None" for field in fields)
+    field_init = "\n".join(
+        f" object.__setattr__(self, '{name}', {name} if {name} is not None else _d{name}())" for name in fields
+    )
+
+    code = f"def __init__(self{', ' + field_args or ''}):\n"
+    return code + (field_init or " pass")
+
+
 @_codegen
 def _make__eq__(fields: list[str]) -> str:
     """Generates an ``__eq__`` method for a class with the specified fields.
@@ -778,6 +816,31 @@ def _patch_attributes(func: FunctionType, fields: list[str], start: int = 0) ->
     )
 
 
+def _is_mutable(value: Any) -> bool:
+    return isinstance(value, (list, Structure))
+
+
+def _patch_factory__init__(func: FunctionType, fields: list[Field]) -> FunctionType:
+    """Patches an ``__init__`` template that uses default value factories.
+
+    Args:
+        func: The function to patch.
+        fields: List of fields to create the method for.
+    """
+    names = {f"_{n}": field._name for n, field in enumerate(fields)}
+
+    code = func.__code__
+    return type(func)(
+        code.replace(
+            co_consts=tuple(names.get(const, const) if isinstance(const, str) else const for const in code.co_consts),
+            co_names=tuple(names.get(name, name) for name in code.co_names),
+            co_varnames=tuple(names.get(name, name) for name in code.co_varnames),
+        ),
+        {f"_d_{n}": field.__default__ for n, field in enumerate(fields)},
+        argdefs=func.__defaults__,
+    )
+
+
 def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """Generates an ``__init__`` method for a structure with the specified fields.
 
@@ -786,10 +849,14 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """
     field_names = [field._name for field in fields]
 
+    defaults = [field.__default__() for field in fields]
+    if any(_is_mutable(default) for default in defaults):
+        return _patch_factory__init__(_make_structure_factory__init__(len(field_names)), fields)
+
     template: FunctionType = _make_structure__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
-            co_consts=(None, *[field.type.__default__() for field in fields]),
+            co_consts=(None, *defaults),
             co_names=(*field_names,),
             co_varnames=("self", *field_names),
         ),
@@ -806,12 +873,16 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
     """
     field_names = [field._name for field in fields]
 
+    defaults = [field.__default__() for field in fields]
+    if any(_is_mutable(default) for default in defaults):
+        return _patch_factory__init__(_make_union_factory__init__(len(field_names)), fields)
+
     template: FunctionType = _make_union__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
             co_consts=(
                 None,
-                *sum([(field._name, field.type.__default__()) for field in fields], ()),
+                *sum(zip(field_names, defaults), ()),
             ),
             co_varnames=("self", *field_names),
         ),
-- 
2.43.0


From edcf45853f309af9d5d05927f9cb8e7001360faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 16/44] fix: restore the stream position when dereferencing a
 pointer fails

---
 dissect/cstruct/types/pointer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 289e400..91a5b68 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -89,16 +89,19 @@ class Pointer(int, BaseType, Generic[T]):
         if self._value is None and not issubclass(self.type, Void):
             # Read current position of file read/write pointer
             position = self._stream.tell()
-            # Reposition the file read/write pointer
-            self._stream.seek(self)
 
-            if issubclass(self.type, Char):
-                # this makes the assumption that a char pointer is a null-terminated string
-                value = self.type._read_0(self._stream, self._context)
-            else:
-                value = self.type._read(self._stream, self._context)
+            try:
+                # Reposition the file read/write pointer
+                self._stream.seek(self)
+
+                if issubclass(self.type, Char):
+                    # this makes the assumption that a char pointer is a null-terminated string
+                    value = self.type._read_0(self._stream, self._context)
+                else:
+                    value = self.type._read(self._stream, self._context)
+            finally:
+                self._stream.seek(position)
 
-            self._stream.seek(position)
             self._value = value
 
         return self._value
-- 
2.43.0


From e63cbe65e740c4827de53a8b22e51b50780540ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 17/44] fix: keep all members of a union coherent

Assigning to members of anonymous structures raised a KeyError, structures nested
more than one level deep or in another union could not be used, references to a
nested structure went stale after an assignment, dumping lost bytes that were only
part of a smaller or partially padded member, pointers lost their stream and
equality did not compare the fields.
---
 dissect/cstruct/types/pointer.py   |   3 +-
 dissect/cstruct/types/structure.py | 173 ++++++++++++++++++++++-------
 2 files changed, 137 insertions(+), 39 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 91a5b68..7a8bace 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -23,7 +23,8 @@ class Pointer(int, BaseType, Generic[T]):
 
     def __new__(cls, value: int, stream: BinaryIO | None, context: dict[str, Any] | None = None) -> Self:
         obj = super().__new__(cls, value)
-        obj._stream = stream
+        # Pointers in a union refer to the stream that the union was read from
+        obj._stream = getattr(stream, "__origin__", stream)
         obj._context = context
         obj._value = None
         return obj
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 87858ff..290ef05 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -12,6 +12,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO, Callable
 
 from dissect.cstruct.bitbuffer import BitBuffer
 from dissect.cstruct.types.base import (
+    Array,
     BaseType,
     MetaType,
     _is_buffer_type,
@@ -124,12 +125,10 @@ class StructureMetaType(MetaType):
 
         if issubclass(cls, UnionMetaType) or isinstance(cls, UnionMetaType):
             classdict["__init__"] = _generate_union__init__(raw_lookup.values())
-            # Not a great way to do this but it works for now
-            classdict["__eq__"] = Union.__eq__
         else:
             classdict["__init__"] = _generate_structure__init__(raw_lookup.values())
-            classdict["__eq__"] = _generate__eq__(field_names)
 
+        classdict["__eq__"] = _generate__eq__(field_names)
         classdict["__hash__"] = _generate__hash__(field_names)
 
         # If we're calling this as a class method or a function on the metaclass
@@ -478,7 +477,7 @@ class UnionMetaType(StructureMetaType):
             buf = stream
         else:
             offset = 0
-            buf = io.BytesIO(stream.read(cls.size))
+            buf = _UnionBuffer(stream.read(cls.size), stream)
 
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
@@ -490,7 +489,7 @@ class UnionMetaType(StructureMetaType):
             buf.seek(offset + start)
             value = field_type._read(buf, result)
 
-            sizes[field._name] = buf.tell() - start
+            sizes[field._name] = buf.tell() - offset - start
             result[field._name] = value
 
         return result, sizes
@@ -518,6 +517,9 @@ class UnionMetaType(StructureMetaType):
         object.__setattr__(obj, "_buf", buf)
 
         if cls.size is not None:
+            if _has_pointer(cls):
+                # Pointers point to somewhere in the original stream
+                object.__setattr__(obj, "_stream", stream)
             obj._update()
 
         # Proxify any nested structures
@@ -529,33 +531,30 @@ class UnionMetaType(StructureMetaType):
         if cls.dynamic:
             raise NotImplementedError("Writing dynamic unions is not yet supported")
 
-        offset = stream.tell()
-        expected_offset = offset + len(cls)
+        buf = bytearray(len(cls))
+        # Keep track of which bits have been written, a field doesn't necessarily cover the entire union
+        written = bytearray(len(cls))
 
-        # Sort by largest field
+        # Sort by largest field, but prefer to write regular fields initially
         fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
-        anonymous_struct = False
-
-        # Try to write by largest field
-        for field in fields:
-            if isinstance(field.type, StructureMetaType) and field.name is None:
-                # Prefer to write regular fields initially
-                anonymous_struct = field.type
+        for field in sorted(fields, key=lambda e: isinstance(e.type, StructureMetaType) and e.name is None):
+            start = field.offset or 0
+            mask = _data_mask(field.type)
+            if not any(bits & ~done for bits, done in zip(mask, written[start:])):
                 continue
 
-            # Write the value
-            field.type._write(stream, getattr(data, field._name))
-            break
+            if (value := getattr(data, field._name)) is None:
+                value = field.__default__()
 
-        # If we haven't written anything yet and we initially skipped an anonymous struct, write it now
-        if stream.tell() == offset and anonymous_struct:
-            anonymous_struct._write(stream, data)
+            out = io.BytesIO()
+            field.type._write(out, value)
 
-        # If we haven't filled the union size yet, pad it
-        if remaining := expected_offset - stream.tell():
-            stream.write(b"\x00" * remaining)
+            for i, (byte, bits) in enumerate(zip(out.getvalue(), mask), start):
+                if i < len(buf):
+                    buf[i] |= byte & bits & ~written[i]
+                    written[i] |= bits
 
-        return stream.tell() - offset
+        return stream.write(buf)
 
 
 class Union(Structure, metaclass=UnionMetaType):
@@ -563,15 +562,14 @@ class Union(Structure, metaclass=UnionMetaType):
 
     _buf: bytes
 
-    def __eq__(self, other: object) -> bool:
-        return self.__class__ is other.__class__ and bytes(self) == bytes(other)
-
     def __setattr__(self, attr: str, value: Any) -> None:
         if self.__class__.dynamic:
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
-        self._rebuild(attr)
+        if attr in self.__class__.lookup:
+            # Fields of anonymous structures are properties that already rebuild the union by themselves
+            self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
         if (cur_buf := getattr(self, "_buf", None)) is None:
@@ -594,21 +592,107 @@ class Union(Structure, metaclass=UnionMetaType):
         self._proxify()
 
     def _update(self) -> None:
-        result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
+        buf = _UnionBuffer(self._buf, getattr(self, "_stream", None))
+        result, sizes = self.__class__._read_fields(buf)
         self.__dict__.update(result)
         object.__setattr__(self, "_values", result)
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
-            for field in value.__class__.__fields__:
-                if issubclass(field.type, Structure):
-                    nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
+        if (proxies := getattr(self, "_proxies", None)) is None:
+            object.__setattr__(self, "_proxies", proxies := {})
+
+        def _proxy(type_: type[BaseType], value: Any, path: tuple[str | int, ...]) -> Any:
+            if issubclass(type_, Structure):
+                _proxy_structure(type_, value, path)
+
+                # Keep using the same proxies, so that references to nested structures remain valid after an update
+                if path in proxies:
+                    object.__setattr__(proxies[path], "__target__", value)
+                else:
+                    # Any change in a nested structure is a change of the member of the union that it's a part of
+                    proxies[path] = UnionProxy(self, path[0], value)
+                return proxies[path]
+
+            if issubclass(type_, Array) and _has_structure(type_):
+                value[:] = [_proxy(type_.type, entry, (*path, i)) for i, entry in enumerate(value)]
+
+            return value
+
+        def _proxy_structure(type_: type[Structure], value: Structure, path: tuple[str | int, ...]) -> None:
+            target = value
+            while type(target) is UnionProxy:
+                # The nested structure is part of another union in this union
+                target = target.__target__
+
+            for field in type_.__fields__:
+                if _has_structure(field.type):
+                    nested_value = getattr(target, field._name)
+                    object.__setattr__(target, field._name, _proxy(field.type, nested_value, (*path, field._name)))
+
+        _proxy_structure(self.__class__, self, ())
+
+
+class _UnionBuffer(io.BytesIO):
+    """The bytes of a union, that knows which stream any pointers in the union refer to."""
+
+    def __init__(self, data: bytes, stream: BinaryIO | None):
+        super().__init__(data)
+        self.__origin__ = getattr(stream, "__origin__", stream)
+
 
-        _proxy_structure(self)
+def _has_structure(type_: type[BaseType]) -> bool:
+    """Return whether the type is a structure or an array of structures."""
+    while issubclass(type_, Array):
+        type_ = type_.type
+    return issubclass(type_, Structure)
+
+
+def _has_pointer(type_: type[BaseType]) -> bool:
+    """Return whether a value of the type contains any pointers."""
+    if issubclass(type_, Structure):
+        return any(_has_pointer(field.type) for field in type_.__fields__)
+    if issubclass(type_, Array):
+        return _has_pointer(type_.type)
+    return issubclass(type_, Pointer)
+
+
+def _data_mask(type_: type[BaseType]) -> bytes:
+    """Return a mask of all the bits of a fixed size type that contain data, i.e. aren't padding."""
+    if issubclass(type_, Array):
+        return _data_mask(type_.type) * max(0, type_.num_entries)
+
+    if not issubclass(type_, Structure):
+        return b"\xff" * len(type_)
+
+    mask = 0
+
+    bits_type = None
+    bits_offset = bits_remaining = 0
+    for field in type_.__fields__:
+        if not field.bits:
+            bits_type = None
+            field_mask = int.from_bytes(_data_mask(field.type), "little")
+            mask |= field_mask << (8 * (field.offset or 0))
+            continue
+
+        field_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type
+        if field_type != bits_type or bits_remaining == 0:
+            bits_type = field_type
+            bits_offset = field.offset or 0
+            bits_remaining = field_type.size * 8
+
+        bits_remaining -= field.bits
+        field_mask = (1 << field.bits) - 1
+        if type_.cs.endian == "<":
+            field_mask <<= field_type.size * 8 - bits_remaining - field.bits
+            unit = field_mask.to_bytes(field_type.size, "little")
+        else:
+            unit = (field_mask << bits_remaining).to_bytes(field_type.size, "big")
+
+        mask |= int.from_bytes(unit, "little") << (8 * bits_offset)
+
+    return mask.to_bytes(len(type_), "little")
 
 
 class UnionProxy:
@@ -636,6 +720,19 @@ class UnionProxy:
     def __getattr__(self, attr: str) -> Any:
         return getattr(self.__target__, attr)
 
+    @property
+    def __class__(self) -> type[Structure]:
+        return self.__target__.__class__
+
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
+
     def __setattr__(self, attr: str, value: Any) -> None:
         setattr(self.__target__, attr, value)
         self.__union__._rebuild(self.__attr__)
-- 
2.43.0


From 945d7b3c28a1ffcc74eb2ec2b3937d7b5d6bfa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 18/44] fix: parsing a structure of a single char field from
 bytes equals parsing it from a stream

---
 dissect/cstruct/types/structure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 290ef05..142c8b4 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -82,10 +82,16 @@ class StructureMetaType(MetaType):
             and len(args) == len(cls.__fields__) == 1
             and isinstance(args[0], bytes)
             and issubclass(cls.__fields__[0].type, bytes)
-            and len(args[0]) == cls.__fields__[0].type.size
+            and not cls.__fields__[0].bits
+            and len(args[0]) == cls.__fields__[0].type.size == cls.size
         ):
             # Shortcut for single char/bytes type
-            return type.__call__(cls, *args, **kwargs)
+            field = cls.__fields__[0]
+            value = type.__call__(field.type, args[0])
+            obj = type.__call__(cls, value, **kwargs)
+            object.__setattr__(obj, "_values", {field._name: value})
+            object.__setattr__(obj, "_sizes", {field._name: len(value)})
+            return obj
         if not args and not kwargs:
             obj = type.__call__(cls)
             object.__setattr__(obj, "_values", {})
-- 
2.43.0


From 3f8109dbb0d0efe6b4a2ad3720ca66d485712675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 19/44] fix: comments and whitespace between the tokens of a
 definition

A comment without a newline joined the tokens around it, comments in texts with
CRLF line endings were not removed and whitespace was not accepted between
asterisks, before array brackets and in the values and types of enums.
---
 dissect/cstruct/parser.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 41d17cf..9058567 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -61,11 +61,15 @@ class TokenParser(Parser):
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
             r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{]+)?\s*(:\s"
-            r"*(?P<type>[^{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
+            r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-        TOK.add(r"(?P<name>\**?\s*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\[(?P<count>[^;\n]*)\])?\s*(?=;)", "NAME")
+        TOK.add(
+            r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?"
+            r"(?:\s*(?P<count>\[[^;\n]*\](?:\s*\[[^;\n]*\])*))?\s*(?=;)",
+            "NAME",
+        )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
         TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
@@ -114,7 +118,10 @@ class TokenParser(Parser):
             nextval = 1
 
         values = {}
-        for line in d["values"].splitlines():
+        # Only a newline between a value and the next name can separate members
+        lines = re.sub(r"\([^()]*\)", lambda m: " ".join(m.group(0).split()), d["values"])
+        lines = re.sub(r"\s+(?=[^\w\s~,])|(?<=[^\w\s),])\s+", " ", lines)
+        for line in lines.splitlines():
             for v in line.split(","):
                 key, _, val = v.partition("=")
                 key = key.strip()
@@ -137,7 +144,7 @@ class TokenParser(Parser):
 
         factory = self.cstruct._make_flag if enumtype == "flag" else self.cstruct._make_enum
 
-        enum = factory(d["name"] or "", self.cstruct.resolve(d["type"]), values)
+        enum = factory(d["name"] or "", self.cstruct.resolve(" ".join(d["type"].split())), values)
         if not enum.__name__:
             self.cstruct.consts.update(enum.__members__)
         else:
@@ -286,12 +293,12 @@ class TokenParser(Parser):
         count_expression = d["count"]
 
         while name.startswith("*"):
-            name = name[1:]
+            name = name[1:].lstrip()
             type_ = self.cstruct._make_pointer(type_)
 
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
-            counts = count_expression.split("][") if "][" in count_expression else [count_expression]
+            counts = re.split(r"\]\s*\[", count_expression[1:-1])
 
             for count in reversed(counts):
                 if count == "":
@@ -333,7 +340,7 @@ class TokenParser(Parser):
     @staticmethod
     def _remove_comments(string: str) -> str:
         # https://stackoverflow.com/a/18381470
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -342,7 +349,8 @@ class TokenParser(Parser):
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if comment := match.group(2):
-                return "\n" * comment.count("\n")  # so we will return empty to remove the comment
+                # so we will return a space (or the newlines) to remove the comment, as it still separates tokens
+                return "\n" * comment.count("\n") or " "
             # otherwise, we will return the 1st group
             return match.group(1)  # captured quoted-string
 
@@ -628,4 +636,4 @@ class TokenConsumer:
     def eol(self) -> None:
         token = self.consume()
         if token.token != "EOL":
-            raise ParserError(f"line {self._lineno(token)}: expected EOL")
+            raise ParserError(f"line {TokenParser._lineno(token)}: expected EOL")
-- 
2.43.0


From 5c49f6807c77349253b488328f272fcf1d440006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 20/44] fix: dumpstruct of bit fields and pack/unpack of sizes
 that aren't whole bytes

---
 dissect/cstruct/utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 0345598..66bcb57 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -159,7 +159,12 @@ def _dumpstruct(
 
         if color:
             foreground, background = colors[ci % len(colors)]
-            palette.append((structure._sizes[field._name], background))
+            if field.bits:
+                # The first bit field of a storage unit has the offset of that unit
+                size = len(field.type) if field.offset is not None else 0
+            else:
+                size = structure._sizes.get(field._name, 0)
+            palette.append((size, background))
         ci += 1
 
         value = getattr(structure, field._name)
@@ -224,7 +229,10 @@ def pack(value: int, size: int | None = None, endian: str = "little") -> bytes:
         size: Integer size in bits.
         endian: Endianness to use (little, big, network, <, > or !)
     """
-    size = ((size or value.bit_length()) + 7) // 8
+    if not size:
+        # Negative numbers need room for the sign bit
+        size = (~value).bit_length() + 1 if value < 0 else value.bit_length()
+    size = (size + 7) // 8
     return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
 
 
@@ -237,8 +245,8 @@ def unpack(value: bytes, size: int | None = None, endian: str = "little", sign:
         endian: Endianness to use (little, big, network, <, > or !)
         sign: Signedness of the integer.
     """
-    if size and len(value) != size // 8:
-        raise ValueError(f"Invalid byte value, expected {size // 8} bytes, got {len(value)} bytes")
+    if size and len(value) != (expected := (size + 7) // 8):
+        raise ValueError(f"Invalid byte value, expected {expected} bytes, got {len(value)} bytes")
     return int.from_bytes(value, ENDIANNESS_MAP.get(endian, endian), signed=sign)
 
 
-- 
2.43.0


From 8fb358f6503665782ebf973e313cb10e7ee29de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 21/44] fix: name of the uint48 type

---
 dissect/cstruct/cstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index b754310..51ea243 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -73,7 +73,7 @@ class cstruct:
             "int24": self._make_int_type("int24", 3, True, alignment=4),
             "uint24": self._make_int_type("uint24", 3, False, alignment=4),
             "int48": self._make_int_type("int48", 6, True, alignment=8),
-            "uint48": self._make_int_type("int48", 6, False, alignment=8),
+            "uint48": self._make_int_type("uint48", 6, False, alignment=8),
             "int128": self._make_int_type("int128", 16, True, alignment=16),
             "uint128": self._make_int_type("uint128", 16, False, alignment=16),
 
-- 
2.43.0


From a30988a0967b1a77290867a510003b7bd7922322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 22/44] fix: stubs of aliases, arrays, pointers, anonymous
 enums and names that aren't valid Python

---
 dissect/cstruct/parser.py        |  2 +-
 dissect/cstruct/tools/stubgen.py | 83 ++++++++++++++++++++++++--------
 2 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 9058567..7806a5d 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -167,7 +167,7 @@ class TokenParser(Parser):
 
         names.extend(self._names(tokens))
         for name in names:
-            if issubclass(type_, Structure) and type_.__anonymous__:
+            if issubclass(type_, Structure) and type_.__anonymous__ and name.isidentifier():
                 type_.__anonymous__ = False
                 type_.__name__ = name
                 type_.__qualname__ = name
diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 8f30b6a..e651b82 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import argparse
 import importlib
 import importlib.util
+import keyword
 import logging
 import textwrap
 from pathlib import Path
@@ -10,6 +11,7 @@ from typing import TYPE_CHECKING
 
 from dissect.cstruct import types
 from dissect.cstruct.cstruct import cstruct
+from dissect.cstruct.exceptions import ResolveError
 
 if TYPE_CHECKING:
     from types import ModuleType
@@ -76,32 +78,56 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     for name, value in cs.consts.items():
         if name in empty_cs.consts:
             continue
+        if not _is_valid_name(name):
+            continue
+        if isinstance(value, (types.Enum, types.Flag)):
+            # Members of an anonymous enum
+            value = value.value
         body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
 
     defined_names = set()
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
-        if name in empty_cs.typedefs:
+        if name in empty_cs.typedefs or not _is_valid_name(name):
+            continue
+
+        try:
+            typedef = cs.resolve(typedef)
+        except ResolveError:
+            # References something that doesn't exist, so this can't be used either
             continue
 
         if typedef.__name__ in empty_cs.typedefs:
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
         elif typedef.__name__ in defined_names:
+            if typedef.__name__ == name:
+                # We already had to define this type for an alias
+                continue
             # Create an alias to the type if we have already seen it before.
             stub = f"{name}: TypeAlias = {typedef.__name__}"
-        elif issubclass(typedef, (types.Enum, types.Flag)):
-            stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif issubclass(typedef, types.Structure):
-            stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif issubclass(typedef, types.BaseType):
-            stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif isinstance(typedef, str):
-            stub = f"{name}: TypeAlias = {typedef}"
+        elif issubclass(typedef, (types.BaseArray, types.Pointer)):
+            # These don't have a name of their own
+            stub = f"{name}: TypeAlias = {generate_typehint(typedef, cs_prefix, module_prefix)}"
+
+            nested_type = _nested_type(typedef)
+            if _is_inline(cs, nested_type) and nested_type.__name__ not in defined_names:
+                defined_names.add(nested_type.__name__)
+                nested_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
+                stub = f"{nested_stub}\n{stub}"
         else:
-            raise TypeError(f"Unknown typedef: {typedef}")
-
-        defined_names.add(typedef.__name__)
+            if issubclass(typedef, (types.Enum, types.Flag)):
+                stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            elif issubclass(typedef, types.Structure):
+                stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            elif issubclass(typedef, types.BaseType):
+                stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            else:
+                raise TypeError(f"Unknown typedef: {typedef}")
+
+            defined_names.add(typedef.__name__)
+            if typedef.__name__ != name:
+                stub = f"{stub}\n{name}: TypeAlias = {typedef.__name__}"
 
         body.append(textwrap.indent(stub, prefix=indent))
 
@@ -111,6 +137,23 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     return "\n".join(header + body)
 
 
+def _is_valid_name(name: str) -> bool:
+    """Return whether the name can be declared in Python."""
+    return name.isidentifier() and not keyword.iskeyword(name)
+
+
+def _nested_type(type_: type[types.BaseType]) -> type[types.BaseType]:
+    """Return the type that an array or pointer eventually holds or points to."""
+    while issubclass(type_, (types.BaseArray, types.Pointer)):
+        type_ = type_.type
+    return type_
+
+
+def _is_inline(cs: cstruct, type_: type[types.BaseType]) -> bool:
+    """Return whether the type is a structure that's not globally defined."""
+    return issubclass(type_, types.Structure) and cs.typedefs.get(type_.__name__) is not type_
+
+
 def generate_typehint(
     type_: type[types.BaseType],
     prefix: str = "",
@@ -143,7 +186,8 @@ def generate_enum_stub(
     module_prefix: str = "",
 ) -> str:
     result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
-    result.extend(f"    {key} = ..." for key in enum.__members__)
+    members = [f"    {key} = ..." for key in enum.__members__ if _is_valid_name(key)]
+    result.extend(members or ["    ..."])
     result.append("")
 
     return "\n".join(result)
@@ -159,17 +203,16 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self"]
+    args = ["self" if "self" not in structure.fields else "__self"]
     for field_name, field in structure.fields.items():
-        type_name = field.type.__name__
+        if not _is_valid_name(field_name):
+            continue
+
         inlined = False
 
         # If it's a structure and not globally defined, add an inline stub for it
-        nested_type = field.type
-        while issubclass(nested_type, types.BaseArray):
-            nested_type = nested_type.type
-
-        if issubclass(nested_type, types.Structure) and type_name not in structure.cs.typedefs:
+        nested_type = _nested_type(field.type)
+        if _is_inline(structure.cs, nested_type):
             inlined = True
             inline_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
 
-- 
2.43.0


From 0028133c37dbd4b6666eb0dc878314155ff2946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 23/44] fix: compiled reader of an array with a negative length

---
 dissect/cstruct/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index b0bea9d..2938c9e 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -291,7 +291,7 @@ class _ReadSourceGenerator:
             read_type = _get_read_type(self.cs, field_type)
 
             if issubclass(field_type, (Array, CharArray, WcharArray)):
-                count = field_type.num_entries
+                count = max(0, field_type.num_entries)
                 read_type = _get_read_type(self.cs, field_type.type)
 
                 if issubclass(read_type, (Char, Wchar, Int)):
@@ -392,7 +392,7 @@ def _generate_struct_info(cs: cstruct, fields: list[Field], align: bool = False)
 
         # Array of more complex types are handled elsewhere
         if issubclass(read_type, (Array, CharArray, WcharArray)):
-            count = read_type.num_entries
+            count = max(0, read_type.num_entries)
             read_type = _get_read_type(cs, read_type.type)
 
         # Take the pack char for Packed
-- 
2.43.0


From ee34a74b09dbcd991eabbb62bdeb2591d2a47f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 24/44] fix: parsing values of flags with duplicate members

---
 dissect/cstruct/types/enum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 6a14162..f794be6 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -115,6 +115,7 @@ def _fix_alias_members(cls: type[Enum]) -> None:
             new_member = int.__new__(cls, member.value)
             new_member._name_ = name
             new_member._value_ = member.value
+            new_member._sort_order_ = len(cls._member_names_)
 
             type.__setattr__(cls, name, new_member)
             cls._member_names_.append(name)
-- 
2.43.0


From faf281bc38e0dc49edfc0565a8933c97dd5cef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 25/44] fix: bit fields that are direct members of a union

They were read and written as the whole storage unit.
---
 dissect/cstruct/types/structure.py | 52 ++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 142c8b4..8a7d0e6 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -462,6 +462,9 @@ class UnionMetaType(StructureMetaType):
                 except TypeError:
                     size = None
 
+            if field.bits and field.bits > field.type.size * 8:
+                raise ValueError("Straddled bit fields are unsupported")
+
             alignment = max(field.alignment, alignment)
 
         if align and size is not None:
@@ -472,6 +475,34 @@ class UnionMetaType(StructureMetaType):
 
         return size, alignment
 
+    def _read_field(cls, field: Field, stream: BinaryIO, context: dict[str, Any] | None = None) -> Any:
+        field_type = cls.cs.resolve(field.type)
+        if not field.bits:
+            return field_type._read(stream, context)
+
+        # Every bit field of a union is at the start of its own storage unit
+        is_enum = isinstance(field_type, EnumMetaType)
+        value = BitBuffer(stream, cls.cs.endian).read(field_type.type if is_enum else field_type, field.bits)
+        return field_type(value) if is_enum else value
+
+    def _write_field(cls, field: Field, stream: BinaryIO, value: Any) -> None:
+        if not field.bits:
+            field.type._write(stream, value)
+            return
+
+        is_enum = isinstance(field.type, EnumMetaType)
+        buf = io.BytesIO()
+        bit_buffer = BitBuffer(buf, cls.cs.endian)
+        bit_buffer.write(field.type.type if is_enum else field.type, value.value if is_enum else value, field.bits)
+        bit_buffer.flush()
+
+        # Keep the other bits of the storage unit
+        offset = stream.tell()
+        unit = stream.read(field.type.size).ljust(field.type.size, b"\x00")
+        stream.seek(offset)
+        mask = _bits_mask(field, cls.cs.endian)
+        stream.write(bytes((old & ~bits) | new for old, new, bits in zip(unit, buf.getvalue(), mask)))
+
     def _read_fields(
         cls, stream: BinaryIO, context: dict[str, Any] | None = None
     ) -> tuple[dict[str, Any], dict[str, int]]:
@@ -486,14 +517,12 @@ class UnionMetaType(StructureMetaType):
             buf = _UnionBuffer(stream.read(cls.size), stream)
 
         for field in cls.__fields__:
-            field_type = cls.cs.resolve(field.type)
-
             start = 0
             if field.offset is not None:
                 start = field.offset
 
             buf.seek(offset + start)
-            value = field_type._read(buf, result)
+            value = cls._read_field(field, buf, result)
 
             sizes[field._name] = buf.tell() - offset - start
             result[field._name] = value
@@ -545,7 +574,7 @@ class UnionMetaType(StructureMetaType):
         fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
         for field in sorted(fields, key=lambda e: isinstance(e.type, StructureMetaType) and e.name is None):
             start = field.offset or 0
-            mask = _data_mask(field.type)
+            mask = _bits_mask(field, cls.cs.endian) if field.bits else _data_mask(field.type)
             if not any(bits & ~done for bits, done in zip(mask, written[start:])):
                 continue
 
@@ -553,7 +582,7 @@ class UnionMetaType(StructureMetaType):
                 value = field.__default__()
 
             out = io.BytesIO()
-            field.type._write(out, value)
+            cls._write_field(field, out, value)
 
             for i, (byte, bits) in enumerate(zip(out.getvalue(), mask), start):
                 if i < len(buf):
@@ -589,7 +618,7 @@ class Union(Structure, metaclass=UnionMetaType):
         if (value := getattr(self, attr)) is None:
             value = field.__default__()
 
-        field.type._write(buf, value)
+        self.__class__._write_field(field, buf, value)
 
         object.__setattr__(self, "_buf", buf.getvalue())
         self._update()
@@ -676,6 +705,10 @@ def _data_mask(type_: type[BaseType]) -> bytes:
     bits_type = None
     bits_offset = bits_remaining = 0
     for field in type_.__fields__:
+        if field.bits and issubclass(type_, Union):
+            mask |= int.from_bytes(_bits_mask(field, type_.cs.endian), "little") << (8 * (field.offset or 0))
+            continue
+
         if not field.bits:
             bits_type = None
             field_mask = int.from_bytes(_data_mask(field.type), "little")
@@ -701,6 +734,13 @@ def _data_mask(type_: type[BaseType]) -> bytes:
     return mask.to_bytes(len(type_), "little")
 
 
+def _bits_mask(field: Field, endian: str) -> bytes:
+    """Return a mask of the bits of a bit field that's at the start of its storage unit."""
+    size = field.type.size
+    mask = (1 << field.bits) - 1
+    return mask.to_bytes(size, "little") if endian == "<" else (mask << (size * 8 - field.bits)).to_bytes(size, "big")
+
+
 class UnionProxy:
     __union__: Union
     __attr__: str
-- 
2.43.0


From cb959aeb7c3c34f430ece8b3ef41273afb24b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 26/44] fix: reading a union from a stream that delivers too
 few bytes

The members of which the bytes were read were parsed anyway, while what follows
the union was then read from the wrong position.
---
 dissect/cstruct/types/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 8a7d0e6..9773f46 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -540,6 +540,8 @@ class UnionMetaType(StructureMetaType):
             result = {}
             sizes = {}
             buf = stream.read(cls.size)
+            if len(buf) != cls.size:
+                raise EOFError(f"Read {len(buf)} bytes, but expected {cls.size}")
 
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
-- 
2.43.0


From 09d61420f7263a40b6be4042888ce88413c01923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 27/44] fix: values of enum members of the legacy parser may
 refer to earlier members

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 7806a5d..c1a3e72 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -448,7 +448,7 @@ class CStyleParser(Parser):
                     if not key:
                         continue
 
-                    val = nextval if not val else Expression(self.cstruct, val).evaluate()
+                    val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
 
                     if enumtype == "flag":
                         high_bit = val.bit_length() - 1
-- 
2.43.0


From a21ec237ec8d2442ead8241bde52baf9bfe6618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:26 +0000
Subject: [PATCH 28/44] fix: members of an enum and a flag are never equal

---
 dissect/cstruct/types/enum.py | 2 +-
 dissect/cstruct/types/flag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index f794be6..f262d50 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -184,7 +184,7 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
             return f"{base}{value}"
 
     def __eq__(self, other: int | Enum) -> bool:
-        if isinstance(other, Enum) and other.__class__ is not self.__class__:
+        if isinstance(type(other), EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index f600287..e3570cc 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -76,7 +76,7 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
             return result
 
     def __eq__(self, other: int | Flag) -> bool:
-        if isinstance(other, Flag) and other.__class__ is not self.__class__:
+        if isinstance(type(other), EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
-- 
2.43.0


From 82faa81dfccdfbdfecdaf02b86d77786e5bc83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 29/44] fix: fields named self or cls

---
 dissect/cstruct/types/base.py      | 2 +-
 dissect/cstruct/types/structure.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 20b3e1d..1e691cc 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 9773f46..ed390e7 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -76,7 +76,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -427,7 +427,7 @@ class Structure(BaseType, metaclass=StructureMetaType):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -977,6 +977,7 @@ def _patch_factory__init__(func: FunctionType, fields: list[Field]) -> FunctionT
     code = func.__code__
     return type(func)(
         code.replace(
+            co_posonlyargcount=1,
             co_consts=tuple(names.get(const, const) if isinstance(const, str) else const for const in code.co_consts),
             co_names=tuple(names.get(name, name) for name in code.co_names),
             co_varnames=tuple(names.get(name, name) for name in code.co_varnames),
@@ -1001,6 +1002,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     template: FunctionType = _make_structure__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
+            co_posonlyargcount=1,
             co_consts=(None, *defaults),
             co_names=(*field_names,),
             co_varnames=("self", *field_names),
@@ -1025,6 +1027,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
     template: FunctionType = _make_union__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
+            co_posonlyargcount=1,
             co_consts=(
                 None,
                 *sum(zip(field_names, defaults), ()),
-- 
2.43.0


From 642ed1ec6d7cd60f0d11ffb662d30db56488a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 30/44] fix: members of anonymous structures named like class
 attributes

---
 dissect/cstruct/types/structure.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index ed390e7..0abad12 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -107,6 +107,7 @@ class StructureMetaType(MetaType):
 
         lookup = {}
         raw_lookup = {}
+        forwards = {}
         field_names = []
         for field in fields:
             if field._name in lookup and field._name != "_":
@@ -114,8 +115,7 @@ class StructureMetaType(MetaType):
 
             if isinstance(field.type, StructureMetaType) and field.name is None:
                 for anon_field in field.type.fields.values():
-                    attr = f"{field._name}.{anon_field.name}"
-                    classdict[anon_field.name] = property(attrgetter(attr), attrsetter(attr))
+                    forwards[anon_field.name] = f"{field._name}.{anon_field.name}"
 
                 lookup.update(field.type.fields)
             else:
@@ -162,6 +162,10 @@ class StructureMetaType(MetaType):
         classdict["alignment"] = alignment
         classdict["dynamic"] = size is None
 
+        # Class attributes that have the name of a field must remain accessible on the class
+        attributes = classdict if issubclass(cls, type) else {**vars(cls), **classdict}
+        classdict.update({name: ForwardedField(attr, name, attributes) for name, attr in forwards.items()})
+
         return classdict
 
     def _calculate_size_and_offsets(cls, fields: list[Field], align: bool = False) -> tuple[int | None, int]:
@@ -786,6 +790,26 @@ class UnionProxy:
         self.__union__._rebuild(self.__attr__)
 
 
+class ForwardedField(property):
+    """Forwards an attribute to a field of an anonymous structure.
+
+    Args:
+        path: Path of the field to forward to.
+        name: Name of the attribute.
+        attributes: The attributes of the class, of which one may have the same name.
+    """
+
+    def __init__(self, path: str, name: str, attributes: dict[str, Any]):
+        super().__init__(attrgetter(path), attrsetter(path))
+        if isinstance(attributes.get(name), ForwardedField):
+            attributes = attributes[name].attributes
+        self.name = name
+        self.attributes = {name: attributes[name]} if name in attributes else {}
+
+    def __get__(self, obj: Any, owner: type | None = None) -> Any:
+        return self.attributes.get(self.name, self) if obj is None else super().__get__(obj, owner)
+
+
 def attrsetter(path: str) -> Callable[[Any], Any]:
     path, _, attr = path.rpartition(".")
     path = path.split(".")
-- 
2.43.0


From 979b63b567c55b16c4780458f45fe21915c38829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 31/44] fix: keep structures usable when a field can't be added

---
 dissect/cstruct/types/structure.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 0abad12..7463294 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -382,16 +382,25 @@ class StructureMetaType(MetaType):
         cls.__fields__.append(field)
 
         if not cls.__updating__:
-            cls.commit()
+            cls._commit_from(len(cls.__fields__) - 1)
 
     @contextmanager
     def start_update(cls) -> Iterator[None]:
+        num_fields = len(cls.__fields__)
         try:
             cls.__updating__ = True
             yield
         finally:
-            cls.commit()
             cls.__updating__ = False
+            cls._commit_from(num_fields)
+
+    def _commit_from(cls, num_fields: int) -> None:
+        """Commit the fields, without the ones after the first ``num_fields`` if those can't be added."""
+        try:
+            cls.commit()
+        except Exception:
+            del cls.__fields__[num_fields:]
+            raise
 
     def commit(cls) -> None:
         classdict = cls._update_fields(cls.__fields__, cls.__align__)
-- 
2.43.0


From ee1e36a454fbb1256fd36593ad527b8ae3f08282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 32/44] fix: folded members may have the name of inherited and
 metaclass attributes

---
 dissect/cstruct/types/structure.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 7463294..f9682a0 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -816,7 +816,19 @@ class ForwardedField(property):
         self.attributes = {name: attributes[name]} if name in attributes else {}
 
     def __get__(self, obj: Any, owner: type | None = None) -> Any:
-        return self.attributes.get(self.name, self) if obj is None else super().__get__(obj, owner)
+        if obj is not None:
+            return super().__get__(obj, owner)
+
+        # Attributes of the class itself and its base classes, and those of its metaclass
+        for attributes, *args in chain(
+            ((attributes, None, owner) for attributes in chain([self.attributes], map(vars, owner.__mro__))),
+            ((vars(metacls), owner) for metacls in type(owner).__mro__),
+        ):
+            attr = attributes.get(self.name, self)
+            if not isinstance(attr, ForwardedField):
+                return attr.__get__(*args) if hasattr(attr, "__get__") else attr
+
+        return self
 
 
 def attrsetter(path: str) -> Callable[[Any], Any]:
-- 
2.43.0


From e5d6d4b320fcc12247ba2173bd1954e4bc5a37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 33/44] fix: dumpstruct lists fields whose type has an
 'anonymous' attribute

---
 dissect/cstruct/utils.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 66bcb57..1dd73c0 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -154,9 +154,6 @@ def _dumpstruct(
     out = [f"struct {structure.__class__.__name__}:"]
     foreground, background = None, None
     for field in structure.__class__.__fields__:
-        if getattr(field.type, "anonymous", False):
-            continue
-
         if color:
             foreground, background = colors[ci % len(colors)]
             if field.bits:
-- 
2.43.0


From 51d2e4b074343b1303bc012403dae3d4e3afefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 34/44] fix: dumpstruct of structures that haven't been parsed

---
 dissect/cstruct/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 1dd73c0..d399486 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -153,6 +153,8 @@ def _dumpstruct(
     ci = 0
     out = [f"struct {structure.__class__.__name__}:"]
     foreground, background = None, None
+    # Only known for structures that have been parsed
+    sizes = getattr(structure, "_sizes", {})
     for field in structure.__class__.__fields__:
         if color:
             foreground, background = colors[ci % len(colors)]
@@ -160,7 +162,7 @@ def _dumpstruct(
                 # The first bit field of a storage unit has the offset of that unit
                 size = len(field.type) if field.offset is not None else 0
             else:
-                size = structure._sizes.get(field._name, 0)
+                size = sizes.get(field._name, 0)
             palette.append((size, background))
         ci += 1
 
-- 
2.43.0


From 5b9643a137681d50909352d95d736bc302f1669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 35/44] fix: stubs of types with a name that is a Python
 keyword

---
 dissect/cstruct/tools/stubgen.py | 45 +++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index e651b82..f07b7bc 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -98,21 +98,22 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             # References something that doesn't exist, so this can't be used either
             continue
 
+        type_name = _type_name(typedef)
         if typedef.__name__ in empty_cs.typedefs:
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
-        elif typedef.__name__ in defined_names:
-            if typedef.__name__ == name:
+        elif type_name in defined_names:
+            if type_name == name:
                 # We already had to define this type for an alias
                 continue
             # Create an alias to the type if we have already seen it before.
-            stub = f"{name}: TypeAlias = {typedef.__name__}"
+            stub = f"{name}: TypeAlias = {type_name}"
         elif issubclass(typedef, (types.BaseArray, types.Pointer)):
             # These don't have a name of their own
             stub = f"{name}: TypeAlias = {generate_typehint(typedef, cs_prefix, module_prefix)}"
 
             nested_type = _nested_type(typedef)
-            if _is_inline(cs, nested_type) and nested_type.__name__ not in defined_names:
-                defined_names.add(nested_type.__name__)
+            if _is_inline(cs, nested_type) and _type_name(nested_type) not in defined_names:
+                defined_names.add(_type_name(nested_type))
                 nested_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
                 stub = f"{nested_stub}\n{stub}"
         else:
@@ -125,9 +126,9 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             else:
                 raise TypeError(f"Unknown typedef: {typedef}")
 
-            defined_names.add(typedef.__name__)
-            if typedef.__name__ != name:
-                stub = f"{stub}\n{name}: TypeAlias = {typedef.__name__}"
+            defined_names.add(type_name)
+            if type_name != name:
+                stub = f"{stub}\n{name}: TypeAlias = {type_name}"
 
         body.append(textwrap.indent(stub, prefix=indent))
 
@@ -142,6 +143,21 @@ def _is_valid_name(name: str) -> bool:
     return name.isidentifier() and not keyword.iskeyword(name)
 
 
+def _type_name(type_: type[types.BaseType]) -> str:
+    """Return the name to declare a type under.
+
+    A type with a name that can't be declared in Python goes by its first alias that can.
+    """
+    if _is_valid_name(type_.__name__):
+        return type_.__name__
+
+    for name, typedef in type_.cs.typedefs.items():
+        if typedef is type_ and _is_valid_name(name):
+            return name
+
+    return f"{type_.__name__}_"
+
+
 def _nested_type(type_: type[types.BaseType]) -> type[types.BaseType]:
     """Return the type that an array or pointer eventually holds or points to."""
     while issubclass(type_, (types.BaseArray, types.Pointer)):
@@ -167,7 +183,12 @@ def generate_typehint(
         return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"
     if issubclass(type_, types.Array):
         return f"{module_prefix}Array[{generate_typehint(type_.type, prefix, module_prefix)}]"
-    return f"{prefix}{type_.__name__}"
+
+    name = _type_name(type_)
+    if type_.cs.typedefs.get(type_.__name__) is type_ and name not in type_.cs.typedefs:
+        # There's no name to declare this type under, so its base type is the closest we can get
+        return f"{module_prefix}{type_.__base__.__name__}"
+    return f"{prefix}{name}"
 
 
 def generate_generic_stub(
@@ -176,7 +197,7 @@ def generate_generic_stub(
     cs_prefix: str = "",
     module_prefix: str = "",
 ) -> str:
-    return f"class {name_prefix}{type_.__name__}({module_prefix}{type_.__base__.__name__}): ...\n"
+    return f"class {name_prefix}{_type_name(type_)}({module_prefix}{type_.__base__.__name__}): ...\n"
 
 
 def generate_enum_stub(
@@ -185,7 +206,7 @@ def generate_enum_stub(
     cs_prefix: str = "",
     module_prefix: str = "",
 ) -> str:
-    result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
+    result = [f"class {name_prefix}{_type_name(enum)}({module_prefix}{enum.__base__.__name__}):"]
     members = [f"    {key} = ..." for key in enum.__members__ if _is_valid_name(key)]
     result.extend(members or ["    ..."])
     result.append("")
@@ -199,7 +220,7 @@ def generate_structure_stub(
     cs_prefix: str = "",
     module_prefix: str = "",
 ) -> str:
-    result = [f"class {name_prefix}{structure.__name__}({module_prefix}{structure.__base__.__name__}):"]
+    result = [f"class {name_prefix}{_type_name(structure)}({module_prefix}{structure.__base__.__name__}):"]
 
     indent = " " * 4
 
-- 
2.43.0


From fe2e91dc3580e6d5627a896f359be407343d9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 36/44] fix: stubs of structures with a field called __self

---
 dissect/cstruct/tools/stubgen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index f07b7bc..bf8f0ff 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -224,7 +224,11 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self" if "self" not in structure.fields else "__self"]
+    self_name = "self"
+    while self_name in structure.fields:
+        self_name = f"__{self_name}"
+
+    args = [self_name]
     for field_name, field in structure.fields.items():
         if not _is_valid_name(field_name):
             continue
-- 
2.43.0


From 2cdd78e05fe4f85eb406c2bf1bfd37ff86ef18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 37/44] fix: stubs of types that aren't known by their own name

---
 dissect/cstruct/tools/stubgen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index bf8f0ff..3081a08 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -146,16 +146,16 @@ def _is_valid_name(name: str) -> bool:
 def _type_name(type_: type[types.BaseType]) -> str:
     """Return the name to declare a type under.
 
-    A type with a name that can't be declared in Python goes by its first alias that can.
+    A type that isn't known by its own name, or with a name that can't be declared in Python, goes by its first alias.
     """
-    if _is_valid_name(type_.__name__):
+    if (is_valid := _is_valid_name(type_.__name__)) and type_.cs.typedefs.get(type_.__name__) is type_:
         return type_.__name__
 
     for name, typedef in type_.cs.typedefs.items():
         if typedef is type_ and _is_valid_name(name):
             return name
 
-    return f"{type_.__name__}_"
+    return type_.__name__ if is_valid else f"{type_.__name__}_"
 
 
 def _nested_type(type_: type[types.BaseType]) -> type[types.BaseType]:
@@ -167,7 +167,7 @@ def _nested_type(type_: type[types.BaseType]) -> type[types.BaseType]:
 
 def _is_inline(cs: cstruct, type_: type[types.BaseType]) -> bool:
     """Return whether the type is a structure that's not globally defined."""
-    return issubclass(type_, types.Structure) and cs.typedefs.get(type_.__name__) is not type_
+    return issubclass(type_, types.Structure) and not any(typedef is type_ for typedef in cs.typedefs.values())
 
 
 def generate_typehint(
-- 
2.43.0


From 67da5b630f62c2564146887e5d77989b77d68490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 38/44] fix: null-terminated arrays of pointers

x[] of a pointer type was accepted in a definition, but reading it raised NotImplementedError.
---
 dissect/cstruct/types/pointer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 7a8bace..3dcbe5f 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -79,6 +79,15 @@ class Pointer(int, BaseType, Generic[T]):
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:
         return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, context)
 
+    @classmethod
+    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:
+        result = []
+
+        while ptr := cls._read(stream, context):
+            result.append(ptr)
+
+        return result
+
     @classmethod
     def _write(cls, stream: BinaryIO, data: int) -> int:
         return cls.cs.pointer._write(stream, data)
-- 
2.43.0


From ef7caaafdae00dbaa34a105cbfeff6adfec6c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 39/44] fix: dynamic unions end after their largest field,
 instead of after their last field

---
 dissect/cstruct/types/structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index f9682a0..c84ff11 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -529,6 +529,7 @@ class UnionMetaType(StructureMetaType):
             offset = 0
             buf = _UnionBuffer(stream.read(cls.size), stream)
 
+        end = offset
         for field in cls.__fields__:
             start = 0
             if field.offset is not None:
@@ -539,6 +540,11 @@ class UnionMetaType(StructureMetaType):
 
             sizes[field._name] = buf.tell() - offset - start
             result[field._name] = value
+            end = max(end, buf.tell())
+
+        if cls.size is None:
+            # A dynamic union is as large as its largest field, regardless of which field is read last
+            buf.seek(end)
 
         return result, sizes
 
-- 
2.43.0


From 719b3af0f3deb80e8f6da9f6deff61884a1ad9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 40/44] fix: a short read of a dynamic union left the stream in
 the middle of it instead of raising EOFError

---
 dissect/cstruct/types/structure.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c84ff11..6a7cf97 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -554,13 +554,14 @@ class UnionMetaType(StructureMetaType):
             result, sizes = cls._read_fields(stream, context)
             size = stream.tell() - start
             stream.seek(start)
-            buf = stream.read(size)
         else:
             result = {}
             sizes = {}
-            buf = stream.read(cls.size)
-            if len(buf) != cls.size:
-                raise EOFError(f"Read {len(buf)} bytes, but expected {cls.size}")
+            size = cls.size
+
+        buf = stream.read(size)
+        if len(buf) != size:
+            raise EOFError(f"Read {len(buf)} bytes, but expected {size}")
 
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
-- 
2.43.0


From 30771d7f40701abba4cb9dcac7149eb6f1978a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 41/44] fix: stubs declare built-in names that were given
 another meaning

---
 dissect/cstruct/tools/stubgen.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 3081a08..0bc8a06 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -89,7 +89,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
-        if name in empty_cs.typedefs or not _is_valid_name(name):
+        if _is_same_typedef(typedef, empty_cs.typedefs.get(name)) or not _is_valid_name(name):
             continue
 
         try:
@@ -99,7 +99,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             continue
 
         type_name = _type_name(typedef)
-        if typedef.__name__ in empty_cs.typedefs:
+        if _is_same_typedef(typedef, empty_cs.typedefs.get(typedef.__name__)):
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
         elif type_name in defined_names:
             if type_name == name:
@@ -143,6 +143,13 @@ def _is_valid_name(name: str) -> bool:
     return name.isidentifier() and not keyword.iskeyword(name)
 
 
+def _is_same_typedef(typedef: type[types.BaseType] | str, builtin: type[types.BaseType] | str | None) -> bool:
+    """Return whether the typedef is the given typedef of an empty cstruct object, i.e. isn't user defined."""
+    if isinstance(typedef, str) or isinstance(builtin, str) or builtin is None:
+        return typedef == builtin
+    return typedef.__name__ == builtin.__name__ and typedef.__bases__ == builtin.__bases__
+
+
 def _type_name(type_: type[types.BaseType]) -> str:
     """Return the name to declare a type under.
 
-- 
2.43.0


From 574be2ca97f983bd910b871bddd7edeff8cef46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 42/44] fix: bit-fields in the native byte order

---
 dissect/cstruct/bitbuffer.py       | 8 +++++++-
 dissect/cstruct/types/structure.py | 8 +++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index ef04182..43f865e 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,17 +1,23 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
     from dissect.cstruct.types import BaseType
 
 
+def is_little_endian(endian: str) -> bool:
+    """Return whether the given endianness is little endian, which the native byte order may be too."""
+    return endian == "<" or (endian in ("@", "=") and sys.byteorder == "little")
+
+
 class BitBuffer:
     """Implements a bit buffer that can read and write bit fields."""
 
     def __init__(self, stream: BinaryIO, endian: str):
         self.stream = stream
-        self.endian = endian
+        self.endian = "<" if is_little_endian(endian) else ">"
 
         self._type: type[BaseType] | None = None
         self._buffer = 0
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 6a7cf97..15ba9b8 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -10,7 +10,7 @@ from textwrap import dedent
 from types import FunctionType
 from typing import TYPE_CHECKING, Any, BinaryIO, Callable
 
-from dissect.cstruct.bitbuffer import BitBuffer
+from dissect.cstruct.bitbuffer import BitBuffer, is_little_endian
 from dissect.cstruct.types.base import (
     Array,
     BaseType,
@@ -745,7 +745,7 @@ def _data_mask(type_: type[BaseType]) -> bytes:
 
         bits_remaining -= field.bits
         field_mask = (1 << field.bits) - 1
-        if type_.cs.endian == "<":
+        if is_little_endian(type_.cs.endian):
             field_mask <<= field_type.size * 8 - bits_remaining - field.bits
             unit = field_mask.to_bytes(field_type.size, "little")
         else:
@@ -760,7 +760,9 @@ def _bits_mask(field: Field, endian: str) -> bytes:
     """Return a mask of the bits of a bit field that's at the start of its storage unit."""
     size = field.type.size
     mask = (1 << field.bits) - 1
-    return mask.to_bytes(size, "little") if endian == "<" else (mask << (size * 8 - field.bits)).to_bytes(size, "big")
+    if is_little_endian(endian):
+        return mask.to_bytes(size, "little")
+    return (mask << (size * 8 - field.bits)).to_bytes(size, "big")
 
 
 class UnionProxy:
-- 
2.43.0


From 1c9cc568a1722cbadaab8865b7475e493a6fa7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 43/44] fix: the compiled reader in the native byte order

---
 dissect/cstruct/types/packed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index e17a6f5..0f9feb4 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -13,7 +13,8 @@ if TYPE_CHECKING:
 
 @lru_cache(1024)
 def _struct(endian: str, packchar: str) -> Struct:
-    return Struct(f"{endian}{packchar}")
+    # Native alignment would add padding, so only use the native byte order
+    return Struct(f"{'=' if endian == '@' else endian}{packchar}")
 
 
 T = TypeVar("T", int, float)
-- 
2.43.0


From 012cf7fb6fd326b482437e026f5cfe5c8aee09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:00 +0000
Subject: [PATCH 44/44] fix: null-terminated arrays of structures with
 characters or fixed arrays never ended

---
 dissect/cstruct/types/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 15ba9b8..74c5a56 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -314,7 +314,9 @@ class StructureMetaType(MetaType):
     def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:  # type: ignore
         result = []
 
-        while obj := cls._read(stream, context):
+        # The zero value that terminates the array isn't falsy if it holds characters or arrays
+        terminator = cls.__default__()
+        while (obj := cls._read(stream, context)) and obj != terminator:
             result.append(obj)
 
         return result
-- 
2.43.0

