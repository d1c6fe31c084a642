From d4042d19a1d67f7b487f7e06e7ab9a9ea3b2fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 01/34] fix: Struct.from_bytes(exact=True) accepted one
 trailing byte

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..d8b13c9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and here < len(data):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From b47d03a13980df3b53d08486cafa724e53a7e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 02/34] fix: structs ignored a field's factory when dumping

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..236f7ca 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,7 +440,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self._default is not UNDEFINED or self.factory is not None:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-- 
2.43.0


From 8b93ebc88241154f3edfa33eee6a179951b60b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 03/34] fix: dumping a float too large for its field leaked
 OverflowError

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..4af0c30 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -110,7 +110,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From 741d449777496e90a975c92d5e01d3be7c16943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 04/34] fix: StructMappingProxy's length was the struct's size
 in bytes

---
 binobj/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index d8b13c9..7376ef2 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -846,7 +846,8 @@ class StructMappingProxy(Mapping[str, Any]):
         yield from iter(self.struct)
 
     def __len__(self) -> int:
-        return len(self.struct)
+        # len(struct) is its size in bytes, not the number of fields in it.
+        return sum(1 for _ in self.struct)
 
 
 @dc.dataclass
-- 
2.43.0


From bfd0196ee7401a8a6eca19412cadea5708cfaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 05/34] fix: Timestamp lost precision by going through floats

---
 binobj/fields/numeric.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4af0c30..a6d92d5 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -394,7 +394,13 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {
+        "s": 1,
+        "ms": 10**3,
+        "us": 10**6,
+        "ns": 10**9,
+    }
+    _EPOCH: Final = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
 
     def __init__(
         self,
@@ -428,10 +434,13 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
+        # Only use floats for the fraction of a second, since they're not precise enough
+        # to hold an entire timestamp.
+        seconds, fraction = divmod(value, self._units)
+        microseconds = fraction * 10**6 / self._units
+        tz = datetime.timezone.utc if self.tz_aware else None
+        return datetime.datetime.fromtimestamp(seconds, tz) + datetime.timedelta(
+            microseconds=microseconds
         )
 
     @override
@@ -457,7 +466,13 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
+        # Floats aren't precise enough to hold a timestamp, so only use integers. Like
+        # int(), this truncates towards zero.
+        offset = data.astimezone(datetime.timezone.utc) - self._EPOCH
+        microseconds = offset // datetime.timedelta(microseconds=1)
+        timestamp = abs(microseconds) * self._units // 10**6
+        if microseconds < 0:
+            timestamp = -timestamp
         try:
             helpers.write_int(
                 stream,
-- 
2.43.0


From aa7d2335c98a691bc02e1af3cfd29f9b91acefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 06/34] fix: an unsized StringZ couldn't load strings longer
 than its default

---
 binobj/fields/stringlike.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..bb62024 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -160,10 +160,11 @@ class StringZ(String):
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
         max_bytes: Optional[int]
-        try:
-            max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
+        if self.size is None:
+            # The size of the default value, if any, says nothing about this one.
             max_bytes = None
+        else:
+            max_bytes = self.get_expected_size(loaded_fields)
 
         iterator = helpers.iter_bytes(stream, max_bytes)
         reader = codecs.iterdecode(iterator, self.encoding)
-- 
2.43.0


From ed1c30fa6f81db45673bd2405d976a9e82c883b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 07/34] fix: a truncated StringZ wasn't reported as an
 unexpected EOF

---
 binobj/fields/stringlike.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index bb62024..02f09bb 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -166,18 +166,26 @@ class StringZ(String):
         else:
             max_bytes = self.get_expected_size(loaded_fields)
 
-        iterator = helpers.iter_bytes(stream, max_bytes)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        offset = stream.tell()
+        n_read = 0
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
 
-        for char in reader:
+        for byte in helpers.iter_bytes(stream, max_bytes):
+            n_read += 1
+            char = decoder.decode(byte)
             if char == "\0":
                 return result.getvalue()
             result.write(char)
 
-        # If we get out here then we hit EOF before getting to the null terminator.
+        # If we get out here then either we hit EOF before getting to the null terminator,
+        # or there's no null terminator in the space reserved for this field.
+        if n_read != max_bytes:
+            raise errors.UnexpectedEOFError(
+                field=self, size=max_bytes or n_read + 1, offset=offset
+            )
         raise errors.DeserializationError(
-            "Hit EOF before finding the trailing null.", field=self
+            f"No trailing null in the {max_bytes} bytes of this field.", field=self
         )
 
     @override
-- 
2.43.0


From c49e0385a6462e4981010820e7413ebe426de1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 08/34] fix: loading a padded StringZ left its padding in the
 stream

---
 binobj/fields/stringlike.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 02f09bb..5873639 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -175,6 +175,8 @@ class StringZ(String):
             n_read += 1
             char = decoder.decode(byte)
             if char == "\0":
+                if self.pad_byte is not None and max_bytes is not None:
+                    self._skip_padding(stream, offset, max_bytes)
                 return result.getvalue()
             result.write(char)
 
@@ -188,6 +190,17 @@ class StringZ(String):
             f"No trailing null in the {max_bytes} bytes of this field.", field=self
         )
 
+    def _skip_padding(self, stream: BinaryIO, offset: int, size: int) -> None:
+        """Move past the padding that's between the null and the end of this field.
+
+        :param BinaryIO stream: The stream to read from.
+        :param int offset: The offset in the stream this field starts at.
+        :param int size: The size of this field including the padding, in bytes.
+        """
+        n_padding = offset + size - stream.tell()
+        if len(stream.read(n_padding)) < n_padding:
+            raise errors.UnexpectedEOFError(field=self, size=size, offset=offset)
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
-- 
2.43.0


From 0fe7a7b8bbc89e4d371f11ad501c776e3a77cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 09/34] fix: structs with optional or defaulted variable-length
 fields claimed a fixed size

---
 binobj/fields/base.py | 12 +++++++++++-
 binobj/pep526.py      |  6 +++++-
 binobj/structures.py  | 14 +++++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 236f7ca..4d01b50 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_: object) -> bool:
+    """The default value for the ``present`` argument of a field."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,11 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_conditional(self) -> bool:
+        """Can this field be missing, depending on what ``present`` returns?"""
+        return self.present is not _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..221a1f1 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -257,7 +257,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and not field_instance.is_conditional
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 7376ef2..8b26ec0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -195,6 +195,14 @@ class StructMetadata:
             field_values = {}
 
         field_objects = self.components.values()
+        if any(
+            f.is_conditional or (f.size is None and f.name not in field_values)
+            for f in field_objects
+        ):
+            # Fields that can be missing don't have a fixed size, nor do variable-length
+            # ones, even if they have a default value.
+            return None
+
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
@@ -245,7 +253,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and not item.is_conditional
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From 182883f14be14d628cc7e24051e539b92a5ce1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 10/34] fix: get_field() couldn't load fields depending on
 other fields

---
 binobj/fields/base.py       |  5 +++++
 binobj/fields/containers.py | 16 ++++++++++++++++
 binobj/structures.py        | 16 ++++++++--------
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 4d01b50..64a3503 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -348,6 +348,11 @@ class Field(Generic[T]):
         """Can this field be missing, depending on what ``present`` returns?"""
         return self.present is not _always_present
 
+    @property
+    def depends_on_fields(self) -> bool:
+        """Does loading this field require the values of the fields before it?"""
+        return self.is_conditional or isinstance(self.size, (str, Field))
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..1d73f2e 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -117,6 +117,16 @@ class Array(Field[list[Optional[T]]]):
         if isinstance(self.count, int) and component.has_fixed_size:
             self._size = self.count * typing.cast(int, component.size)
 
+    @property
+    @override
+    def depends_on_fields(self) -> bool:
+        return (
+            super().depends_on_fields
+            or isinstance(self.count, (str, Field))
+            or self.halt_check is not Array.should_halt
+            or self.component.depends_on_fields
+        )
+
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
         """Calculate the number of elements in the array based on other fields' values.
 
@@ -467,6 +477,12 @@ class Union(Field[Any]):
         self.load_decider = load_decider
         self.dump_decider = dump_decider
 
+    @property
+    @override
+    def depends_on_fields(self) -> bool:
+        # The decider gets all the fields loaded so far.
+        return True
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: Any, context: object, all_fields: StrDict
diff --git a/binobj/structures.py b/binobj/structures.py
index 8b26ec0..5f7688f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -639,13 +639,13 @@ class Struct(HasStruct):
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
         """Return the value of a single field.
 
-        If the field is at a fixed byte offset from the beginning of the struct, it'll
-        be read directly.
+        If the field is at a fixed byte offset from the beginning of the struct, and
+        doesn't need the value of any other field to be loaded, it'll be read directly.
 
-        If the field isn't at a fixed offset from the beginning of the struct (e.g. a
-        variable-length field occurs before it) then the entire struct up to and
-        including this field must be read. Unfortunately, this means that unrelated
-        validation errors can be thrown if other fields have problems.
+        Otherwise (e.g. a variable-length field occurs before it, or another field gives
+        its size) the entire struct up to and including this field must be read.
+        Unfortunately, this means that unrelated validation errors can be thrown if
+        other fields have problems.
 
         :param BinaryIO stream:
             The stream to read from. It's assumed that the stream pointer is positioned
@@ -672,8 +672,8 @@ class Struct(HasStruct):
         original_offset = stream.tell()
 
         # If the field is at a fixed offset from the beginning of the struct, then we
-        # can read and return it directly.
-        if field.offset is not None:
+        # can read and return it directly, unless that takes the values of other fields.
+        if field.offset is not None and not field.depends_on_fields:
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
-- 
2.43.0


From 6148f638ccf35fac5db38c570e188989b9668920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 11/34] fix: partial_load() and get_field() lost the values of
 discarded fields

---
 binobj/structures.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 5f7688f..482008a 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -609,6 +609,18 @@ class Struct(HasStruct):
                 f"{cls.__name__} doesn't have a field named {last_field!r}."
             )
 
+        result = cls._load_fields(stream, last_field, context)
+        for field in cls.__binobj_struct__.components.values():
+            if field.discard:
+                result.pop(field.name, None)
+
+        return cls(**result)
+
+    @classmethod
+    def _load_fields(
+        cls, stream: BinaryIO, last_field: Optional[str], context: object
+    ) -> MutableStrDict:
+        """Load the values for :meth:`partial_load`, including discarded fields."""
         result: MutableStrDict = {}
 
         for field in cls.__binobj_struct__.components.values():
@@ -627,13 +639,12 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
+            result[field.name] = value
 
             if field.name == last_field:
                 break
 
-        return cls(**result)
+        return result
 
     @classmethod
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
@@ -685,7 +696,7 @@ class Struct(HasStruct):
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-            loaded_data = cls.partial_load(stream, name, context)
+            loaded_data = cls._load_fields(stream, name, context)
         finally:
             stream.seek(original_offset)
         return loaded_data[name]
-- 
2.43.0


From 49934b17025b57f360c417307475b5a3f468a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 12/34] fix: comparing structs crashed if a required field
 wasn't set

---
 binobj/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 482008a..705c643 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -810,13 +810,14 @@ class Struct(HasStruct):
             return all(v is fields.UNDEFINED for v in self.__values__.values())
 
         # Compare only defined values by using __iter__ to get the keys that are
-        # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        # defined. Don't use list() for this: it calls __len__() for a hint and that crashes
+        # if required fields are missing.
+        self_values = recursive_to_dicts({n: self[n] for n in self})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From 7c5cdf95fd5b67f29b6054dcae778b4a542359c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 13/34] fix: len() of a struct counted absent fields and
 crashed on counted arrays

---
 binobj/structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 705c643..90769f4 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -786,6 +786,8 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(field.name) is fields.NOT_PRESENT:
+                continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
@@ -793,7 +795,9 @@ class Struct(HasStruct):
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
                     field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    size += len(
+                        field.to_bytes(field_value, all_fields=current_fields)
+                    )
 
         return size
 
-- 
2.43.0


From ad50fe67d52d599bc305de31dcff42639d908113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 14/34] fix: Union fields couldn't dump the struct instances
 they load

---
 binobj/fields/containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 1d73f2e..2d23d06 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -491,6 +491,9 @@ class Union(Field[Any]):
         if isinstance(dumper, Field):
             dumper.to_stream(stream, data, context, all_fields)
         elif issubclass(dumper, Struct):
+            if isinstance(data, dumper):
+                data.to_stream(stream, context)
+                return
             if not isinstance(data, Mapping):
                 raise TypeError(
                     f"Cannot dump a non-Mapping-like object as a {dumper!r}: {data!r}",
-- 
2.43.0


From d09c7565f0cc2a773b20039bd5462a85ce29088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 15/34] fix: Union fields skipped the validation of the field
 they loaded

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 2d23d06..69cf8fc 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -511,7 +511,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From ee694a05079445816905da73fd24c93eb831aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 16/34] fix: validators were called for fields that aren't
 present

---
 binobj/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 90769f4..00183c9 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -361,6 +361,8 @@ class Struct(HasStruct):
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
             value = self[f_name]
+            if value is fields.NOT_PRESENT:
+                continue
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
-- 
2.43.0


From 12b514313b50b222da408e638099c5b19ce6786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 17/34] fix: values given for fields marked as discard weren't
 dumped

---
 binobj/structures.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 00183c9..b5eca05 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -289,31 +289,36 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(item: Struct, **options: Any) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(item: Mapping[K, V], **options: Any) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(item: Sequence[T], **options: Any) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, **options: Any) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param options:
+        Arguments for the :meth:`Struct.to_dict` method of all nested structures.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(**options)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, **options): recursive_to_dicts(v, **options)
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, **options) for v in item]
     return item
 
 
@@ -391,7 +396,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -453,7 +458,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable=keep_discardable)
 
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
-- 
2.43.0


From 6cf902c42ae0a0de6ca91251d55145cabe1edb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 18/34] fix: present() didn't get the context when dumping a
 struct

---
 binobj/structures.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index b5eca05..019c8c4 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -396,7 +396,7 @@ class Struct(HasStruct):
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -417,7 +417,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -426,6 +428,9 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            Any object containing extra information to pass to the ``present`` callables
+            of the fields.
 
         :rtype: Dict[str, Any]
 
@@ -444,10 +449,10 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
@@ -458,9 +463,11 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct, keep_discardable=keep_discardable)
+        return recursive_to_dicts(
+            dct, keep_discardable=keep_discardable, context=context
+        )
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -473,7 +480,7 @@ class Struct(HasStruct):
         for field in self.__binobj_struct__.components.values():
             try:
                 dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
+                    typing.cast(StrDict, self), context
                 )
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
-- 
2.43.0


From f5a9937a48d5ac18b3de686601ff54669a5ccc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 19/34] fix: to_dict() raised KeyError if a computed field's
 input was missing

---
 binobj/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 019c8c4..5559d2d 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -452,7 +452,9 @@ class Struct(HasStruct):
         dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct, context)
+                field.name: field.compute_value_for_dump(
+                    typing.cast(StrDict, self), context
+                )
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct
             }
-- 
2.43.0


From a7f73969bc96938cb60dde05a776a67e7ef53078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 20/34] fix: the order of to_dict() depended on the order
 values were set in

---
 binobj/structures.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 5559d2d..c804fc6 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -460,10 +460,12 @@ class Struct(HasStruct):
             }
         )
 
-        if not keep_discardable:
-            for field in self.__binobj_struct__.components.values():
-                if field.discard:
-                    del dct[field.name]
+        # Put the fields in the order they were declared in, not the order they were set.
+        dct = {
+            field.name: dct[field.name]
+            for field in self.__binobj_struct__.components.values()
+            if keep_discardable or not field.discard
+        }
 
         return recursive_to_dicts(
             dct, keep_discardable=keep_discardable, context=context
-- 
2.43.0


From 60a1095a0f3964b31f3f709871b85767525d0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 21/34] fix: partial_dump() ignored computed, absent, and
 referenced fields

---
 binobj/structures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index c804fc6..8acc1cd 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -738,21 +738,21 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        data = self._to_dict_whatever_possible(context)
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
+            value = data.get(field.name, fields.UNDEFINED)
             if value is fields.UNDEFINED:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we need to
+                # crash.
+                raise errors.MissingRequiredValueError(field=field)
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                field.to_stream(stream, value, context, all_fields=data)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From dc3f7b98cc0eb9a6b83f4f4b81b527d876a220f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 22/34] fix: dataclass structs couldn't inherit from other
 structs

---
 binobj/pep526.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 221a1f1..da59360 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,12 +221,15 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    # Start after the fields inherited from the superclass, if there are any.
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
-    for name, raw_annotation in all_annotations.items():
+    # get_type_hints() also gives us the superclasses' annotations, so ignore those.
+    for name in vars(class_object).get("__annotations__", ()):
+        raw_annotation = all_annotations[name]
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From 1778c7f9de276146340be9f58a73a4ef81dc4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 23/34] fix: @validates didn't work for fields of dataclass
 structs

---
 binobj/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 8acc1cd..1cc679a 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -281,6 +281,9 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
         if item.field_names:
             # Attach this validator to each named field.
             for field_name in item.field_names:
+                if field_name in namespace.get("__annotations__", ()):
+                    # The class is going to be a dataclass so its fields don't exist yet.
+                    metadata.field_validators.setdefault(field_name, [])
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From 1993e091391bcdcaf3abac08d2d1fdaf008edc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 24/34] fix: to_dict() required values for the discarded fields
 it leaves out

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1cc679a..5728bb4 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -459,7 +459,7 @@ class Struct(HasStruct):
                     typing.cast(StrDict, self), context
                 )
                 for field in self.__binobj_struct__.components.values()
-                if field.name not in dct
+                if field.name not in dct and (keep_discardable or not field.discard)
             }
         )
 
-- 
2.43.0


From fb60df4ae8085f26e5b58797c425447ade9214f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 25/34] fix: validate_contents() skipped the fields of
 dataclass structs

---
 binobj/pep526.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index da59360..d1b7f7c 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -270,6 +270,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators.setdefault(name, [])
         field_index += 1
         n_fields_found += 1
 
-- 
2.43.0


From 3b76b1b62e3e24302c17c2cdc8a10feb31d77452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 26/34] fix: container fields crashed if they were given a
 constant

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 64a3503..08f3223 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -576,7 +576,7 @@ class Field(Generic[T]):
         """
         # Since this is called in the constructor we need to check to see if _size has
         # been assigned to yet.
-        if self.has_fixed_size and hasattr(self, "_size"):
+        if hasattr(self, "_size") and self.has_fixed_size:
             return typing.cast(int, self._size)
         return None
 
-- 
2.43.0


From dc74e49af506b577378f071de55ddbaa93cd8129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 27/34] fix: len() of a struct guessed if fields are present
 when it can't be known

---
 binobj/structures.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 5728bb4..87e3d58 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -807,7 +807,11 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
-            if current_fields.get(field.name) is fields.NOT_PRESENT:
+            if current_fields.get(
+                field.name
+            ) is fields.NOT_PRESENT or not field.present(
+                typing.cast(StrDict, self), None, None
+            ):
                 continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
@@ -815,7 +819,9 @@ class Struct(HasStruct):
                 try:
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
-                    field_value = field.compute_value_for_dump(current_fields)
+                    field_value = field.compute_value_for_dump(
+                        typing.cast(StrDict, self)
+                    )
                     size += len(
                         field.to_bytes(field_value, all_fields=current_fields)
                     )
-- 
2.43.0


From 3b9b3866f059a45c164de0a1f3d78aea068ca78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 28/34] fix: len() of a struct was wrong for null values that
 aren't as long as others

---
 binobj/structures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 87e3d58..109dd04 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -813,7 +813,10 @@ class Struct(HasStruct):
                 typing.cast(StrDict, self), None, None
             ):
                 continue
-            if field.has_fixed_size:
+            if current_fields.get(field.name, fields.UNDEFINED) is None:
+                # The null representation doesn't have to be as long as other values.
+                size += len(field.to_bytes(None, all_fields=current_fields))
+            elif field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
                 try:
-- 
2.43.0


From 49b6972eadd5374e802581d35fce34e22ddea199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 29/34] fix: structs shared the not_present_value of their
 fields

---
 binobj/fields/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 08f3223..b74d1d2 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import abc
+import copy
 import enum
 import functools
 import io
@@ -694,7 +695,9 @@ class Field(Generic[T]):
             loaded_fields = {}
 
         if not self.present(loaded_fields, context, stream):
-            return self.not_present_value
+            # Not the same object each time, else changing it in one struct would change
+            # it for all of them.
+            return copy.deepcopy(self.not_present_value)
 
         # If the caller passed in `null_value` as a byte string we'll peek ahead in the
         # stream and see if the bytes match up.
-- 
2.43.0


From d59213d2801cf34354165d7f5f3dab4200d63657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 30/34] fix: dataclass structs ignored fields annotated with `X
 | None`

---
 binobj/pep526.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index d1b7f7c..1f5880e 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -111,10 +112,14 @@ class AnnotationInfo:
         type_args = typing.get_args(annotation)
         nullable = type(None) in type_args
 
-        # Handle Optional[T] which gets rendered as Union[T, type(None)].
+        # Handle Optional[T] which gets rendered as Union[T, type(None)], and `T | None`
+        # which has a type of its own on Python 3.10 through 3.13.
         # We have to compare types directly with `is` because the type annotations don't
         # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        origin = typing.get_origin(type_class)
+        if origin is Union or (
+            origin is not None and origin is getattr(types, "UnionType", None)
+        ):
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From b03108d1eb62399323f70327e1c1e17581747eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 31/34] fix: data giving a huge size made loads fail with
 OverflowError or MemoryError

---
 binobj/fields/base.py       |  2 +-
 binobj/fields/stringlike.py |  2 +-
 binobj/helpers.py           | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index b74d1d2..448514f 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -1007,7 +1007,7 @@ class Field(Generic[T]):
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
 
-        data_read = stream.read(n_bytes)
+        data_read = helpers.read_at_most(stream, n_bytes)
         if len(data_read) < n_bytes:
             raise errors.UnexpectedEOFError(field=self, size=n_bytes, offset=offset)
 
diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 5873639..4bd32a0 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -198,7 +198,7 @@ class StringZ(String):
         :param int size: The size of this field including the padding, in bytes.
         """
         n_padding = offset + size - stream.tell()
-        if len(stream.read(n_padding)) < n_padding:
+        if len(helpers.read_at_most(stream, n_padding)) < n_padding:
             raise errors.UnexpectedEOFError(field=self, size=size, offset=offset)
 
     @override
diff --git a/binobj/helpers.py b/binobj/helpers.py
index 183934c..3b4c53e 100644
--- a/binobj/helpers.py
+++ b/binobj/helpers.py
@@ -16,6 +16,25 @@ if TYPE_CHECKING:  # pragma: no cover
     from binobj.typedefs import EndianString
 
 
+def read_at_most(stream: BinaryIO, n_bytes: int) -> bytes:
+    """Read the given number of bytes from the stream, or what's left if it's less.
+
+    Unlike with ``stream.read()``, the number can be larger than fits into memory as
+    long as there isn't that much data. Malformed data can ask for any size.
+    """
+    chunk_size = 1 << 20
+    if n_bytes <= chunk_size:
+        return stream.read(n_bytes)
+
+    data = bytearray()
+    while len(data) < n_bytes:
+        chunk = stream.read(min(n_bytes - len(data), chunk_size))
+        if not chunk:
+            break
+        data += chunk
+    return bytes(data)
+
+
 def read_int(
     stream: BinaryIO,
     n_bytes: int,
-- 
2.43.0


From e92277f39965ffcbed0379ad9803a60b28f3193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 32/34] fix: a copy of a struct made with copy.copy() shared
 its values with it

---
 binobj/structures.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 109dd04..38c52b8 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -857,6 +857,13 @@ class Struct(HasStruct):
     def __bytes__(self) -> bytes:
         return self.to_bytes()
 
+    def __copy__(self) -> Self:
+        # The copy must have its own values, else assigning one changes this one, too.
+        duplicate = type(self).__new__(type(self))
+        duplicate.__dict__.update(self.__dict__)
+        duplicate.__values__ = dict(self.__values__)
+        return duplicate
+
     def __repr__(self) -> str:
         value_pairs = ", ".join(f"{k}={v!r}" for k, v in self.__values__.items())
         return f"{type(self).__qualname__}({value_pairs})"
-- 
2.43.0


From 9ddbbda36b0cc1c727aab5300cac5e90d664aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 33/34] fix: loading a local timestamp lost which of two equal
 times it was

---
 binobj/fields/numeric.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index a6d92d5..0cb6243 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -437,11 +437,12 @@ class Timestamp(Field[datetime.datetime]):
         # Only use floats for the fraction of a second, since they're not precise enough
         # to hold an entire timestamp.
         seconds, fraction = divmod(value, self._units)
-        microseconds = fraction * 10**6 / self._units
+        carry, microseconds = divmod(round(fraction * 10**6 / self._units), 10**6)
         tz = datetime.timezone.utc if self.tz_aware else None
-        return datetime.datetime.fromtimestamp(seconds, tz) + datetime.timedelta(
-            microseconds=microseconds
-        )
+        # Don't add the microseconds, as datetime arithmetic loses the fold of a local
+        # time that occurs twice because clocks are set back.
+        loaded = datetime.datetime.fromtimestamp(seconds + carry, tz)
+        return loaded.replace(microsecond=microseconds)
 
     @override
     def _do_dump(
-- 
2.43.0


From 08e03972de9f786f88dc9abdabc4d4c24158e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 34/34] fix: structures with a field named self couldn't be
 created or loaded

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 38c52b8..37557ea 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -352,7 +352,7 @@ class Struct(HasStruct):
         The ``__objclass__`` attribute is set on all fields.
     """
 
-    def __init__(self, **values: object):
+    def __init__(self, /, **values: object):
         extra_keys = set(values.keys() - self.__binobj_struct__.components.keys())
         if extra_keys:
             raise errors.UnexpectedValueError(struct=self, name=extra_keys)
-- 
2.43.0

