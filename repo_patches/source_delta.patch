From 13a2c0bb1001a6f15d8d307b17ca6766d0e7daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 01/46] fix: drop cached properties when copying a model with
 updates

---
 src/arti/internal/models.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 26993ad..2a45f08 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Iterable
 from functools import cached_property
+from inspect import getattr_static
 from typing import (
     TYPE_CHECKING,
     Annotated,
@@ -151,6 +152,19 @@ class Model(BaseModel, metaclass=ModelMeta):
         _set_dump_kwargs_defaults(kwargs)
         return super().model_dump_json(**kwargs)
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        if update:
+            # Pydantic copies the whole `__dict__`, including any populated cached properties (eg:
+            # `fingerprint`) which were computed with the original values.
+            for name in [
+                name
+                for name in copy.__dict__
+                if isinstance(getattr_static(type(copy), name, None), cached_property)
+            ]:
+                del copy.__dict__[name]
+        return copy
+
     # Fingerprinting is somewhat expensive, so we'll cache the result. This is safe as long as the
     # model and all fields are immutable (see `model_config.frozen` and `model_post_init` above).
     #
-- 
2.43.0


From e007995cfe83585450f1ac320ed9b10bba8e1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 02/46] fix: recompute SemVer fingerprint fields when copying
 with updates

---
 src/arti/versions/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/arti/versions/__init__.py b/src/arti/versions/__init__.py
index f71f611..610a2e0 100644
--- a/src/arti/versions/__init__.py
+++ b/src/arti/versions/__init__.py
@@ -6,7 +6,7 @@ import inspect
 import subprocess
 from collections.abc import Callable
 from datetime import UTC, datetime
-from typing import Annotated, Any, cast
+from typing import Annotated, Any, Self, cast
 
 from annotated_types import Timezone
 from pydantic import Field, field_validator
@@ -41,7 +41,16 @@ class SemVer(Version):
 
     def model_post_init(self, __context: Any) -> None:
         super().model_post_init(__context)
-        fields = self._arti_fingerprint_fields_
+        self._set_fingerprint_fields()
+
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        # The relevant fields depend on the `major` value, which may have been updated.
+        copy._set_fingerprint_fields()
+        return copy
+
+    def _set_fingerprint_fields(self) -> None:
+        fields = type(self)._arti_fingerprint_fields_
         desired = {"_arti_type_", "major", "minor", "patch"}
         if unexpected := set(fields) - desired:
             raise NotImplementedError(
-- 
2.43.0


From 2919632e436dbe593712ab650f596ff92aafb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 03/46] fix: serialize Enum items in a stable order

---
 src/arti/types/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index 8b1512e..fefd797 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,6 +122,11 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
+    # The order of a frozenset varies across processes, so sort to keep the fingerprint stable.
+    @field_serializer("items", when_used="json")
+    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
+        return sorted(items, key=lambda item: (type(item).__name__, repr(item)))
+
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From e5b6e847dcebb6df76c1333bd1b79b6d1b4352d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 04/46] fix: right operand takes precedence in Mapping |
 frozendict

---
 src/arti/internal/mappings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index d9e979e..3ad913c 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,7 +33,8 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
-    __ror__ = __or__
+    def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
+        return type(self)({**other, **self})
 
     def __repr__(self) -> str:
         return repr(self._data)
-- 
2.43.0


From 5c72a413bb8749b5ce122bf4fbedda1e0e401f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 05/46] fix: recompute the frozendict hash when unpickling

---
 src/arti/internal/mappings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index 3ad913c..2e4acea 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,6 +33,10 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
+    def __reduce__(self) -> tuple[Any, ...]:
+        # Recompute the hash when unpickling - the element hashes may differ between processes.
+        return type(self), (self._data,)
+
     def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**other, **self})
 
-- 
2.43.0


From bf23ed4a8814be9df62aa393fc92590fc4e754c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 06/46] fix: write each Producer output to the Artifact(s)
 assigned to its position

---
 src/arti/executors/__init__.py | 10 ++++++----
 src/arti/graphs/__init__.py    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index dc0e537..25a296e 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -95,11 +95,13 @@ class Executor(Model):
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-        for i, output in enumerate(outputs):
+        for artifact in snapshot.graph.producer_outputs[producer]:
+            assert artifact.producer_output is not None
+            position = artifact.producer_output.position
             snapshot.write(
-                output,
-                artifact=snapshot.graph.producer_outputs[producer][i],
+                outputs[position],
+                artifact=artifact,
                 input_fingerprint=input_fingerprint,
                 partition_key=partition_key,
-                view=producer._outputs_[i],
+                view=producer._outputs_[position],
             )
diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index be6d6e7..e4641b6 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -188,15 +188,17 @@ class Graph(Model):
     @cached_property
     @requires_sealed
     def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
-        d = defaultdict[Producer, dict[int, Artifact]](dict)
+        # NOTE: Not all outputs must be assigned to the Graph, while others may be assigned to multiple
+        # keys - so the index within the tuple doesn't necessarily match the output position.
+        d = defaultdict[Producer, dict[Artifact, int]](dict)
         for _, artifact in self.artifacts.walk():
             if artifact.producer_output is None:
                 continue
             output = artifact.producer_output
-            d[output.producer][output.position] = artifact
+            d[output.producer][artifact] = output.position
         return frozendict(
-            (producer, tuple(artifacts_by_position[i] for i in sorted(artifacts_by_position)))
-            for producer, artifacts_by_position in d.items()
+            (producer, tuple(sorted(position_by_artifact, key=position_by_artifact.__getitem__)))
+            for producer, position_by_artifact in d.items()
         )
 
     # TODO: io.read/write probably need a bit of sanity checking (probably somewhere else), eg: type
-- 
2.43.0


From 4beae5432416eb1ca0a499ac1b38789814d0e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 07/46] fix: reject Producer.build results with the wrong
 number of outputs

---
 src/arti/executors/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 25a296e..e6a06a2 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -92,6 +92,10 @@ class Executor(Model):
         outputs = producer.build(**arguments)
         if len(producer._outputs_) == 1:
             outputs = (outputs,)
+        if len(outputs) != len(producer._outputs_):
+            raise ValueError(
+                f"{type(producer).__name__}.build returned {len(outputs)} outputs, but expected {len(producer._outputs_)}"
+            )
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-- 
2.43.0


From 69e6f5c0649dbff47a1c4813373534a04009cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 08/46] fix: rebuild partitions that are missing from any of
 the Producer's outputs

---
 src/arti/executors/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index e6a06a2..312bc9b 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -4,7 +4,6 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import abc
 import logging
-from itertools import chain
 
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
@@ -52,12 +51,14 @@ class Executor(Model):
             connection.write_snapshot_partitions(
                 snapshot, snapshot.graph.artifact_to_key[artifact], artifact, partition_snapshots
             )
-        # TODO: Guarantee all outputs have the same set of identified partitions. Currently, this
-        # pretends a partition is built for all outputs if _any_ are built for that partition.
-        return {
-            snapshot.partition_key
-            for snapshot in chain.from_iterable(output_partition_snapshots.values())
-        }
+        # A partition only exists if it was built for *all* outputs. Some may be missing if, for
+        # example, a prior build failed part way through or not all Storage is persistent.
+        return set.intersection(
+            *(
+                {snapshot.partition_key for snapshot in partition_snapshots}
+                for partition_snapshots in output_partition_snapshots.values()
+            )
+        )
 
     def build_producer_partition(
         self,
-- 
2.43.0


From 9247448486d7f7d53ee1a4ada7d2ca474fabc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 09/46] fix: skip partition discovery when no partitions are
 expected

---
 src/arti/executors/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 312bc9b..b8c5ab5 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -38,6 +38,10 @@ class Executor(Model):
         *,
         partition_input_fingerprints: InputFingerprints,
     ) -> set[PartitionKey]:
+        # No partitions are expected (eg: `.map` filtered everything out). An empty
+        # `input_fingerprints` filter would otherwise match *all* known partitions.
+        if not partition_input_fingerprints:
+            return set()
         # NOTE: The output partitions may be built, but not yet associated with this GraphSnapshot
         # (eg: raw input data changed, but no changes trickled into this specific Producer). Hence
         # we'll fetch all StoragePartitions for each Storage, filtered to the PKs and
-- 
2.43.0


From 4e1d6970e663321d4abc99349539b99b7ee92e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 10/46] fix: drop cached Graph properties when re-opening the
 Graph

---
 src/arti/graphs/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index e4641b6..afa979c 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -136,6 +136,10 @@ class Graph(Model):
         # The Graph object is "frozen", so we must bypass the assignment checks.
         self.artifacts._status.root = status
         self._status = status
+        # Drop any cached properties (including the fingerprint), which may be populated if the
+        # Graph was already defined and is being re-opened to add more Artifacts.
+        for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
+            self.__dict__.pop(name, None)
         self._artifact_to_key = frozendict(
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
-- 
2.43.0


From d7762f5b25e779219dadae75a18094b481cba302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 11/46] fix: serialize data before opening the output file to
 avoid partial writes

---
 src/arti/io/json_gcsfile_python.py     | 4 +++-
 src/arti/io/json_localfile_python.py   | 4 +++-
 src/arti/io/pickle_gcsfile_python.py   | 4 +++-
 src/arti/io/pickle_localfile_python.py | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 5d8ff72..164407d 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_json_gcsfile_python(
 def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize before opening to avoid leaving behind a partial file upon error.
+    content = json.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
-        json.dump(data, file)
+        file.write(content)
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 403e064..b744ffe 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -42,7 +42,9 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize before opening to avoid leaving behind a partial file upon error.
+    content = json.dumps(data)
     path = Path(storage_partition.path)
     path.parent.mkdir(exist_ok=True, parents=True)
     with path.open("w") as file:
-        json.dump(data, file)
+        file.write(content)
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5c24bed..5851f7c 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_pickle_gcsfile_python(
 def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize before opening to avoid leaving behind a partial file upon error.
+    content = pickle.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
-        pickle.dump(data, file)
+        file.write(content)
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 3c7bd18..5f37b98 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -44,7 +44,9 @@ def _write_pickle_localfile_python(
     storage_partition: LocalFilePartition,
     view: PythonBuiltin,
 ) -> None:
+    # Serialize before opening to avoid leaving behind a partial file upon error.
+    content = pickle.dumps(data)
     path = Path(storage_partition.path)
     path.parent.mkdir(exist_ok=True, parents=True)
     with path.open("wb") as file:
-        pickle.dump(data, file)
+        file.write(content)
-- 
2.43.0


From b2d00f00b9b8de1ef4ac740c55312202eb818432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 12/46] fix: escape glob characters in literal parts of storage
 paths

---
 src/arti/storage/_internal.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 04d2f43..013cb27 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -1,8 +1,9 @@
 from __future__ import annotations
 
+import glob
 import string
 from collections import defaultdict
-from collections.abc import Callable, Iterable, Mapping
+from collections.abc import Callable, Iterable, Iterator, Mapping
 from functools import partial
 from typing import Any
 
@@ -111,11 +112,19 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+class _GlobFormatter(string.Formatter):
+    """Escape any glob characters in the literal parts of the spec (eg: from the Graph name)."""
+
+    def parse(self, format_string: Any) -> Iterator[Any]:
+        for literal_text, *field in super().parse(format_string):
+            yield (glob.escape(literal_text), *field)
+
+
 def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
-    return string.Formatter().vformat(
-        spec.replace("{input_fingerprint}", "*"),
+    return _GlobFormatter().vformat(
+        spec,
         (),
-        FormatDict(WildcardPlaceholder.with_key_types(key_types)),
+        FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint="*"),
     )
 
 
-- 
2.43.0


From 1327e7d96e5a97c228cd94b3b8e8fb45a9630ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 13/46] fix: support discovering partitions when key components
 have a format spec

---
 src/arti/storage/_internal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 013cb27..02a2a29 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -55,6 +55,10 @@ class WildcardPlaceholder(Placeholder):
     ) -> Callable[[str], WildcardPlaceholder]:
         return partial(cls, key_types=key_types)
 
+    def __format__(self, spec: str) -> str:
+        # Ignore any format spec (eg: "{date.m:02}") - the wildcard will match any padding/etc.
+        return str(self)
+
     def _err_if_no_attribute(self) -> None:
         if self._attribute is None:
             example = sorted(self._key_type.components)[0]
-- 
2.43.0


From 1951aed574c3c7ae84af7b4db0520e325a9cd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 14/46] fix: avoid duplicating default Artifact annotations and
 statistics

---
 src/arti/artifacts/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/arti/artifacts/__init__.py b/src/arti/artifacts/__init__.py
index 815b353..29a3c5c 100644
--- a/src/arti/artifacts/__init__.py
+++ b/src/arti/artifacts/__init__.py
@@ -6,7 +6,7 @@ import json
 from itertools import chain
 from typing import TYPE_CHECKING, Annotated, Any
 
-from pydantic import Field, ValidationInfo, field_validator
+from pydantic import Field, ValidationInfo, field_validator, model_validator
 
 from arti.annotations import Annotation
 from arti.fingerprints import SkipFingerprint
@@ -71,11 +71,17 @@ class Artifact(Model):
             storage = storage._visit_format(format_)
         return storage
 
-    @field_validator("annotations", "statistics", mode="before")
+    # NOTE: This is not a field validator as those would also run on the class defaults.
+    @model_validator(mode="before")
     @classmethod
-    def _merge_class_defaults(cls, value: tuple[Any, ...], info: ValidationInfo) -> tuple[Any, ...]:
-        assert info.field_name is not None
-        return tuple(chain(get_field_default(cls, info.field_name, fallback=()), value))
+    def _merge_class_defaults(cls, data: Any) -> Any:
+        if isinstance(data, dict):
+            return data | {
+                name: tuple(chain(get_field_default(cls, name, fallback=()), data[name]))
+                for name in ("annotations", "statistics")
+                if name in data
+            }
+        return data  # pragma: no cover
 
     @classmethod
     def cast(cls, value: Any) -> Artifact:
-- 
2.43.0


From 86f32c628f5f9e0f78ea1d9e1b29dd6fae92b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 15/46] fix: avoid leaving partial files behind when a local
 write fails

---
 src/arti/internal/utils.py             | 23 +++++++++++++++++++++++
 src/arti/io/json_localfile_python.py   |  9 ++-------
 src/arti/io/pickle_localfile_python.py |  9 ++-------
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index f366f79..15eedb1 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -10,6 +10,7 @@ from pathlib import Path
 from tempfile import TemporaryDirectory
 from types import ModuleType
 from typing import IO, Any, Self, SupportsIndex, cast
+from uuid import uuid4
 
 from arti.internal.vendored.setuptools import find_namespace_packages
 
@@ -245,6 +246,28 @@ def register[K, V](
     return value
 
 
+def write_file(path: str | Path, content: bytes) -> None:
+    """Write the file, creating any missing parent directories.
+
+    If the write fails, no partial file will be left behind at the path. New files only appear once
+    complete (even if the process is killed). Existing files are overwritten in place, but left
+    alone if the content already matches (other snapshots may still reference the file).
+    """
+    path = Path(path)
+    path.parent.mkdir(exist_ok=True, parents=True)
+    if (exists := path.exists()) and path.read_bytes() == content:
+        return
+    # Globs skip hidden files, so this will not be discovered if left behind by a killed process.
+    tmp = path if exists else path.with_name(f".{uuid4().hex}.tmp")
+    try:
+        tmp.write_bytes(content)
+        if tmp is not path:
+            tmp.replace(path)
+    except BaseException:
+        tmp.unlink(missing_ok=True)
+        raise
+
+
 class NoCopyMixin:
     """Mixin to bypass (deep)copying.
 
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index b744ffe..aa8e672 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 import json
 from collections.abc import Sequence
 from itertools import chain
-from pathlib import Path
 from typing import Any
 
 from arti.formats.json import JSON
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -42,9 +42,4 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
-    # Serialize before opening to avoid leaving behind a partial file upon error.
-    content = json.dumps(data)
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("w") as file:
-        file.write(content)
+    write_file(storage_partition.path, json.dumps(data).encode())
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 5f37b98..c97b46b 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 import pickle
 from collections.abc import Sequence
 from itertools import chain
-from pathlib import Path
 from typing import Any
 
 from arti.formats.pickle import Pickle
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -44,9 +44,4 @@ def _write_pickle_localfile_python(
     storage_partition: LocalFilePartition,
     view: PythonBuiltin,
 ) -> None:
-    # Serialize before opening to avoid leaving behind a partial file upon error.
-    content = pickle.dumps(data)
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("wb") as file:
-        file.write(content)
+    write_file(storage_partition.path, pickle.dumps(data))
-- 
2.43.0


From 6476e40bcf708ac7afad61e573af15ded33eff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 16/46] fix: TypedBox membership of a key below a value is
 False, not an error

---
 src/arti/internal/mappings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index 2e4acea..74e102e 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -157,7 +157,7 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
     ) -> tuple[TypedBox[V], str]:
         *head, tail = key.split(".")
         for part in head:
-            if short_circuit_missing and part not in self:
+            if short_circuit_missing and not (isinstance(self, TypedBox) and part in self):
                 return self, part
             self = cast(TypedBox[V], self[part])  # NOTE: reassigning self
         if tail.startswith("_"):
@@ -170,7 +170,8 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
         self, key = self._get_leaf_and_key(
             key, short_circuit_missing=True
         )  # NOTE: reassigning self
-        return key in self._data
+        # The prefix may be a value rather than a nested box (eg: `"x.y"`, when `x` is a value).
+        return isinstance(self, TypedBox) and key in self._data
 
     def __getitem__(self, key: str) -> TypedNode[V]:
         self, key = self._get_leaf_and_key(key)  # NOTE: reassigning self
-- 
2.43.0


From 91a07bb2f8288b67ff2696787d31eb39ea2bd5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 17/46] fix: lenient_issubclass handles variadic tuples,
 wrapped unions and special forms instead of raising

---
 src/arti/internal/type_hints.py | 60 ++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 7026f5f..8e65607 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -34,28 +34,52 @@ def assert_all_instances(values: Iterable[Any], *, type: type[_T]) -> Iterable[_
     return values
 
 
+def _unwrap_hint(hint: Any) -> Any:
+    """Discard any Annotated metadata and replace any TypeVar with the bound (or Any)."""
+    while True:
+        if is_annotated_hint(hint):
+            hint = discard_Annotated(hint)
+        elif isinstance(hint, TypeVar):
+            hint = Any if hint.__bound__ is None else hint.__bound__
+        else:
+            return hint
+
+
+def _align_tuple_args(
+    klass_args: tuple[Any, ...], check_type_origin: Any, check_type_args: tuple[Any, ...]
+) -> tuple[tuple[Any, ...], tuple[Any, ...]]:
+    """Pair up the elements of a tuple, which may be variadic (`tuple[x, ...]`) or not."""
+    if check_type_args[1:] == (...,) or (
+        len(check_type_args) == 1 and not lenient_issubclass(check_type_origin, tuple)
+    ):
+        if klass_args[1:] == (...,):
+            klass_args = klass_args[:1]
+        check_type_args = check_type_args[:1] * len(klass_args)
+    return klass_args, check_type_args
+
+
 # TODO: Determine if we can replace this logic with `beartype` or related packages.
 def _check_issubclass(klass: Any, check_type: type) -> bool:
     # If a hint is Annotated, we want to unwrap the underlying type and discard the rest of the
     # metadata.
-    klass = discard_Annotated(klass)
+    klass, check_type = _unwrap_hint(klass), _unwrap_hint(check_type)
     klass_origin, klass_args = get_origin(klass), get_args(klass)
-    if isinstance(klass, TypeVar):
-        klass = cast(type, Any) if klass.__bound__ is None else klass.__bound__
-        klass_origin, klass_args = get_origin(klass), get_args(klass)
     check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
-    if check_type_origin is Annotated:
-        check_type = check_type_args[0]
-        check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
-    if isinstance(check_type, TypeVar):
-        check_type = cast(type, Any) if check_type.__bound__ is None else check_type.__bound__
-        check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
+    if is_union(check_type_origin):
+        return lenient_issubclass(klass, check_type)
     if klass is Any:
         return check_type is Any
     if check_type is Any:
         return True
     if check_type is None:
         return klass is NoneType
+    if is_typeddict(check_type):  # These don't support issubclass
+        return klass is check_type
+    # Other special forms (eg: Literal) are not types
+    if not all(
+        isinstance(x, type) for x in (klass_origin or klass, check_type_origin or check_type)
+    ):
+        return False
     # eg: issubclass(tuple, tuple)
     if klass_origin is None and check_type_origin is None:
         return issubclass(klass, check_type)
@@ -67,21 +91,25 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
         return issubclass(klass, check_type_origin) and not check_type_args
     # eg: issubclass(tuple[int], tuple[int])
     if klass_origin is not None and check_type_origin is not None:
+        if not lenient_issubclass(klass_origin, check_type_origin):
+            return False
         # NOTE: Considering all container types covariant for simplicity (mypy may be more strict).
         #
         # The builtin mutable containers (list, dict, etc) are invariant (klass_args ==
         # check_type_args), but the interfaces (Mapping, Sequence, etc) and immutable containers are
         # covariant.
-        if check_type_args and not (
+        if check_type_args and issubclass(klass_origin, tuple):
+            klass_args, check_type_args = _align_tuple_args(
+                klass_args, check_type_origin, check_type_args
+            )
+        return not check_type_args or (
             len(klass_args) == len(check_type_args)
             and all(
-                # check subclass OR things like "..."
-                lenient_issubclass(klass_arg, check_type_arg) or klass_arg is check_type_arg
+                # check subclass OR things like "..." and unions
+                klass_arg == check_type_arg or lenient_issubclass(klass_arg, check_type_arg)
                 for (klass_arg, check_type_arg) in zip(klass_args, check_type_args, strict=False)
             )
-        ):
-            return False
-        return lenient_issubclass(klass_origin, check_type_origin)
+        )
     # Shouldn't happen, but need to explicitly say "x is not None" to narrow mypy types.
     raise NotImplementedError("The origin conditions don't cover all cases!")
 
-- 
2.43.0


From d07f2314ff89aa32b30d1f6ae7d190aad9547031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 18/46] fix: dispatch lookup of None finds the handler a call
 would run

---
 src/arti/internal/dispatch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index e424969..b968f36 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -6,7 +6,7 @@ from typing import Any, TypeVar, cast, overload
 
 import multimethod as _multimethod  # Minimize name confusion
 
-from arti.internal.type_hints import lenient_issubclass, tidy_signature
+from arti.internal.type_hints import NoneType, lenient_issubclass, tidy_signature
 
 RETURN = TypeVar("RETURN")
 REGISTERED = TypeVar("REGISTERED", bound=Callable[..., Any])
@@ -38,8 +38,12 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
 
     def lookup(self, *args: type[Any] | None) -> Callable[..., Any]:
         # multimethod wraps Generics (eg: `list[int]`) with an internal helper. We must do the same
-        # before looking up. Non-Generics pass through as is.
-        args = tuple(_multimethod.subtype(arg) for arg in args)  # type: ignore[no-untyped-call]
+        # before looking up. Non-Generics pass through as is, except for None (the hint) - calls will
+        # dispatch on the type of the value.
+        args = tuple(
+            _multimethod.subtype(NoneType if arg is None else arg)  # type: ignore[no-untyped-call]
+            for arg in args
+        )
         # NOTE: multimethod doesn't override __contains__ (likely so __missing__ will still run), so
         # "args in self" will be False when using subclasses of any arg.
         missing_error = ValueError(f"No `{self.canonical_name}` implementation found for: {args}")
-- 
2.43.0


From 61159df6a5b6a4d340e5a427de07bee264fbd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 19/46] fix: reject dispatch handlers with reordered parameters

---
 src/arti/internal/dispatch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index b968f36..a7dedb0 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -72,6 +72,11 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
                 raise TypeError(
                     f"Expected `{func.__name__}` to have {sorted(set(spec.parameters))} parameters, got {sorted(set(sig.parameters))}"
                 )
+            # Dispatch is positional, so the parameters must be in the same order.
+            if list(sig.parameters) != list(spec.parameters):
+                raise TypeError(
+                    f"Expected `{func.__name__}` parameters to be ordered {list(spec.parameters)}, got {list(sig.parameters)}"
+                )
             for name in sig.parameters:
                 sig_param, spec_param = sig.parameters[name], spec.parameters[name]
                 if sig_param.kind != spec_param.kind:
-- 
2.43.0


From 018846ad0fb3b07a40e7ee6d0f3c7b7c1f1120d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 20/46] fix: dispatch to the most specific handler independent
 of registration order

---
 src/arti/internal/dispatch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index a7dedb0..a88eee2 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -36,6 +36,13 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
             self.discovery_func()
         return super().__missing__(types)
 
+    def parents(self, types: tuple[Any, ...]) -> set[Any]:
+        # multimethod tracks the parents of each signature as handlers are registered, but (depending
+        # on the order of registration) those may miss some and result in spurious ambiguity. Instead,
+        # directly find the most specific of the signatures that apply.
+        keys = [key for key in self if isinstance(key, _multimethod.signature) and key < types]
+        return {key for key in keys if not any(key < other for other in keys)}
+
     def lookup(self, *args: type[Any] | None) -> Callable[..., Any]:
         # multimethod wraps Generics (eg: `list[int]`) with an internal helper. We must do the same
         # before looking up. Non-Generics pass through as is, except for None (the hint) - calls will
-- 
2.43.0


From b8d87a81160a1f26f434157e1060c5343a1d3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 21/46] fix: keep the nullability of Structs when converting to
 pydantic models

---
 src/arti/types/pydantic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 3a49231..75a86ec 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -38,6 +38,11 @@ class BaseModelAdapter(TypeAdapter):
             },
         )
 
+    @classmethod
+    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
+        # Leave nullable Structs to the python type system's Optional handling.
+        return super().matches_artigraph(type_, hints=hints) and not type_.nullable
+
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
         return lenient_issubclass(type_, cls.system)
-- 
2.43.0


From f21b19d2957e7dd80d1c9415a2441fcdbce9e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 22/46] fix: reject Struct fields that pydantic would silently
 drop

---
 src/arti/types/pydantic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 75a86ec..faead7a 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -52,5 +52,8 @@ class BaseModelAdapter(TypeAdapter):
         cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem
     ) -> type[BaseModel]:
         assert isinstance(type_, Struct)
+        # Pydantic does not treat names with a leading underscore as fields and would drop them.
+        if invalid_names := [name for name in type_.fields if name.startswith("_")]:
+            raise ValueError(f"pydantic field names cannot start with '_': {invalid_names}")
         annotations = {k: type_system.to_system(v, hints=hints) for k, v in type_.fields.items()}
         return create_model(type_.name, **{name: (hint, ...) for name, hint in annotations.items()})
-- 
2.43.0


From c653beccf3df81d4a8324523dd46fd247cde8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 23/46] fix: convert NoneType hints (eg: TypedDict fields) to
 Null

---
 src/arti/types/python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/python.py b/src/arti/types/python.py
index 38eff21..7250640 100644
--- a/src/arti/types/python.py
+++ b/src/arti/types/python.py
@@ -47,7 +47,8 @@ class PyNone(_ScalarClassTypeAdapter):
 
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
-        return type_ is None
+        # ... but it is normalized to `NoneType` in some places (eg: TypedDict fields).
+        return type_ is None or type_ is NoneType
 
 
 @python_type_system.register_adapter
-- 
2.43.0


From 4fd5d1dfcb1a9490d226e86610ef47f95fb60b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 24/46] fix: keep StringLiteral values verbatim instead of
 formatting them as templates

---
 src/arti/storage/__init__.py | 7 ++++---
 src/arti/storage/literal.py  | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index ad0bace..32518cb 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -205,11 +205,12 @@ class Storage[SP: StoragePartition](Model):
             if not self.includes_input_fingerprint_template:
                 raise ValueError(f"{self} does not specify a {{input_fingerprint}} template")
             format_kwargs["input_fingerprint"] = str(input_fingerprint)
+        format_fields = self._format_fields
         field_values = {
             name: (
-                strip_partition_indexes(original).format(**format_kwargs)
-                if lenient_issubclass(type(original := getattr(self, name)), str)
-                else original
+                strip_partition_indexes(format_fields[name]).format(**format_kwargs)
+                if name in format_fields
+                else getattr(self, name)
             )
             for name in self.model_fields
             if name in self.storage_partition_type.model_fields
diff --git a/src/arti/storage/literal.py b/src/arti/storage/literal.py
index c949ad0..cf72227 100644
--- a/src/arti/storage/literal.py
+++ b/src/arti/storage/literal.py
@@ -8,6 +8,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
+from arti.internal.mappings import frozendict
 
 _not_written_err = FileNotFoundError("Literal has not been written yet")
 
@@ -28,6 +29,13 @@ class StringLiteral(Storage[StringLiteralPartition]):
     id: str = "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
     value: str | None = None
 
+    @property
+    def _format_fields(self) -> frozendict[str, str]:
+        # The `value` is data rather than a template and must be kept as is, even if it contains "{".
+        return frozendict(
+            {name: value for name, value in super()._format_fields.items() if name != "value"}
+        )
+
     def discover_partitions(
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
-- 
2.43.0


From 21bcfb48238fdf37d69a658434c2bf4270a77e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 25/46] fix: compute input fingerprints that neither cancel out
 nor ignore which input changed

---
 src/arti/fingerprints/__init__.py | 12 ++++++++++++
 src/arti/producers/__init__.py    | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/arti/fingerprints/__init__.py b/src/arti/fingerprints/__init__.py
index eebfeb1..240c964 100644
--- a/src/arti/fingerprints/__init__.py
+++ b/src/arti/fingerprints/__init__.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import operator
+from collections.abc import Iterable
 from dataclasses import dataclass
 from functools import reduce
 from typing import Any, final
@@ -37,6 +38,17 @@ class Fingerprint(int64):
     def from_int64(cls, x: int64, /) -> Fingerprint:
         return cls(x)
 
+    @classmethod
+    def from_sequence(cls, fingerprints: Iterable[Fingerprint], /) -> Fingerprint:
+        """Fingerprint a sequence, accounting for the order and any repeats (unlike `.combine`).
+
+        The Fingerprint of a single item is the item itself and of no items is the identity.
+        """
+        items = tuple(fingerprints)
+        if not items:
+            return cls.identity()
+        return reduce(lambda acc, fp: cls.from_string(f"{acc}/{fp}"), items)
+
     @classmethod
     def from_string(cls, x: str, /) -> Fingerprint:
         """Fingerprint an arbitrary string.
diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9ce0bb7..74c544c 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -334,14 +334,20 @@ class Producer(Model):
             )
         # We only care if the *code* or *input partition contents* changed, not if the input file
         # paths changed (but have the same content as a prior run).
+        #
+        # The contents are nested per input (rather than combined directly), otherwise equal contents
+        # would cancel out and swapping the contents of two inputs would go unnoticed. Discovery order
+        # is not stable, so the partitions of each input are sorted.
+        #
+        # TODO: Include the artifact name here? Do we care if you rename an arg (without changing the
+        # version)?
         return Fingerprint.from_string(self._arti_type_key_).combine(
             self.version.fingerprint,
-            *(
-                # TODO: Include the artifact name here? Do we care if you rename an arg (without
-                # changing the version)?
-                snapshot.content_fingerprint
-                for name, partition_snapshots in dependency_partitions.items()
-                for snapshot in partition_snapshots
+            Fingerprint.from_sequence(
+                Fingerprint.from_sequence(
+                    sorted(snapshot.content_fingerprint for snapshot in dependency_partitions[name])
+                )
+                for name in sorted(dependency_partitions)
             ),
         )
 
-- 
2.43.0


From 5d034d050c7625b157440ceb500429eec7bcead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 26/46] fix: do not cancel out data shared by multiple raw
 Artifacts in the GraphSnapshot id

---
 src/arti/graphs/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index afa979c..0001e12 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -334,6 +334,7 @@ class GraphSnapshot(Model):
         # Artifact (partitions) won't be fully resolved yet.
         snapshot_id = graph.fingerprint
         known_artifact_partitions = dict[str, StoragePartitionSnapshots]()
+        raw_partition_fingerprints = set[Fingerprint]()
         for node, _ in graph.dependencies.items():
             snapshot_id = snapshot_id.combine(node.fingerprint)
             if isinstance(node, Artifact):
@@ -351,9 +352,11 @@ class GraphSnapshot(Model):
                     if not known_artifact_partitions[key]:
                         content_str = "partitions" if is_partitioned(node.type) else "data"
                         raise ValueError(f"No {content_str} found for `{key}`: {node}")
-                    snapshot_id = snapshot_id.combine(
-                        *[partition.fingerprint for partition in known_artifact_partitions[key]]
+                    raw_partition_fingerprints.update(
+                        partition.fingerprint for partition in known_artifact_partitions[key]
                     )
+        # Multiple raw Artifacts may share the same data, which would otherwise cancel out.
+        snapshot_id = snapshot_id.combine(*raw_partition_fingerprints)
         snapshot = cls(graph=graph, id=snapshot_id)
         # Write the discovered partitions (if not already known) and link to this new snapshot.
         with (connection or snapshot.backend).connect() as conn:
-- 
2.43.0


From 367367f59d2b4826037dc798f7315ec2ecec3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 27/46] fix: include the assigned Producer outputs in the Graph
 fingerprint

---
 src/arti/graphs/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 0001e12..40954e9 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -144,6 +144,18 @@ class Graph(Model):
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
 
+    @cached_property
+    def fingerprint(self) -> Fingerprint:
+        # `Artifact.producer_output` is not serialized, so explicitly include which Producer output is
+        # assigned to each key.
+        return super().fingerprint.combine(
+            *(
+                Fingerprint.from_string(f"{key}={output.producer.fingerprint}[{output.position}]")
+                for key, artifact in self.artifacts.walk()
+                if (output := artifact.producer_output) is not None
+            )
+        )
+
     @property
     def artifact_to_key(self) -> frozendict[Artifact, str]:
         return self._artifact_to_key
-- 
2.43.0


From 358aaaa54d148cd2af33e161a4194e1422cd282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 28/46] fix: do not reuse stored data for a different Producer
 output

---
 src/arti/executors/__init__.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index b8c5ab5..aefdf51 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -5,10 +5,12 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 import abc
 import logging
 
+from arti.artifacts import Artifact
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
 from arti.graphs import GraphSnapshot
 from arti.internal.models import Model
+from arti.internal.type_hints import assert_not_none
 from arti.partitions import InputFingerprints, PartitionKey
 from arti.producers import InputPartitions, Producer
 
@@ -30,6 +32,19 @@ class Executor(Model):
             }
         )
 
+    def get_output_fingerprint(
+        self, input_fingerprint: Fingerprint, output: Artifact
+    ) -> Fingerprint:
+        """Distinguish the outputs of a Producer, which all share the same inputs.
+
+        Otherwise, data would be reused for a different output if they are re-ordered in the Graph.
+        """
+        assert output.producer_output is not None
+        position = output.producer_output.position
+        if position == 0:
+            return input_fingerprint
+        return input_fingerprint.combine(Fingerprint.from_string(f"output {position}"))
+
     def discover_producer_partitions(
         self,
         snapshot: GraphSnapshot,
@@ -48,7 +63,17 @@ class Executor(Model):
         # input_fingerprints we've computed *are* for this snapshot - and then link them to the
         # snapshot.
         output_partition_snapshots = {
-            output: connection.read_artifact_partitions(output, partition_input_fingerprints)
+            output: connection.read_artifact_partitions(
+                output,
+                InputFingerprints(
+                    {
+                        partition_key: self.get_output_fingerprint(
+                            assert_not_none(input_fingerprint), output
+                        )
+                        for partition_key, input_fingerprint in partition_input_fingerprints.items()
+                    }
+                ),
+            )
             for output in snapshot.graph.producer_outputs[producer]
         }
         for artifact, partition_snapshots in output_partition_snapshots.items():
@@ -110,7 +135,7 @@ class Executor(Model):
             snapshot.write(
                 outputs[position],
                 artifact=artifact,
-                input_fingerprint=input_fingerprint,
+                input_fingerprint=self.get_output_fingerprint(input_fingerprint, artifact),
                 partition_key=partition_key,
                 view=producer._outputs_[position],
             )
-- 
2.43.0


From c59d470797081cecccd1a698fb7d5ba65ed248bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 29/46] fix: pick the key of an Artifact assigned to several
 keys independent of definition order

---
 src/arti/graphs/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 40954e9..5c2752d 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -6,6 +6,7 @@ from collections import defaultdict
 from collections.abc import Callable
 from functools import cached_property, wraps
 from graphlib import TopologicalSorter
+from operator import itemgetter
 from types import TracebackType
 from typing import TYPE_CHECKING, Annotated, Any, Literal, TypeVar
 
@@ -140,8 +141,10 @@ class Graph(Model):
         # Graph was already defined and is being re-opened to add more Artifacts.
         for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
             self.__dict__.pop(name, None)
+        # An Artifact may be assigned to multiple keys - consistently pick one, no matter the order they
+        # were assigned.
         self._artifact_to_key = frozendict(
-            {artifact: key for key, artifact in self.artifacts.walk()}
+            {artifact: key for key, artifact in sorted(self.artifacts.walk(), key=itemgetter(0))}
         )
 
     @cached_property
-- 
2.43.0


From 93b57e1eb21569ac55b224d539ce7e8e7cfc2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 30/46] fix: fingerprint arbitrary bytes and tell non-finite
 floats apart

---
 src/arti/internal/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 2a45f08..fadf82b 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -80,6 +80,9 @@ class Model(BaseModel, metaclass=ModelMeta):
     model_config = ConfigDict(
         extra="forbid",
         frozen=True,
+        # Serialize *any* bytes and tell apart non-finite floats (rather than dumping all as `null`).
+        ser_json_bytes="base64",
+        ser_json_inf_nan="constants",
         strict=True,
         validate_assignment=True,  # Unused with frozen, unless that is overridden in subclass.
         validate_default=True,
-- 
2.43.0


From cecf54cdd0bc607b52616ac3bcd03f41f6c0bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 31/46] fix: skip fields with forward references (eg:
 Artifact.producer_output) when fingerprinting

---
 src/arti/internal/models.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index fadf82b..c45a731 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -97,6 +97,21 @@ class Model(BaseModel, metaclass=ModelMeta):
         # Determine all of the Fingerprint fields.
         if not cls.model_config.get("frozen"):  # coverage: ignore
             raise ValueError(f"{cls._arti_type_key_} must be frozen to generate a fingerprint.")
+        cls._set_arti_fingerprint_fields()
+
+    @classmethod
+    def model_rebuild(cls, *, _parent_namespace_depth: int = 2, **kwargs: Any) -> bool | None:
+        # Account for our extra frame.
+        rebuilt = super().model_rebuild(
+            _parent_namespace_depth=_parent_namespace_depth + 1, **kwargs
+        )
+        # The metadata (eg: `SkipFingerprint`) of fields with forward references is not known until
+        # they've been resolved.
+        cls._set_arti_fingerprint_fields()
+        return rebuilt
+
+    @classmethod
+    def _set_arti_fingerprint_fields(cls) -> None:
         field_annotations = (
             # Pydantic strips `Annotated[T, ...]` hints into `annotation` (T) and `metadata` (...).
             (
-- 
2.43.0


From 961beb8b448c09736f06e73f3568acd0f7b309ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 32/46] fix: keep the fingerprint of any set-valued field
 stable across processes

---
 src/arti/internal/models.py | 13 ++++++++++++-
 src/arti/types/__init__.py  |  7 +------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index c45a731..6feaf4c 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -20,6 +20,7 @@ from pydantic import (
     Field,
     PlainSerializer,
     PrivateAttr,
+    SerializationInfo,
     SerializerFunctionWrapHandler,
     computed_field,
     model_serializer,
@@ -156,9 +157,19 @@ class Model(BaseModel, metaclass=ModelMeta):
 
     @model_serializer(mode="wrap")
     def _arti_serialize_model(
-        self: Any, serializer: SerializerFunctionWrapHandler
+        self: Any, serializer: SerializerFunctionWrapHandler, info: SerializationInfo
     ) -> dict[str, Any]:
         data = serializer(self)
+        if info.mode == "json":
+            # The order of a frozenset varies across processes, so sort to keep the fingerprint stable.
+            data = {
+                field: (
+                    sorted(value, key=repr)
+                    if isinstance(getattr(self, field, None), frozenset) and isinstance(value, list)
+                    else value
+                )
+                for field, value in data.items()
+            }
         # Sort the serialized data to reduce variability - but still allow excluding fields.
         return {field: data[field] for field in self._arti_fingerprint_fields_ if field in data}
 
diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index fefd797..8b1512e 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,11 +122,6 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
-    # The order of a frozenset varies across processes, so sort to keep the fingerprint stable.
-    @field_serializer("items", when_used="json")
-    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
-        return sorted(items, key=lambda item: (type(item).__name__, repr(item)))
-
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From 7ae9a12ebd2aad71ee6aeda475b90464475ad052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 33/46] fix: parse each discovered partition key component with
 its own field type

---
 src/arti/storage/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 02a2a29..e80882a 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -160,7 +160,7 @@ def extract_placeholders(
 
     partition_key = PartitionKey(
         {
-            field_name: key_types[key].from_components(**components)
+            field_name: key_types[field_name].from_components(**components)
             for field_name, components in field_components.items()
         }
     )
-- 
2.43.0


From 3627c53f5c39261f065ba65cbc56d607c8fc2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 34/46] fix: observe the current GCS objects rather than cached
 listings

---
 src/arti/io/json_gcsfile_python.py       | 4 ++--
 src/arti/io/pickle_gcsfile_python.py     | 4 ++--
 src/arti/storage/google/cloud/storage.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 164407d..832c5ca 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -19,7 +19,7 @@ from arti.views.python import PythonBuiltin
 
 def _read_json_file(path: str) -> Any:
     # TODO: GCSFileSystem needs to be injected somehow
-    with GCSFileSystem().open(path, "r") as file:
+    with GCSFileSystem(use_listings_cache=False).open(path, "r") as file:
         return json.load(file)
 
 
@@ -47,5 +47,5 @@ def _write_json_gcsfile_python(
 ) -> None:
     # Serialize before opening to avoid leaving behind a partial file upon error.
     content = json.dumps(data)
-    with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
+    with GCSFileSystem(use_listings_cache=False).open(storage_partition.qualified_path, "w") as file:
         file.write(content)
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5851f7c..ddb125d 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -19,7 +19,7 @@ from arti.views.python import PythonBuiltin
 
 def _read_pickle_file(path: str) -> Any:
     # TODO: GCSFileSystem needs to be injected somehow
-    with GCSFileSystem().open(path, "rb") as file:
+    with GCSFileSystem(use_listings_cache=False).open(path, "rb") as file:
         return pickle.load(file)  # noqa: S301 # User opted into pickle, ignore bandit check
 
 
@@ -47,5 +47,5 @@ def _write_pickle_gcsfile_python(
 ) -> None:
     # Serialize before opening to avoid leaving behind a partial file upon error.
     content = pickle.dumps(data)
-    with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
+    with GCSFileSystem(use_listings_cache=False).open(storage_partition.qualified_path, "wb") as file:
         file.write(content)
diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index 525fbaf..d2f6198 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -27,7 +27,7 @@ class _GCSMixin(Model):
 class GCSFilePartition(_GCSMixin, StoragePartition):
     def compute_content_fingerprint(self) -> Fingerprint:
         # TODO: GCSFileSystem needs to be injected somehow
-        info = GCSFileSystem().info(f"{self.bucket}/{self.path}")
+        info = GCSFileSystem(use_listings_cache=False).info(f"{self.bucket}/{self.path}")
         # Prefer md5Hash if available
         return Fingerprint.from_string(info["md5Hash"] if "md5Hash" in info else info["crc32c"])
 
@@ -50,7 +50,7 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         spec = f"{self.bucket}/{self.path}"
         wildcard = spec_to_wildcard(spec, self.key_types)
         # TODO: GCSFileSystem needs to be injected somehow
-        paths = GCSFileSystem().glob(wildcard)
+        paths = GCSFileSystem(use_listings_cache=False).glob(wildcard)
         path_metadata = parse_spec(
             paths, spec=spec, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-- 
2.43.0


From cb09402cf4781fb03cf65cd6f811f4842ac138e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 35/46] fix: refuse partition keys that don't match the
 partition field names and types

---
 src/arti/storage/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index 32518cb..b7ba6e3 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -178,11 +178,15 @@ class Storage[SP: StoragePartition](Model):
 
     @classmethod
     def _check_key(cls, key_types: PartitionKeyTypes, key: PartitionKey) -> None:
-        # TODO: Confirm the key names and types align
         if key_types and not key:
             raise ValueError(f"Expected partition key with {tuple(key_types)} but none were passed")
         if key and not key_types:
             raise ValueError(f"Expected no partition key but got: {key}")
+        for name, field_type in key_types.items():
+            if not isinstance(key[name], field_type):
+                raise ValueError(f"Expected `{name}` to be a {field_type}, but got: {key[name]}")
+        if unknown := set(key) - set(key_types):
+            raise ValueError(f"Expected partition key with {tuple(key_types)} but got: {unknown}")
 
     @abc.abstractmethod
     def discover_partitions(
-- 
2.43.0


From 3fd1d7ed7d1f7368200e4c60c097cf99045e86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 36/46] fix: check explicit views against the Artifact before
 reading

---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 5c2752d..35c53d6 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -244,8 +244,8 @@ class Graph(Model):
                 artifact_class=type(artifact), type=artifact.type, mode="READ"
             )
             view.check_annotation_compatibility(annotation)
-            view.check_artifact_compatibility(artifact)
         assert view is not None  # mypy gets mixed up with ^
+        view.check_artifact_compatibility(artifact)
         if storage_partition_snapshots is None:
             # We want to allow reading raw Artifacts even if other raw Artifacts are missing (which
             # prevents snapshotting).
-- 
2.43.0


From a8f6296c8c8f59d43ff2a618737c474aa521f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 37/46] fix: don't let other threads change the handlers during
 a dispatch

---
 src/arti/internal/dispatch.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index a88eee2..7081406 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import inspect
+import threading
 from collections.abc import Callable
 from typing import Any, TypeVar, cast, overload
 
@@ -25,6 +26,9 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
     # called for each *registered* func in the multimethod  internals (a bit confusing). Instead, we
     # can just set attrs in a helper func below.
     def __init__(self, func: Callable[..., RETURN]) -> None:
+        # multimethod iterates over the handlers when registering and (caching) lookups, so these must
+        # not overlap with changes made by other threads.
+        self._lock = threading.RLock()
         super().__init__(func)
         self.canonical_name: str | None = None
         self.discovery_func: Callable[[], None] | None = None
@@ -34,13 +38,18 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
     def __missing__(self, types: tuple[Any, ...]) -> Callable[..., RETURN]:
         if self.discovery_func is not None:
             self.discovery_func()
-        return super().__missing__(types)
+        with self._lock:
+            return super().__missing__(types)
+
+    def __setitem__(self, types: tuple[Any, ...], func: Callable[..., RETURN]) -> None:
+        with self._lock:
+            super().__setitem__(types, func)
 
     def parents(self, types: tuple[Any, ...]) -> set[Any]:
         # multimethod tracks the parents of each signature as handlers are registered, but (depending
         # on the order of registration) those may miss some and result in spurious ambiguity. Instead,
         # directly find the most specific of the signatures that apply.
-        keys = [key for key in self if isinstance(key, _multimethod.signature) and key < types]
+        keys = [key for key in list(self) if isinstance(key, _multimethod.signature) and key < types]
         return {key for key in keys if not any(key < other for other in keys)}
 
     def lookup(self, *args: type[Any] | None) -> Callable[..., Any]:
-- 
2.43.0


From 6bc69847c42c6aa296722cccea360ff7935493e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 38/46] fix: copy, pickle and describe models safely while
 another thread caches properties

---
 src/arti/internal/models.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 6feaf4c..5c4ea67 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -194,6 +194,16 @@ class Model(BaseModel, metaclass=ModelMeta):
                 del copy.__dict__[name]
         return copy
 
+    # Any thread may populate the cached properties (eg: `fingerprint`) in the `__dict__`, so iterate
+    # over a (shallow) copy of it.
+
+    def __deepcopy__(self, memo: dict[int, Any] | None = None) -> Self:
+        return super(Model, self.__copy__()).__deepcopy__(memo)
+
+    def __getstate__(self) -> dict[Any, Any]:
+        state = super().__getstate__()
+        return {**state, "__dict__": state["__dict__"].copy()}
+
     # Fingerprinting is somewhat expensive, so we'll cache the result. This is safe as long as the
     # model and all fields are immutable (see `model_config.frozen` and `model_post_init` above).
     #
@@ -211,7 +221,11 @@ class Model(BaseModel, metaclass=ModelMeta):
         return fingerprint
 
     def __repr_args__(self) -> Iterable[tuple[str | None, Any]]:
-        return [(k, v) for k, v in super().__repr_args__() if k in self.model_fields_set]
+        return [
+            (name, getattr(self, name))
+            for name, field in self.model_fields.items()
+            if field.repr and name in self.__dict__ and name in self.model_fields_set
+        ]
 
     def __str__(self) -> str:
         return repr(self)
-- 
2.43.0


From 4b60cf6ffde0be695a51ba8f77dec615978d5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 39/46] fix: keep the MemoryBackend consistent when shared by
 threads

---
 src/arti/backends/memory.py | 66 +++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 63f38bb..4a8115a 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -1,9 +1,11 @@
 from __future__ import annotations
 
+import threading
 from collections import defaultdict
 from collections.abc import Iterator
 from contextlib import contextmanager
 from functools import partial
+from typing import Any
 
 from pydantic import PrivateAttr
 
@@ -39,10 +41,11 @@ class _NoCopyContainer(NoCopyMixin):
     (deep)copy often. If we were to (deep)copy these data structures, then we wouldn't be able to
     track metadata between steps. Instead, this container holds the state and skips (deep)copying.
 
-    We may also add threading locks around access (with some slight usage changes).
+    Threads may share the container, so the `lock` must be held around any access.
     """
 
     def __init__(self) -> None:
+        self.lock = threading.RLock()
         # NOTE: lambdas are not pickleable, so use partial for any nested defaultdicts.
         self.graphs: _Graphs = defaultdict(dict)
         self.snapshots: _GraphSnapshots = defaultdict(dict)
@@ -56,7 +59,16 @@ class _NoCopyContainer(NoCopyMixin):
         self.storage_partitions: _StoragePartitions = defaultdict(set[StoragePartitionSnapshot])
 
     def __eq__(self, other: object, /) -> bool:
-        return isinstance(other, _NoCopyContainer) and vars(self) == vars(other)
+        return (
+            isinstance(other, _NoCopyContainer) and self.__getstate__() == other.__getstate__()
+        )
+
+    def __getstate__(self) -> dict[str, Any]:
+        # Locks are not pickleable.
+        return {k: v for k, v in vars(self).items() if k != "lock"}
+
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        vars(self).update(state, lock=threading.RLock())
 
 
 class MemoryConnection(BackendConnection):
@@ -68,11 +80,14 @@ class MemoryConnection(BackendConnection):
     ) -> StoragePartitionSnapshots:
         # The MemoryBackend is (obviously) not persistent, so there may be external data we don't
         # know about. If we haven't seen this storage before, we'll attempt to "warm" the cache.
-        if artifact.storage not in self.container.storage_partitions:
+        with self.container.lock:
+            known = artifact.storage in self.container.storage_partitions
+        if not known:
             self.write_artifact_partitions(
                 artifact, artifact.storage.discover_partitions(input_fingerprints)
             )
-        partition_snapshots = self.container.storage_partitions[artifact.storage]
+        with self.container.lock:
+            partition_snapshots = set(self.container.storage_partitions[artifact.storage])
         if input_fingerprints:
             partition_snapshots = {
                 snapshot
@@ -84,41 +99,49 @@ class MemoryConnection(BackendConnection):
     def write_artifact_partitions(
         self, artifact: Artifact, partitions: StoragePartitionSnapshots
     ) -> None:
-        self.container.storage_partitions[artifact.storage].update(partitions)
+        with self.container.lock:
+            self.container.storage_partitions[artifact.storage].update(partitions)
 
     def read_graph(self, name: str, fingerprint: Fingerprint) -> Graph:
-        return self.container.graphs[name][fingerprint]
+        with self.container.lock:
+            return self.container.graphs[name][fingerprint]
 
     def write_graph(self, graph: Graph) -> None:
-        self.container.graphs[graph.name][graph.fingerprint] = graph
+        with self.container.lock:
+            self.container.graphs[graph.name][graph.fingerprint] = graph
 
     def read_snapshot(self, name: str, fingerprint: Fingerprint) -> GraphSnapshot:
-        return self.container.snapshots[name][fingerprint]
+        with self.container.lock:
+            return self.container.snapshots[name][fingerprint]
 
     def write_snapshot(self, snapshot: GraphSnapshot) -> None:
-        self.container.snapshots[snapshot.name][snapshot.fingerprint] = snapshot
+        with self.container.lock:
+            self.container.snapshots[snapshot.name][snapshot.fingerprint] = snapshot
 
     def read_snapshot_tag(self, name: str, tag: str) -> GraphSnapshot:
-        if tag not in self.container.snapshot_tags[name]:
-            raise ValueError(f"No known `{tag}` tag for GraphSnapshot `{name}`")
-        return self.container.snapshot_tags[name][tag]
+        with self.container.lock:
+            if tag not in self.container.snapshot_tags[name]:
+                raise ValueError(f"No known `{tag}` tag for GraphSnapshot `{name}`")
+            return self.container.snapshot_tags[name][tag]
 
     def write_snapshot_tag(
         self, snapshot: GraphSnapshot, tag: str, overwrite: bool = False
     ) -> None:
         """Read the known Partitions for the named Artifact in a specific GraphSnapshot."""
-        if (
-            existing := self.container.snapshot_tags[snapshot.name].get(tag)
-        ) is not None and not overwrite:
-            raise ValueError(
-                f"Existing `{tag}` tag for Graph `{snapshot.name}` points to {existing}"
-            )
-        self.container.snapshot_tags[snapshot.name][tag] = snapshot
+        with self.container.lock:
+            if (
+                existing := self.container.snapshot_tags[snapshot.name].get(tag)
+            ) is not None and not overwrite:
+                raise ValueError(
+                    f"Existing `{tag}` tag for Graph `{snapshot.name}` points to {existing}"
+                )
+            self.container.snapshot_tags[snapshot.name][tag] = snapshot
 
     def read_snapshot_partitions(
         self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact
     ) -> StoragePartitionSnapshots:
-        return tuple(self.container.snapshot_partitions[snapshot][artifact_key])
+        with self.container.lock:
+            return tuple(self.container.snapshot_partitions[snapshot][artifact_key])
 
     def write_snapshot_partitions(
         self,
@@ -127,7 +150,8 @@ class MemoryConnection(BackendConnection):
         artifact: Artifact,
         partitions: StoragePartitionSnapshots,
     ) -> None:
-        self.container.snapshot_partitions[snapshot][artifact_key].update(partitions)
+        with self.container.lock:
+            self.container.snapshot_partitions[snapshot][artifact_key].update(partitions)
 
 
 class MemoryBackend(Backend[MemoryConnection]):
-- 
2.43.0


From 955650c3e242b1f6eef9591e24c50212665c9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 40/46] fix: never expose a partial Graph fingerprint to other
 threads

---
 src/arti/graphs/__init__.py | 5 ++---
 src/arti/internal/models.py | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 35c53d6..da3d02c 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -147,11 +147,10 @@ class Graph(Model):
             {artifact: key for key, artifact in sorted(self.artifacts.walk(), key=itemgetter(0))}
         )
 
-    @cached_property
-    def fingerprint(self) -> Fingerprint:
+    def _compute_fingerprint(self) -> Fingerprint:
         # `Artifact.producer_output` is not serialized, so explicitly include which Producer output is
         # assigned to each key.
-        return super().fingerprint.combine(
+        return super()._compute_fingerprint().combine(
             *(
                 Fingerprint.from_string(f"{key}={output.producer.fingerprint}[{output.position}]")
                 for key, artifact in self.artifacts.walk()
diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 5c4ea67..2f74dcc 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -214,6 +214,9 @@ class Model(BaseModel, metaclass=ModelMeta):
     # determinism.
     @cached_property
     def fingerprint(self) -> Fingerprint:
+        return self._compute_fingerprint()
+
+    def _compute_fingerprint(self) -> Fingerprint:
         fingerprint = Fingerprint.from_string(self.model_dump_json())
         # NOTE: This shouldn't happen unless we somehow stumble upon Farmhash64(...) => 0
         if fingerprint.is_identity:  # coverage: ignore
-- 
2.43.0


From d8c5abe07c37cd8bf0f78047d81dd1d0a7be3394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 41/46] fix: name the classes of a reused @producer decorator
 after each function

---
 src/arti/producers/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 74c544c..cdc9b40 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -430,11 +430,11 @@ def producer(
     version: Version | None = None,
 ) -> Callable[[BuildSig], type[Producer]]:
     def decorate(build: BuildSig) -> type[Producer]:
-        nonlocal name
-        name = build.__name__ if name is None else name
+        # NOTE: The decorator may be reused, so don't save the defaulted name.
+        class_name = build.__name__ if name is None else name
         __annotations__: dict[str, Any] = {}
         for param in signature(build).parameters.values():
-            with wrap_exc(ValueError, prefix=f"{name} {param.name} param"):
+            with wrap_exc(ValueError, prefix=f"{class_name} {param.name} param"):
                 view = View.from_annotation(param.annotation, mode="READ")
                 __annotations__[param.name] = view.artifact_class
         # If overriding, set an explicit "annotations" hint until [1] is released.
@@ -445,7 +445,7 @@ def producer(
         if version:
             __annotations__["version"] = Version
         return type(
-            name,
+            class_name,
             (Producer,),
             {
                 k: v
-- 
2.43.0


From 41f77070df6fc2d8ec2fa323064aeea761fbb963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 42/46] fix: accept empty annotations in the producer decorator

---
 src/arti/producers/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index cdc9b40..59ff52d 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -440,9 +440,9 @@ def producer(
         # If overriding, set an explicit "annotations" hint until [1] is released.
         #
         # 1: https://github.com/samuelcolvin/pydantic/pull/3018
-        if annotations:
+        if annotations is not None:
             __annotations__["annotations"] = tuple[Annotation, ...]
-        if version:
+        if version is not None:
             __annotations__["version"] = Version
         return type(
             class_name,
-- 
2.43.0


From 3cba1739209091eeae2929aa819b4be97a995b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:51 +0000
Subject: [PATCH 43/46] fix: answer subtype questions about annotated unions of
 any spelling

---
 src/arti/internal/type_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 8e65607..0241fa0 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -75,8 +75,8 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
         return klass is NoneType
     if is_typeddict(check_type):  # These don't support issubclass
         return klass is check_type
-    # Other special forms (eg: Literal) are not types
-    if not all(
+    # Other special forms (eg: Literal) and unions (of any spelling) are not types
+    if is_union(klass_origin) or not all(
         isinstance(x, type) for x in (klass_origin or klass, check_type_origin or check_type)
     ):
         return False
-- 
2.43.0


From e249793d53f812c4a53401b175fc499b742d3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 44/46] fix: snapshot with the connection given to Graph.read

Graph.read took its implicit snapshot through a second connection. With a
backend whose connections are isolated transactions, the reader saw (or wrote)
a different state from the connection it was asked to use.
---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index da3d02c..98f2dba 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -254,7 +254,7 @@ class Graph(Model):
                 # only want to return the current values.
                 storage_partition_snapshots = artifact.storage.discover_partitions()
             else:
-                snapshot = snapshot or self.snapshot()
+                snapshot = snapshot or self.snapshot(connection=connection)
                 with (connection or self.backend).connect() as conn:
                     storage_partition_snapshots = conn.read_snapshot_partitions(
                         snapshot, key, artifact
-- 
2.43.0


From 77ab43b9e18faacdc7d35d4947b11343ac94d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 45/46] fix: read and write through the executor's connection
 during builds

build_producer_partition was passed the connection, but snapshot.read and
snapshot.write each opened another. With a backend whose connections are
isolated transactions, one of them lost the other's updates.
---
 src/arti/executors/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index aefdf51..f364f16 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -114,6 +114,7 @@ class Executor(Model):
         arguments = {
             name: snapshot.read(
                 artifact=producer.inputs[name],
+                connection=connection,
                 storage_partition_snapshots=input_partitions[name],
                 view=view,
             )
@@ -135,6 +136,7 @@ class Executor(Model):
             snapshot.write(
                 outputs[position],
                 artifact=artifact,
+                connection=connection,
                 input_fingerprint=self.get_output_fingerprint(input_fingerprint, artifact),
                 partition_key=partition_key,
                 view=producer._outputs_[position],
-- 
2.43.0


From 6fc8f8e26a845436d84328d03b9f88a52afc12fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 46/46] fix: strip every trailing separator of an unused,
 repeated placeholder

---
 src/arti/storage/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index b7ba6e3..abe7a75 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -231,10 +231,12 @@ class Storage[SP: StoragePartition](Model):
             if not value:
                 # Strip placeholder *and* any trailing self.segment_sep.
                 trim = "{" + placeholder + "}"
-                if f"{trim}{self.segment_sep}" in spec:
-                    trim = f"{trim}{self.segment_sep}"
                 # Also strip any trailing separators, eg: if the placeholder was at the end.
-                spec = spec.replace(trim, "").rstrip(self.segment_sep)
+                spec = (
+                    spec.replace(f"{trim}{self.segment_sep}", "")
+                    .replace(trim, "")
+                    .rstrip(self.segment_sep)
+                )
                 if not spec:
                     raise ValueError(f"{self}.{name} was empty after removing unused templates")
         return partial_format(spec, **placeholder_values)
-- 
2.43.0

