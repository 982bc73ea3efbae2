From f251f58df565f0ac59dbc86bffe78000667eb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:56 +0000
Subject: [PATCH 01/49] fix: select the immutable variables with the
 partitioning dimension

The axis is the name of a variable; its dimension may have another name, in
which case inserting a dataset with immutable variables raised KeyError.
---
 zcollection/collection/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..d8a3d5b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -49,7 +49,7 @@ _LOGGER: logging.Logger = logging.getLogger(__name__)
 
 def _write_immutable_dataset(
     zds: dataset.Dataset,
-    axis: str,
+    dim: str,
     path: str,
     fs: fsspec.AbstractFileSystem,
     synchronizer: sync.Sync,
@@ -58,11 +58,11 @@ def _write_immutable_dataset(
 
     Args:
         zds: The dataset to write.
-        axis: The partitioning axis.
+        dim: The partitioning dimension.
         path: The path to the immutable dataset.
         fs: The file system that the partition is stored on.
     """
-    immutable_dataset = zds.select_variables_by_dims((axis, ), predicate=False)
+    immutable_dataset = zds.select_variables_by_dims((dim, ), predicate=False)
     assert len(immutable_dataset.variables) != 0, (
         'The dataset to insert does not contain any variable '
         'that is not split.')
@@ -379,11 +379,13 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims(
+                (self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From 44c1cd1faf2af8406a0b0f2eda439ed1c10aac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:56 +0000
Subject: [PATCH 02/49] fix: merge the immutable dataset when loading
 partitions with overlap

The partition itself was merged a second time, which always raised
ValueError.
---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..04c0849 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -243,7 +243,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From 86f3202c04f37d74066a5ed770abe7cd64826400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:07 +0000
Subject: [PATCH 03/49] fix: forget the cached listings of the partitions
 written by insert

---
 zcollection/collection/__init__.py | 34 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index d8a3d5b..5edac53 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -398,19 +398,27 @@ class Collection(ReadOnlyCollection):
             npartitions = len(partitions) // npartitions + 1
 
         scattered_ds: Any = client.scatter(ds)
-        for sequence in dask_utils.split_sequence(partitions, npartitions):
-            futures: list[dask.distributed.Future] = [
-                dask_utils.simple_delayed('insert', _insert)(
-                    args=partition,  # type: ignore[arg-type]
-                    axis=self.axis,
-                    zds=scattered_ds,
-                    fs=self.fs,
-                    merge_callable=merge_callable,
-                    partitioning_properties=self.partition_properties,
-                    **kwargs,
-                ) for partition in sequence
-            ]
-            storage.execute_transaction(client, self.synchronizer, futures)
+        try:
+            for sequence in dask_utils.split_sequence(partitions, npartitions):
+                futures: list[dask.distributed.Future] = [
+                    dask_utils.simple_delayed('insert', _insert)(
+                        args=partition,  # type: ignore[arg-type]
+                        axis=self.axis,
+                        zds=scattered_ds,
+                        fs=self.fs,
+                        merge_callable=merge_callable,
+                        partitioning_properties=self.partition_properties,
+                        **kwargs,
+                    ) for partition in sequence
+                ]
+                storage.execute_transaction(client, self.synchronizer, futures)
+        finally:
+            # The partitions are written by the workers: the listings cached
+            # by the file system instance of this process are outdated.
+            for item, _ in partitions:
+                self.fs.invalidate_cache(
+                    fs_utils.join_path(
+                        *((self.partition_properties.dir, ) + item)))
 
         return (fs_utils.join_path(*((self.partition_properties.dir, ) + item))
                 for item, _ in partitions)
-- 
2.43.0


From b1c66238a0833fdc2007e12bf158bf76a3f18fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:07 +0000
Subject: [PATCH 04/49] fix: add and drop variables of an empty collection

---
 zcollection/collection/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..fab1e5b 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -674,7 +674,7 @@ class ReadOnlyCollection:
         """
         partitions: list[str] = [*self.partitions(filters=filters, **kwargs)]
         return dask.bag.core.from_sequence(seq=partitions,
-                                           npartitions=len(partitions))
+                                           npartitions=len(partitions) or None)
 
     def iterate_on_records(
         self,
-- 
2.43.0


From c546e3a3d84f57fe3888ccd6f458a040b53c7c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:06 +0000
Subject: [PATCH 05/49] fix: select and process the partitions while holding
 the lock

---
 zcollection/collection/__init__.py | 116 ++++++++++++++---------------
 zcollection/dask_utils.py          |   2 +
 zcollection/storage.py             |  33 +++++---
 zcollection/view/__init__.py       |  70 ++++++++---------
 4 files changed, 115 insertions(+), 106 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 5edac53..237f08a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -83,21 +83,21 @@ def _infer_callable(
     *args,
     **kwargs,
 ) -> tuple[str, ...]:
-    try:
-        one_partition: str = next(collection.partitions(filters=filters))
-    except StopIteration:
-        return ()
-
     with collection.synchronizer:
+        try:
+            one_partition: str = next(collection.partitions(filters=filters))
+        except StopIteration:
+            return ()
+
         zds: dataset.Dataset = storage.open_zarr_group(
             one_partition,
             collection.fs,
             delayed=delayed,
             selected_variables=selected_variables)
-    func_result: dict[str, Any]
-    func_result = _try_infer_callable(func, zds,
-                                      collection.partition_properties.dim,
-                                      *args, **kwargs)
+        func_result: dict[str, Any]
+        func_result = _try_infer_callable(func, zds,
+                                          collection.partition_properties.dim,
+                                          *args, **kwargs)
     unknown_variables: set[str] = set(func_result) - set(
         collection.metadata.variables.keys())
     if len(unknown_variables):
@@ -450,11 +450,7 @@ class Collection(ReadOnlyCollection):
         """
         now: datetime.datetime = datetime.datetime.now()
         client: dask.distributed.Client = dask_utils.get_client()
-        folders = list(self.partitions(filters=filters, lock=True))
-
-        # No partition selected, nothing to do.
-        if not folders:
-            return folders
+        folders: list[str] = []
 
         def is_created_before(path: str, now: datetime.datetime,
                               timedelta: datetime.timedelta) -> bool:
@@ -465,16 +461,18 @@ class Collection(ReadOnlyCollection):
                 created = created.replace(tzinfo=None)
             return now - created > timedelta
 
-        if timedelta is not None:
-            folders = list(
-                filter(
+        def drop() -> list[dask.distributed.Future]:
+            """Select the partitions, once the collection is locked, and drop
+            them."""
+            folders.extend(self.partitions(filters=filters))
+            if timedelta is not None:
+                folders[:] = filter(
                     lambda folder: is_created_before(  # type: ignore[arg-type]
                         folder, now, timedelta),
-                    folders))
+                    folders)
+            return client.map(self.fs.rm, folders, recursive=True)
 
-        storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+        storage.execute_transaction(client, self.synchronizer, drop)
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -561,37 +559,40 @@ class Collection(ReadOnlyCollection):
         _LOGGER.info('Updating of the (%s) variable in the collection',
                      ', '.join(repr(item) for item in variables))
 
-        selected_partitions = tuple(self.partitions(filters=filters,
-                                                    lock=True))
+        client: dask.distributed.Client = dask_utils.get_client()
+        selected_partitions: list[str] = []
 
-        local_func: WrappedPartitionCallable = _wrap_update_func(
-            *args,
-            delayed=delayed,
-            func=func,
-            fs=self.fs,
-            immutable=self._immutable,
-            selected_variables=selected_variables,
-            **kwargs) if depth == 0 else _wrap_update_func_with_overlap(
+        def submit() -> list[dask.distributed.Future]:
+            """Select the partitions, once the collection is locked, and update
+            them."""
+            selected_partitions.extend(self.partitions(filters=filters))
+
+            local_func: WrappedPartitionCallable = _wrap_update_func(
                 *args,
                 delayed=delayed,
-                depth=depth,
-                dim=self.partition_properties.dim,
                 func=func,
                 fs=self.fs,
                 immutable=self._immutable,
-                selected_partitions=selected_partitions,
                 selected_variables=selected_variables,
-                trim=trim,
-                **kwargs)
-
-        client: dask.distributed.Client = dask_utils.get_client()
-
-        batches: Iterator[Sequence[str]] = dask_utils.split_sequence(
-            selected_partitions, npartitions
-            or dask_utils.dask_workers(client, cores_only=True))
-        storage.execute_transaction(
-            client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+                **kwargs) if depth == 0 else _wrap_update_func_with_overlap(
+                    *args,
+                    delayed=delayed,
+                    depth=depth,
+                    dim=self.partition_properties.dim,
+                    func=func,
+                    fs=self.fs,
+                    immutable=self._immutable,
+                    selected_partitions=selected_partitions,
+                    selected_variables=selected_variables,
+                    trim=trim,
+                    **kwargs)
+
+            batches: Iterator[Sequence[str]] = dask_utils.split_sequence(
+                selected_partitions, npartitions
+                or dask_utils.dask_workers(client, cores_only=True))
+            return client.map(local_func, tuple(batches), key=func.__name__)
+
+        storage.execute_transaction(client, self.synchronizer, submit)
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -628,11 +629,10 @@ class Collection(ReadOnlyCollection):
                     f'The variable {variable!r} is part of the immutable '
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer, lambda: dask.distributed.futures_of(
+                self._bag_from_partitions().map(storage.del_zarr_array,
+                                                variable, self.fs).persist()))
         del self.metadata.variables[variable]
         self._write_config()
 
@@ -685,15 +685,13 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
-                            template.name,
-                            self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
+            storage.execute_transaction(
+                client, self.synchronizer, lambda: dask.distributed.futures_of(
+                    self._bag_from_partitions().map(storage.add_zarr_array,
+                                                    variable,
+                                                    template.name,
+                                                    self.fs,
+                                                    chunks=chunks).persist()))
         except Exception:
             self.drop_variable(variable.name)
             raise
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40c6b75..90e5529 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -72,6 +72,8 @@ def split_sequence(sequence: Sequence[Any],
     if sections <= 0:
         raise ValueError('The number of sections must be greater than zero.')
     length: int = len(sequence)
+    if length == 0:
+        return
     sections = min(sections, length)
 
     size: int
diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..f4c7061 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -8,7 +8,7 @@ I/O operations
 """
 from __future__ import annotations
 
-from typing import Any, Iterable, Sequence
+from typing import Any, Callable, Iterable, Sequence
 import collections
 import json
 import logging
@@ -47,7 +47,8 @@ numcodecs.blosc.use_threads = False
 def execute_transaction(
     client: dask.distributed.Client,
     synchronizer: sync.Sync,
-    futures: Sequence[dask.distributed.Future | dask_Delayed],
+    futures: Sequence[dask.distributed.Future | dask_Delayed]
+    | Callable[[], Sequence[dask.distributed.Future | dask_Delayed]],
     **kwargs: Any,
 ) -> Any:
     """Execute a transaction in the collection.
@@ -60,7 +61,9 @@ def execute_transaction(
     Args:
         client: The Dask client.
         synchronizer: The instance handling access to critical resources.
-        futures: Lazy tasks to be done.
+        futures: Lazy tasks to be done, or a function returning them, called
+            once the lock is acquired. Use the latter to submit tasks starting
+            immediately (i.e. built with ``client.map``).
         **kwargs: Keyword arguments to pass to `dask.distributed.compute`.
 
     Returns:
@@ -69,17 +72,23 @@ def execute_transaction(
     if not futures:
         return None
     awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
-            awaitables = client.compute(futures,
+    tasks: Sequence[Any] = []
+    with synchronizer:
+        try:
+            # The tasks built by a function are submitted, and therefore start,
+            # once the lock is acquired.
+            tasks = futures() if callable(futures) else futures
+            if not tasks:
+                return None
+            awaitables = client.compute(tasks,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception, and releasing the lock, we wait
+            # until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(tasks)
+            raise
 
 
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..21f1916 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -118,7 +118,7 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(
+            lambda: client.map(
                 _write_checksum,
                 tuple(args),
                 base_dir=self.base_dir,
@@ -283,20 +283,20 @@ class View:
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
+                lambda: client.map(_create_zarr_array,
+                                   tuple(args),
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   template=template.name,
+                                   variable=variable))
         except Exception:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
+                lambda: client.map(_drop_zarr_zarr,
+                                   tuple(self.partitions()),
+                                   fs=self.fs,
+                                   variable=variable.name,
+                                   ignore_errors=True))
             raise
 
         self._write_config()
@@ -328,10 +328,10 @@ class View:
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            lambda: client.map(_drop_zarr_zarr,
+                               tuple(self.partitions()),
+                               fs=self.fs,
+                               variable=variable.name))
 
     def load(
         self,
@@ -527,12 +527,12 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer, lambda: client.map(
+                wrap_function,
+                tuple(batchs),
+                key=func.__name__,
+                base_dir=self.base_dir))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -740,13 +740,13 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
+            lambda: client.map(_sync,
+                               partitions,
+                               base_dir=self.base_dir,
+                               fs=self.fs,
+                               view_ref=self.view_ref,
+                               metadata=self.metadata,
+                               dry_run=True))
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -791,12 +791,12 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         synchronized_partition: list[str | None] = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+            lambda: client.map(_sync,
+                               partitions,
+                               base_dir=self.base_dir,
+                               fs=self.fs,
+                               view_ref=self.view_ref,
+                               metadata=self.metadata))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From dee61447e19898b5f004f43e476abdfd8b31381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 06/49] fix: compare the age of the partitions in UTC

---
 zcollection/collection/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 237f08a..9065228 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -448,7 +448,7 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        now: datetime.datetime = datetime.datetime.now(datetime.timezone.utc)
         client: dask.distributed.Client = dask_utils.get_client()
         folders: list[str] = []
 
@@ -457,9 +457,7 @@ class Collection(ReadOnlyCollection):
             """Return whether the partition was created before the
             timedelta."""
             created: datetime.datetime = self.fs.created(path)
-            if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
-            return now - created > timedelta
+            return now - created.astimezone(datetime.timezone.utc) > timedelta
 
         def drop() -> list[dask.distributed.Future]:
             """Select the partitions, once the collection is locked, and drop
-- 
2.43.0


From 4ec23278129d81ad972f83cff36ad1834d4bc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 07/49] fix: forget the cached listings of the partitions when
 dropping fails

---
 zcollection/collection/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 9065228..aeac662 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -470,14 +470,15 @@ class Collection(ReadOnlyCollection):
                     folders)
             return client.map(self.fs.rm, folders, recursive=True)
 
-        storage.execute_transaction(client, self.synchronizer, drop)
-
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
             _LOGGER.info('Dropped partition: %s', path)
             self.fs.invalidate_cache(path)
 
-        tuple(map(invalidate_cache, folders))
+        try:
+            storage.execute_transaction(client, self.synchronizer, drop)
+        finally:
+            tuple(map(invalidate_cache, folders))
         return folders
 
     # pylint: disable=method-hidden
-- 
2.43.0


From ff49c38b4c007839015c6935a896cf0c135032f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 08/49] fix: never lose the existing data when replacing a
 partition fails

---
 zcollection/collection/detail.py |  3 ++
 zcollection/merging/__init__.py  | 64 +++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 04c0849..53812aa 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -412,6 +412,9 @@ def _insert(
     partition, indexer = args
     dirname: str = join_path(*((partitioning_properties.dir, ) + partition))
 
+    # An interrupted insertion may have set aside the existing data.
+    merging.restore(dirname, fs)
+
     # If the consolidated zarr metadata does not exist, we consider the
     # partition as empty.
     if fs.exists(join_path(dirname, '.zmetadata')):
diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..4782bbc 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Protocol
 import hashlib
+import os
 import shutil
 
 import fsspec
@@ -62,6 +63,17 @@ class MergeCallable(Protocol):
     #: pylint: enable=too-few-public-methods,duplicate-code
 
 
+def _backup(temp: str) -> str:
+    """Name of the directory storing the replaced data of a partition.
+
+    Args:
+        temp: The temporary directory storing the new data of the partition.
+    Returns:
+        The name of the directory.
+    """
+    return f'{temp}.old'
+
+
 def _rename(
     fs: fsspec.AbstractFileSystem,
     source: str,
@@ -79,8 +91,18 @@ def _rename(
         # directory to the destination directory and remove the source
         # directory. This is not efficient. So we use the shutil
         # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
-        shutil.move(source, dest)
+        # The existing directory is set aside until the new one has taken its
+        # place, so that a failure never destroys the existing data.
+        backup: str = _backup(source)
+        if os.path.exists(dest):
+            os.rename(dest, backup)
+        try:
+            shutil.move(source, dest)
+        except:  # noqa: E722
+            if os.path.exists(backup):
+                os.rename(backup, dest)
+            raise
+        shutil.rmtree(backup, ignore_errors=True)
         return
 
     fs.rm(dest, recursive=True)
@@ -93,6 +115,31 @@ def _extract_root_dirname(dirname: str, sep: str) -> str:
     return sep.join(parts)
 
 
+def _temporary_dirname(dirname: str, fs: fsspec.AbstractFileSystem) -> str:
+    """Name of the temporary directory storing the new data of a partition.
+
+    The name is the hash of the partition name. The directory is hidden so
+    that it is never taken for a partition.
+    """
+    return fs_utils.join_path(
+        _extract_root_dirname(dirname, fs.sep),
+        '.' + hashlib.sha256(dirname.encode()).hexdigest())
+
+
+def restore(dirname: str, fs: fsspec.AbstractFileSystem) -> None:
+    """Restores the data of a partition set aside by a replacement interrupted
+    before the new data took its place.
+
+    Args:
+        dirname: The name of the partition.
+        fs: The file system that the partition is stored on.
+    """
+    temp: str = _temporary_dirname(dirname, fs)
+    if fs.exists(temp) and fs.exists(
+            _backup(temp)) and not fs.exists(dirname):
+        os.rename(_backup(temp), dirname)
+
+
 def _update_fs(
     dirname: str,
     zds: dataset.Dataset,
@@ -108,13 +155,12 @@ def _update_fs(
         fs: The file system that the partition is stored on.
         synchronizer: The instance handling access to critical resources.
     """
-    # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name.
-    temp: str = fs_utils.join_path(
-        _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
-    if fs.exists(temp):
-        fs.rm(temp, recursive=True)
+    # Building a temporary directory to store the new data, after removing what
+    # an interrupted update may have left.
+    temp: str = _temporary_dirname(dirname, fs)
+    for item in (temp, _backup(temp)):
+        if fs.exists(item):
+            fs.rm(item, recursive=True)
 
     # Initializing Zarr group
     zarr.storage.init_group(store=fs.get_mapper(temp))
-- 
2.43.0


From 0abc1f10c69ef960428a58b90597f440171ab244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 09/49] fix: insert over the leftovers of an interrupted
 insertion

---
 zcollection/collection/detail.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 53812aa..02a929e 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -431,8 +431,11 @@ def _insert(
         return
 
     # The current partition does not exist, so we need to create
-    # it and insert the dataset.
+    # it and insert the dataset, after removing what an interrupted insertion
+    # may have left.
     try:
+        if fs.isdir(dirname):
+            _rm(fs, dirname)
         zarr.storage.init_group(store=fs.get_mapper(dirname))
 
         # The synchronization is done by the caller.
-- 
2.43.0


From f1861d0e00f5e9b6842d13f435ce98890661b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 10/49] fix: report as invalid the partitions without usable
 metadata

---
 zcollection/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index f4c7061..76ac0ee 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -23,6 +23,7 @@ import numcodecs.abc
 import numcodecs.blosc
 import numpy
 import zarr
+import zarr.errors
 
 from . import dataset, meta, sync
 from .fs_utils import join_path
@@ -477,6 +478,7 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    except (KeyError, RuntimeError, TypeError, ValueError,
+            zarr.errors.MetadataError):
         return False
     return True
-- 
2.43.0


From 91b5da81e36871b68f02df5bd42bdfa616479266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:07 +0000
Subject: [PATCH 11/49] fix: keep the consolidated metadata consistent with the
 stored arrays

---
 zcollection/storage.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 76ac0ee..5422412 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -198,8 +198,11 @@ def write_zarr_variable(
         write_zattrs(dirname, variable, fs)
     except Exception:
         # If an exception is thrown, we delete the variable from the Zarr
-        # dataset.
-        del_zarr_array(dirname, name, fs)
+        # dataset. The metadata must not be consolidated here, otherwise the
+        # partially written dataset would be taken for a complete one.
+        path: str = join_path(dirname, name)
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
         raise
 
 
@@ -403,11 +406,13 @@ def del_zarr_array(
     path: str = join_path(dirname, name)
     if fs.exists(path):
         fs.rm(path, recursive=True)
-        zarr.consolidate_metadata(
-            fs.get_mapper(dirname),  # type: ignore[arg-type]
-        )
-        # Invalidate any cached directory information.
-        fs.invalidate_cache(dirname)
+    # Even if the array no longer exists: an interrupted deletion may have left
+    # it in the consolidated metadata.
+    zarr.consolidate_metadata(
+        fs.get_mapper(dirname),  # type: ignore[arg-type]
+    )
+    # Invalidate any cached directory information.
+    fs.invalidate_cache(dirname)
 
 
 def add_zarr_array(
-- 
2.43.0


From 510d916538ca47a444dac435c4e87d5b000e8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:07 +0000
Subject: [PATCH 12/49] fix: rewrite the immutable dataset if it has not been
 completely written

---
 zcollection/collection/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index aeac662..977e759 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -377,8 +377,10 @@ class Collection(ReadOnlyCollection):
         if self._immutable is not None:
 
             # On the first call, we store the immutable variables in
-            # a directory located at the root of the collection.
-            if not self.fs.exists(self._immutable):
+            # a directory located at the root of the collection. The
+            # consolidated metadata, written last, tells that it is complete.
+            if not self.fs.exists(
+                    fs_utils.join_path(self._immutable, '.zmetadata')):
                 _write_immutable_dataset(ds, self.partition_properties.dim,
                                          self._immutable, self.fs,
                                          self.synchronizer)
-- 
2.43.0


From ec39553a6a512887e02326bc630669412ffb842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:07 +0000
Subject: [PATCH 13/49] fix: replace the configuration files atomically

---
 zcollection/collection/__init__.py | 5 ++++-
 zcollection/view/__init__.py       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 977e759..045f8f8 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -243,8 +243,11 @@ class Collection(ReadOnlyCollection):
             'partitioning': self.partitioning.get_config(),
         }
 
-        with self.fs.open(config, mode='w') as stream:
+        # The existing configuration is replaced once the new one is written.
+        temp: str = f'{config}.tmp'
+        with self.fs.open(temp, mode='w') as stream:
             json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+        self.fs.mv(temp, config)
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 21f1916..2a69c47 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -140,7 +140,9 @@ class View:
         """Write the configuration file for the view."""
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
-        with self.fs.open(config, mode='w') as stream:
+        # The existing configuration is replaced once the new one is written.
+        temp: str = f'{config}.tmp'
+        with self.fs.open(temp, mode='w') as stream:
             json.dump(
                 {
                     'base_dir': self.base_dir,
@@ -153,6 +155,7 @@ class View:
                 },
                 stream,  # type: ignore[arg-type]
                 indent=4)
+        self.fs.mv(temp, config)
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From 728523f9a4b7dc923923c7a254359c20dea4b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:35 +0000
Subject: [PATCH 14/49] fix: rewrite the immutable dataset unless it is
 readable

---
 zcollection/collection/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 045f8f8..5e73a7a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -380,10 +380,8 @@ class Collection(ReadOnlyCollection):
         if self._immutable is not None:
 
             # On the first call, we store the immutable variables in
-            # a directory located at the root of the collection. The
-            # consolidated metadata, written last, tells that it is complete.
-            if not self.fs.exists(
-                    fs_utils.join_path(self._immutable, '.zmetadata')):
+            # a directory located at the root of the collection.
+            if not storage.check_zarr_group(self._immutable, self.fs):
                 _write_immutable_dataset(ds, self.partition_properties.dim,
                                          self._immutable, self.fs,
                                          self.synchronizer)
-- 
2.43.0


From 5bac4d290629954beb78bb40ade0dad3ea51c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:00 +0000
Subject: [PATCH 15/49] fix: overwrite a partially created array when adding a
 variable

---
 zcollection/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 5422412..caa4668 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -457,9 +457,12 @@ def add_zarr_array(
         compressor=variable.compressor,  # type: ignore[arg-type]
         fill_value=variable.fill_value,  # type: ignore[arg-type]
         store=store,
+        overwrite=True,
         filters=variable.filters)
     write_zattrs(dirname, variable, fs)
     zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    # Invalidate any cached directory information.
+    fs.invalidate_cache(dirname)
 
 
 def check_zarr_group(
-- 
2.43.0


From 69754cde377a6c834e00fbba7e004fe19276b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:00 +0000
Subject: [PATCH 16/49] fix: keep the variables of a collection in step with
 its configuration

---
 zcollection/collection/__init__.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 5e73a7a..1e45efb 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -623,20 +623,23 @@ class Collection(ReadOnlyCollection):
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-        if self._immutable:
-            zds: dataset.Dataset = storage.open_zarr_group(
-                self._immutable, self.fs)
-            if variable in zds.variables:
-                raise ValueError(
-                    f'The variable {variable!r} is part of the immutable '
-                    'dataset.')
+        if (self.partition_properties.dim
+                not in self.metadata.variables[variable].dimensions):
+            raise ValueError(
+                f'The variable {variable!r} is part of the immutable '
+                'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer, lambda: dask.distributed.futures_of(
                 self._bag_from_partitions().map(storage.del_zarr_array,
                                                 variable, self.fs).persist()))
-        del self.metadata.variables[variable]
-        self._write_config()
+        metadata: meta.Variable = self.metadata.variables.pop(variable)
+        try:
+            self._write_config()
+        except Exception:
+            # The variable is still part of the stored configuration.
+            self.metadata.variables[variable] = metadata
+            raise
 
     def add_variable(
         self,
@@ -672,7 +675,12 @@ class Collection(ReadOnlyCollection):
             raise ValueError(
                 'The new variable must use the partitioning axis.')
         self.metadata.add_variable(variable)
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            # The variable is not part of the stored configuration.
+            del self.metadata.variables[variable.name]
+            raise
 
         # Remove the attribute from the variable. The attribute will be added
         # from the collection metadata.
-- 
2.43.0


From 5dc0c8c8a25139d4e1afaae7d89388bfb1a8b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 17/49] fix: copy the immutable dataset, and wait for the tasks
 of a failing copy

---
 zcollection/collection/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 1e45efb..37b4a86 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -12,6 +12,7 @@ from typing import Any, Iterable, Iterator, Literal, NoReturn, Sequence
 import datetime
 import functools
 import io
+import itertools
 import json
 import logging
 import os
@@ -740,11 +741,16 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+            filesystem = self.fs
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
 
+        # The data not partitioned is always copied.
+        immutable: tuple[str, ...] = (
+            (self._immutable, )
+            if self._immutable and self.fs.exists(self._immutable) else ())
+
         # Sequence of (source, target) to copy split in npartitions
         args = tuple(
             dask_utils.split_sequence(
@@ -752,7 +758,9 @@ class Collection(ReadOnlyCollection):
                   fs_utils.join_path(
                       target,
                       os.path.relpath(item, self.partition_properties.dir)))
-                 for item in self.partitions(filters=filters)], npartitions))
+                 for item in itertools.chain(
+                     self.partitions(filters=filters), immutable)],
+                npartitions))
         # Copy the selected partitions
         partial = functools.partial(fs_utils.copy_tree,
                                     fs_source=self.fs,
@@ -762,7 +770,9 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args))
+        filesystem.makedirs(target, exist_ok=True)
+        storage.execute_transaction(client, sync.NoSync(),
+                                    lambda: client.map(worker_task, args))
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
@@ -791,6 +801,8 @@ class Collection(ReadOnlyCollection):
         Returns:
             A list of invalid partitions.
         """
+        if fix and self.is_readonly():
+            raise io.UnsupportedOperation('not writable')
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
-- 
2.43.0


From f54a53c57e4b06bd9f7ad9d98f9959e006ffdb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:18 +0000
Subject: [PATCH 18/49] fix: refuse to repair the partitions of a read-only
 collection

---
 zcollection/collection/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 37b4a86..e310588 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -824,4 +824,5 @@ class Collection(ReadOnlyCollection):
             for item in invalid_partitions:
                 _LOGGER.info('Removing invalid partition: %s', item)
                 self.fs.rm(item, recursive=True)
+                self.fs.invalidate_cache(item)
         return invalid_partitions
-- 
2.43.0


From 70e94227bb9a4ce3503548c0fc7d23df5f7bbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:58 +0000
Subject: [PATCH 19/49] fix: remove a partial copy before restoring a replaced
 partition

---
 zcollection/merging/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 4782bbc..ffbe57f 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -100,6 +100,8 @@ def _rename(
             shutil.move(source, dest)
         except:  # noqa: E722
             if os.path.exists(backup):
+                # The directory may have been partially copied.
+                shutil.rmtree(dest, ignore_errors=True)
                 os.rename(backup, dest)
             raise
         shutil.rmtree(backup, ignore_errors=True)
-- 
2.43.0


From 18727215d76b0b60efa5c00015252d8ab51e2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:12 +0000
Subject: [PATCH 20/49] fix: update arrays without reading their chunks, and
 replace chunks atomically

---
 zcollection/storage.py | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index caa4668..2d14eb4 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -12,6 +12,7 @@ from typing import Any, Callable, Iterable, Sequence
 import collections
 import json
 import logging
+import os
 
 import dask.array.core
 import dask.base
@@ -19,11 +20,13 @@ from dask.delayed import Delayed as dask_Delayed
 import dask.distributed
 import dask.local
 import fsspec
+import fsspec.implementations.local
 import numcodecs.abc
 import numcodecs.blosc
 import numpy
 import zarr
 import zarr.errors
+import zarr.storage
 
 from . import dataset, meta, sync
 from .fs_utils import join_path
@@ -355,6 +358,36 @@ def open_zarr_group(
     )
 
 
+class _ChunkWriter(zarr.storage.KVStore):
+    """Overwrite the chunks of an array.
+
+    The existing chunks are never read: by default, Zarr reads those located at
+    the edges of the array before overwriting them, which is useless if the
+    whole array is overwritten. On a local file system, a chunk is replaced
+    atomically: another task loading it, while it processes a neighbouring
+    partition, gets the old chunk or the new one.
+    """
+
+    def __getitem__(self, key: str) -> Any:
+        raise KeyError(key)
+
+    def __setitem__(self, key: str, value: Any) -> None:
+        mapper: fsspec.FSMap = self._mutable_mapping
+        if not isinstance(mapper.fs,
+                          fsspec.implementations.local.LocalFileSystem):
+            mapper[key] = value
+            return
+        temp: str = f'{key}.partial'
+        try:
+            mapper[temp] = value
+            os.replace(join_path(mapper.root, temp),
+                       join_path(mapper.root, key))
+        except:  # noqa: E722
+            if temp in mapper:
+                del mapper[temp]
+            raise
+
+
 def update_zarr_array(
     dirname: str,
     array: ArrayLike,
@@ -375,7 +408,10 @@ def update_zarr_array(
         array.
     """
     _LOGGER.debug('Updating Zarr array %r', dirname)
-    store: zarr.Array = zarr.open_array(fs.get_mapper(dirname), mode='a')
+    mapper: fsspec.FSMap = fs.get_mapper(dirname)
+    store: zarr.Array = zarr.open_array(mapper,
+                                        mode='a',
+                                        chunk_store=_ChunkWriter(mapper))
 
     if isinstance(array, dask.array.core.Array):
         array = array.compute()
-- 
2.43.0


From 0e9bb84e04377d6a600e37434957187c88db8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:20 +0000
Subject: [PATCH 21/49] fix: write atomically the consolidated metadata and the
 configurations

---
 zcollection/collection/__init__.py |  4 +-
 zcollection/fs_utils.py            | 33 +++++++++++++-
 zcollection/storage.py             | 69 ++++++++++++++++++------------
 zcollection/view/__init__.py       |  4 +-
 4 files changed, 75 insertions(+), 35 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index e310588..9a34e2d 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -245,10 +245,8 @@ class Collection(ReadOnlyCollection):
         }
 
         # The existing configuration is replaced once the new one is written.
-        temp: str = f'{config}.tmp'
-        with self.fs.open(temp, mode='w') as stream:
+        with fs_utils.replace_file(self.fs, config) as stream:
             json.dump(params, stream, indent=4)  # type: ignore[arg-type]
-        self.fs.mv(temp, config)
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index 4728300..915bb2d 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -8,10 +8,12 @@ File system tools
 """
 from __future__ import annotations
 
-from typing import Any, Iterator, Sequence
+from typing import IO, Any, Iterator, Sequence
+import contextlib
 import os
 
 import fsspec
+import fsspec.implementations.local
 
 #: Path separator
 SEPARATOR = '/'
@@ -22,6 +24,35 @@ def join_path(*args: str) -> str:
     return SEPARATOR.join(args)
 
 
+@contextlib.contextmanager
+def replace_file(
+    fs: fsspec.AbstractFileSystem,
+    path: str,
+    mode: str = 'w',
+) -> Iterator[IO[Any]]:
+    """Open a file to replace its content.
+
+    On a local file system, the existing file is replaced, atomically, once the
+    new content is completely written. Other file systems are expected to
+    create the file when it is closed.
+
+    Args:
+        fs: file system object
+        path: path of the file to replace.
+        mode: mode used to open the file.
+
+    Yields:
+        The stream to write to.
+    """
+    local: bool = isinstance(fs,
+                             fsspec.implementations.local.LocalFileSystem)
+    temp: str = f'{path}.tmp' if local else path
+    with fs.open(temp, mode=mode) as stream:
+        yield stream
+    if local:
+        os.replace(temp, path)
+
+
 def normalize_path(fs: fsspec.AbstractFileSystem, path: str) -> str:
     """Normalize the path.
 
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 2d14eb4..a712ac7 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -95,6 +95,40 @@ def execute_transaction(
             raise
 
 
+class _AtomicStore(zarr.storage.KVStore):
+    """Replace atomically the files of a local file system: whoever reads a
+    file gets the old content or the new one."""
+
+    def __setitem__(self, key: str, value: Any) -> None:
+        mapper: fsspec.FSMap = self._mutable_mapping
+        if not isinstance(mapper.fs,
+                          fsspec.implementations.local.LocalFileSystem):
+            mapper[key] = value
+            return
+        temp: str = f'{key}.partial'
+        try:
+            mapper[temp] = value
+            os.replace(join_path(mapper.root, temp),
+                       join_path(mapper.root, key))
+        except:  # noqa: E722
+            if temp in mapper:
+                del mapper[temp]
+            raise
+
+
+def _consolidate_metadata(
+    dirname: str,
+    fs: fsspec.AbstractFileSystem,
+) -> None:
+    """Consolidate the metadata of a Zarr dataset.
+
+    Args:
+        dirname: The storage directory of the Zarr dataset.
+        fs: The file system on which the Zarr dataset is stored.
+    """
+    zarr.consolidate_metadata(_AtomicStore(fs.get_mapper(dirname)))
+
+
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
              **kwargs) -> None:
     """Write a Dask array to a Zarr dataset.
@@ -231,7 +265,7 @@ def _write_meta(
             stream,  # type: ignore[arg-type]
             indent=2,
         )
-    zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    _consolidate_metadata(dirname, fs)
     fs.invalidate_cache(dirname)
 
 
@@ -358,35 +392,16 @@ def open_zarr_group(
     )
 
 
-class _ChunkWriter(zarr.storage.KVStore):
-    """Overwrite the chunks of an array.
+class _ChunkWriter(_AtomicStore):
+    """Overwrite the chunks of an array, without reading the existing ones.
 
-    The existing chunks are never read: by default, Zarr reads those located at
-    the edges of the array before overwriting them, which is useless if the
-    whole array is overwritten. On a local file system, a chunk is replaced
-    atomically: another task loading it, while it processes a neighbouring
-    partition, gets the old chunk or the new one.
+    By default, Zarr reads the chunks located at the edges of the array before
+    overwriting them, which is useless if the whole array is overwritten.
     """
 
     def __getitem__(self, key: str) -> Any:
         raise KeyError(key)
 
-    def __setitem__(self, key: str, value: Any) -> None:
-        mapper: fsspec.FSMap = self._mutable_mapping
-        if not isinstance(mapper.fs,
-                          fsspec.implementations.local.LocalFileSystem):
-            mapper[key] = value
-            return
-        temp: str = f'{key}.partial'
-        try:
-            mapper[temp] = value
-            os.replace(join_path(mapper.root, temp),
-                       join_path(mapper.root, key))
-        except:  # noqa: E722
-            if temp in mapper:
-                del mapper[temp]
-            raise
-
 
 def update_zarr_array(
     dirname: str,
@@ -444,9 +459,7 @@ def del_zarr_array(
         fs.rm(path, recursive=True)
     # Even if the array no longer exists: an interrupted deletion may have left
     # it in the consolidated metadata.
-    zarr.consolidate_metadata(
-        fs.get_mapper(dirname),  # type: ignore[arg-type]
-    )
+    _consolidate_metadata(dirname, fs)
     # Invalidate any cached directory information.
     fs.invalidate_cache(dirname)
 
@@ -496,7 +509,7 @@ def add_zarr_array(
         overwrite=True,
         filters=variable.filters)
     write_zattrs(dirname, variable, fs)
-    zarr.consolidate_metadata(fs.get_mapper(dirname))  # type: ignore[arg-type]
+    _consolidate_metadata(dirname, fs)
     # Invalidate any cached directory information.
     fs.invalidate_cache(dirname)
 
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 2a69c47..0395aec 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -141,8 +141,7 @@ class View:
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
         # The existing configuration is replaced once the new one is written.
-        temp: str = f'{config}.tmp'
-        with self.fs.open(temp, mode='w') as stream:
+        with fs_utils.replace_file(self.fs, config) as stream:
             json.dump(
                 {
                     'base_dir': self.base_dir,
@@ -155,7 +154,6 @@ class View:
                 },
                 stream,  # type: ignore[arg-type]
                 indent=4)
-        self.fs.mv(temp, config)
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From c56ccb020924accbf13675f42c166e88a7ac0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:45 +0000
Subject: [PATCH 22/49] fix: keep the data of a view when its synchronization
 is interrupted

A partition whose checksum is missing or unusable could never be synchronized
again, a failing extension removed the data of the view, and a torn or
half-made extension lost them at the next synchronization.
---
 zcollection/view/detail.py | 132 ++++++++++++++++++++++++++-----------
 1 file changed, 94 insertions(+), 38 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..c023868 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -29,6 +29,7 @@ from ..collection.detail import _update_with_overlap
 from ..fs_utils import get_fs, join_path
 from ..storage import (
     DIMENSIONS,
+    _AtomicStore,
     open_zarr_array,
     open_zarr_group,
     update_zarr_array,
@@ -477,17 +478,20 @@ def _write_checksum_array(
         fs: The file system used to access the variables in the view.
         axis_ref: The axis reference of the partition.
     """
-    array: zarr.Array
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
-    mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
-    if fs.exists(checksum_path):
-        array = zarr.open(mapper)  # type: ignore[arg-type]
-    else:
+    store = _AtomicStore(fs.get_mapper(checksum_path))
+    array: zarr.Array
+    try:
+        array = zarr.open_array(store, mode='r+')
+        array.resize(axis_ref.array.shape)
+    except (KeyError, ValueError, zarr.errors.MetadataError):
         array = zarr.create(shape=axis_ref.array.shape,
                             dtype=axis_ref.array.dtype,
-                            store=mapper)
+                            store=store,
+                            overwrite=True)
         array.attrs[DIMENSIONS] = axis_ref.dimension
     array[...] = axis_ref.array
+    # The checksum is written last: it states that the partition is synced.
     array.attrs[CHECKSUM_ATTR] = axis_ref.checksum
     fs.invalidate_cache(checksum_path)
 
@@ -503,11 +507,12 @@ def _load_checksum_array(
         fs: The file system used to access the variables in the view.
 
     Returns:
-        The checksum of the partition and the axis of the reference partition.
+        The array storing the axis of the reference partition and its
+        checksum.
     """
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
     mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
-    return zarr.open_array(mapper)
+    return zarr.open_array(mapper, mode='r')
 
 
 def _write_checksum(
@@ -570,42 +575,84 @@ def _sync_partition(
         fs.invalidate_cache(path)
 
     except Exception as exc:
-        fs.rm(path, recursive=True)
-        fs.invalidate_cache(path)
+        _remove_partition(path, fs)
         raise exc from None
 
 
+def _remove_partition(
+    partition: str,
+    fs: fsspec.AbstractFileSystem,
+) -> None:
+    """Remove a partition of the view.
+
+    Args:
+        partition: The partition to remove.
+        fs: The file system used to access the variables in the view.
+    """
+    # The checksum is removed first: a partially removed partition is not
+    # synced.
+    for path in (join_path(partition, CHECKSUM_FILE), partition):
+        fs.invalidate_cache(path)
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
+            fs.invalidate_cache(path)
+
+
 def _extend_partition(
     partition: str,
     fs: fsspec.AbstractFileSystem,
     axis_ref: AxisReference,
+    metadata: meta.Dataset,
 ) -> None:
-    """Sync a partition: create the partition and the underlying variables.
+    """Sync a partition: extend the variables of the partition.
+
+    If the extension fails, the partition is left as it is, to keep the data
+    of the view, and can be extended again: it's synced once the checksum is
+    written.
 
     Args:
         partition: The partition to sync.
         fs: The file system used to access the variables in the view.
         axis_ref: The axis reference of the partition.
+        metadata: The metadata of the variables stored in the view.
     """
-    axis_name: str = axis_ref.dimension
     new_size: int = axis_ref.array.shape[0]
-    try:
-        for variable in fs.listdir(partition):
-            array: zarr.Array = zarr.open_array(fs.get_mapper(
-                variable['name']))
-            dimensions: Sequence[str] = array.attrs[DIMENSIONS]
-            if axis_name in dimensions:
-                axis: int = dimensions.index(axis_name)
-                shape = list(array.shape)
-                shape[axis] = new_size
-                array.resize(shape)
-        _write_checksum_array(partition, fs, axis_ref)
-        # fs.invalidate_cache(partition) is not done by
-        # _write_checksum_array
-    except Exception as exc:
-        fs.rm(partition, recursive=True)
-        fs.invalidate_cache(partition)
-        raise exc from None
+    for variable in metadata.variables.values():
+        if axis_ref.dimension in variable.dimensions:
+            axis: int = variable.dimensions.index(axis_ref.dimension)
+            array: zarr.Array = zarr.open_array(_AtomicStore(
+                fs.get_mapper(join_path(partition, variable.name))),
+                                                mode='r+')
+            shape = list(array.shape)
+            shape[axis] = new_size
+            array.resize(shape)
+    _write_checksum_array(partition, fs, axis_ref)
+    fs.invalidate_cache(partition)
+
+
+def _is_extended(axis_view: NDArray, checksum: str,
+                 axis_ref: AxisReference) -> bool:
+    """Check if the axis of the reference extends the axis known by the view.
+
+    Args:
+        axis_view: The axis stored in the view.
+        checksum: The checksum stored in the view.
+        axis_ref: The axis reference of the partition.
+
+    Returns:
+        True if the axis of the reference extends the axis of the view.
+    """
+    if axis_ref.array.size > axis_view.size and numpy.all(
+            axis_view == axis_ref.array[:axis_view.size]):
+        return True
+    # An interrupted extension may have already modified the stored axis, but
+    # not its checksum.
+    sha256 = hashlib.sha256()
+    for ix in range(axis_ref.array.size):
+        if sha256.hexdigest() == checksum:
+            return True
+        sha256.update(axis_ref.array[ix:ix + 1].tobytes())
+    return False
 
 
 def _sync(
@@ -631,6 +678,8 @@ def _sync(
         The partition synced or None if the partition is already synced.
     """
     partition_view: str = join_path(base_dir, partition)
+    # The partition may have been modified by another worker.
+    fs.invalidate_cache(partition_view)
     if not fs.exists(partition_view):
         # The partition does not exist, so we create it.
         if not dry_run:
@@ -640,29 +689,36 @@ def _sync(
     # The partition exists, so we check if it is synced.
     partition_ref: str = join_path(view_ref.partition_properties.dir,
                                    partition)
-    array: zarr.Array = _load_checksum_array(partition_view, fs)
     axis_ref: AxisReference = _calculate_axis_reference(
         partition_ref, view_ref)
+    try:
+        array: zarr.Array = _load_checksum_array(partition_view, fs)
+        checksum: str = array.attrs[CHECKSUM_ATTR]
+        axis_view: NDArray = array[:]
+    except (KeyError, RuntimeError, TypeError, ValueError,
+            zarr.errors.MetadataError):
+        # The creation, or the deletion, of this partition was interrupted.
+        if not dry_run:
+            _remove_partition(partition_view, fs)
+            _sync_partition(metadata, partition, base_dir, fs, view_ref)
+        return partition
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
-    if axis_ref.checksum != array.attrs[CHECKSUM_ATTR]:
-        # If the checksums are different, the partition is not synced. we load
+    if axis_ref.checksum != checksum:
+        # If the checksums are different, the partition is not synced. we use
         # the axis of partition's view to check if the partition is a subset of
         # the reference partition.
-        axis_view: NDArray = array[:]
-        if axis_ref.array.size > axis_view.size and numpy.all(
-                axis_view == axis_ref.array[:axis_view.size]):
+        if _is_extended(axis_view, checksum, axis_ref):
             # The view partition is a subset of the reference partition.
             # So we extend the view partition to the reference partition.
             # fs_invalid_cache is done by _extend_partition
             if not dry_run:
-                _extend_partition(partition_view, fs, axis_ref)
+                _extend_partition(partition_view, fs, axis_ref, metadata)
             return partition
         # The partition is not synced, so we remove it.
         if not dry_run:
-            fs.rm(partition_view, recursive=True)
-            fs.invalidate_cache(partition_view)
+            _remove_partition(partition_view, fs)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
     return None
-- 
2.43.0


From bbaead7e5da08d993907b668b4dde673c3c5bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:08 +0000
Subject: [PATCH 23/49] fix: synchronize a view with new partitions, or an
 empty reference

The partitions added by View.sync with a filter had a checksum, thus were
considered synchronized, but none of the variables of the view.
---
 zcollection/view/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 0395aec..096188c 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -751,7 +751,7 @@ class View:
         return len(
             tuple(
                 filter(lambda item: item is not None,
-                       unsynchronized_partition))) == 0
+                       unsynchronized_partition or ()))) == 0
 
     def sync(
         self,
@@ -784,8 +784,9 @@ class View:
         if filters is not None:
             self.filters = filters
             self._write_config()
-            self._init_partitions(filters)
 
+        # The partitions missing in the view are created, with the variables
+        # of the view, by the synchronization.
         partitions = tuple(self.view_ref.partitions(relative=True))
         _LOGGER.info('%d partitions to synchronize', len(partitions))
 
@@ -803,5 +804,5 @@ class View:
             dict(self.view_ref.partitioning.parse(
                 item))  # type: ignore[arg-type] # item is filtered
             for item in filter(lambda item: item is not None,
-                               synchronized_partition))
+                               synchronized_partition or ()))
         return lambda item: item in partition_ids
-- 
2.43.0


From cf979db8ab8e0dd3cfd6a9b09d4e746a05170579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 24/49] fix: keep the metadata of a view in step with its
 configuration

A variable added to a view without partitions was not stored, and a variable
whose addition or removal failed could be neither added nor dropped again.
---
 zcollection/view/__init__.py | 38 +++++++++++++++++++++++++++++-------
 zcollection/view/detail.py   |  5 ++++-
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 096188c..e7c38c1 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -250,19 +250,40 @@ class View:
             ...         zcollection.meta.Attribute("long_name", "temperature")),
             ...        fill_value=-9999.0))
         """
-        # pylint: disable=duplicate-code
-        # false positive, no code duplication
-
         variable = dataset.get_variable_metadata(variable)
         _LOGGER.info('Adding variable %r in the view', variable.name)
         if (variable.name in self.view_ref.metadata.variables
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
+        self.metadata.add_variable(variable)
+
+        try:
+            self._create_variable(client, template, variable)
+            self._write_config()
+        except Exception:
+            # The variable doesn't belong to the stored view.
+            self.metadata.variables.pop(variable.name)
+            raise
+
+    def _create_variable(
+        self,
+        client: dask.distributed.Client,
+        template: meta.Variable,
+        variable: meta.Variable,
+    ) -> None:
+        """Create the arrays of a variable in the partitions of the view.
 
+        Args:
+            client: The Dask client.
+            template: The variable of the reference collection giving the
+                shape of the arrays.
+            variable: The variable to create.
+        """
+        # pylint: disable=duplicate-code
+        # false positive, no code duplication
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
             for path in self.partitions()
@@ -299,8 +320,6 @@ class View:
                                    variable=variable.name,
                                    ignore_errors=True))
             raise
-
-        self._write_config()
         # pylint: enable=duplicate-code
 
     def drop_variable(
@@ -325,7 +344,12 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
 
         variable: meta.Variable = self.metadata.variables.pop(varname)
-        self._write_config()
+        try:
+            self._write_config()
+        except Exception:
+            # The variable still belongs to the stored view.
+            self.metadata.variables[varname] = variable
+            raise
 
         storage.execute_transaction(
             client, self.synchronizer,
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index c023868..91ec8ed 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -133,8 +133,11 @@ def _drop_zarr_zarr(partition: str,
         variable: The name of the variable to drop.
         ignore_errors: If True, ignore errors when dropping the array.
     """
+    path: str = join_path(partition, variable)
     try:
-        fs.rm(join_path(partition, variable), recursive=True)
+        fs.invalidate_cache(path)
+        if fs.exists(path):
+            fs.rm(path, recursive=True)
         fs.invalidate_cache(partition)
     # pylint: disable=broad-except
     # We don't want to fail on errors.
-- 
2.43.0


From 4729bce49bf8e3f70c9d7bb3bebdc9d888998f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:30 +0000
Subject: [PATCH 25/49] fix: apply the partition filters when loading a view
 with an indexer

---
 zcollection/collection/abc.py | 3 ++-
 zcollection/view/__init__.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index fab1e5b..3e19c14 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -116,7 +116,8 @@ def build_indexer_args(
         for partition_scheme, indexer in indexer
     }
     # Filter the selected partitions
-    partitions = partitions or collection.partitions(filters=filters)
+    if partitions is None:
+        partitions = collection.partitions(filters=filters)
     selected_partitions = set(indexers_map) & {
         collection.partitioning.parse(item)
         for item in partitions
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index e7c38c1..68593b0 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -393,7 +393,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=tuple(self.partitions(filters=filters))))
             if len(arguments) == 0:
                 return None
         else:
-- 
2.43.0


From f854a9117c2d99c7c53913f5bc46086b205abcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 26/49] fix: apply the indexer when only variables of the view
 are loaded

---
 zcollection/view/detail.py | 45 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 91ec8ed..8cf7308 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -189,8 +189,25 @@ def _load_one_dataset(
     # If the user has not selected any variables in the reference view. In this
     # case, the dataset is built from all the variables selected in the view.
     if len(zds.dimensions) == 0:
-        return dataset.Dataset(
-            [
+        zds = dataset.Dataset([
+            open_zarr_array(
+                zarr.open(  # type: ignore[arg-type]
+                    fs.get_mapper(join_path(base_dir, partition, variable)),
+                    mode='r',
+                ),
+                variable,
+                delayed=delayed) for variable in variables
+        ],
+                              attrs=zds.attrs)
+    else:
+        # pylint: disable=expression-not-assigned
+        # We use the set notation to evaluate the generator.
+        {
+            zds.add_variable(  # type: ignore[func-returns-value]
+                item.metadata(),
+                item.array,
+            )
+            for item in (
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
                         fs.get_mapper(join_path(base_dir, partition,
@@ -198,27 +215,9 @@ def _load_one_dataset(
                         mode='r',
                     ),
                     variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+                    delayed=delayed) for variable in variables)
+        }
+        # pylint: enable=expression-not-assigned
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 4d8b6be445ce17dbd303ea915e1e36bc5a1afb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 27/49] fix: forget the cached listings of the partitions
 modified by the synchronization of a view

---
 zcollection/view/__init__.py | 45 ++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 68593b0..80d4690 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -116,15 +116,19 @@ class View:
         _LOGGER.info('%d partitions selected from %s', len(args),
                      self.view_ref)
         client: dask.distributed.Client = dask_utils.get_client()
-        storage.execute_transaction(
-            client, self.synchronizer,
-            lambda: client.map(
-                _write_checksum,
-                tuple(args),
-                base_dir=self.base_dir,
-                view_ref=self.view_ref,
-                fs=self.fs,
-            ))
+        try:
+            storage.execute_transaction(
+                client, self.synchronizer,
+                lambda: client.map(
+                    _write_checksum,
+                    tuple(args),
+                    base_dir=self.base_dir,
+                    view_ref=self.view_ref,
+                    fs=self.fs,
+                ))
+        finally:
+            # The partitions were created by the workers.
+            tuple(map(self.fs.invalidate_cache, args))
 
     def __str__(self) -> str:
         return (f'{self.__class__.__name__}'
@@ -815,14 +819,21 @@ class View:
         _LOGGER.info('%d partitions to synchronize', len(partitions))
 
         client: dask.distributed.Client = dask_utils.get_client()
-        synchronized_partition: list[str | None] = storage.execute_transaction(
-            client, self.synchronizer,
-            lambda: client.map(_sync,
-                               partitions,
-                               base_dir=self.base_dir,
-                               fs=self.fs,
-                               view_ref=self.view_ref,
-                               metadata=self.metadata))
+        synchronized_partition: list[str | None]
+        try:
+            synchronized_partition = storage.execute_transaction(
+                client, self.synchronizer,
+                lambda: client.map(_sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata))
+        finally:
+            # The partitions were modified by the workers.
+            for item in partitions:
+                self.fs.invalidate_cache(
+                    fs_utils.join_path(self.base_dir, item))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From 454528b62e653b6ab8952d3f0fae07d5f97cd407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:10 +0000
Subject: [PATCH 28/49] fix: load a view when the variables selected in the
 reference lack a dimension

---
 zcollection/view/detail.py | 45 +++++++++++---------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 8cf7308..d7e0ac5 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -186,38 +186,19 @@ def _load_one_dataset(
     if zds is None:
         return None
 
-    # If the user has not selected any variables in the reference view. In this
-    # case, the dataset is built from all the variables selected in the view.
-    if len(zds.dimensions) == 0:
-        zds = dataset.Dataset([
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables
-        ],
-                              attrs=zds.attrs)
-    else:
-        # pylint: disable=expression-not-assigned
-        # We use the set notation to evaluate the generator.
-        {
-            zds.add_variable(  # type: ignore[func-returns-value]
-                item.metadata(),
-                item.array,
-            )
-            for item in (
-                open_zarr_array(
-                    zarr.open(  # type: ignore[arg-type]
-                        fs.get_mapper(join_path(base_dir, partition,
-                                                variable)),
-                        mode='r',
-                    ),
-                    variable,
-                    delayed=delayed) for variable in variables)
-        }
-        # pylint: enable=expression-not-assigned
+    # The dataset is built from all the variables selected, because those of the
+    # view may use dimensions that those retained from the reference don't use.
+    zds = dataset.Dataset([
+        *zds.variables.values(), *(open_zarr_array(
+            zarr.open(  # type: ignore[arg-type]
+                fs.get_mapper(join_path(base_dir, partition, variable)),
+                mode='r',
+            ),
+            variable,
+            delayed=delayed) for variable in variables)
+    ],
+                          attrs=zds.attrs,
+                          delayed=delayed)
 
     # Apply indexing if needed.
     if len(slices):
-- 
2.43.0


From 08796d98971fd0c096b0afec0e8fe375e55b3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:10 +0000
Subject: [PATCH 29/49] fix: process with an overlap a view reduced to one
 partition

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index d7e0ac5..5fe3a9e 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -326,7 +326,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From d759ee31b34f2042c2c95f97356101c64eb061fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:20 +0000
Subject: [PATCH 30/49] fix: variables added to or dropped from a view while
 the reference lacks a partition

Once back in the reference, the partition was considered synchronized without
the added variables, or with the values of a variable dropped meanwhile.
---
 zcollection/view/__init__.py |  6 +++-
 zcollection/view/detail.py   | 57 +++++++++++++++++++++++++++++++++++-
 2 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 80d4690..c92c49e 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -355,10 +355,14 @@ class View:
             self.metadata.variables[varname] = variable
             raise
 
+        # Including the partitions that are no longer in the reference.
+        partitions: Iterator[str] = self.view_ref.partitioning.list_partitions(
+            self.fs, self.base_dir)
+
         storage.execute_transaction(
             client, self.synchronizer,
             lambda: client.map(_drop_zarr_zarr,
-                               tuple(self.partitions()),
+                               tuple(partitions),
                                fs=self.fs,
                                variable=variable.name))
 
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 5fe3a9e..6447810 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -582,6 +582,55 @@ def _remove_partition(
             fs.invalidate_cache(path)
 
 
+def _create_missing_variables(
+    partition: str,
+    *,
+    base_dir: str,
+    fs: fsspec.AbstractFileSystem,
+    view_ref: collection.Collection,
+    metadata: meta.Dataset,
+    dry_run: bool = False,
+) -> bool:
+    """Create the variables missing in a partition of the view.
+
+    Variables are missing if they were added to the view while the partition
+    was not in the reference collection.
+
+    Args:
+        partition: The partition to process.
+        base_dir: The base directory of the view.
+        fs: The file system used to access the variables in the view.
+        view_ref: The view reference.
+        metadata: The metadata of the variables stored in the view.
+        dry_run: If True, the variables are not created.
+
+    Returns:
+        True if variables are missing.
+    """
+    result = False
+    for variable in metadata.variables.values():
+        try:
+            zarr.open_array(fs.get_mapper(
+                join_path(base_dir, partition, variable.name)),
+                            mode='r')
+        except zarr.errors.ArrayNotFoundError:
+            result = True
+            if dry_run:
+                break
+            group: zarr.Group = zarr.open_consolidated(  # type: ignore
+                view_ref.fs.get_mapper(
+                    join_path(view_ref.partition_properties.dir, partition)),
+                mode='r')
+            _create_zarr_array(
+                (partition, group),
+                base_dir=base_dir,
+                fs=fs,
+                template=view_ref.metadata.search_same_dimensions_as(
+                    variable).name,
+                variable=variable)
+    return result
+
+
 def _extend_partition(
     partition: str,
     fs: fsspec.AbstractFileSystem,
@@ -686,6 +735,12 @@ def _sync(
             _remove_partition(partition_view, fs)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
+    missing: bool = _create_missing_variables(partition,
+                                              base_dir=base_dir,
+                                              fs=fs,
+                                              view_ref=view_ref,
+                                              metadata=metadata,
+                                              dry_run=dry_run)
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
@@ -705,7 +760,7 @@ def _sync(
             _remove_partition(partition_view, fs)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
-    return None
+    return partition if missing else None
 
 
 def _serialize_filters(filters: collection.PartitionFilter, ) -> str:
-- 
2.43.0


From baad5d92285fea4fa55b0e1b8515175a06e70a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 31/49] fix: drop the index of the partitions that no longer
 contain indexed data

---
 zcollection/indexing/abc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..8c3821e 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -274,7 +274,11 @@ class Indexer(abc.ABC):
         partitions = []
         for partition, data in bag.compute():
             length = data.size
-            # If the current item is empty, skip it.
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
+            # If the current item is empty, skip it (its previous index is
+            # dropped).
             if length == 0:
                 continue
             # Create a new table with the indexed data.
@@ -287,9 +291,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
-- 
2.43.0


From 50927a068a0d30319472e07636c318ae6d709e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 32/49] fix: keep the existing index if writing the new one
 fails

---
 zcollection/fs_utils.py     | 2 ++
 zcollection/indexing/abc.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index 915bb2d..38eadb1 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -46,6 +46,8 @@ def replace_file(
     """
     local: bool = isinstance(fs,
                              fsspec.implementations.local.LocalFileSystem)
+    if local:
+        path = normalize_path(fs, path)
     temp: str = f'{path}.tmp' if local else path
     with fs.open(temp, mode=mode) as stream:
         yield stream
diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 8c3821e..b8268ee 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -18,7 +18,7 @@ import numpy
 import pyarrow
 import pyarrow.parquet
 
-from .. import collection, dataset
+from .. import collection, dataset, fs_utils
 from ..collection.callable_objects import MapCallable
 from ..type_hints import NDArray
 
@@ -329,7 +329,9 @@ class Indexer(abc.ABC):
         table = pyarrow.concat_tables(tables)
         if len(self._meta) and table.schema.metadata is None:
             table = table.replace_schema_metadata(self._meta)
-        pyarrow.parquet.write_table(table, self._path, filesystem=self._fs)
+        # The existing index is replaced once the new one is written.
+        with fs_utils.replace_file(self._fs, self._path, mode='wb') as stream:
+            pyarrow.parquet.write_table(table, stream)
         self._table = table
 
     @abc.abstractmethod
-- 
2.43.0


From f35dcc55d52fbf719453841a2d3bf046048e9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:23 +0000
Subject: [PATCH 33/49] fix: report the errors met when listing the directories
 to copy

---
 zcollection/fs_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/fs_utils.py b/zcollection/fs_utils.py
index 38eadb1..dc8f539 100644
--- a/zcollection/fs_utils.py
+++ b/zcollection/fs_utils.py
@@ -119,7 +119,7 @@ def fs_walk(
     dirs, files = [], []
     try:
         listing: list[dict[str, Any]] = fs.ls(path, detail=True)
-    except (FileNotFoundError, OSError):
+    except FileNotFoundError:
         yield '', [], []
         return
 
-- 
2.43.0


From 56f0f086bc79fbc0e4c9fdae2cf09c3c60a6328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:54 +0000
Subject: [PATCH 34/49] fix: wait for the tasks of a view update that fails to
 load its partitions

---
 zcollection/view/detail.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 6447810..8531067 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -24,12 +24,13 @@ import fsspec
 import numpy
 import zarr
 
-from .. import collection, dataset, meta
+from .. import collection, dataset, meta, sync
 from ..collection.detail import _update_with_overlap
 from ..fs_utils import get_fs, join_path
 from ..storage import (
     DIMENSIONS,
     _AtomicStore,
+    execute_transaction,
     open_zarr_array,
     open_zarr_group,
     update_zarr_array,
@@ -266,8 +267,10 @@ def _load_datasets_list(
         view_ref=client.scatter(view_ref),
         variables=metadata.select_variables(selected_variables))
 
-    return filter(lambda item: item is not None,
-                  client.gather(futures))  # type: ignore[arg-type]
+    # If a partition cannot be loaded, the other tasks are awaited.
+    return filter(
+        lambda item: item is not None,
+        execute_transaction(client, sync.NoSync(), futures) or ())
 
 
 def _assert_have_variables(metadata: meta.Dataset) -> None:
-- 
2.43.0


From d3791f3108cefcd8358bb89fd216ae0aa5ed46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:37 +0000
Subject: [PATCH 35/49] fix: ignore the listings cached by the workers before
 the partitions were modified

---
 zcollection/collection/__init__.py | 2 ++
 zcollection/collection/detail.py   | 3 +++
 zcollection/storage.py             | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 9a34e2d..3ff0910 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -766,6 +766,8 @@ class Collection(ReadOnlyCollection):
 
         def worker_task(args: Sequence[tuple[str, str]]) -> None:
             """Function call on each worker to copy the partitions."""
+            # The partitions may have been modified by another worker.
+            self.fs.invalidate_cache()
             tuple(map(lambda arg: partial(*arg), args))
 
         filesystem.makedirs(target, exist_ok=True)
diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 02a929e..980a615 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -412,6 +412,9 @@ def _insert(
     partition, indexer = args
     dirname: str = join_path(*((partitioning_properties.dir, ) + partition))
 
+    # The partition may have been modified by another worker.
+    fs.invalidate_cache(dirname)
+
     # An interrupted insertion may have set aside the existing data.
     merging.restore(dirname, fs)
 
diff --git a/zcollection/storage.py b/zcollection/storage.py
index a712ac7..288ddc3 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -455,6 +455,8 @@ def del_zarr_array(
     """
     _LOGGER.debug('Deleting Zarr array %r', dirname)
     path: str = join_path(dirname, name)
+    # The array may have been created by another worker.
+    fs.invalidate_cache(path)
     if fs.exists(path):
         fs.rm(path, recursive=True)
     # Even if the array no longer exists: an interrupted deletion may have left
-- 
2.43.0


From 53140d988fea0ab5dfa0d0eb2c01ca68a879190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:19 +0000
Subject: [PATCH 36/49] fix: parse the keys of a partition at the end of its
 path

A collection stored below a directory named like its partitions
(year=2000/c/year=1999) could not be listed: the keys were searched for
from the beginning of the path.
---
 zcollection/partitioning/abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..f448a7a 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -260,7 +260,8 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        return re.compile(
+            '.'.join(f'({item})=([^=]*)' for item in self._keys()) + '$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From 4a6b9bf01d3ad676220e90f23aa74c4d4e784b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:19 +0000
Subject: [PATCH 37/49] fix: keep the temporary data of a merge inside the
 collection

The components of the path holding a '=' were all removed: a collection
stored below such a directory wrote its temporary data elsewhere, and left
a directory behind.
---
 zcollection/merging/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index ffbe57f..0394aab 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -113,7 +113,9 @@ def _rename(
 
 def _extract_root_dirname(dirname: str, sep: str) -> str:
     """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
+    parts = dirname.split(sep)
+    while len(parts) > 1 and '=' in parts[-1]:
+        parts.pop()
     return sep.join(parts)
 
 
-- 
2.43.0


From 55fbbbb10c1ea86dc45c9ec41f763e00f7f46c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:19 +0000
Subject: [PATCH 38/49] fix: keep all the records of a slice that contains
 others

The slices of an index can overlap. The end of the merged slice was the one
of the last slice, even if a previous one ended later.
---
 zcollection/indexing/abc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index b8268ee..393c65d 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -381,6 +381,14 @@ class Indexer(abc.ABC):
         start = table[self.START].to_numpy()
         stop = table[self.STOP].to_numpy()
 
+        # A slice can contain the following ones: the stop of a slice is the
+        # last one reached since the beginning of its group.
+        groups = numpy.zeros(len(table), dtype='int64')
+        for values in data.values():
+            groups[1:] += values[1:] != values[:-1]
+        offset = numpy.cumsum(groups != 0) * (stop.max(initial=0) + 1)
+        stop = numpy.maximum.accumulate(stop + offset) - offset
+
         # Calculate the indexes of each contiguous slice.
         # index = [0,     1, ...,   69,    70, ...,   134]
         # start = [817, 823, ..., 2320, 17333, ..., 19337]
-- 
2.43.0


From 13dac18e5b9a2a60c7aab48b227ac7c02eb660a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:19 +0000
Subject: [PATCH 39/49] fix: give the immutable data to the function whose
 result is inferred

update() called the function once, to know the variables it returns, with
the partitioned variables only.
---
 zcollection/collection/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 3ff0910..e1508a2 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -39,6 +39,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _load_dataset,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -90,11 +91,9 @@ def _infer_callable(
         except StopIteration:
             return ()
 
-        zds: dataset.Dataset = storage.open_zarr_group(
-            one_partition,
-            collection.fs,
-            delayed=delayed,
-            selected_variables=selected_variables)
+        zds: dataset.Dataset = _load_dataset(delayed, collection.fs,
+                                             collection._immutable,
+                                             one_partition, selected_variables)
         func_result: dict[str, Any]
         func_result = _try_infer_callable(func, zds,
                                           collection.partition_properties.dim,
-- 
2.43.0


From c22f4d94fef74f350c28f57c5345dec328bb3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:19 +0000
Subject: [PATCH 40/49] fix: hold the lock while invalid partitions are removed

validate_partitions(fix=True) could remove a partition that another process
was writing.
---
 zcollection/collection/__init__.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index e1508a2..de67994 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -800,8 +800,22 @@ class Collection(ReadOnlyCollection):
         Returns:
             A list of invalid partitions.
         """
-        if fix and self.is_readonly():
+        if not fix:
+            return self._invalid_partitions(filters)
+        if self.is_readonly():
             raise io.UnsupportedOperation('not writable')
+        # A partition being written by another process is not invalid.
+        with self.synchronizer:
+            invalid_partitions = self._invalid_partitions(filters)
+            for item in invalid_partitions:
+                _LOGGER.info('Removing invalid partition: %s', item)
+                self.fs.rm(item, recursive=True)
+                self.fs.invalidate_cache(item)
+        return invalid_partitions
+
+    def _invalid_partitions(self,
+                            filters: PartitionFilter | None) -> list[str]:
+        """Returns the list of invalid partitions."""
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
@@ -818,10 +832,4 @@ class Collection(ReadOnlyCollection):
                 warnings.warn(f'Invalid partition: {partition}',
                               category=RuntimeWarning)
                 invalid_partitions.append(partition)
-
-        if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
-                self.fs.invalidate_cache(item)
         return invalid_partitions
-- 
2.43.0


From cbbfed06edc969d52d6d20862c5ecebfe5876b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 41/49] fix: report the errors met while reading stored data
 instead of taking them for missing data

---
 zcollection/collection/__init__.py |  4 ++--
 zcollection/collection/abc.py      |  2 +-
 zcollection/storage.py             | 37 +++++++++++++++++++++++++++---
 zcollection/view/detail.py         | 22 +++++++++---------
 4 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index de67994..4a21129 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -123,9 +123,9 @@ def _check_partition(
     """
     try:
         partitioning_strategy.parse(partition)
-    except ValueError:
+        return partition, storage.check_zarr_group(partition, fs)
+    except (OSError, ValueError):
         return partition, False
-    return partition, storage.check_zarr_group(partition, fs)
 
 
 class Collection(ReadOnlyCollection):
diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index 3e19c14..b4da64e 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -694,7 +694,7 @@ class ReadOnlyCollection:
             (
                 self._relative_path(item) if relative else item,
                 zarr.open_consolidated(
-                    self.fs.get_mapper(item),  # type: ignore
+                    storage.Store(item, self.fs),  # type: ignore
                     mode='r',
                 )) for item in self.partitions())
 
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 288ddc3..cc32bcf 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -95,6 +95,37 @@ def execute_transaction(
             raise
 
 
+class Store(zarr.storage.FSStore):
+    """Zarr store using a directory of a file system.
+
+    By default, Zarr takes any error met while reading for a missing key, i.e.
+    for data that have never been written. Here, only the files that do not
+    exist are missing: the other errors are raised.
+
+    Args:
+        dirname: The directory used by the store.
+        fs: The file system that the directory is stored on.
+    """
+
+    def __init__(
+        self,
+        dirname: str,
+        fs: fsspec.AbstractFileSystem,
+    ) -> None:
+        super().__init__(dirname, fs=fs, exceptions=(KeyError, ))
+
+    def getitems(self, keys: Sequence[str], **kwargs: Any) -> dict[str, Any]:
+        """Read several keys, without those missing."""
+        result: dict[str, Any] = {}
+        for key, value in self.map.getitems(keys, on_error='return').items():
+            if isinstance(value, KeyError):
+                continue
+            if isinstance(value, Exception):
+                raise value
+            result[key] = value
+        return result
+
+
 class _AtomicStore(zarr.storage.KVStore):
     """Replace atomically the files of a local file system: whoever reads a
     file gets the old content or the new one."""
@@ -374,7 +405,7 @@ def open_zarr_group(
     """
     _LOGGER.debug('Opening Zarr group %r', dirname)
     store: zarr.Group = zarr.open_consolidated(  # type: ignore[arg-type]
-        fs.get_mapper(dirname), mode='r')
+        Store(dirname, fs), mode='r')
     # Ignore unknown variables to retain.
     selected_variables = set(selected_variables) & set(
         store) if selected_variables is not None else set(store)
@@ -494,7 +525,7 @@ def add_zarr_array(
     _LOGGER.debug('Adding variable %r to Zarr dataset %r', variable.name,
                   dirname)
     shape: tuple[int, ...] = zarr.open(  # type: ignore[arg-type]
-        fs.get_mapper(join_path(dirname, template))).shape
+        Store(join_path(dirname, template), fs), mode='r').shape
 
     var_chunks: tuple[int | str, ...] = shape if chunks is None else tuple(
         chunks.get(dim, shape[ix])  # type: ignore[misc]
@@ -531,7 +562,7 @@ def check_zarr_group(
     """
     try:
         store: zarr.Group = zarr.open_consolidated(  # type: ignore
-            fs.get_mapper(dirname),
+            Store(dirname, fs),
             mode='r',
         )
         for _, array in store.arrays():
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 8531067..d7f36e4 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -29,6 +29,7 @@ from ..collection.detail import _update_with_overlap
 from ..fs_utils import get_fs, join_path
 from ..storage import (
     DIMENSIONS,
+    Store,
     _AtomicStore,
     execute_transaction,
     open_zarr_array,
@@ -192,7 +193,7 @@ def _load_one_dataset(
     zds = dataset.Dataset([
         *zds.variables.values(), *(open_zarr_array(
             zarr.open(  # type: ignore[arg-type]
-                fs.get_mapper(join_path(base_dir, partition, variable)),
+                Store(join_path(base_dir, partition, variable), fs),
                 mode='r',
             ),
             variable,
@@ -446,7 +447,7 @@ def _calculate_axis_reference(
     """
     store: zarr.Group
     store = group or zarr.open_consolidated(  # type: ignore[arg-type]
-        view_ref.fs.get_mapper(path), )
+        Store(path, view_ref.fs), mode='r')
     array: zarr.Array = store[view_ref.axis]  # type: ignore[arg-type]
     axis: NDArray = array[...]
     checksum: str = hashlib.sha256(axis.tobytes()).hexdigest()
@@ -498,8 +499,7 @@ def _load_checksum_array(
         checksum.
     """
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
-    mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
-    return zarr.open_array(mapper, mode='r')
+    return zarr.open_array(Store(checksum_path, fs), mode='r')
 
 
 def _write_checksum(
@@ -543,10 +543,10 @@ def _sync_partition(
         fs: The file system used to access the variables in the view.
         view_ref: The view reference.
     """
-    mapper: fsspec.FSMap = view_ref.fs.get_mapper(
-        join_path(view_ref.partition_properties.dir, partition))
     group: zarr.Group = zarr.open_consolidated(  # type: ignore
-        mapper, mode='r')
+        Store(join_path(view_ref.partition_properties.dir, partition),
+              view_ref.fs),
+        mode='r')
     path: str = join_path(base_dir, partition)
     try:
         for variable in metadata.variables.values():
@@ -613,16 +613,16 @@ def _create_missing_variables(
     result = False
     for variable in metadata.variables.values():
         try:
-            zarr.open_array(fs.get_mapper(
-                join_path(base_dir, partition, variable.name)),
+            zarr.open_array(Store(join_path(base_dir, partition,
+                                            variable.name), fs),
                             mode='r')
         except zarr.errors.ArrayNotFoundError:
             result = True
             if dry_run:
                 break
             group: zarr.Group = zarr.open_consolidated(  # type: ignore
-                view_ref.fs.get_mapper(
-                    join_path(view_ref.partition_properties.dir, partition)),
+                Store(join_path(view_ref.partition_properties.dir, partition),
+                      view_ref.fs),
                 mode='r')
             _create_zarr_array(
                 (partition, group),
-- 
2.43.0


From df5f2d59315a8d14fd11efe85ed5711f1d4a07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 42/49] fix: report as invalid a partition whose compressed
 data are corrupted

---
 zcollection/storage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index cc32bcf..7683ac7 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -25,7 +25,6 @@ import numcodecs.abc
 import numcodecs.blosc
 import numpy
 import zarr
-import zarr.errors
 import zarr.storage
 
 from . import dataset, meta, sync
@@ -568,7 +567,12 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (KeyError, RuntimeError, TypeError, ValueError,
-            zarr.errors.MetadataError):
+    except OSError:
+        # The content of the directory is unknown.
+        raise
+    # pylint: disable=broad-except
+    # The codecs raise exceptions of any type if the data are corrupted.
+    except Exception:
         return False
+    # pylint: enable=broad-except
     return True
-- 
2.43.0


From 9ba756b129f2bab689d642d3cf0de5cb60d21768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 43/49] fix: consolidate the metadata only if all the files of
 a partition can be listed

---
 zcollection/storage.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 7683ac7..b4f845a 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -8,7 +8,7 @@ I/O operations
 """
 from __future__ import annotations
 
-from typing import Any, Callable, Iterable, Sequence
+from typing import Any, Callable, Iterable, Iterator, Sequence
 import collections
 import json
 import logging
@@ -28,7 +28,7 @@ import zarr
 import zarr.storage
 
 from . import dataset, meta, sync
-from .fs_utils import join_path
+from .fs_utils import fs_walk, join_path
 from .type_hints import ArrayLike, NDArray
 
 #: Name of the attribute storing the names of the dimensions of an array.
@@ -129,6 +129,13 @@ class _AtomicStore(zarr.storage.KVStore):
     """Replace atomically the files of a local file system: whoever reads a
     file gets the old content or the new one."""
 
+    def __iter__(self) -> Iterator[str]:
+        # Unlike the mapper, errors met while listing the files are raised.
+        mapper: fsspec.FSMap = self._mutable_mapping
+        for dirname, _, files in fs_walk(mapper.fs, mapper.root):
+            yield from (os.path.relpath(join_path(dirname, name), mapper.root)
+                        for name in files)
+
     def __setitem__(self, key: str, value: Any) -> None:
         mapper: fsspec.FSMap = self._mutable_mapping
         if not isinstance(mapper.fs,
-- 
2.43.0


From 8accfa40315145d11db9844c8175140d97817b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:04 +0000
Subject: [PATCH 44/49] fix: store the immutable data of an insertion only once
 it has been found valid

---
 zcollection/collection/__init__.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 4a21129..26260de 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -374,7 +374,18 @@ class Collection(ReadOnlyCollection):
         ds = ds.set_for_insertion(self.metadata)
         client: dask.distributed.Client = dask_utils.get_client()
 
+        # Process the partitions to insert or update by batches to avoid
+        # memory issues.
+        partitions = tuple(
+            self.partitioning.split_dataset(ds, self.partition_properties.dim))
+
+        if npartitions is not None:
+            if npartitions < 1:
+                raise ValueError('The number of partitions must be positive')
+            npartitions = len(partitions) // npartitions + 1
+
         # If the dataset contains variables that should not be partitioned.
+        # Nothing is written before the dataset has been found valid.
         if self._immutable is not None:
 
             # On the first call, we store the immutable variables in
@@ -388,16 +399,6 @@ class Collection(ReadOnlyCollection):
             ds = ds.select_variables_by_dims(
                 (self.partition_properties.dim, ))
 
-        # Process the partitions to insert or update by batches to avoid
-        # memory issues.
-        partitions = tuple(
-            self.partitioning.split_dataset(ds, self.partition_properties.dim))
-
-        if npartitions is not None:
-            if npartitions < 1:
-                raise ValueError('The number of partitions must be positive')
-            npartitions = len(partitions) // npartitions + 1
-
         scattered_ds: Any = client.scatter(ds)
         try:
             for sequence in dask_utils.split_sequence(partitions, npartitions):
-- 
2.43.0


From f22fd869e5ff1dc9d2a26d74ccc9e8c841b709c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:04 +0000
Subject: [PATCH 45/49] fix: update with depth accepts any sequence of selected
 variables and leaves it unchanged

---
 zcollection/collection/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 26260de..7a18dac 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -554,8 +554,10 @@ class Collection(ReadOnlyCollection):
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-            selected_variables += list(
-                set(variables) - set(selected_variables))
+            selected_variables = [
+                *selected_variables,
+                *(set(variables) - set(selected_variables))
+            ]
 
         _LOGGER.info('Updating of the (%s) variable in the collection',
                      ', '.join(repr(item) for item in variables))
-- 
2.43.0


From b2bf78e14a6d5aeb5733b600c8711842d47b7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:04 +0000
Subject: [PATCH 46/49] fix: refuse to drop the axis of a collection

---
 zcollection/collection/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 7a18dac..16b04c3 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -621,6 +621,9 @@ class Collection(ReadOnlyCollection):
         if variable in self.partitioning.variables:
             raise ValueError(
                 f'The variable {variable!r} is part of the partitioning.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-- 
2.43.0


From a4f47d646c9d21f2933f89244f1a9c7d7a20ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:04 +0000
Subject: [PATCH 47/49] fix: refuse to copy a collection onto itself

---
 zcollection/collection/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 16b04c3..c4f90b7 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -745,6 +745,10 @@ class Collection(ReadOnlyCollection):
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
             filesystem = self.fs
+        if (filesystem == self.fs
+                and fs_utils.normalize_path(filesystem, target)
+                == self.partition_properties.dir):
+            raise ValueError('The collection cannot be copied onto itself.')
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
-- 
2.43.0


From c07e5ab16089e64c3b7d6851fe7a5e5b13878a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:26 +0000
Subject: [PATCH 48/49] fix: query an index for a single value of a column of
 strings

---
 zcollection/indexing/abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 393c65d..5c7d04a 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -446,9 +446,11 @@ class Indexer(abc.ABC):
             raise ValueError(
                 f'Invalid column names: {", ".join(columns.keys())}')
 
-        # Transform the columns values into a list if they are not iterable.
+        # Transform the columns values into a list if they are not iterable (a
+        # string is a value).
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k: [v] if isinstance(v, (bytes, str))
+            or not isinstance(v, Iterable) else v
             for k, v in columns.items()
         }
 
-- 
2.43.0


From 71e27a6340ff8e415492ce7f67aba05e73761cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 49/49] fix: repair the variables of a view left incomplete or
 of another size

A variable added to a view whose creation was interrupted, or that was added
or extended while the reference stored another axis, was left unreadable by
View.sync, which claimed that the view was synchronized or failed.  The
variables that cannot be opened are created again and those that do not have
the size of the axis are resized.
---
 zcollection/view/detail.py | 83 +++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index d7f36e4..dfe23e3 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -585,19 +585,24 @@ def _remove_partition(
             fs.invalidate_cache(path)
 
 
-def _create_missing_variables(
+def _repair_variables(
     partition: str,
     *,
     base_dir: str,
     fs: fsspec.AbstractFileSystem,
     view_ref: collection.Collection,
     metadata: meta.Dataset,
+    axis_ref: AxisReference,
+    resize: bool,
     dry_run: bool = False,
 ) -> bool:
-    """Create the variables missing in a partition of the view.
+    """Create the variables missing in a partition of the view, and resize
+    those that don't have the size of the axis.
 
     Variables are missing if they were added to the view while the partition
-    was not in the reference collection.
+    was not in the reference collection, or if their creation was interrupted.
+    Their size is wrong if they were added, or extended, while the reference
+    collection stored another axis.
 
     Args:
         partition: The partition to process.
@@ -605,18 +610,22 @@ def _create_missing_variables(
         fs: The file system used to access the variables in the view.
         view_ref: The view reference.
         metadata: The metadata of the variables stored in the view.
-        dry_run: If True, the variables are not created.
+        axis_ref: The axis reference of the partition.
+        resize: If True, the size of the variables is checked.
+        dry_run: If True, the variables are not modified.
 
     Returns:
-        True if variables are missing.
+        True if variables have to be repaired.
     """
     result = False
     for variable in metadata.variables.values():
+        path: str = join_path(base_dir, partition, variable.name)
         try:
-            zarr.open_array(Store(join_path(base_dir, partition,
-                                            variable.name), fs),
-                            mode='r')
-        except zarr.errors.ArrayNotFoundError:
+            array: zarr.Array = zarr.open_array(Store(path, fs), mode='r')
+            # The attributes are written last.
+            array.attrs[DIMENSIONS]  # pylint: disable=pointless-statement
+        except (KeyError, RuntimeError, TypeError, ValueError,
+                zarr.errors.MetadataError):
             result = True
             if dry_run:
                 break
@@ -631,9 +640,39 @@ def _create_missing_variables(
                 template=view_ref.metadata.search_same_dimensions_as(
                     variable).name,
                 variable=variable)
+            continue
+        if (resize and axis_ref.dimension in variable.dimensions
+                and array.shape[variable.dimensions.index(axis_ref.dimension)]
+                != axis_ref.array.shape[0]):
+            result = True
+            if dry_run:
+                break
+            _resize_variable(path, fs, axis_ref, variable)
     return result
 
 
+def _resize_variable(
+    path: str,
+    fs: fsspec.AbstractFileSystem,
+    axis_ref: AxisReference,
+    variable: meta.Variable,
+) -> None:
+    """Give to a variable of the view the size of the axis of the reference.
+
+    Args:
+        path: The path of the variable.
+        fs: The file system used to access the variables in the view.
+        axis_ref: The axis reference of the partition.
+        variable: The properties of the variable.
+    """
+    array: zarr.Array = zarr.open_array(_AtomicStore(fs.get_mapper(path)),
+                                        mode='r+')
+    shape = list(array.shape)
+    shape[variable.dimensions.index(
+        axis_ref.dimension)] = axis_ref.array.shape[0]
+    array.resize(shape)
+
+
 def _extend_partition(
     partition: str,
     fs: fsspec.AbstractFileSystem,
@@ -652,16 +691,10 @@ def _extend_partition(
         axis_ref: The axis reference of the partition.
         metadata: The metadata of the variables stored in the view.
     """
-    new_size: int = axis_ref.array.shape[0]
     for variable in metadata.variables.values():
         if axis_ref.dimension in variable.dimensions:
-            axis: int = variable.dimensions.index(axis_ref.dimension)
-            array: zarr.Array = zarr.open_array(_AtomicStore(
-                fs.get_mapper(join_path(partition, variable.name))),
-                                                mode='r+')
-            shape = list(array.shape)
-            shape[axis] = new_size
-            array.resize(shape)
+            _resize_variable(join_path(partition, variable.name), fs, axis_ref,
+                             variable)
     _write_checksum_array(partition, fs, axis_ref)
     fs.invalidate_cache(partition)
 
@@ -738,12 +771,14 @@ def _sync(
             _remove_partition(partition_view, fs)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
-    missing: bool = _create_missing_variables(partition,
-                                              base_dir=base_dir,
-                                              fs=fs,
-                                              view_ref=view_ref,
-                                              metadata=metadata,
-                                              dry_run=dry_run)
+    repaired: bool = _repair_variables(partition,
+                                       base_dir=base_dir,
+                                       fs=fs,
+                                       view_ref=view_ref,
+                                       metadata=metadata,
+                                       axis_ref=axis_ref,
+                                       resize=axis_ref.checksum == checksum,
+                                       dry_run=dry_run)
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
@@ -763,7 +798,7 @@ def _sync(
             _remove_partition(partition_view, fs)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
-    return partition if missing else None
+    return partition if repaired else None
 
 
 def _serialize_filters(filters: collection.PartitionFilter, ) -> str:
-- 
2.43.0

