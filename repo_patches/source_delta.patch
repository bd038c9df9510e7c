From b724a70d1415f091f2fcddaa72894ec8caa5118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 01/26] fix: close the archive file when an archive operation
 fails

---
 la/io.py | 169 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 93 insertions(+), 76 deletions(-)

diff --git a/la/io.py b/la/io.py
index aa7b6b4..379d429 100644
--- a/la/io.py
+++ b/la/io.py
@@ -161,17 +161,14 @@ class IO(object):
         return len(self.keys())
 
     def __getitem__(self, key):
-        f = h5py.File(self.filename, 'r')
-        if key in f:
-            if _is_archived_larry(f[key]):
-                f.close()
-                x = lara(self.filename, key)
-                return x
+        with h5py.File(self.filename, 'r') as f:
+            if key in f:
+                if not _is_archived_larry(f[key]):
+                    msg = "%s is in the archive but it is not a larry."
+                    raise KeyError(msg % key)
             else:
-                msg = "%s is in the archive but it is not a larry."
-                raise KeyError(msg % key)
-        else:
-            raise KeyError("A larry named %s is not in the archive." % key)
+                raise KeyError("A larry named %s is not in the archive." % key)
+        return lara(self.filename, key)
 
     def __setitem__(self, key, value):
 
@@ -181,18 +178,16 @@ class IO(object):
         if not isinstance(value, larry):
             raise TypeError('value must be a larry.')
 
-        f = h5py.File(self.filename)
+        with h5py.File(self.filename) as f:
 
-        # Does an item (larry or otherwise) with given key already exist? If
-        # so delete. Note that f.keys() [all keys] is used instead of
-        # self.keys() [keys that are larrys].
-        if key in f.keys():
-            self.__delitem__(key)
+            # Does an item (larry or otherwise) with given key already exist?
+            # If so delete. Note that f.keys() [all keys] is used instead of
+            # self.keys() [keys that are larrys].
+            if key in f.keys():
+                self.__delitem__(key)
 
-        # If you've made it this far the data looks OK so save it
-        save(f, value, key)
-
-        f.close()
+            # If you've made it this far the data looks OK so save it
+            save(f, value, key)
 
     def __delitem__(self, key):
         delete(self.filename, key)
@@ -206,23 +201,21 @@ class IO(object):
         table = [['larry', 'dtype', 'shape']]
         keys = self.keys()
         keys.sort()  # Display in alphabetical order
-        f = h5py.File(self.filename, 'r')
-        for key in keys:
-            # Code would be neater if I wrote shape = str(self[key].shape)
-            # but I don't want to load the array, I just want the shape
-            x = f[key]['x']
-            shape = str(x.shape)
-            dtype = str(x.dtype)
-            table.append([key, dtype, shape])
-        f.close()
+        with h5py.File(self.filename, 'r') as f:
+            for key in keys:
+                # Code would be neater if I wrote shape = str(self[key].shape)
+                # but I don't want to load the array, I just want the shape
+                x = f[key]['x']
+                shape = str(x.shape)
+                dtype = str(x.dtype)
+                table.append([key, dtype, shape])
         return indent(table, hasHeader=True, delim='  ')
 
     @property
     def space(self):
         "The number of bytes used by the archive."
-        f = h5py.File(self.filename, 'r')
-        size = f.fid.get_filesize()
-        f.close()
+        with h5py.File(self.filename, 'r') as f:
+            size = f.fid.get_filesize()
         return size
 
     @property
@@ -235,10 +228,9 @@ class IO(object):
             global size
             if isinstance(value, h5py.Dataset):
                 size += value.id.get_storage_size()
-        f = h5py.File(self.filename, 'r')
-        f.visititems(sizefinder)
-        fs = self.space - size
-        f.close()
+        with h5py.File(self.filename, 'r') as f:
+            f.visititems(sizefinder)
+            fs = self.space - size
         return fs
 
     def repack(self):
@@ -329,32 +321,32 @@ class lara(object):
         labelindex = larry.labelindex
 
     def __getitem__(self, index):
-        f = h5py.File(self.filename, 'r')
-        self.x = f[self.key]['x']
-        lar = self._larry_getitem(index)
-        f.close()
-        self.x = None
+        with h5py.File(self.filename, 'r') as f:
+            self.x = f[self.key]['x']
+            try:
+                lar = self._larry_getitem(index)
+            finally:
+                self.x = None
         return lar
 
     def __setitem__(self, index, value):
-        f = h5py.File(self.filename)
-        self.x = f[self.key]['x']
-        self._larry_setitem(index, value)
-        self.x = None
-        f.close()
+        with h5py.File(self.filename) as f:
+            self.x = f[self.key]['x']
+            try:
+                self._larry_setitem(index, value)
+            finally:
+                self.x = None
 
     @property
     def shape(self):
-        f = h5py.File(self.filename, 'r')
-        s = f[self.key]['x'].shape
-        f.close()
+        with h5py.File(self.filename, 'r') as f:
+            s = f[self.key]['x'].shape
         return s
 
     @property
     def dtype(self):
-        f = h5py.File(self.filename, 'r')
-        dt = f[self.key]['x'].dtype
-        f.close()
+        with h5py.File(self.filename, 'r') as f:
+            dt = f[self.key]['x'].dtype
         return dt
 
     @property
@@ -434,6 +426,15 @@ def save(file, lar, key):
 
     # Get a h5py.File instance
     f, opened = _openfile(file)
+    try:
+        _save(f, lar, key)
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
+
+def _save(f, lar, key):
+    "Save a larry in an open archive."
 
     # Do we need to create any intermediate groups?
     _create_nested_groups(f, key)
@@ -446,11 +447,7 @@ def save(file, lar, key):
         fkey[str(i)], datetime_type = _list2array(lar.label[i])
         fkey[str(i)].attrs['datetime_type'] = datetime_type
 
-    # Close if file is a filename
-    if opened:
-        f.close()
-    else:
-        f.flush()
+    f.flush()
 
 def load(file, key):
     """
@@ -501,6 +498,15 @@ def load(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
+    try:
+        return _load(f, key)
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
+
+def _load(f, key):
+    "Load a larry from an open archive."
     if key not in f:
         raise KeyError("A larry named '%s' is not in archive." % key)
     if not _is_archived_larry(f[key]):
@@ -511,10 +517,6 @@ def load(file, key):
     x = group['x'][:]
     label = _load_label(f, key)
 
-    # Close if file is a filename
-    if opened:
-        f.close()
-
     return larry(x, label)
 
 def delete(file, key):
@@ -559,6 +561,15 @@ def delete(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
+    try:
+        _delete(f, key)
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
+
+def _delete(f, key):
+    "Delete a larry from an open archive."
     if key not in f:
         raise KeyError("A larry named '%s' is not in archive." % key)
     if not _is_archived_larry(f[key]):
@@ -567,10 +578,6 @@ def delete(file, key):
     # Delete
     del f[key]
 
-    # Close if file is a filename
-    if opened:
-        f.close()
-
 def repack(file):
     """
     Repack archive to remove freespace.
@@ -610,12 +617,14 @@ def repack(file):
 def is_archived_larry(file, key):
     "True if the key (larry name) is in the archive, False otherwise."
     f, opened = _openfile(file)
-    if key in f:
-        answer = _is_archived_larry(f[key])
-    else:
-        raise ValueError('key (%s) is not in archive.' % str(key))
-    if opened:
-        f.close()
+    try:
+        if key in f:
+            answer = _is_archived_larry(f[key])
+        else:
+            raise ValueError('key (%s) is not in archive.' % str(key))
+    finally:
+        if opened:
+            f.close()
     return answer
 
 def archive_directory(file):
@@ -625,9 +634,11 @@ def archive_directory(file):
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
             keys.append(name)
-    f.visititems(append_larrys)
-    if opened:
-        f.close()
+    try:
+        f.visititems(append_larrys)
+    finally:
+        if opened:
+            f.close()
     return keys
 
 # Utility functions for internal use ----------------------------------------
@@ -635,6 +646,14 @@ def archive_directory(file):
 def _load_label(file, key):
     "Load larry labels from archive given the hpy5.Group object of the larry."
     f, opened = _openfile(file)
+    try:
+        return _read_label(f, key)
+    finally:
+        if opened:
+            f.close()
+
+def _read_label(f, key):
+    "Load the label of a larry from an open archive."
     ndim = len(f[key + '/x'].shape)
     group = f[key]
     label = []
@@ -652,8 +671,6 @@ def _load_label(file, key):
             elif datetime_type == 'datetime':
                 labellist = list(map(tuple2datetime, labellist))
         label.append(labellist)
-    if opened:
-        f.close()
     return label
 
 def _list2array(x):
-- 
2.43.0


From 9acb8210332111c9e9e1a33cc8098336596eac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 02/26] fix: keys of an archive are of type str, so that clear
 works

---
 la/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/io.py b/la/io.py
index 379d429..6122a65 100644
--- a/la/io.py
+++ b/la/io.py
@@ -633,6 +633,9 @@ def archive_directory(file):
     keys = []
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
+            if not isinstance(name, str):
+                # h5py names are unicode but keys are of type str
+                name = name.encode('utf-8')
             keys.append(name)
     try:
         f.visititems(append_larrys)
-- 
2.43.0


From 6fec1e2ff5efa70c31daf7db707052e90a366cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 03/26] fix: a rejected or interrupted save no longer damages
 the archive

Data and labels are checked before anything is deleted, a larry is marked
as one only when all of it is in the archive, what an unfinished save leaves
behind is replaced by the next save, and replacing or deleting a larry no
longer deletes the larrys nested in its group.
---
 la/io.py | 83 ++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 17 deletions(-)

diff --git a/la/io.py b/la/io.py
index 6122a65..945c633 100644
--- a/la/io.py
+++ b/la/io.py
@@ -177,17 +177,18 @@ class IO(object):
             raise TypeError('key must be a string of type str.')
         if not isinstance(value, larry):
             raise TypeError('value must be a larry.')
+        arrays = _larry2arrays(value)
 
         with h5py.File(self.filename) as f:
 
-            # Does an item (larry or otherwise) with given key already exist?
-            # If so delete. Note that f.keys() [all keys] is used instead of
-            # self.keys() [keys that are larrys].
-            if key in f.keys():
-                self.__delitem__(key)
+            _check_room(f, arrays, key)
+
+            # Does a larry with given key already exist? If so delete.
+            if key in f and _is_archived_larry(f[key]):
+                _delete(f, key)
 
             # If you've made it this far the data looks OK so save it
-            save(f, value, key)
+            _save(f, arrays, key)
 
     def __delitem__(self, key):
         delete(self.filename, key)
@@ -423,29 +424,38 @@ def save(file, lar, key):
         raise TypeError('lar must be a larry.')
     if type(key) != str:
         raise TypeError('key must be a string.')
+    arrays = _larry2arrays(lar)
 
     # Get a h5py.File instance
     f, opened = _openfile(file)
     try:
-        _save(f, lar, key)
+        _check_room(f, arrays, key)
+        if key in f and _is_archived_larry(f[key]):
+            msg = "A larry named '%s' is already in the archive."
+            raise ValueError(msg % key)
+        _save(f, arrays, key)
     finally:
         # Close if file is a filename
         if opened:
             f.close()
 
-def _save(f, lar, key):
-    "Save a larry in an open archive."
+def _save(f, arrays, key):
+    "Save the output of _larry2arrays in an open archive."
 
     # Do we need to create any intermediate groups?
     _create_nested_groups(f, key)
 
-    # Save larry
+    # Save larry; until all of it is saved it is not marked as a larry
     fkey = f[key]
-    fkey.attrs['larry'] = True
-    fkey['x'] = lar.x
-    for i in range(lar.ndim):
-        fkey[str(i)], datetime_type = _list2array(lar.label[i])
-        fkey[str(i)].attrs['datetime_type'] = datetime_type
+    if 'larry' in fkey.attrs:
+        # Left behind by a save or a delete that did not finish
+        _delete_members(fkey)
+    fkey.attrs['larry'] = False
+    for name, x, datetime_type in arrays:
+        fkey[name] = x
+        if datetime_type is not None:
+            fkey[name].attrs['datetime_type'] = datetime_type
+    fkey.attrs.modify('larry', True)
 
     f.flush()
 
@@ -575,8 +585,21 @@ def _delete(f, key):
     if not _is_archived_larry(f[key]):
         raise KeyError('key (%s) is not a larry.' % key)
 
-    # Delete
-    del f[key]
+    # Delete the larry but not any larrys nested in the same group
+    group = f[key]
+    group.attrs.modify('larry', False)
+    _delete_members(group)
+    if len(group) == 0:
+        del f[key]
+    else:
+        del group.attrs['larry']
+
+def _delete_members(group):
+    "Delete the data and the labels of the larry stored in a group."
+    for name in list(group.keys()):
+        if name == 'x' or name.isdigit():
+            if isinstance(group[name], h5py.Dataset):
+                del group[name]
 
 def repack(file):
     """
@@ -676,6 +699,32 @@ def _read_label(f, key):
         label.append(labellist)
     return label
 
+def _larry2arrays(lar):
+    "The (name, array, datetime_type) of the datasets that store a larry."
+    if type(lar) != larry:
+        raise TypeError('lar must be a larry.')
+    arrays = [('x', lar.x, None)]
+    for i in range(lar.ndim):
+        array, datetime_type = _list2array(lar.label[i])
+        arrays.append((str(i), array, datetime_type))
+    for name, array, datetime_type in arrays:
+        # Raises if HDF5 does not support the dtype
+        h5py.h5t.py_create(array.dtype, logical=1)
+    return arrays
+
+def _check_room(f, arrays, key):
+    "Raise if the arrays cannot be saved without harming another object."
+    if key not in f or not isinstance(f[key], h5py.Group):
+        return  # _create_nested_groups does the checking
+    group = f[key]
+    for name, array, datetime_type in arrays:
+        if name in group:
+            if isinstance(group[name], h5py.Dataset):
+                if 'larry' in group.attrs:
+                    continue
+            msg = '%s/%s already exists and is not part of a larry.'
+            raise ValueError(msg % (key, name))
+
 def _list2array(x):
     "Convert list to array if elements are of the same type, raise otherwise."
     if type(x) != list:
-- 
2.43.0


From 03de0790c266531420ddd33f77fc7febea87abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 04/26] fix: '/a/b' is in an archive that has a larry named
 'a/b'

---
 la/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/io.py b/la/io.py
index 945c633..e599aa8 100644
--- a/la/io.py
+++ b/la/io.py
@@ -194,6 +194,8 @@ class IO(object):
         delete(self.filename, key)
 
     def __contains__(self, key):
+        if type(key) == str:
+            key = '/'.join([name for name in key.split('/') if name != ''])
         if key in self.keys():
             return True
         return False
-- 
2.43.0


From bf5d1e253a5a754ff557efe95f0f056905b6e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 05/26] fix: a disk error while writing the data of a larry is
 reported

---
 la/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index e599aa8..3a1968b 100644
--- a/la/io.py
+++ b/la/io.py
@@ -337,6 +337,7 @@ class lara(object):
             self.x = f[self.key]['x']
             try:
                 self._larry_setitem(index, value)
+                f.flush()  # while x is open, or write errors go unnoticed
             finally:
                 self.x = None
 
@@ -453,10 +454,14 @@ def _save(f, arrays, key):
         # Left behind by a save or a delete that did not finish
         _delete_members(fkey)
     fkey.attrs['larry'] = False
+    dsets = []
     for name, x, datetime_type in arrays:
-        fkey[name] = x
+        # h5py does not report the write errors of a dataset that is already
+        # closed, so keep the datasets open until they are flushed
+        dsets.append(fkey.create_dataset(name, data=x))
         if datetime_type is not None:
             fkey[name].attrs['datetime_type'] = datetime_type
+    f.flush()
     fkey.attrs.modify('larry', True)
 
     f.flush()
-- 
2.43.0


From a8df84a05b967bd6bab48ef2bba724797644a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 06/26] fix: a lara reads data together with the labels that go
 with it

It no longer pairs the labels of a replaced larry with the data of the new
one, no longer keeps the open dataset in an attribute that a second thread or
a nested indexing operation resets, and 'io[key][index] = larry' works.
---
 la/io.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/la/io.py b/la/io.py
index 3a1968b..2752cb4 100644
--- a/la/io.py
+++ b/la/io.py
@@ -1,6 +1,7 @@
 "larry IO module."
 
 import os
+import copy
 import datetime
 import sys
 
@@ -325,21 +326,23 @@ class lara(object):
 
     def __getitem__(self, index):
         with h5py.File(self.filename, 'r') as f:
-            self.x = f[self.key]['x']
-            try:
-                lar = self._larry_getitem(index)
-            finally:
-                self.x = None
+            lar = self._attach(f)._larry_getitem(index)
         return lar
 
     def __setitem__(self, index, value):
         with h5py.File(self.filename) as f:
-            self.x = f[self.key]['x']
-            try:
-                self._larry_setitem(index, value)
-                f.flush()  # while x is open, or write errors go unnoticed
-            finally:
-                self.x = None
+            attached = self._attach(f)
+            attached._larry_setitem(index, value)
+            f.flush()  # while x is open, or write errors go unnoticed
+
+    def _attach(self, f):
+        "Copy of self that holds what the open archive f now has under key."
+        attached = copy.copy(self)
+        attached.x = f[self.key]['x']
+        attached.label = _load_label(f, self.key)
+        # The larry might have been replaced since self was created
+        self.label = [list(label) for label in attached.label]
+        return attached
 
     @property
     def shape(self):
-- 
2.43.0


From f865417183f3a98fa132265ffc309f589c2dd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 07/26] fix: freespace does not share a global between threads

---
 la/io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/la/io.py b/la/io.py
index 2752cb4..5181a12 100644
--- a/la/io.py
+++ b/la/io.py
@@ -225,16 +225,14 @@ class IO(object):
     @property
     def freespace(self):
         "The number of bytes of freespace in the archive."
-        global size
-        size = 0
+        sizes = []
         def sizefinder(key, value):
             "Add size of object to running total"
-            global size
             if isinstance(value, h5py.Dataset):
-                size += value.id.get_storage_size()
+                sizes.append(value.id.get_storage_size())
         with h5py.File(self.filename, 'r') as f:
             f.visititems(sizefinder)
-            fs = self.space - size
+            fs = self.space - sum(sizes)
         return fs
 
     def repack(self):
-- 
2.43.0


From e25f499383f67ab60e6f2feb48fb00332318027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 08/26] fix: repack never leaves the archive name without a
 complete archive

---
 la/io.py | 52 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/la/io.py b/la/io.py
index 5181a12..ef70c10 100644
--- a/la/io.py
+++ b/la/io.py
@@ -628,23 +628,55 @@ def repack(file):
 
     """
     f1, opened = _openfile(file)
-    filename1 = f1.filename
-    filename2 = filename1 + '_repack_tmp_' + randstring(4)
-    f2 = h5py.File(filename2)
-    for key in f1.keys():
-        f1.copy(key, f2)
+    filename2 = None
+    try:
+        filename1 = f1.filename
+        filename2 = filename1 + '_repack_tmp_' + randstring(4)
+        with h5py.File(filename2, 'w') as f2:
+            for key in f1.keys():
+                f1.copy(key, f2)
+            f2.flush()
+        _fsync(filename2)
+    except:
+        # The archive has not been touched
+        if opened:
+            f1.close()
+        if filename2 is not None and os.path.exists(filename2):
+            os.remove(filename2)
+        raise
     f1.close()
-    f2.close()
-    filename_tmp = filename1 + '_repack_rename_tmp_' + randstring(4)
-    os.rename(filename1, filename_tmp)
-    os.rename(filename2, filename1)
+    try:
+        _replace(filename2, filename1)
+    except:
+        if os.path.exists(filename1) and os.path.exists(filename2):
+            os.remove(filename2)
+        raise
     if opened:
         f = None
     else:
         f = h5py.File(filename1)
-    os.remove(filename_tmp)
     return f
 
+def _fsync(filename):
+    "Make sure the file is on disk."
+    fd = os.open(filename, os.O_RDWR)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+def _replace(filename2, filename1):
+    "Rename filename2 to filename1, replacing the file of that name."
+    if os.name == 'nt':
+        # Windows cannot rename to the name of an existing file
+        filename_tmp = filename1 + '_repack_rename_tmp_' + randstring(4)
+        os.rename(filename1, filename_tmp)
+        os.rename(filename2, filename1)
+        os.remove(filename_tmp)
+    else:
+        # There is a complete archive named filename1 at all times
+        os.rename(filename2, filename1)
+
 def is_archived_larry(file, key):
     "True if the key (larry name) is in the archive, False otherwise."
     f, opened = _openfile(file)
-- 
2.43.0


From ac37e7e1f0245f2f829f63843034a4c24ed1762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 09/26] fix: a lara does not give access to a larry that was
 not completely saved

---
 la/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/io.py b/la/io.py
index ef70c10..66f85bd 100644
--- a/la/io.py
+++ b/la/io.py
@@ -335,6 +335,9 @@ class lara(object):
 
     def _attach(self, f):
         "Copy of self that holds what the open archive f now has under key."
+        if not _is_archived_larry(f[self.key]):
+            # What is left of a save or a delete that did not finish
+            raise KeyError("A larry named '%s' is not in archive." % self.key)
         attached = copy.copy(self)
         attached.x = f[self.key]['x']
         attached.label = _load_label(f, self.key)
-- 
2.43.0


From 43ff3fc5fd40c7346ba43932170556f68c2e7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 10/26] fix: close text and csv files when reading or writing
 them fails

---
 la/deflarry.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 83f9919..3be631f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -4754,9 +4754,9 @@ class larry(object):
             fid = open(filename, 'w')
         else:
             fid = open(filename, 'w', newline='')
-        writer = csv.writer(fid, delimiter=delimiter)
-        writer.writerows(self.totuples())
-        fid.close()
+        with fid:
+            writer = csv.writer(fid, delimiter=delimiter)
+            writer.writerows(self.totuples())
 
     @staticmethod
     def fromcsv(filename, delimiter=',', skiprows=0):
@@ -4821,11 +4821,10 @@ class larry(object):
         array([ 1.,  2.,  3.])
 
         """
-        fid = open(filename, 'r')
-        reader = csv.reader(fid, delimiter=delimiter)
-        [reader.next() for i in range(skiprows)]
-        data = [row for row in reader]
-        fid.close()
+        with open(filename, 'r') as fid:
+            reader = csv.reader(fid, delimiter=delimiter)
+            [reader.next() for i in range(skiprows)]
+            data = [row for row in reader]
         return larry.fromtuples(data)
 
     def tofile(self, file, delimiter=','):
@@ -4883,11 +4882,9 @@ class larry(object):
 
         # Open file if needed
         if type(file) == str:
-            f = open(file, 'w')
-            opened = True
-        else:
-            f = file
-            opened = False
+            with open(file, 'w') as f:
+                return self.tofile(f, delimiter)
+        f = file
 
         # Write data
         if ndim == 1:
@@ -4919,15 +4916,9 @@ class larry(object):
 
         else:
 
-            if opened:
-                f.close()
             msg = "Please report this bug; the code should never reach here."
             raise RuntimeError(msg)
 
-        # Close file if opened (i.e., if file was a str)
-        if opened:
-            f.close()
-
 
     # Copy -------------------------------------------------------------------
 
-- 
2.43.0


From bf05b675c9dd433164d2c7cb580d5cb564523cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 11/26] fix: rows of different lengths, as in a truncated csv
 file, are an error

---
 la/deflarry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 3be631f..7db8884 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -4550,6 +4550,9 @@ class larry(object):
         if len(data) == 0:
             return larry([])
         else:
+            # zip drops the end of every row that is longer than the shortest
+            if len(set([len(row) for row in data])) > 1:
+                raise ValueError('All rows of data must have the same length.')
             # Split data into label and x
             labels = list(zip(*data))
             xs = labels.pop(-1)
-- 
2.43.0


From a0ff72fd081e6f52125eac03b3b53b01537af517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 12/26] fix: quotes that were not received completely are an
 error

---
 la/external/matplotlib.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/la/external/matplotlib.py b/la/external/matplotlib.py
index 65d1ef4..0b9fbef 100644
--- a/la/external/matplotlib.py
+++ b/la/external/matplotlib.py
@@ -23,6 +23,7 @@
 import warnings
 from urllib2 import urlopen
 import datetime
+from StringIO import StringIO
 
 
 def parse_yahoo_historical(fh):
@@ -75,7 +76,13 @@ def fetch_historical_yahoo(ticker, date1, date2):
     urlFmt = 'http://table.finance.yahoo.com/table.csv?a=%d&b=%d&c=%d&d=%d&e=%d&f=%d&s=%s&y=0&g=d&ignore=.csv'
     url =  urlFmt % (d1[0], d1[1], d1[2],
                      d2[0], d2[1], d2[2], ticker)
-    return urlopen(url)
+    response = urlopen(url)
+    body = response.read()
+    length = response.info().getheader('Content-Length')
+    if length is not None and len(body) < int(length):
+        raise IOError('Only %d of %s bytes received for %s' % (len(body), length,
+                                                              ticker))
+    return StringIO(body)
 
 def quotes_historical_yahoo(ticker, date1, date2):
     """
-- 
2.43.0


From 1997ce3677e2e6567e3a62f0899e1c5552c9ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 13/26] fix: a ticker without quotes is reported as such

---
 la/data/yahoo.py          | 5 ++++-
 la/external/matplotlib.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/la/data/yahoo.py b/la/data/yahoo.py
index b5bef92..1ad17dd 100644
--- a/la/data/yahoo.py
+++ b/la/data/yahoo.py
@@ -114,7 +114,10 @@ def quotes(tickers, date1=None, date2=None, adjust=True, verbose=False):
     for ticker in tickers:
         if verbose:
             print("\t" + ticker)
-        data, dates = quotes_historical_yahoo(ticker, date1, date2)
+        loaded = quotes_historical_yahoo(ticker, date1, date2)
+        if loaded is None:
+            raise ValueError("Could not load quotes for '%s'." % ticker)
+        data, dates = loaded
         data = np.array(data).T
         qlar = la.larry(data, [items, dates])
         qlar = qlar.insertaxis(0, ticker)
diff --git a/la/external/matplotlib.py b/la/external/matplotlib.py
index 0b9fbef..f69f7b0 100644
--- a/la/external/matplotlib.py
+++ b/la/external/matplotlib.py
@@ -103,7 +103,7 @@ def quotes_historical_yahoo(ticker, date1, date2):
         if len(data) == 0:
             return None
     except IOError as exc:
-        warnings.warn('urlopen() failure\n' + exc.strerror[1])
+        warnings.warn('urlopen() failure\n' + str(exc))
         return None
     return data, dates
 
-- 
2.43.0


From 5b363948d82ae9da94e5537972c203f7944c240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 14/26] fix: binaryop does not replace missing values in its
 input larrys

---
 la/flarry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index 1b2ca9b..33ad193 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -763,10 +763,16 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     """
 
     # Align
-    x1, x2, label, ign1, ign2 = align_raw(lar1, lar2, join=join, cast=cast)
+    x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
+                                                  cast=cast)
 
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
+        # Do not replace missing values in the input larrys
+        if x1isview:
+            x1 = x1.copy()
+        if x2isview:
+            x2 = x2.copy()
         miss1 = ismissing(x1)
         miss2 = ismissing(x2)
     if missone != 'ignore':
-- 
2.43.0


From 7b2526a081c3aa784f26d13e4262f1aba0d383a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 15/26] fix: merge does not change the larry it is called on

---
 la/deflarry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 7db8884..4c3a421 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3472,6 +3472,10 @@ class larry(object):
                 lar1 = lar1.morph(mergelabel, ax)
                 lar2 = lar2.morph(mergelabel, ax)
 
+        # The merged larry is a new larry even if the labels are the same
+        if lar1 is self:
+            lar1 = self.copy()
+
         # Mask
         dtype1 = self.dtype
         if dtype1 == object:
-- 
2.43.0


From 36a5c11c1b242d0282db9f3fd2305d84081f6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 16/26] fix: pull copies the labels, as documented

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 4c3a421..c11e4b5 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2356,7 +2356,7 @@ class larry(object):
         """
         if axis is None:
             raise ValueError('axis cannot be None')
-        label = list(self.label)
+        label = self.copylabel()
         label.pop(axis)
         idx = self.labelindex(name, axis)
         index = [slice(None)] * self.ndim
-- 
2.43.0


From afeb20e934125d3e123ec6a254e56efe013c4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 17/26] fix: maplabel changes all labels or none, and keeps
 them unique

---
 la/deflarry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index c11e4b5..c7e0a9e 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2694,10 +2694,17 @@ class larry(object):
         else:
             y = self
         if axis is None:
-            for ax in range(y.ndim):
-                y.label[ax] = list(map(func, y.label[ax]))
+            axes = range(y.ndim)
         else:
-            y.label[axis] = list(map(func, y.label[axis]))
+            axes = [axis]
+        # Do not touch `y` before all new labels are known to be good
+        label = [list(map(func, y.label[ax])) for ax in axes]
+        for ax, lab in zip(axes, label):
+            if len(frozenset(lab)) != len(lab):
+                msg = "Elements of label not unique along axis %d."
+                raise ValueError(msg % ax)
+        for ax, lab in zip(axes, label):
+            y.label[ax] = lab
         return y
 
     # Moving window statistics ----------------------------------------------
-- 
2.43.0


From 64b41609f73eea3dc348ee8a9ac1c02ce7b23e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 18/26] fix: flipaxis in place never leaves the labels flipped
 and the data not

---
 la/deflarry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index c7e0a9e..41f3ff4 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3780,10 +3780,9 @@ class larry(object):
             axes = [axis]
         flip = slice(None, None, -1)
         for ax in axes:
-            y.label[ax] = y.label[ax][flip]
             index = [slice(None)] * y.ndim
             index[ax] = flip
-            y.x = y.x[index]
+            y.x, y.label[ax] = y.x[index], y.label[ax][flip]
         return y
 
     # Shuffle ----------------------------------------------------------------
-- 
2.43.0


From f77b519f6cceaa5e708a173e8a184b615fadd361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 19/26] fix: a delete is on disk when delete returns

---
 la/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/la/io.py b/la/io.py
index 66f85bd..7204bab 100644
--- a/la/io.py
+++ b/la/io.py
@@ -604,6 +604,7 @@ def _delete(f, key):
         del f[key]
     else:
         del group.attrs['larry']
+    f.flush()
 
 def _delete_members(group):
     "Delete the data and the labels of the larry stored in a group."
-- 
2.43.0


From af186562f14a55f9092ab746422c4614ec830562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 20/26] fix: a key that HDF5 takes for another object is
 rejected

'a\0b' replaced and deleted the larry 'a', '/' was saved but not listed, and
a save under 'a/.' failed after it had deleted the larry 'a'.
---
 la/io.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/la/io.py b/la/io.py
index 7204bab..c7ce8da 100644
--- a/la/io.py
+++ b/la/io.py
@@ -163,7 +163,7 @@ class IO(object):
 
     def __getitem__(self, key):
         with h5py.File(self.filename, 'r') as f:
-            if key in f:
+            if _is_key(key) and key in f:
                 if not _is_archived_larry(f[key]):
                     msg = "%s is in the archive but it is not a larry."
                     raise KeyError(msg % key)
@@ -528,7 +528,7 @@ def load(file, key):
 
 def _load(f, key):
     "Load a larry from an open archive."
-    if key not in f:
+    if not _is_key(key) or key not in f:
         raise KeyError("A larry named '%s' is not in archive." % key)
     if not _is_archived_larry(f[key]):
         raise KeyError('key (%s) is not a larry.' % key)
@@ -591,7 +591,7 @@ def delete(file, key):
 
 def _delete(f, key):
     "Delete a larry from an open archive."
-    if key not in f:
+    if not _is_key(key) or key not in f:
         raise KeyError("A larry named '%s' is not in archive." % key)
     if not _is_archived_larry(f[key]):
         raise KeyError('key (%s) is not a larry.' % key)
@@ -685,7 +685,7 @@ def is_archived_larry(file, key):
     "True if the key (larry name) is in the archive, False otherwise."
     f, opened = _openfile(file)
     try:
-        if key in f:
+        if _is_key(key) and key in f:
             answer = _is_archived_larry(f[key])
         else:
             raise ValueError('key (%s) is not in archive.' % str(key))
@@ -756,8 +756,15 @@ def _larry2arrays(lar):
         h5py.h5t.py_create(array.dtype, logical=1)
     return arrays
 
+def _is_key(key):
+    "False if HDF5 takes key for the name of another object, or for no name."
+    names = [name for name in key.split('/') if name != '']
+    return len(names) > 0 and '.' not in names and '\0' not in key
+
 def _check_room(f, arrays, key):
     "Raise if the arrays cannot be saved without harming another object."
+    if not _is_key(key):
+        raise ValueError("'%s' cannot be the name of a larry." % key)
     if key not in f or not isinstance(f[key], h5py.Group):
         return  # _create_nested_groups does the checking
     group = f[key]
-- 
2.43.0


From ced04f74b146750b6a465a5961211cb6bd25e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 21/26] fix: labels that an archive cannot hold are rejected

Tuples, the labels of a flattened larry, were saved without complaint but
loaded as lists of strings, and labels that end with a NUL lost it.
---
 la/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index c7ce8da..cae3ee8 100644
--- a/la/io.py
+++ b/la/io.py
@@ -800,7 +800,14 @@ def _list2array(x):
         x = list(map(datetime2tuple, x))
         datetime_type = 'datetime'
         dtype = ','.join(["i4" for i in range(len(x[0]))])
-    return np.asarray(x, dtype=dtype), datetime_type
+    array = np.asarray(x, dtype=dtype)
+    if array.ndim != 1:
+        # For example tuples, which would be loaded as lists
+        msg = 'Elements of type %s are not supported in an archived label.'
+        raise TypeError(msg % type0)
+    if array.dtype.kind == 'S' and array.tolist() != x:
+        raise ValueError('A label that ends with a NUL cannot be archived.')
+    return array, datetime_type
 
 def _openfile(file):
     """
-- 
2.43.0


From 96e50aae36a12fa58a15ac96cb5b66d67d91f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 22/26] fix: repack keeps the links and attributes of the
 archive

A soft link became a copy of the larry it pointed to, a link to nothing made
repack fail for good, and the attributes of the file were lost.
---
 la/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index cae3ee8..c5a20de 100644
--- a/la/io.py
+++ b/la/io.py
@@ -638,7 +638,13 @@ def repack(file):
         filename2 = filename1 + '_repack_tmp_' + randstring(4)
         with h5py.File(filename2, 'w') as f2:
             for key in f1.keys():
-                f1.copy(key, f2)
+                link = f1.get(key, getlink=True)
+                if isinstance(link, h5py.HardLink):
+                    f1.copy(key, f2)
+                else:
+                    f2[key] = link
+            for name in f1.attrs.keys():
+                f2.attrs[name] = f1.attrs[name]
             f2.flush()
         _fsync(filename2)
     except:
-- 
2.43.0


From 659650eabe1f85008351b4b25546ef5c40ae6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 23/26] fix: a ticker is quoted in the address

A ticker such as 'a&b' was sent as 'a', so quotes of another ticker came
back under its name.
---
 la/external/matplotlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/external/matplotlib.py b/la/external/matplotlib.py
index f69f7b0..0d9d93a 100644
--- a/la/external/matplotlib.py
+++ b/la/external/matplotlib.py
@@ -21,6 +21,7 @@
 "Load Yahoo! Finance data from the web"
 
 import warnings
+from urllib import quote
 from urllib2 import urlopen
 import datetime
 from StringIO import StringIO
@@ -75,7 +76,7 @@ def fetch_historical_yahoo(ticker, date1, date2):
         d2 = (date2.month-1, date2.day, date2.year)
     urlFmt = 'http://table.finance.yahoo.com/table.csv?a=%d&b=%d&c=%d&d=%d&e=%d&f=%d&s=%s&y=0&g=d&ignore=.csv'
     url =  urlFmt % (d1[0], d1[1], d1[2],
-                     d2[0], d2[1], d2[2], ticker)
+                     d2[0], d2[1], d2[2], quote(ticker, ''))
     response = urlopen(url)
     body = response.read()
     length = response.info().getheader('Content-Length')
-- 
2.43.0


From ab5cc4769d2afa9b19c33eb94f59a669b8e34082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 24/26] fix: large integers as labels are not archived as
 floats

Labels of type long of which only some exceed 64 bit signed integers were
stored as floats and loaded with other values.
---
 la/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/la/io.py b/la/io.py
index c5a20de..c94d63b 100644
--- a/la/io.py
+++ b/la/io.py
@@ -3,6 +3,7 @@
 import os
 import copy
 import datetime
+import numbers
 import sys
 
 import numpy as np
@@ -813,6 +814,9 @@ def _list2array(x):
         raise TypeError(msg % type0)
     if array.dtype.kind == 'S' and array.tolist() != x:
         raise ValueError('A label that ends with a NUL cannot be archived.')
+    if array.dtype.kind == 'f' and isinstance(x[0], numbers.Integral):
+        # No integer dtype can hold all of them
+        raise ValueError('Integers of this range cannot be archived.')
     return array, datetime_type
 
 def _openfile(file):
-- 
2.43.0


From 42a230d477819de6acc0ad25405cec6be5f7732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 25/26] fix: repack of a symbolic link does not replace the
 link

---
 la/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index c94d63b..b260990 100644
--- a/la/io.py
+++ b/la/io.py
@@ -635,7 +635,8 @@ def repack(file):
     f1, opened = _openfile(file)
     filename2 = None
     try:
-        filename1 = f1.filename
+        # If it is a symbolic link, repack the archive, do not replace the link
+        filename1 = os.path.realpath(f1.filename)
         filename2 = filename1 + '_repack_tmp_' + randstring(4)
         with h5py.File(filename2, 'w') as f2:
             for key in f1.keys():
-- 
2.43.0


From 0d33e8b15aa28fd9e4652a71bbdd3b22b9e517ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:58 +0000
Subject: [PATCH 26/26] fix: repack keeps links whose path is not ascii

---
 la/io.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/la/io.py b/la/io.py
index b260990..bcbd248 100644
--- a/la/io.py
+++ b/la/io.py
@@ -640,11 +640,17 @@ def repack(file):
         filename2 = filename1 + '_repack_tmp_' + randstring(4)
         with h5py.File(filename2, 'w') as f2:
             for key in f1.keys():
-                link = f1.get(key, getlink=True)
-                if isinstance(link, h5py.HardLink):
+                link = f1.get(key, getclass=True, getlink=True)
+                if link is h5py.HardLink:
                     f1.copy(key, f2)
                 else:
-                    f2[key] = link
+                    # h5py.SoftLink only takes ascii paths
+                    name, lcpl = f1._e(key, lcpl=True)
+                    target = f1.id.links.get_val(name)
+                    if link is h5py.SoftLink:
+                        f2.id.links.create_soft(name, target, lcpl)
+                    else:
+                        f2.id.links.create_external(name, *(target + (lcpl,)))
             for name in f1.attrs.keys():
                 f2.attrs[name] = f1.attrs[name]
             f2.flush()
-- 
2.43.0

