From 7c25d74f1e199d93a15ea5e40edb55bd497d5202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 01/83] fix: do not overwrite the last committed DRAM page
 version within the flush that supersedes it

flushUpdates() made the previous location of a page reusable as soon as its new version was written, so a later page of the same flush could overwrite it. A crash before the changelog was flushed then left the last committed state without that page.
---
 src/dbzero/core/storage/DRAM_IOStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 48e7065..0dc29f1 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -211,6 +211,9 @@ namespace db0
             return std::nullopt;
         };
 
+        // Page locations released by this flush. They hold the last committed versions until the changelog gets flushed
+        // and therefore must not be overwritten by the same flush (the process may crash before completing it)
+        std::vector<std::uint64_t> released_chunks;
         auto update_page_location = [&, this](std::uint64_t page_num, std::uint64_t address) {
             // remove address from reusable
             {
@@ -222,8 +225,8 @@ namespace db0
             auto dram_page = m_page_map.find(page_num);
             if (dram_page != m_page_map.end()) {
                 assert(dram_page->second.m_address != address);
-                // add the old page location to reusable addresses
-                m_reusable_chunks.insert(dram_page->second.m_address);
+                // the old page location becomes reusable only after the flush
+                released_chunks.push_back(dram_page->second.m_address);
             }
             // update to most recent location (and state number)
             m_page_map[page_num] = { state_num, address };
@@ -267,6 +270,7 @@ namespace db0
 #endif
         });
         
+        m_reusable_chunks.insert(released_chunks.begin(), released_chunks.end());
         // flush all DRAM data updates before changelog updates
         BlockIOStream::flush();
         // output changelog, no RLE encoding, no duplicates
-- 
2.43.0


From 49507025ff9b198e9cf84725003af5f3270d869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 02/83] fix: keep the pre-atomic version of a page available
 until the atomic operation completes

Upgrading an unused page lock to the volatile state removed the latest version of the page from the cache map,
a rollback would then expose an older cached version of that page.
---
 src/dbzero/core/memory/PrefixCache.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index f856613..b270333 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -103,7 +103,9 @@ namespace db0
         bool is_volatile = access_mode[AccessOptions::no_flush];
             // Try upgrading the unused lock to the write state
             // this is to avoid CoW in a writer process
-            if (access_mode[AccessOptions::write] && read_state_num != state_num) {
+            // NOTE: locks are never upgraded to volatile because this version of the page must stay available if the atomic
+            // operation gets cancelled (otherwise an older cached version might be exposed by the rollback)
+            if (access_mode[AccessOptions::write] && read_state_num != state_num && !is_volatile) {
             // unused lock condition (i.e. might only be used by the CacheRecycler)
             // note that dirty locks cannot be upgraded (otherwise data would be lost)            
             if (dp_lock->allowReuse() && dp_lock.use_count() == (dp_lock->isRecycled() ? 1 : 0) + 1) {
@@ -222,7 +224,8 @@ namespace db0
         bool is_volatile = access_mode[AccessOptions::no_flush];
         // Try upgrading the unused lock to the write state
         // this is to avoid CoW in a writer process
-        if (access_mode[AccessOptions::write] && read_state_num != state_num) {
+        // NOTE: locks are never upgraded to volatile (see findPage)
+        if (access_mode[AccessOptions::write] && read_state_num != state_num && !is_volatile) {
             // Unused lock condition (i.e. might only be used by the CacheRecycler)
             // note that dirty locks cannot be upgraded (otherwise data would be lost)
             // note that, on upgrade, the residual lock must be refreshed as well
-- 
2.43.0


From 5fc2068b9df73a2808e9593a7d1baee347164c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 03/83] fix: allow atomic operations which modify a bytearray
 or a weak_set

Completing an atomic operation failed because no detach function was registered for these types.
---
 src/dbzero/bindings/python/PyTypeManager.cpp |  8 ++++++++
 src/dbzero/bindings/python/PyTypeManager.hpp |  1 +
 src/dbzero/workspace/AtomicContext.cpp       | 14 ++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/dbzero/bindings/python/PyTypeManager.cpp b/src/dbzero/bindings/python/PyTypeManager.cpp
index a86662f..9a5315f 100644
--- a/src/dbzero/bindings/python/PyTypeManager.cpp
+++ b/src/dbzero/bindings/python/PyTypeManager.cpp
@@ -302,6 +302,14 @@ namespace db0::python
         return reinterpret_cast<WeakSetObject*>(set_ptr)->modifyExt();
     }
     
+    const db0::object_model::ByteArray &PyTypeManager::extractByteArray(ObjectPtr py_obj) const
+    {
+        if (!ByteArrayObject_Check(py_obj)) {
+            THROWF(db0::InputException) << "Expected a db0.BytesArray object" << THROWF_END;
+        }
+        return reinterpret_cast<const db0::python::ByteArrayObject*>(py_obj)->ext();
+    }
+
     db0::object_model::ByteArray &PyTypeManager::extractMutableByteArray(ObjectPtr py_obj) const
     {
         if (!ByteArrayObject_Check(py_obj)) {
diff --git a/src/dbzero/bindings/python/PyTypeManager.hpp b/src/dbzero/bindings/python/PyTypeManager.hpp
index f7394df..db2ae8d 100644
--- a/src/dbzero/bindings/python/PyTypeManager.hpp
+++ b/src/dbzero/bindings/python/PyTypeManager.hpp
@@ -151,6 +151,7 @@ namespace db0::python
         ObjectPtr getLangObject(TypeObjectPtr py_type) const;
         std::shared_ptr<const Class> extractConstClass(ObjectPtr py_class) const;
         const TagDef &extractTag(ObjectPtr py_tag) const;
+        const ByteArray &extractByteArray(ObjectPtr) const;
         ByteArray &extractMutableByteArray(ObjectPtr) const;
         
         ObjectPtr getBadPrefixError() const;
diff --git a/src/dbzero/workspace/AtomicContext.cpp b/src/dbzero/workspace/AtomicContext.cpp
index 73c89da..e45ed26 100644
--- a/src/dbzero/workspace/AtomicContext.cpp
+++ b/src/dbzero/workspace/AtomicContext.cpp
@@ -5,6 +5,8 @@
 #include "Workspace.hpp"
 #include <dbzero/object_model/dict/Dict.hpp>
 #include <dbzero/object_model/set/Set.hpp>
+#include <dbzero/object_model/set/WeakSet.hpp>
+#include <dbzero/object_model/bytes/ByteArray.hpp>
 #include <dbzero/object_model/list/List.hpp>
 #include <dbzero/object_model/object/Object.hpp>
 #include <dbzero/object_model/tuple/Tuple.hpp>
@@ -56,6 +58,16 @@ namespace db0
         detachExisting(PyToolkit::getTypeManager().extractTuple(obj_ptr));
     }
     
+    // DB0_BYTES_ARRAY specialization
+    template <> void detachObject<TypeId::DB0_BYTES_ARRAY, PyToolkit>(PyObjectPtr obj_ptr) {
+        detachExisting(PyToolkit::getTypeManager().extractByteArray(obj_ptr));
+    }
+
+    // DB0_WEAK_SET specialization
+    template <> void detachObject<TypeId::DB0_WEAK_SET, PyToolkit>(PyObjectPtr obj_ptr) {
+        detachExisting(PyToolkit::getTypeManager().extractWeakSet(obj_ptr));
+    }
+
     template <> void registerDetachFunctions<PyToolkit>(std::vector<void (*)(PyObjectPtr)> &functions)
     {
         functions.resize(static_cast<int>(TypeId::COUNT));
@@ -66,6 +78,8 @@ namespace db0
         functions[static_cast<int>(TypeId::DB0_SET)] = detachObject<TypeId::DB0_SET, PyToolkit>;
         functions[static_cast<int>(TypeId::DB0_DICT)] = detachObject<TypeId::DB0_DICT, PyToolkit>;
         functions[static_cast<int>(TypeId::DB0_TUPLE)] = detachObject<TypeId::DB0_TUPLE, PyToolkit>;
+        functions[static_cast<int>(TypeId::DB0_BYTES_ARRAY)] = detachObject<TypeId::DB0_BYTES_ARRAY, PyToolkit>;
+        functions[static_cast<int>(TypeId::DB0_WEAK_SET)] = detachObject<TypeId::DB0_WEAK_SET, PyToolkit>;
     }
     
     AtomicContext::AtomicContext(std::shared_ptr<Workspace> &workspace, std::unique_lock<std::mutex> &&lock)
-- 
2.43.0


From 52bc66e1a805cd93024b5646c20086e400ace7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 04/83] fix: revert only the instances with pending updates on
 atomic cancel

The reverse flush was called for every index, releasing references which were never acquired, and was not called at all
for the indexes opened inside of the atomic operation (their buffered updates would then be flushed after the cancel).
---
 src/dbzero/workspace/Fixture.cpp |  3 ++-
 src/dbzero/workspace/GC0.cpp     | 18 ++++++++++++------
 src/dbzero/workspace/GC0.hpp     |  3 ++-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index 0f41ff3..1c58b1b 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -506,7 +506,8 @@ namespace db0
         assert(m_atomic_context_ptr);
         m_atomic_context_ptr = nullptr;
         m_meta_allocator.cancelAtomic();
-        getGC0().cancelAtomic();
+        getGC0().cancelAtomic(Memspace::getForFlush());
+        m_maybe_need_flush.clear();
         // rollback any uncommited changes
         rollback();
         // detach owned resources
diff --git a/src/dbzero/workspace/GC0.cpp b/src/dbzero/workspace/GC0.cpp
index eba3ebf..43626f2 100644
--- a/src/dbzero/workspace/GC0.cpp
+++ b/src/dbzero/workspace/GC0.cpp
@@ -223,19 +223,25 @@ namespace db0
         m_atomic = false;
     }
     
-    void GC0::cancelAtomic()
+    void GC0::cancelAtomic(const std::vector<vtypeless*> &vptrs)
     {
         assert(m_atomic);
+        // call reverse flush (use revert=true) of the instances which subscribed for flush
+        // NOTE: must be performed before unregistering volatile instances, otherwise the updates buffered by
+        // instances opened inside of the atomic operation would get flushed later on
+        // NOTE: instances may get removed by the flush itself
+        auto &ops_list = getSharedState().m_ops;
+        for (auto vptr : vptrs) {
+            auto it = m_flush_map.find(vptr);
+            if (it != m_flush_map.end()) {
+                ops_list[it->second].flush(it->first, true);
+            }
+        }
         for (auto vptr : m_volatile) {
             if (vptr) {
                 tryRemove(vptr, true);
             }
         }
-        // call reverse flush where it's provided (use revert=true)
-        auto &ops_list = getSharedState().m_ops;
-        for (auto &item : m_flush_map) {
-            ops_list[item.second].flush(item.first, true);
-        }
         m_volatile.clear();
         m_atomic = false;
     }
diff --git a/src/dbzero/workspace/GC0.hpp b/src/dbzero/workspace/GC0.hpp
index d02dc45..24c5f3c 100644
--- a/src/dbzero/workspace/GC0.hpp
+++ b/src/dbzero/workspace/GC0.hpp
@@ -127,7 +127,8 @@ namespace db0
 
         void beginAtomic();
         void endAtomic();
-        void cancelAtomic();
+        // @param vptrs instances which subscribed for flush since the atomic operation began
+        void cancelAtomic(const std::vector<vtypeless*> &);
         
         struct CommitContext
         {
-- 
2.43.0


From 1516188b8ec13a6798542b3fd790719e2c28765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 05/83] fix: the most recent of tag add / remove issued before
 a flush wins

---
 .../core/collections/full_text/FT_BaseIndex.hpp    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 4faa82d..37cb250 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -238,17 +238,15 @@ namespace db0
         private:
             void _addTag(ActiveValueT value, IndexKeyT tag)
             {
-                // try un-removing the tag first
-                if (!m_remove_set.remove(tag, value)) {
-                    m_add_set.append(tag, value);
-                }
+                // NOTE: the most recent operation wins irrespective of the tag having been assigned before this batch
+                m_remove_set.remove(tag, value);
+                m_add_set.append(tag, value);
             }
 
             void _removeTag(ActiveValueT value, IndexKeyT tag) {
-                // try un-adding the tag first
-                if (!m_add_set.remove(tag, value)) {
-                    m_remove_set.append(tag, value);
-                }
+                // NOTE: the most recent operation wins irrespective of the tag having been assigned before this batch
+                m_add_set.remove(tag, value);
+                m_remove_set.append(tag, value);
             }         
         };
 
-- 
2.43.0


From 561cb1b57ea431a383be39118e628acc72af8b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 06/83] fix: keep list order and release the removed element in
 list pop / remove; accept negative pop index

---
 .../python/collections/CollectionMethods.hpp       | 14 +++++++++++---
 src/dbzero/object_model/list/List.cpp              | 14 +++++++++-----
 src/dbzero/object_model/list/List.hpp              |  3 ++-
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 37ece7f..02d84ba 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -141,9 +141,9 @@ namespace db0::python
     template<typename ObjectT>
     PyObject *tryObjectT_pop(ObjectT *py_obj, PyObject *const *args, Py_ssize_t nargs)
     {
-        std::size_t index;
+        long index;
         if (nargs == 0) {
-            index = py_obj->ext().size() -1;
+            index = -1;
         } else if (nargs == 1) {
             index = PyLong_AsLong(args[0]);
             if (PyErr_Occurred()) {
@@ -154,6 +154,14 @@ namespace db0::python
             return NULL;
         }
 
+        // NOTE: negative indices count from the end
+        if (index < 0) {
+            index += static_cast<long>(py_obj->ext().size());
+        }
+        if (index < 0 || static_cast<std::size_t>(index) >= py_obj->ext().size()) {
+            PyErr_SetString(PyExc_IndexError, "pop index out of range");
+            return nullptr;
+        }
         db0::FixtureLock lock(py_obj->ext().getFixture());
         return py_obj->modifyExt().pop(lock, index).steal();
     }
@@ -170,7 +178,7 @@ namespace db0::python
     {
         auto index = py_obj->ext().index(args[0]);
         db0::FixtureLock lock(py_obj->ext().getFixture());
-        py_obj->modifyExt().swapAndPop(lock, {index});
+        py_obj->modifyExt().removeItem(lock, index);
         Py_RETURN_NONE;
     }
 
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index d3643f8..59ec0aa 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -86,8 +86,7 @@ namespace db0::object_model
         }
         auto [storage_class, value] = (*this)[i];
         auto member = unloadMember<LangToolkit>(*fixture, storage_class, value, 0, this->getMemberFlags());
-        this->swapAndPop(fixture, {i});
-        restoreIterators();
+        removeItem(fixture, i);
         return member;
     }
     
@@ -174,11 +173,16 @@ namespace db0::object_model
         restoreIterators();
     }
 
-    void List::swapAndPop(FixtureLock &, const std::vector<std::uint64_t> &element_numbers) 
+    void List::removeItem(FixtureLock &fixture, std::size_t i)
     {
-        // FIXME: drop items
-        v_bvector<o_typed_item>::swapAndPop(element_numbers);
+        if (i >= size()) {
+            THROWF(db0::IndexException) << "Index out of range: " << i;
+        }
+        auto [storage_class, value] = (*this)[i];
+        // NOTE: order of the remaining elements must be preserved
+        v_bvector<o_typed_item>::erase(i);
         restoreIterators();
+        unrefMember<LangToolkit>(*fixture, storage_class, value);
     }
     
     void List::moveTo(db0::swine_ptr<Fixture> &fixture) 
diff --git a/src/dbzero/object_model/list/List.hpp b/src/dbzero/object_model/list/List.hpp
index e8f86ff..ae7e2bf 100644
--- a/src/dbzero/object_model/list/List.hpp
+++ b/src/dbzero/object_model/list/List.hpp
@@ -63,7 +63,8 @@ namespace db0::object_model
         
         void clear(FixtureLock &);
 
-        void swapAndPop(FixtureLock &, const std::vector<uint64_t> &element_numbers);
+        // remove a single item, preserving order of the remaining ones
+        void removeItem(FixtureLock &, std::size_t i);
 
         void moveTo(db0::swine_ptr<Fixture> &);
 
-- 
2.43.0


From bbfe5b1e992f6ad4e4b45432e91ac95deda0cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 07/83] fix: list / tuple count, index and remove compare
 elements by value

---
 src/dbzero/object_model/list/List.cpp   | 6 ++++--
 src/dbzero/object_model/tuple/Tuple.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index 59ec0aa..b0c2ebd 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -128,7 +128,8 @@ namespace db0::object_model
         auto fixture = this->getFixture();
         for (auto &elem: (*this)) {
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto elem_ptr = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(*elem_ptr, lang_value)) {
                 ++count;
             }
         }
@@ -141,7 +142,8 @@ namespace db0::object_model
         auto fixture = this->getFixture();
         for (auto &elem: (*this)) {
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto elem_ptr = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(*elem_ptr, lang_value)) {
                 return index;
             }
             ++index;
diff --git a/src/dbzero/object_model/tuple/Tuple.cpp b/src/dbzero/object_model/tuple/Tuple.cpp
index 3704af5..8baf4a3 100644
--- a/src/dbzero/object_model/tuple/Tuple.cpp
+++ b/src/dbzero/object_model/tuple/Tuple.cpp
@@ -106,7 +106,8 @@ namespace db0::object_model
         auto fixture = this->getFixture();
         for (auto &elem: this->const_ref().items()) {
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto elem_ptr = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(*elem_ptr, lang_value)) {
                 count += 1;
             }
         }
@@ -119,7 +120,8 @@ namespace db0::object_model
         auto fixture = this->getFixture();
         for (auto &elem: this->const_ref().items()){
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto elem_ptr = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(*elem_ptr, lang_value)) {
                 return index;
             }
             index += 1;
-- 
2.43.0


From 9cac1533fb50c7fad436431f8e3162c527e57425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 08/83] fix: compare lists and tuples element by element

---
 src/dbzero/bindings/python/collections/PyList.cpp  | 13 ++-----------
 src/dbzero/bindings/python/collections/PyTuple.cpp | 13 ++-----------
 src/dbzero/object_model/bytes/ByteArray.cpp        |  3 ---
 src/dbzero/object_model/list/List.cpp              |  3 ---
 4 files changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index 49e4d3a..97ded3f 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -262,17 +262,8 @@ namespace db0::python
 
     PyObject *tryListObject_rq(ListObject *list_obj, PyObject *other, int op)
     {        
-        if (ListObject_Check(other)) {
-            ListObject * other_list = (ListObject*) other;
-            switch (op) {
-                case Py_EQ:
-                    return PyBool_fromBool(list_obj->ext() == other_list->ext());
-                case Py_NE:
-                    return PyBool_fromBool(list_obj->ext() != other_list->ext());
-                default:
-                    Py_RETURN_NOTIMPLEMENTED;
-            }
-        } else if(PyList_Check(other)) {
+        // NOTE: elements must be compared as language objects (the stored representations may differ)
+        if (ListObject_Check(other) || PyList_Check(other)) {
             auto iterator = Py_OWN(PyObject_GetIter(other));
             if (!iterator) {
                 PyErr_SetString(PyExc_TypeError, "argument must be a sequence");
diff --git a/src/dbzero/bindings/python/collections/PyTuple.cpp b/src/dbzero/bindings/python/collections/PyTuple.cpp
index c0c6f9b..c6b7534 100644
--- a/src/dbzero/bindings/python/collections/PyTuple.cpp
+++ b/src/dbzero/bindings/python/collections/PyTuple.cpp
@@ -91,17 +91,8 @@ namespace db0::python
     
     PyObject *tryTupleObject_rq(TupleObject *tuple_obj, TupleObject *other, int op)
     {
-        if (TupleObject_Check(other)) {
-            TupleObject * other_tuple = (TupleObject*)other;
-            switch (op) {
-                case Py_EQ:
-                    return PyBool_fromBool(tuple_obj->ext() == other_tuple->ext());
-                case Py_NE:
-                    return PyBool_fromBool(tuple_obj->ext() != other_tuple->ext());
-                default:
-                    Py_RETURN_NOTIMPLEMENTED;
-            }
-        } else  if (PyTuple_Check(other)) {
+        // NOTE: elements must be compared as language objects (the stored representations may differ)
+        if (TupleObject_Check(other) || PyTuple_Check(other)) {
             auto iterator = Py_OWN(PyObject_GetIter(other));
             if (!iterator) {
                 PyErr_SetString(PyExc_TypeError, "argument must be an iterable");
diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 2ccd65b..2524bd3 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -140,9 +140,6 @@ namespace db0::object_model
 
     bool ByteArray::operator!=(const ByteArray &bytearray) const
     {
-        if (size() != bytearray.size()) {
-            return false;
-        }
         return !(*this == bytearray);
     }
     
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index b0c2ebd..57a1ddb 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -162,9 +162,6 @@ namespace db0::object_model
 
     bool List::operator!=(const List &list) const
     {
-        if (size() != list.size()) {
-            return false;
-        }
         return !(*this == list);
     }
 
-- 
2.43.0


From 75ab2b53c7b53123df6fdb212cf7e3a3485237ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 09/83] fix: list repetition and concatenation check their
 operands

---
 .../bindings/python/collections/PyList.cpp    | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index 97ded3f..f085e85 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -49,10 +49,14 @@ namespace db0::python
         return runSafe(tryListObject_copy, py_src_list).steal();
     }
 
-    shared_py_object<ListObject*> tryListObject_multiply(ListObject *list_obj, PyObject *elem)
+    shared_py_object<ListObject*> tryListObject_multiply(ListObject *list_obj, long elems)
     {        
-        auto elems = PyLong_AsLong(elem);
         auto list_obj_copy = tryListObject_copy(list_obj);
+        if (elems <= 0) {
+            db0::FixtureLock lock(list_obj->ext().getFixture());
+            list_obj_copy->modifyExt().clear(lock);
+            return list_obj_copy;
+        }
         PyObject * obj_list = (PyObject *)list_obj;
         PyObject** args = &obj_list;
         for (int i = 1; i< elems; ++i) {
@@ -64,10 +68,21 @@ namespace db0::python
         return list_obj_copy;
     }
     
-    PyObject *PyAPI_ListObject_multiply(ListObject *list_obj, PyObject *elem)
+    PyObject *PyAPI_ListObject_multiply(PyObject *lhs, PyObject *rhs)
     {
         PY_API_FUNC
-        return runSafe(tryListObject_multiply, list_obj, elem).steal();
+        // NOTE: either of the operands may be the list
+        if (!ListObject_Check(lhs)) {
+            std::swap(lhs, rhs);
+        }
+        if (!ListObject_Check(lhs) || !PyLong_Check(rhs)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
+        auto elems = PyLong_AsLong(rhs);
+        if (elems == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+        return runSafe(tryListObject_multiply, reinterpret_cast<ListObject*>(lhs), elems).steal();
     }
     
     shared_py_object<ListObject*> tryMake_DB0ListInternal(db0::swine_ptr<Fixture> &fixture,
@@ -217,10 +232,9 @@ namespace db0::python
         return runSafe(tryListObject_count, py_list, args, nargs);
     }
     
-    shared_py_object<ListObject*> tryListObject_add(ListObject *list_obj_lh, ListObject *list_obj_rh)
+    shared_py_object<ListObject*> tryListObject_add(ListObject *list_obj_lh, PyObject *obj_list)
     {        
         //make copy of first list
-        PyObject * obj_list = (PyObject *)list_obj_rh;
         PyObject** args = &obj_list;
         auto lh_copy = tryListObject_copy(list_obj_lh);
         if (!tryObjectT_extend<ListObject>(lh_copy.get(), args, 1)) {
@@ -230,10 +244,14 @@ namespace db0::python
         return lh_copy;
     }
     
-    PyObject *PyAPI_ListObject_add(ListObject *list_obj_lh, ListObject *list_obj_rh)
+    PyObject *PyAPI_ListObject_add(PyObject *lhs, PyObject *rhs)
     {
         PY_API_FUNC
-        return runSafe(tryListObject_add, list_obj_lh, list_obj_rh).steal();
+        // NOTE: the slot is also called with the list as the right operand only
+        if (!ListObject_Check(lhs)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
+        return runSafe(tryListObject_add, reinterpret_cast<ListObject*>(lhs), rhs).steal();
     }
     
     static PySequenceMethods ListObject_sq = getPySequenceMehods<ListObject>();
-- 
2.43.0


From 7c8df09cfb20ea45b87c2418f0d1cd93472043d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 10/83] fix: extending a list with itself terminates

---
 .../bindings/python/collections/CollectionMethods.hpp     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 02d84ba..92fd1ed 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -45,6 +45,14 @@ namespace db0::python
         ObjectSharedPtr item;
         db0::FixtureLock lock(py_obj->ext().getFixture());
         auto &obj = py_obj->modifyExt();
+        if (args[0] == reinterpret_cast<PyObject*>(py_obj)) {
+            // extending with itself, only the present items are to be added
+            auto count = obj.size();
+            for (std::size_t i = 0; i != count; ++i) {
+                obj.append(lock, obj.getItem(i));
+            }
+            Py_RETURN_NONE;
+        }
         Py_FOR(item, iterator) {
             obj.append(lock, item);
         }
-- 
2.43.0


From 9da4b2bfaf563e30cac36303c2ffb7499c2be969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 11/83] fix: report an out of range item access as IndexError

---
 src/dbzero/bindings/python/collections/CollectionMethods.hpp | 4 ++--
 src/dbzero/object_model/bytes/ByteArray.cpp                  | 4 ++--
 src/dbzero/object_model/tuple/Tuple.cpp                      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 92fd1ed..473dd38 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -83,7 +83,7 @@ namespace db0::python
     int PyAPI_ObjectT_SetItem(ObjectT *py_obj, Py_ssize_t i, PyObject *value)
     {
         PY_API_FUNC
-        return runSafe(tryObjectT_SetItem<ObjectT>, py_obj, i, value);
+        return runSafe<-1>(tryObjectT_SetItem<ObjectT>, py_obj, i, value);
     }
 
     template <typename ObjectT>
@@ -134,7 +134,7 @@ namespace db0::python
     Py_ssize_t PyAPI_ObjectT_len(ObjectT *py_obj)
     {
         PY_API_FUNC
-        return runSafe(tryObjectT_len<ObjectT>, py_obj);
+        return runSafe<-1>(tryObjectT_len<ObjectT>, py_obj);
     }
 
     template<typename ObjectT>
diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 2524bd3..a41a741 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -38,7 +38,7 @@ namespace db0::object_model
     ByteArray::ObjectSharedPtr ByteArray::getItem(std::size_t i) const
     {
         if (i >= size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
         }
         auto fixture = this->getFixture();
         return unloadMember<LangToolkit>(
@@ -53,7 +53,7 @@ namespace db0::object_model
     void ByteArray::setItem(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value)
     {
         if (i >= size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
         }
         auto &type_manager = LangToolkit::getTypeManager();
         v_bvector::setItem(i, std::byte(type_manager.extractInt64(lang_value)));
diff --git a/src/dbzero/object_model/tuple/Tuple.cpp b/src/dbzero/object_model/tuple/Tuple.cpp
index 8baf4a3..977fc31 100644
--- a/src/dbzero/object_model/tuple/Tuple.cpp
+++ b/src/dbzero/object_model/tuple/Tuple.cpp
@@ -71,7 +71,7 @@ namespace db0::object_model
     Tuple::ObjectSharedPtr Tuple::getItem(std::size_t i) const
     {
         if (i >= getData()->size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
         }
         auto [storage_class, value] = getData()->items()[i];
         auto fixture = this->getFixture();
@@ -82,7 +82,7 @@ namespace db0::object_model
     {
         // FIXME: is this method allowed ? (since tuples are immutable in Python)
         if (i >= getData()->size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
         }
         // recognize type ID from language specific object
         auto type_id = LangToolkit::getTypeManager().getTypeId(*lang_value);
-- 
2.43.0


From 02adc0b0bc793448171e2e01bc45a7efc5bd08e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 12/83] fix: a copied list holds its own references to its
 items

---
 src/dbzero/bindings/python/collections/PyList.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index f085e85..c043412 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -33,14 +33,15 @@ namespace db0::python
         return runSafe(tryListObject_iter, self);
     }
     
+    shared_py_object<ListObject*> tryMake_DB0ListInternal(db0::swine_ptr<Fixture> &fixture,
+        PyObject *const *args, Py_ssize_t nargs, AccessFlags access_mode);
+    
     shared_py_object<ListObject*> tryListObject_copy(ListObject *py_src_list)
     {
-        // make actual dbzero instance, use default fixture
-        auto py_list = Py_OWN(ListObject_new(&ListObjectType, NULL, NULL));
-        db0::FixtureLock lock(py_src_list->ext().getFixture());
-        py_src_list->ext().copy(&py_list->modifyExt(), *lock);
-        lock->getLangCache().add(py_list->ext().getAddress(), py_list.get());
-        return py_list;
+        // NOTE: items must be added (and not cloned) since the copy holds its own references
+        auto fixture = py_src_list->ext().getFixture();
+        PyObject *py_src = reinterpret_cast<PyObject*>(py_src_list);
+        return tryMake_DB0ListInternal(fixture, &py_src, 1, AccessFlags{});
     }
 
     PyObject *PyAPI_ListObject_copy(ListObject *py_src_list)
-- 
2.43.0


From d6ff6f21f98ab2a8b495f86eac7ab014bdf7827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 13/83] fix: bytearray insert, item deletion and value range

---
 .../python/collections/CollectionMethods.hpp  |  2 +-
 src/dbzero/object_model/bytes/ByteArray.cpp   | 36 ++++++++++++++++---
 src/dbzero/object_model/bytes/ByteArray.hpp   |  1 +
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 473dd38..d78d755 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -90,7 +90,7 @@ namespace db0::python
     PyObject* tryObjectT_Insert(ObjectT *py_obj, PyObject *const *args, Py_ssize_t nargs)
     {        
         db0::FixtureLock lock(py_obj->ext().getFixture());
-        py_obj->modifyExt().setItem(lock, PyLong_AsLong(args[0]), args[1]);
+        py_obj->modifyExt().insertItem(lock, PyLong_AsLong(args[0]), args[1]);
         Py_RETURN_NONE;
     }
 
diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index a41a741..6ac1c8e 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) 2025 DBZero Software sp. z o.o.
 
 #include "ByteArray.hpp"
+#include <algorithm>
 #include <dbzero/object_model/value/TypeUtils.hpp>
 #include <dbzero/object_model/value/Member.hpp>
 
@@ -11,6 +12,15 @@ namespace db0::object_model
 
     GC0_Define(ByteArray)
     
+    std::byte asByte(ByteArray::ObjectPtr lang_value)
+    {
+        auto value = ByteArray::LangToolkit::getTypeManager().extractInt64(lang_value);
+        if (value < 0 || value > 255) {
+            THROWF(db0::InputException) << "byte must be in range(0, 256)";
+        }
+        return std::byte(value);
+    }
+    
     ByteArray::ByteArray(db0::swine_ptr<Fixture> &fixture, std::byte *bytes, std::size_t size, AccessFlags access_mode)
         : super_t(fixture, access_mode)
     {
@@ -55,15 +65,31 @@ namespace db0::object_model
         if (i >= size()) {
             THROWF(db0::IndexException) << "Index out of range: " << i;
         }
-        auto &type_manager = LangToolkit::getTypeManager();
-        v_bvector::setItem(i, std::byte(type_manager.extractInt64(lang_value)));
+        if (!lang_value) {
+            // del operator used
+            this->erase(i);
+            return;
+        }
+        v_bvector::setItem(i, asByte(lang_value));
+    }
+    
+    void ByteArray::insertItem(FixtureLock &, std::int64_t i, ObjectPtr lang_value)
+    {
+        auto value = asByte(lang_value);
+        std::int64_t old_size = this->size();
+        // NOTE: as in Python, negative positions count from the end, out of range positions are clipped
+        i = std::clamp<std::int64_t>(i < 0 ? i + old_size : i, 0, old_size);
+        v_bvector::push_back(value);
+        for (std::int64_t pos = old_size; pos > i; --pos) {
+            std::byte prev = (*this)[pos - 1];
+            v_bvector::setItem(pos, prev);
+        }
+        v_bvector::setItem(i, value);
     }
 
     void ByteArray::append(FixtureLock &, ObjectSharedPtr lang_value)
     {
-        using TypeId = db0::bindings::TypeId;
-        auto &type_manager = LangToolkit::getTypeManager();
-        v_bvector::push_back(std::byte(type_manager.extractInt64(*lang_value)));
+        v_bvector::push_back(asByte(*lang_value));
     }
     
     std::size_t ByteArray::count(std::byte value) const
diff --git a/src/dbzero/object_model/bytes/ByteArray.hpp b/src/dbzero/object_model/bytes/ByteArray.hpp
index 39a1e1f..f3ebfd3 100644
--- a/src/dbzero/object_model/bytes/ByteArray.hpp
+++ b/src/dbzero/object_model/bytes/ByteArray.hpp
@@ -40,6 +40,7 @@ namespace db0::object_model
         ObjectSharedPtr getItem(std::size_t i) const;
         std::byte getByte(std::size_t i) const;
         void setItem(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value);
+        void insertItem(FixtureLock &, std::int64_t i, ObjectPtr lang_value);
         void append(FixtureLock &, ObjectSharedPtr lang_value);
 
         std::size_t count(std::byte value) const;
-- 
2.43.0


From bebf046c89f6b40bd2b20a168276913805ae5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 14/83] fix: bytearray count does not count overlapping
 occurrences

---
 src/dbzero/object_model/bytes/ByteArray.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 6ac1c8e..4a9c7c8 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -106,13 +106,13 @@ namespace db0::object_model
     std::size_t ByteArray::count(const std::byte *values, std::size_t values_size) const
     {
         // substring search using Knuth-Morris-Pratt algorithm
-        int *P = new int[values_size + 1];
         if (values_size == 0) {
             return size() +1;
         }
         if (values_size == 1) {
             return count(values[0]);
         }
+        int *P = new int[values_size + 1]();
         std::size_t t = 0;
         for (std::size_t j=2; j<=values_size; j++)
         {
@@ -132,8 +132,9 @@ namespace db0::object_model
                 i++;
                 j++;
                 if (j == values_size) {
+                    // NOTE: only non-overlapping occurrences are counted
                     ++count;
-                    j = P[j];
+                    j = 0;
                 }
             } else if (j == 0) {
                 i++;
-- 
2.43.0


From d01cd339ca85d4a46c17ac9f3803fe527165a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 15/83] fix: dict pop / del remove the given key and not
 another one with the same hash

---
 src/dbzero/object_model/dict/Dict.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index 6f6e2ff..69fee70 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -215,10 +215,21 @@ namespace db0::object_model
         auto [key, address] = *iter;
         auto bindex = address.getIndex(this->getMemspace());
         auto it = bindex.beginJoin(1);
+        auto fixture = this->getFixture();        
+        // NOTE: the bucket may hold other keys with the same hash
+        for (; !it.is_end(); ++it) {
+            auto [storage_class, value] = (*it).m_first;
+            auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(obj, member.get())) {
+                break;
+            }
+        }
+        if (it.is_end()) {
+            return nullptr;
+        }
+
         auto [key_storage_class, key_value] = (*it).m_first;
         auto [storage_class, value] = (*it).m_second;
-        auto fixture = this->getFixture();        
-        
         auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, this->getMemberFlags());
 
         unrefMember<LangToolkit>(fixture, key_storage_class, key_value);
-- 
2.43.0


From 1c0780307cf23f29cd32b0dd1419c0031d1a262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 16/83] fix: replacing a dict value releases the replaced value

---
 src/dbzero/object_model/dict/Dict.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index 69fee70..982fc35 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -134,11 +134,14 @@ namespace db0::object_model
             auto bindex = address.getIndex(**fixture);
             auto it_join = bindex.beginJoin(1);
             while (!it_join.is_end()) {
-                auto [storage_class, value] = (*it_join).m_first;
-                auto member = unloadMember<LangToolkit>(*fixture, storage_class, value, 0, member_flags);
+                auto old_item = *it_join;
+                auto [storage_class, old_key] = old_item.m_first;
+                auto member = unloadMember<LangToolkit>(*fixture, storage_class, old_key, 0, member_flags);
                 if (LangToolkit::compare(key, member.get())) {
-                    bindex.erase(*it_join);
-                    unrefMember<LangToolkit>(*fixture, storage_class, value);
+                    bindex.erase(old_item);
+                    unrefMember<LangToolkit>(*fixture, storage_class, old_key);
+                    // the replaced value is also released
+                    unrefMember<LangToolkit>(*fixture, old_item.m_second.m_storage_class, old_item.m_second.m_value);
                     --modify().m_size;
                     break;
                 }
-- 
2.43.0


From 5648f48729de2e4001eebd5fc5f8daa884aef2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 17/83] fix: deleting a missing dict key raises KeyError

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index b838624..e706517 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -82,6 +82,11 @@ namespace db0::python
             return -1;
         }
         
+        if (!value && !py_dict->ext().hasItem(hash, *key)) {
+            PyErr_SetObject(PyExc_KeyError, py_key);
+            return -1;
+        }
+
         db0::FixtureLock lock(fixture);
         py_dict->modifyExt().setItem(lock, hash, *key, value);
         return 0;
-- 
2.43.0


From 459ea07ac01143e726f7350d65283fd81cd77eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 18/83] fix: a copied dict holds its own references to its
 items

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index e706517..e069eb5 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -408,11 +408,13 @@ namespace db0::python
 
     PyObject *tryDictObject_copy(DictObject *py_src_dict)
     {
-        auto py_dict = DictDefaultObject_new();
-        auto lock = db0::FixtureLock(py_src_dict->ext().getFixture());
-        py_src_dict->ext().copy(&py_dict.get()->modifyExt(), *lock);
-        lock->getLangCache().add(py_dict.get()->ext().getAddress(), py_dict.get());
-        return py_dict.steal();
+        // NOTE: items must be added (and not cloned) since the copy holds its own references
+        auto fixture = py_src_dict->ext().getFixture();
+        auto args = Py_OWN(PyTuple_Pack(1, py_src_dict));
+        if (!args) {
+            return nullptr;
+        }
+        return (PyObject*)tryMake_DB0Dict(fixture, *args, nullptr, AccessFlags {}).steal();
     }
 
     PyObject *PyAPI_DictObject_copy(DictObject *py_src_dict)
-- 
2.43.0


From 56f6284acb93b0d120a86d5886ddef4695f81719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 19/83] fix: dict pop returns a new reference to the default
 value

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index e069eb5..64f908a 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -520,7 +520,7 @@ namespace db0::python
             return NULL;
         }
         
-        return value;        
+        return Py_BORROW(value).steal();
     }
     
     PyObject *PyAPI_DictObject_pop(DictObject *dict_object, PyObject *const *args, Py_ssize_t nargs) 
-- 
2.43.0


From 5344255d4a7cb1b32ffab0a109a2aab5722db174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 20/83] fix: dict update reports errors and does not leak the
 values it reads

---
 .../bindings/python/collections/PyDict.cpp    | 52 ++++++++++++++-----
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 64f908a..7b08e10 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -324,6 +324,10 @@ namespace db0::python
         
         if (PyObject_Length(args) == 1) {
             PyObject * arg1 = PyTuple_GetItem(args, 0);
+            if (arg1 == (PyObject*)dict_object && (!kwargs || PyObject_Length(kwargs) == 0)) {
+                // updating with itself
+                Py_RETURN_NONE;
+            }
             auto iterator = Py_OWN(PyObject_GetIter(arg1));
             if (!iterator) {
                 PyErr_SetString(PyExc_TypeError, "argument must be a sequence or dict");
@@ -333,15 +337,31 @@ namespace db0::python
             ObjectSharedPtr elem;
             Py_FOR(elem, iterator) {            
                 if (PyDict_Check(arg1)) {
-                    tryDictObject_SetItem(dict_object, elem.get(), PyDict_GetItem(arg1, *elem));
+                    if (tryDictObject_SetItem(dict_object, elem.get(), PyDict_GetItem(arg1, *elem)) < 0) {
+                        return NULL;
+                    }
                 } else if (DictObject_Check(arg1)) {
-                    tryDictObject_SetItem(dict_object, elem.get(), tryDictObject_GetItem((DictObject*)arg1, *elem));
+                    auto value = Py_OWN(tryDictObject_GetItem((DictObject*)arg1, *elem));
+                    if (!value || tryDictObject_SetItem(dict_object, elem.get(), *value) < 0) {
+                        return NULL;
+                    }
                 } else {
-                    if (PyObject_Length(*elem) != 2) {
-                        PyErr_SetString(PyExc_ValueError, "dictionary update sequence element #0 has length 1; 2 is required");
+                    auto elem_len = PyObject_Length(*elem);
+                    if (elem_len < 0) {
+                        return NULL;
+                    }
+                    if (elem_len != 2) {
+                        PyErr_SetString(PyExc_ValueError, "dictionary update sequence element has invalid length; 2 is required");
+                        return NULL;
+                    }
+                    auto key = Py_OWN(PySequence_GetItem(*elem, 0));
+                    if (!key) {
+                        return NULL;
+                    }
+                    auto value = Py_OWN(PySequence_GetItem(*elem, 1));
+                    if (!value || tryDictObject_SetItem(dict_object, *key, *value) < 0) {
                         return NULL;
                     }
-                    tryDictObject_SetItem(dict_object, PyTuple_GetItem(elem.get(), 0), PyTuple_GetItem(*elem, 1));
                 }
             }
         }
@@ -353,7 +373,9 @@ namespace db0::python
             }
             ObjectSharedPtr elem;
             Py_FOR(elem, iterator) {            
-                tryDictObject_SetItem(dict_object, *elem, *Py_BORROW(PyDict_GetItem(kwargs, *elem)));
+                if (tryDictObject_SetItem(dict_object, *elem, *Py_BORROW(PyDict_GetItem(kwargs, *elem))) < 0) {
+                    return NULL;
+                }
             }
         }
         Py_RETURN_NONE;
@@ -443,7 +465,9 @@ namespace db0::python
             value = args[1];
         }
         Py_FOR(elem, iterator) {     
-            tryDictObject_SetItem(*py_dict, *elem, *value);
+            if (tryDictObject_SetItem(*py_dict, *elem, *value) < 0) {
+                return nullptr;
+            }
         }
         
         lock->getLangCache().add(dict.getAddress(), py_dict.get());
@@ -547,8 +571,10 @@ namespace db0::python
         auto elem = migratedKey(dict_object->ext(), py_elem);
         auto fixture = dict_object->ext().getFixture();
         auto hash = getPyHash(fixture, *elem);
-        if (!dict_object->ext().hasItem(hash, *elem)) {
-            tryDictObject_SetItem(dict_object, *elem, *value);
+        if (hash == -1 || !dict_object->ext().hasItem(hash, *elem)) {
+            if (tryDictObject_SetItem(dict_object, *elem, *value) < 0) {
+                return nullptr;
+            }
         }
         return tryDictObject_GetItem(dict_object, *elem);
     }
@@ -616,9 +642,11 @@ namespace db0::python
                 
                 PySafeDict_SetItem(*py_result, key, result);
             } else if (DictObject_Check(py_dict)) {
-                auto result = Py_OWN(tryLoad(
-                    tryDictObject_GetItem((DictObject*)py_dict, *elem), kwargs, nullptr, load_stack_ptr)
-                );
+                auto item = Py_OWN(tryDictObject_GetItem((DictObject*)py_dict, *elem));
+                if (!item) {
+                    return nullptr;
+                }
+                auto result = Py_OWN(tryLoad(*item, kwargs, nullptr, load_stack_ptr));
                 if (!result) {
                     return nullptr;
                 }
-- 
2.43.0


From becf9c23998229d4758dcb61ab5e2134b0d394b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 21/83] fix: two dbzero dicts with the same items are equal

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 7b08e10..6999150 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -222,11 +222,19 @@ namespace db0::python
                     if (!our_value) {
                         return nullptr;
                     }
-                    auto their_value = PyDict_GetItem(other, *key);
+                    ObjectSharedPtr their_value;
+                    if (PyDict_Check(other)) {
+                        their_value = Py_BORROW(PyDict_GetItem(other, *key));
+                    } else if (tryDictObject_HasItem((DictObject*)other, *key)) {
+                        their_value = Py_OWN(tryDictObject_GetItem((DictObject*)other, *key));
+                        if (!their_value) {
+                            return nullptr;
+                        }
+                    }
                     if (!their_value) {
                         return PyBool_fromBool(false);
                     }
-                    int cmp_result = PyObject_RichCompareBool(*our_value, their_value, Py_EQ);
+                    int cmp_result = PyObject_RichCompareBool(*our_value, *their_value, Py_EQ);
                     if (cmp_result == -1) {
                         return nullptr;
                     }
-- 
2.43.0


From 308054a0f2e00675f5448ebbbb48f35bdd057128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 22/83] fix: report dict length errors

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 6999150..9e39f57 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -107,7 +107,7 @@ namespace db0::python
     Py_ssize_t PyAPI_DictObject_len(DictObject *dict_obj)
     {
         PY_API_FUNC
-        return runSafe(tryDictObject_len, dict_obj);
+        return runSafe<-1>(tryDictObject_len, dict_obj);
     }
     
     int tryDictObject_HasItem(DictObject *py_dict, PyObject *py_key)
-- 
2.43.0


From 82822a4beb99b4a5582696a559874fda283c36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 23/83] fix: negative integers and tuples of them can be used
 as dict keys and set items

---
 src/dbzero/bindings/python/PyHash.cpp | 35 +++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index 7d9a42c..504a016 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -19,6 +19,21 @@ namespace db0::python
 
     using PyHashFunct = std::int64_t (*)(db0::swine_ptr<Fixture> &, PyObject *);
     
+    // NOTE: -1 is reserved for reporting errors (same as in Python)
+    inline std::int64_t fixHash(std::int64_t hash) {
+        return hash == -1 ? -2 : hash;
+    }
+
+    template <> std::int64_t getPyHashImpl<TypeId::INTEGER>(db0::swine_ptr<Fixture> &, PyObject *key)
+    {
+        // NOTE: negative values are hashed to their two's complement representation
+        auto value = PyLong_AsUnsignedLongLongMask(key);
+        if (value == (unsigned long long)-1 && PyErr_Occurred()) {
+            return -1;
+        }
+        return fixHash(static_cast<std::int64_t>(value));
+    }
+
     template <> std::int64_t getPyHashImpl<TypeId::STRING>(db0::swine_ptr<Fixture> &, PyObject *key)
     {
         auto unicode_value = PyUnicode_AsUTF8(key);
@@ -37,9 +52,14 @@ namespace db0::python
         int64_t hash = 0;
         for (int i = 0; i < tuple_size; ++i) {
             auto item = PyTuple_GetItem(key, i);
-            hash ^= getPyHash(fixture, item);
+            auto item_hash = getPyHash(fixture, item);
+            if (item_hash == -1) {
+                // item not hashable
+                return -1;
+            }
+            hash ^= item_hash;
         }
-        return hash;
+        return fixHash(hash);
     }
     
     template <> std::int64_t getPyHashImpl<TypeId::DB0_TUPLE>(db0::swine_ptr<Fixture> &fixture, PyObject *key)
@@ -48,9 +68,14 @@ namespace db0::python
         std::int64_t hash = 0;
         for (std::size_t i = 0; i < tuple_obj->ext().getData()->size(); ++i) {
             auto item = tuple_obj->ext().getItem(i);
-            hash ^= getPyHash(fixture, *item);
+            auto item_hash = getPyHash(fixture, *item);
+            if (item_hash == -1) {
+                // item not hashable
+                return -1;
+            }
+            hash ^= item_hash;
         }
-        return hash;
+        return fixHash(hash);
     }
     
     template <> std::int64_t getPyHashImpl<TypeId::DB0_ENUM_VALUE>(db0::swine_ptr<Fixture> &, PyObject *key) {
@@ -118,7 +143,7 @@ namespace db0::python
         functions[static_cast<int>(TypeId::DATE)] = getPyHashImpl_for_simple_obj;
         functions[static_cast<int>(TypeId::TIME)] = getPyHashImpl_for_simple_obj;
         functions[static_cast<int>(TypeId::TIME_TZ)] = getPyHashImpl_for_simple_obj;
-        functions[static_cast<int>(TypeId::INTEGER)] = getPyHashImpl_for_simple_obj;
+        functions[static_cast<int>(TypeId::INTEGER)] = getPyHashImpl<TypeId::INTEGER>;
         functions[static_cast<int>(TypeId::DECIMAL)] = getPyHashImpl_for_simple_obj;
     }
 
-- 
2.43.0


From b122ed18f0166407bab355ea3511ede7717b901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 24/83] fix: an integer out of the 64-bit range is rejected and
 not stored as -1

---
 src/dbzero/bindings/python/PyInternalAPI.hpp | 5 ++++-
 src/dbzero/object_model/value/Member.cpp     | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/PyInternalAPI.hpp b/src/dbzero/bindings/python/PyInternalAPI.hpp
index 85b1b7e..f1274a8 100644
--- a/src/dbzero/bindings/python/PyInternalAPI.hpp
+++ b/src/dbzero/bindings/python/PyInternalAPI.hpp
@@ -132,7 +132,10 @@ namespace db0::python
             } 
         #else
             catch (const db0::AbstractException &e) {
-                PyErr_SetString(PyExc_RuntimeError, e.getDesc().c_str());
+                // retain the original Python error if already set
+                if (!PyErr_Occurred()) {
+                    PyErr_SetString(PyExc_RuntimeError, e.getDesc().c_str());
+                }
                 return returnError();
             }
         #endif 
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 397bdbb..167850d 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -66,6 +66,10 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass, AccessFlags)
     {
         auto int_value = PyLong_AsLongLong(obj_ptr);
+        if (int_value == -1 && PyErr_Occurred()) {
+            // NOTE: the Python error (e.g. OverflowError) is retained
+            THROWF(db0::InputException) << "Integer value out of range" << THROWF_END;
+        }
         return db0::binary_cast<std::uint64_t, std::int64_t>()(int_value);
     }
     
@@ -187,6 +191,9 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass, AccessFlags access_mode)
     {
         auto tuple = db0::python::tryMake_DB0Tuple(fixture, &obj_ptr, 1, access_mode);
+        if (!tuple) {
+            THROWF(db0::InputException) << "Failed to create tuple" << THROWF_END;
+        }
         tuple.get()->modifyExt().incRef(false);
         return tuple.get()->ext().getAddress();
     }
-- 
2.43.0


From e24b457ba9cbbdb3d6f1bb9fe0dfd3b5befb927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 25/83] fix: strings with embedded NUL characters are stored
 whole

---
 src/dbzero/object_model/value/Member.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 167850d..ed01d5d 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -86,7 +86,14 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass, AccessFlags access_mode)
     {
         // create string-ref member and take its address
-        return db0::v_object<db0::o_string>(*fixture, PyUnicode_AsUTF8(obj_ptr), access_mode).getAddress();
+        // NOTE: may contain embedded NUL characters
+        Py_ssize_t str_size = 0;
+        auto str_data = PyUnicode_AsUTF8AndSize(obj_ptr, &str_size);
+        if (!str_data) {
+            // NOTE: the Python error (e.g. UnicodeEncodeError) is retained
+            THROWF(db0::InputException) << "Unable to encode string" << THROWF_END;
+        }
+        return db0::v_object<db0::o_string>(*fixture, std::string(str_data, str_size), access_mode).getAddress();
     }
     
     // OBJECT specialization (mutable or immutable)
-- 
2.43.0


From 458aa2acf191226d895a3181319bb3516b1d9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 26/83] fix: assigning a bytearray takes a single reference

---
 src/dbzero/object_model/value/Member.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index ed01d5d..bbf679f 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -318,7 +318,6 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass storage_class, AccessFlags access_flags)
     {
         auto &byte_array = PyToolkit::getTypeManager().extractMutableByteArray(obj_ptr);
-        byte_array.modify().incRef(false);
         return resolveForFixture(fixture, byte_array, obj_ptr, storage_class, access_flags);
     }
     
-- 
2.43.0


From 9d5ab4398ada65b9e9dfe8751899bbb7ec4cdfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 27/83] fix: set remove / pop release the removed element

---
 src/dbzero/object_model/set/Set.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dbzero/object_model/set/Set.cpp b/src/dbzero/object_model/set/Set.cpp
index 51223a9..43e54b6 100644
--- a/src/dbzero/object_model/set/Set.cpp
+++ b/src/dbzero/object_model/set/Set.cpp
@@ -177,6 +177,7 @@ namespace db0::object_model
                     bindex.destroy();
                 } else {
                     bindex.erase(*it);
+                    unrefMember<LangToolkit>(fixture, storage_class, value);
                     // Erasing may have morphed the bindex to a smaller container,
                     // changing its address/type. Re-point the m_index entry so the
                     // bucket tracks the new storage — otherwise later lookups read
@@ -237,6 +238,8 @@ namespace db0::object_model
         auto [storage_class, value] = *it;
         auto fixture = this->getFixture();
         auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, getMemberFlags());
+        // NOTE: the returned member holds a language reference
+        unrefMember<LangToolkit>(fixture, storage_class, value);
         if (bindex.size() == 1) {
             m_index.erase(iter);
             bindex.destroy();
-- 
2.43.0


From 2630550bc8a339c6a9ad2a8028f54b117499366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 28/83] fix: set issubset / issuperset / isdisjoint compare
 elements by value

---
 .../bindings/python/collections/PySet.cpp     | 136 ++++++------------
 1 file changed, 45 insertions(+), 91 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index dcb09ad..27e8c87 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -109,50 +109,34 @@ namespace db0::python
         return PyObject_Length(obj);
     }
     
+    // Check if a set / iterable contains a specific item, throws on error
+    bool sequenceContainsItem(PyObject *set_obj, PyObject *item);
+    
     PyObject *trySetObject_issubsetInternal(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
     {
         if (nargs != 1) {
-            PyErr_SetString(PyExc_TypeError, "isdisjoint() takes exactly one argument");
+            PyErr_SetString(PyExc_TypeError, "issubset() takes exactly one argument");
             return NULL;
         }
         
-        if (SetObject_Check(args[0])) {
-            SetObject *other = (SetObject*)args[0];
-            if (trySetObject_len(self) == 0 || trySetObject_len(other) == 0) Py_RETURN_TRUE;
-
-            auto it1 = self->ext().begin();
-            auto it2 = other->ext().begin();
-            auto it1End = self->ext().end();
-            auto it2End = other->ext().end();
-
-            while (it1 != it1End) {
-                if (it2 == it2End) {
-                    Py_RETURN_FALSE;
-                }
-                if (*it1 == *it2) {
-                    ++it1;
-                }
-                ++it2;
-            }
-        } else if (PySet_Check(args[0])) {
-            PyObject *other = args[0];
-            if (trySetObject_len(self) == 0 || PyObject_Length(other) == 0) {
-                Py_RETURN_TRUE;
-            }
-
-            auto iterator = Py_OWN(PyObject_GetIter(self));
-            if (!iterator) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
+        // NOTE: iterators can only be consumed once, therefore need to be materialized
+        ObjectSharedPtr other(args[0]);
+        if (!SetObject_Check(*other) && !PyAnySet_Check(*other)) {
+            other = ObjectSharedPtr(PySequence_List(args[0]), false);
+            if (!other) {
                 return nullptr;
             }
-            ObjectSharedPtr elem;
-            Py_FOR(elem, iterator) {            
-                if (!PySequence_Contains(other, *elem)) {
-                    Py_RETURN_FALSE;
-                }                                
+        }
+        
+        auto iterator = Py_OWN(PyObject_GetIter((PyObject*)self));
+        if (!iterator) {
+            return nullptr;
+        }
+        ObjectSharedPtr elem;
+        Py_FOR(elem, iterator) {
+            if (!sequenceContainsItem(*other, *elem)) {
+                Py_RETURN_FALSE;
             }
-        } else {
-            Py_RETURN_FALSE;
         }
         Py_RETURN_TRUE;
     }
@@ -169,29 +153,15 @@ namespace db0::python
             PyErr_SetString(PyExc_TypeError, "issuperset() takes exactly one argument");
             return NULL;
         }
-        if (SetObject_Check(args[0])) {
-            SetObject *other = (SetObject*)args[0];
-            PyObject *py_self = (PyObject*)self;
-            return trySetObject_issubsetInternal(other, &py_self,1);
-        } else {
-            PyObject *other = args[0];
-            if (trySetObject_len(self) == 0 || PyObject_Length(other) == 0) {
-                Py_RETURN_TRUE;
-            }
-
-            auto iterator = Py_OWN(PyObject_GetIter(other));
-            if (!iterator) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return nullptr;
-            }
-            
-            ObjectSharedPtr elem;
-            auto fixture = self->ext().getFixture();
-            Py_FOR(elem, iterator) {
-                auto hash = getPyHash(fixture, *elem);
-                if (!self->ext().hasItem(hash, *elem)) {
-                    Py_RETURN_FALSE;
-                }                                
+        auto iterator = Py_OWN(PyObject_GetIter(args[0]));
+        if (!iterator) {
+            return nullptr;
+        }
+        
+        ObjectSharedPtr elem;
+        Py_FOR(elem, iterator) {
+            if (!sequenceContainsItem((PyObject*)self, *elem)) {
+                Py_RETURN_FALSE;
             }
         }
         Py_RETURN_TRUE;
@@ -394,39 +364,16 @@ namespace db0::python
 
     PyObject *trySetObject_isdisjoint(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
     {
-        if (SetObject_Check(args[0])) {
-            SetObject *other = (SetObject*)args[0];
-            if (trySetObject_len(self) == 0 || trySetObject_len(other) == 0) Py_RETURN_TRUE;
-            auto it1 = self->ext().begin();
-            auto it2 = other->ext().begin();
-            auto it1End = self->ext().end();
-            auto it2End = other->ext().end();
-
-            while (it1 != it1End && it2 != it2End) {
-                if(*it1 == *it2) Py_RETURN_FALSE;
-                if(*it1 < *it2) { ++it1; }
-                else { ++it2; }
-            }
-        } else {
-            PyObject *other = args[0];
-            if (trySetObject_len(self) == 0 || PyObject_Length(other) == 0) {
-                Py_RETURN_TRUE;
-            }
+        auto iterator = Py_OWN(PyObject_GetIter(args[0]));
+        if (!iterator) {
+            return nullptr;
+        }
 
-            auto iterator = Py_OWN(PyObject_GetIter(other));
-            if (!iterator) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return NULL;
+        ObjectSharedPtr elem;
+        Py_FOR(elem, iterator) {
+            if (sequenceContainsItem((PyObject*)self, *elem)) {
+                Py_RETURN_FALSE;
             }
-
-            ObjectSharedPtr elem;
-            auto fixture = self->ext().getFixture();
-            Py_FOR(elem, iterator) {
-                auto hash = getPyHash(fixture, *elem);
-                if (self->ext().hasItem(hash, *elem)) {
-                    Py_RETURN_FALSE;
-                }                
-            }            
         }
         Py_RETURN_TRUE;
     }
@@ -758,10 +705,17 @@ namespace db0::python
             if (!maybe_hash) {
                 return false;
             }
+            if (maybe_hash->first == -1) {
+                THROWF(db0::InputException) << "Element is not hashable" << THROWF_END;
+            }
 
-            return ((SetObject*)set_obj)->ext().hasItem(maybe_hash->first, item);
+            return ((SetObject*)set_obj)->ext().hasItem(maybe_hash->first, *maybe_hash->second);
         } else {
-            return PySequence_Contains(set_obj, item);
+            auto result = PySequence_Contains(set_obj, item);
+            if (result < 0) {
+                THROWF(db0::InputException) << "Unable to look up element" << THROWF_END;
+            }
+            return result;
         }
     }
 
-- 
2.43.0


From bb1e53c7f68101306a35f28abdc0e8bf61eb97ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 29/83] fix: set intersection compares elements by value and
 accepts empty sets

---
 .../bindings/python/collections/PySet.cpp     | 69 +++++++------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 27e8c87..1e381fb 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -447,61 +447,44 @@ namespace db0::python
         return runSafe(trySetObject_union, self, args, nargs);
     }
     
-    void trySetObject_intersectionInternal(FixtureLock &fixture, SetObject * set_obj, PyObject *it1, PyObject *elem1,
-        PyObject *it2, PyObject *elem2)
-    {
-        // FIXME: reimplement avoiding recursion
-        if (elem1 == nullptr || elem2 == nullptr) {
-            return;
-        }
-        if (elem1 < elem2) {
-            Py_DECREF(elem1);
-            elem1 = PyIter_Next(it1);
-        } else if (elem1 > elem2) {            
-            Py_DECREF(elem2);
-            elem2 = PyIter_Next(it2);
-        } else if (elem1 == elem2) {
-            auto hash = getPyHash(*fixture, elem1);
-            set_obj->modifyExt().append(fixture, hash, elem1);            
-            Py_DECREF(elem1);
-            Py_DECREF(elem2);
-            elem1 = PyIter_Next(it1);
-            elem2 = PyIter_Next(it2);
-        }
-        return trySetObject_intersectionInternal(fixture, set_obj, it1 ,elem1, it2, elem2);
-    }
-    
     PyObject *PyAPI_SetObject_intersection_binary(SetObject *self, PyObject * obj) {
         return PyAPI_SetObject_intersection_func(self, &obj, 1);
     }
 
     PyObject *trySetObject_intersection_func(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
     { 
+        // NOTE: iterators can only be consumed once, therefore need to be materialized
+        std::vector<ObjectSharedPtr> others;
+        for (Py_ssize_t i = 0; i < nargs; ++i) {
+            if (SetObject_Check(args[i]) || PyAnySet_Check(args[i])) {
+                others.push_back(ObjectSharedPtr(args[i]));
+            } else {
+                others.push_back(Py_OWN(PySequence_List(args[i])));
+                if (!others.back()) {
+                    return nullptr;
+                }
+            }
+        }
+
         auto set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
-        ObjectSharedPtr elem1, elem2;
-        auto it1 = Py_OWN(PyObject_GetIter((PyObject*)self));
-        if (!it1) {
-            PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
+        auto it = Py_OWN(PyObject_GetIter((PyObject*)self));
+        if (!set_obj || !it) {
             return nullptr;
         }
 
         db0::FixtureLock lock(self->ext().getFixture());
-        ObjectSharedPtr it2;
-        for (Py_ssize_t i = 0; i < nargs; ++i) {
-            it2 = Py_OWN(PyObject_GetIter(args[i]));
-            if (!it2) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return nullptr;
+        ObjectSharedPtr item;
+        Py_FOR(item, it) {
+            bool in_all = true;
+            for (auto &other: others) {
+                if (!sequenceContainsItem(*other, *item)) {
+                    in_all = false;
+                    break;
+                }
             }
-
-            elem1 = Py_OWN(PyIter_Next(*it1));
-            elem2 = Py_OWN(PyIter_Next(*it2));
-            set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
-            trySetObject_intersectionInternal(lock, *set_obj, *it1, *elem1, *it2, *elem2);
-            it1 = Py_OWN(PyObject_GetIter(*set_obj));
-            if (!it1) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return nullptr;
+            if (in_all) {
+                auto hash = getPyHash(*lock, *item);
+                set_obj->modifyExt().append(lock, hash, item);
             }
         }
         return set_obj.steal();
-- 
2.43.0


From 68dab2bc027dbfd1720f79f97692e8c6fbaee601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 30/83] fix: set difference accepts any iterable and reports
 lookup errors

---
 src/dbzero/bindings/python/collections/PySet.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 1e381fb..e9c8bd6 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -509,22 +509,31 @@ namespace db0::python
             return false;
         }
 
+        // NOTE: iterators can only be consumed once, therefore need to be materialized
+        ObjectSharedPtr other(ob);
+        if (!SetObject_Check(ob) && !PyAnySet_Check(ob)) {
+            other = ObjectSharedPtr(PySequence_List(ob), false);
+            if (!other) {
+                return false;
+            }
+        }
+
         ObjectSharedPtr item;
         auto &set_impl = set_result->modifyExt();        
         Py_FOR(item, it) {
-            if (!PySequence_Contains(ob, *item)) {
+            if (!sequenceContainsItem(*other, *item)) {
                 auto hash = getPyHash(*fixture, *item);
                 set_impl.append(fixture, hash, item);
             }            
         }
 
         if (symmetric) {            
-            it = Py_OWN(PyObject_GetIter(ob));
+            it = Py_OWN(PyObject_GetIter(*other));
             if (!it) {
                 THROWF(db0::InputException) <<  "argument must be a sequence or set";
             }
             Py_FOR(item, it) {            
-                if (!PySequence_Contains((PyObject*)set_input, *item)) {
+                if (!sequenceContainsItem((PyObject*)set_input, *item)) {
                     auto hash = getPyHash(*fixture, *item);
                     set_impl.append(fixture, hash, item);
                 }                
-- 
2.43.0


From 0dace1c663a4b85466216c09cedcbc83463a52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 31/83] fix: set update / in-place operators handle the set
 itself and unhashable items, update returns None

---
 .../bindings/python/collections/PySet.cpp     | 41 +++++++++++++++++--
 .../bindings/python/collections/PySet.hpp     |  1 +
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index e9c8bd6..f968380 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -86,7 +86,7 @@ namespace db0::python
         .nb_inplace_subtract = (binaryfunc)PyAPI_SetObject_difference_in_place,
         .nb_inplace_and = (binaryfunc)PyAPI_SetObject_intersection_in_place,
         .nb_inplace_xor = (binaryfunc)PyAPI_SetObject_symmetric_difference_in_place,
-        .nb_inplace_or = (binaryfunc)PyAPI_SetObject_update,
+        .nb_inplace_or = (binaryfunc)PyAPI_SetObject_update_in_place,
     };
 
     Py_ssize_t trySetObject_len(SetObject *set_obj)
@@ -302,6 +302,9 @@ namespace db0::python
     {
         auto fixture = set_obj->ext().getFixture();
         auto hash = getPyHash(fixture, args[0]);
+        if (hash == -1) {
+            return nullptr;
+        }
         db0::FixtureLock lock(fixture);
         set_obj->modifyExt().append(lock, hash, args[0]);
         Py_RETURN_NONE;
@@ -337,6 +340,9 @@ namespace db0::python
             ObjectSharedPtr item;
             Py_FOR(item, iterator) {
                 auto hash = getPyHash(fixture, *item);
+                if (hash == -1) {
+                    return nullptr;
+                }
                 set.append(lock, hash, item);
             }
         }
@@ -429,7 +435,10 @@ namespace db0::python
                 auto fixture = set_impl.getFixture();
                 Py_FOR(elem, iterator) {
                     auto hash = getPyHash(fixture, *elem);
-                    set_impl.append(lock, hash, *elem);                                        
+                    if (hash == -1) {
+                        return nullptr;
+                    }
+                    set_impl.append(lock, hash, *elem);
                 }
             }
         }
@@ -666,6 +675,11 @@ namespace db0::python
 
     PyObject *trySetObject_update(SetObject *self, PyObject * ob)
     {        
+        if (ob == (PyObject*)self) {
+            // updating with itself
+            return Py_BORROW((PyObject*)self).steal();
+        }
+        
         auto it = Py_OWN(PyObject_GetIter(ob));
         if (!it) {
             PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
@@ -677,18 +691,31 @@ namespace db0::python
         db0::FixtureLock lock(set_impl.getFixture());
         Py_FOR(item, it) {
             auto hash = getPyHash(*lock, *item);
+            if (hash == -1) {
+                return nullptr;
+            }
             set_impl.append(lock, hash, *item);            
         }
 
-        return Py_BORROW(self).steal();
+        return Py_BORROW((PyObject*)self).steal();
     }
 
-    PyObject *PyAPI_SetObject_update(SetObject *self, PyObject * ob)
+    PyObject *PyAPI_SetObject_update_in_place(SetObject *self, PyObject * ob)
     {
         PY_API_FUNC
         return runSafe(trySetObject_update, self, ob);
     }
 
+    PyObject *PyAPI_SetObject_update(SetObject *self, PyObject * ob)
+    {
+        PY_API_FUNC
+        auto result = Py_OWN(runSafe(trySetObject_update, self, ob));
+        if (!result) {
+            return nullptr;
+        }
+        Py_RETURN_NONE;
+    }
+
     bool sequenceContainsItem(PyObject *set_obj, PyObject *item)
     {
         if (SetObject_Check(set_obj)) {
@@ -746,6 +773,12 @@ namespace db0::python
 
     PyObject *trySetObject_difference_in_place(SetObject *self, PyObject * ob)
     {        
+        if (ob == (PyObject*)self) {
+            db0::FixtureLock lock(self->ext().getFixture());
+            self->modifyExt().clear(lock);
+            return Py_BORROW((PyObject*)self).steal();
+        }
+
         auto it = Py_OWN(PyObject_GetIter(ob));
         if (!it) {
             PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
diff --git a/src/dbzero/bindings/python/collections/PySet.hpp b/src/dbzero/bindings/python/collections/PySet.hpp
index 4ba782b..44dc359 100644
--- a/src/dbzero/bindings/python/collections/PySet.hpp
+++ b/src/dbzero/bindings/python/collections/PySet.hpp
@@ -44,6 +44,7 @@ namespace db0::python
     PyObject *PyAPI_SetObject_symmetric_difference_in_place(SetObject *self, PyObject * ob);
     PyObject *PyAPI_SetObject_difference_in_place(SetObject *self, PyObject * ob);
     PyObject *PyAPI_SetObject_update(SetObject *self, PyObject * ob);
+    PyObject *PyAPI_SetObject_update_in_place(SetObject *self, PyObject * ob);
     PyObject *PyAPI_SetObject_intersection_in_place(SetObject *self, PyObject * ob);
     
     shared_py_object<SetObject*> tryMake_DB0Set(db0::swine_ptr<Fixture> &, PyObject *const *args,
-- 
2.43.0


From dff69562ecf3dc66cdce07b2974cfdfd555c6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 32/83] fix: set operators check the type of their left operand

---
 src/dbzero/bindings/python/collections/PySet.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index f968380..4d67714 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -412,6 +412,10 @@ namespace db0::python
     }
     
     PyObject *PyAPI_SetObject_union_binary(SetObject *self, PyObject * obj) {        
+        if (!SetObject_Check((PyObject*)self)) {
+            // the left operand is of a different type
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return PyAPI_SetObject_union(self, &obj, 1);
     }
 
@@ -457,6 +461,10 @@ namespace db0::python
     }
     
     PyObject *PyAPI_SetObject_intersection_binary(SetObject *self, PyObject * obj) {
+        if (!SetObject_Check((PyObject*)self)) {
+            // the left operand is of a different type
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return PyAPI_SetObject_intersection_func(self, &obj, 1);
     }
 
@@ -598,12 +606,20 @@ namespace db0::python
     
     PyObject *PyAPI_SetObject_difference_binary(SetObject *self, PyObject * obj) 
     {
+        if (!SetObject_Check((PyObject*)self)) {
+            // the left operand is of a different type
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(trySetObject_difference, self, &obj, 1, false);
     }
 
     PyObject *PyAPI_SetObject_symmetric_difference_binary(SetObject *self, PyObject * obj)
     { 
+        if (!SetObject_Check((PyObject*)self)) {
+            // the left operand is of a different type
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(trySetObject_difference, self, &obj, 1, true);
     }
-- 
2.43.0


From e248bca181052fc814b430e4958c3e68c6d04f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 33/83] fix: item assignments are committed when only a data
 block of the vector changes

---
 src/dbzero/core/collections/vector/v_bvector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbzero/core/collections/vector/v_bvector.hpp b/src/dbzero/core/collections/vector/v_bvector.hpp
index 9d3aaaa..a884a82 100644
--- a/src/dbzero/core/collections/vector/v_bvector.hpp
+++ b/src/dbzero/core/collections/vector/v_bvector.hpp
@@ -185,6 +185,8 @@ DB0_PACKED_END
             if (!(index < size())) {
                 growBy((std::uint32_t)(index - size() + 1));
             }
+            // NOTE: the collection is marked as modified for its data blocks to get committed
+            this->modify();
             getDataBlock(getKey(0, index));
             return (*m_last_block).modify().modifyItem((std::size_t)(index & m_db_mask));
         }
@@ -197,6 +199,8 @@ DB0_PACKED_END
             if (!(index < size())) {
                 growBy((std::uint32_t)(index - size() + 1));
             }
+            // NOTE: the collection is marked as modified for its data blocks to get committed
+            this->modify();
             // access within data block element (not thread safe)
             getDataBlock(getKey(0, index));
             return f((*m_last_block).modify().modifyItem((std::size_t)(index & m_db_mask)));
@@ -207,6 +211,8 @@ DB0_PACKED_END
             if (!(index < size())) {
                 growBy((std::uint32_t)(index - size() + 1));
             }
+            // NOTE: the collection is marked as modified for its data blocks to get committed
+            this->modify();
             // access within data block element (not thread safe)
             getDataBlock(getKey(0, index));
             (*m_last_block).modify().modifyItem((std::size_t)(index & m_db_mask)) = item;
-- 
2.43.0


From 90d0069d45a0f90e8c68aa88180d999ac0529fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 34/83] fix: collections of tuples can be compared with and
 looked up in Python's collections

---
 src/dbzero/bindings/python/PyHash.cpp         | 23 ++++++++++++++++++-
 src/dbzero/bindings/python/PyHash.hpp         |  8 +++++--
 .../bindings/python/collections/PyDict.cpp    |  9 +++++++-
 .../bindings/python/collections/PySet.cpp     |  3 ++-
 4 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index 504a016..a85fb0c 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -185,4 +185,25 @@ namespace db0::python
         return std::make_pair(getPyHash(fixture, *lang_enum), lang_enum);
     }
 
-}
\ No newline at end of file
+    ObjectSharedPtr tryGetPyHashable(PyObject *key)
+    {
+        if (!TupleObject_Check(key)) {
+            return ObjectSharedPtr(key);
+        }
+        auto &tuple = reinterpret_cast<TupleObject*>(key)->ext();
+        auto size = tuple.getData()->size();
+        auto result = Py_OWN(PyTuple_New(size));
+        if (!result) {
+            return nullptr;
+        }
+        for (std::size_t i = 0; i < size; ++i) {
+            auto item = tryGetPyHashable(*tuple.getItem(i));
+            if (!item) {
+                return nullptr;
+            }
+            PyTuple_SET_ITEM(*result, i, item.steal());
+        }
+        return result;
+    }
+
+}
diff --git a/src/dbzero/bindings/python/PyHash.hpp b/src/dbzero/bindings/python/PyHash.hpp
index 8ec8508..e18676f 100644
--- a/src/dbzero/bindings/python/PyHash.hpp
+++ b/src/dbzero/bindings/python/PyHash.hpp
@@ -30,5 +30,9 @@ namespace db0::python
     // in such cases this function will not raise any exception but return std::nullopt    
     std::optional<std::pair<std::int64_t, ObjectSharedPtr> > getPyHashIfExists(
         db0::swine_ptr<Fixture> &fixture, PyObject *obj_ptr);
-    
-}
\ No newline at end of file
+
+    // dbzero tuples are not hashable, this function converts them to (hashable) Python tuples for lookup in Python's collections
+    // @return null (with the error set) if the conversion failed
+    ObjectSharedPtr tryGetPyHashable(PyObject *key);
+
+}
diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 9e39f57..9e01ff9 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -224,7 +224,14 @@ namespace db0::python
                     }
                     ObjectSharedPtr their_value;
                     if (PyDict_Check(other)) {
-                        their_value = Py_BORROW(PyDict_GetItem(other, *key));
+                        auto py_key = tryGetPyHashable(*key);
+                        if (!py_key) {
+                            return nullptr;
+                        }
+                        their_value = Py_BORROW(PyDict_GetItemWithError(other, *py_key));
+                        if (!their_value && PyErr_Occurred()) {
+                            return nullptr;
+                        }
                     } else if (tryDictObject_HasItem((DictObject*)other, *key)) {
                         their_value = Py_OWN(tryDictObject_GetItem((DictObject*)other, *key));
                         if (!their_value) {
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 4d67714..dce53fd 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -746,7 +746,8 @@ namespace db0::python
 
             return ((SetObject*)set_obj)->ext().hasItem(maybe_hash->first, *maybe_hash->second);
         } else {
-            auto result = PySequence_Contains(set_obj, item);
+            auto key = PyAnySet_Check(set_obj) ? tryGetPyHashable(item) : ObjectSharedPtr(item);
+            auto result = !key ? -1 : PySequence_Contains(set_obj, *key);
             if (result < 0) {
                 THROWF(db0::InputException) << "Unable to look up element" << THROWF_END;
             }
-- 
2.43.0


From 33227ed1853b07b1565c3abbecda96a1da97c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 35/83] fix: time with timezone, minutes of the UTC offset and
 decimals with positive exponents are stored correctly

---
 src/dbzero/bindings/python/types/DateTime.cpp | 108 +++++++++---------
 .../bindings/python/types/PyDecimal.cpp       |  19 ++-
 2 files changed, 71 insertions(+), 56 deletions(-)

diff --git a/src/dbzero/bindings/python/types/DateTime.cpp b/src/dbzero/bindings/python/types/DateTime.cpp
index 9c18491..677ef85 100644
--- a/src/dbzero/bindings/python/types/DateTime.cpp
+++ b/src/dbzero/bindings/python/types/DateTime.cpp
@@ -21,11 +21,17 @@ namespace db0::python
 
     // HELPER METHODS
 
-    std::pair<int, int> get_utc_offset(PyObject* tzinfo, PyObject* datetime_instance) 
+    struct UTC_Offset
+    {
+        int m_days = 0;
+        int m_hours = 0;
+        int m_minutes = 0;
+    };
+
+    UTC_Offset get_utc_offset(PyObject* tzinfo, PyObject* datetime_instance)
     {
         if (!tzinfo || !PyObject_HasAttrString(tzinfo, "utcoffset")) {
-            PyErr_Print();
-            throw std::runtime_error("tzinfo must have a utcoffset method.");
+            THROWF(db0::InputException) << "tzinfo must have a utcoffset method.";
         }
 
         // Call tzinfo.utcoffset(datetime_instance)
@@ -39,18 +45,34 @@ namespace db0::python
             THROWF(db0::InputException) << "utcoffset must return a timedelta object.";
         }
 
-        // Extract the total seconds from the timedelta object and return as hours
-        auto hours = PyDateTime_DELTA_GET_SECONDS(*offset)/3600;
-        auto days = PyDateTime_DELTA_GET_DAYS(*offset);
-        return std::make_pair(days, hours);
+        // Extract the total seconds from the timedelta object and return as hours and minutes
+        auto seconds = PyDateTime_DELTA_GET_SECONDS(*offset);
+        if (seconds % 60 != 0 || PyDateTime_DELTA_GET_MICROSECONDS(*offset) != 0) {
+            THROWF(db0::InputException) << "utcoffset must be a whole number of minutes.";
+        }
+        return { PyDateTime_DELTA_GET_DAYS(*offset), seconds / 3600, (seconds / 60) % 60 };
     }
 
+    // @return null (with Python error set) if the timezone could not be created
+    ObjectSharedPtr make_timezone(int tz_days, int tz_hours, int tz_minutes)
+    {
+        auto offset = Py_OWN(PyDelta_FromDSU(tz_days ? -1 : 0, tz_hours * 3600 + tz_minutes * 60, 0));
+        if (!offset) {
+            return nullptr;
+        }
+        return Py_OWN(PyTimeZone_FromOffset(*offset));
+    }
+
+    // @return borrowed reference
     PyObject *get_tz_info(PyObject * py_datetime)
     {
         if (((PyDateTime_DateTime *)(py_datetime))->hastzinfo) {
+            if (PyTime_Check(py_datetime)) {
+                return ((PyDateTime_Time *)(py_datetime))->tzinfo;
+            }
             return ((PyDateTime_DateTime *)(py_datetime))->tzinfo;
         }
-        Py_RETURN_NONE;
+        return Py_None;
     }
     
     bool isDatatimeWithTZ(PyObject *py_datetime)
@@ -93,13 +115,12 @@ namespace db0::python
     {
         init_datetime();
         auto timezone = get_tz_info(py_datetime);
-        std::pair<int,int> offset = {0,0};
         if (timezone == Py_None){
             throw std::runtime_error("Datetime with timezone must have tzinfo");
         }
-        offset = get_utc_offset(timezone, py_datetime);
+        auto offset = get_utc_offset(timezone, py_datetime);
 
-        auto tz_days = offset.first;
+        auto tz_days = offset.m_days;
         // tz_days can only by -1 or 0 so use 1 to indicate -1 to save bites
         if(tz_days != -1 && tz_days != 0){
             throw std::runtime_error("Invalid timezone days: should be -1 or 0");
@@ -108,7 +129,9 @@ namespace db0::python
             tz_days = 1;
         }
         std::uint64_t datetime = 0;
-        set_bytes(datetime, 44, 16, PyDateTime_GET_YEAR(py_datetime));
+        // NOTE: bits 58 - 63 hold minutes of the UTC offset
+        set_bytes(datetime, 58, 6, offset.m_minutes);
+        set_bytes(datetime, 44, 14, PyDateTime_GET_YEAR(py_datetime));
         set_bytes(datetime, 40, 4, PyDateTime_GET_MONTH(py_datetime));
         set_bytes(datetime, 35, 5, PyDateTime_GET_DAY(py_datetime));
         set_bytes(datetime, 30, 5, PyDateTime_DATE_GET_HOUR(py_datetime));
@@ -116,7 +139,7 @@ namespace db0::python
         set_bytes(datetime, 18, 6, PyDateTime_DATE_GET_SECOND(py_datetime));
         set_bytes(datetime, 8, 10, PyDateTime_DATE_GET_MICROSECOND(py_datetime)/1000);
         set_bytes(datetime, 7, 1, tz_days);
-        set_bytes(datetime, 0, 7, offset.second);
+        set_bytes(datetime, 0, 7, offset.m_hours);
 
         return datetime;
     }
@@ -124,7 +147,7 @@ namespace db0::python
     PyObject *uint64ToPyDatetimeWithTZ(std::uint64_t datetime)
     {
         init_datetime();
-        auto year = get_bytes(datetime, 44, 16);
+        auto year = get_bytes(datetime, 44, 14);
         auto month = get_bytes(datetime, 40, 4);
         auto day = get_bytes(datetime, 35, 5);
         auto hour = get_bytes(datetime, 30, 5);
@@ -133,27 +156,13 @@ namespace db0::python
         auto miliseconds = get_bytes(datetime, 8, 10);
         auto tz_days = get_bytes(datetime, 7, 1);
         auto tz_hours = get_bytes(datetime, 0, 7);
-        tz_hours= tz_hours & 0x3F;
-        auto result = Py_OWN(PyDateTime_FromDateAndTime(year, month, day, hour, minute, second, miliseconds*1000));
-        if (!result) {
-            return nullptr;
-        }
-
-        if (tz_days == 1){
-            tz_days = -tz_days;
-        }
-        auto offset = Py_OWN(PyDelta_FromDSU(tz_days, tz_hours*3600, 0));
-        if (!offset) {
-            return nullptr;
-        }
-        auto tzinfo = Py_OWN(PyTimeZone_FromOffset(*offset));
+        auto tz_minutes = get_bytes(datetime, 58, 6);
+        auto tzinfo = make_timezone(tz_days, tz_hours & 0x3F, tz_minutes);
         if (!tzinfo) {
             return nullptr;
         }
-
-        ((PyDateTime_DateTime *)(result.get()))->hastzinfo = 1;
-        ((PyDateTime_DateTime *)(result.get()))->tzinfo = tzinfo.steal();
-        return result.steal();
+        return PyDateTimeAPI->DateTime_FromDateAndTime(year, month, day, hour, minute, second, miliseconds * 1000,
+            *tzinfo, PyDateTimeAPI->DateTimeType);
     }
 
     // DATE
@@ -210,13 +219,13 @@ namespace db0::python
     {
         init_datetime();
         auto timezone = get_tz_info(py_time);
-        std::pair<int,int> offset = {0,0};
         if (timezone == Py_None){
             THROWF(db0::InputException) << "Datetime with timezone must have tzinfo";            
         }
 
-        offset = get_utc_offset(timezone, py_time);
-        auto tz_days = offset.first;
+        // NOTE: as datetime.time.utcoffset does, the offset is requested without an instance
+        auto offset = get_utc_offset(timezone, Py_None);
+        auto tz_days = offset.m_days;
         // tz_days can only by -1 or 0 so use 1 to indicate -1 to save bites
         if(tz_days != -1 && tz_days != 0){
             throw std::runtime_error("Invalid timezone days: should be -1 or 0");
@@ -232,35 +241,26 @@ namespace db0::python
         set_bytes(time_components, 0, 20, PyDateTime_TIME_GET_MICROSECOND(py_time));
 
         set_bytes(time_components, 42, 1, tz_days);
-        set_bytes(time_components, 43, 7, offset.second);
+        set_bytes(time_components, 43, 7, offset.m_hours);
+        set_bytes(time_components, 50, 6, offset.m_minutes);
         return time_components;
     }
 
     PyObject *uint64ToPyTimeWithTz(std::uint64_t time)
     {
         init_datetime();
-        auto hour = get_bytes(time, 0, 5);
-        auto minute = get_bytes(time, 5, 6);
-        auto second = get_bytes(time, 11, 6);
-        auto microseconds = get_bytes(time, 17, 20);
+        auto hour = get_bytes(time, 32, 5);
+        auto minute = get_bytes(time, 26, 6);
+        auto second = get_bytes(time, 20, 6);
+        auto microseconds = get_bytes(time, 0, 20);
         auto tz_days = get_bytes(time, 42, 1);
         auto tz_hours = get_bytes(time, 43, 7);
-        tz_hours= tz_hours & 0x3F;
-        auto result = Py_OWN(PyTime_FromTime(hour, minute, second, microseconds));
-        if (tz_days == 1){
-            tz_days = -tz_days;
-        }
-        auto offset = Py_OWN(PyDelta_FromDSU(tz_days, tz_hours*3600, 0));
-        if (!offset) {
-            return nullptr;
-        }
-        auto tzinfo = Py_OWN(PyTimeZone_FromOffset(*offset));
+        auto tz_minutes = get_bytes(time, 50, 6);
+        auto tzinfo = make_timezone(tz_days, tz_hours & 0x3F, tz_minutes);
         if (!tzinfo) {
             return nullptr;
         }
-        ((PyDateTime_DateTime *)(result.get()))->hastzinfo = 1;
-        ((PyDateTime_DateTime *)(result.get()))->tzinfo = tzinfo.steal();
-        return result.steal();
+        return PyDateTimeAPI->Time_FromTime(hour, minute, second, microseconds, *tzinfo, PyDateTimeAPI->TimeType);
     }
     
-}
\ No newline at end of file
+}
diff --git a/src/dbzero/bindings/python/types/PyDecimal.cpp b/src/dbzero/bindings/python/types/PyDecimal.cpp
index 22c2ad3..4b390d0 100644
--- a/src/dbzero/bindings/python/types/PyDecimal.cpp
+++ b/src/dbzero/bindings/python/types/PyDecimal.cpp
@@ -92,7 +92,12 @@ namespace db0::python
             THROWF(db0::InputException) << "as_tuple failed" << THROWF_END;
         }
         
-        auto exponent = abs(PyLong_AsLongLong(PyTuple_GetItem(*as_tuple, 2)));
+        auto exp_object = PyTuple_GetItem(*as_tuple, 2);
+        if (!exp_object || !PyLong_Check(exp_object)) {
+            THROWF(db0::InputException) << "Decimal must be a finite number." << THROWF_END;
+        }
+        // number of decimal places, negative when to be multiplied by a power of 10
+        auto exponent = -PyLong_AsLongLong(exp_object);
         if (exponent > 63) {
             THROWF(db0::InputException) << "Decimal out of range." << THROWF_END;            
         }
@@ -101,7 +106,7 @@ namespace db0::python
         auto number_tuple_object = PyTuple_GetItem(*as_tuple, 1);
         auto number_lenght = PyTuple_Size(number_tuple_object);
 
-        if (number_lenght > 17) {
+        if (exponent >= 0 && number_lenght > 17) {
             exponent -= (number_lenght- 17);
             if (exponent < 0) {
                 THROWF(db0::InputException) << "Decimal out of range." << THROWF_END;
@@ -109,6 +114,16 @@ namespace db0::python
         }
         
         std::uint64_t integer_value = decimal_tuple_to_uint64(number_tuple_object, 17);
+        if (exponent < 0) {
+            // NOTE: only decimal places are stored
+            if (integer_value != 0 && number_lenght - exponent > 17) {
+                THROWF(db0::InputException) << "Decimal out of range." << THROWF_END;
+            }
+            for (; integer_value != 0 && exponent < 0; ++exponent) {
+                integer_value *= 10;
+            }
+            exponent = 0;
+        }
         
         std::uint64_t decimal = 0;
         set_bytes(decimal, 0, 57, integer_value);
-- 
2.43.0


From 08b0fbf50c76924ba3860a29a3cd9dbf3269d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 36/83] fix: assigning a value of an unsupported type raises an
 exception

---
 src/dbzero/object_model/value/StorageClass.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/value/StorageClass.cpp b/src/dbzero/object_model/value/StorageClass.cpp
index 4c8e193..c6cf80b 100644
--- a/src/dbzero/object_model/value/StorageClass.cpp
+++ b/src/dbzero/object_model/value/StorageClass.cpp
@@ -64,8 +64,7 @@ namespace db0::object_model
         
         auto storage_map = allow_packed ? &m_storage_class_packed_map : &m_storage_class_map;
         auto int_id = static_cast<std::size_t>(type_id);
-        if (int_id < storage_map->size()) {
-            assert((*storage_map)[int_id] != PreStorageClass::INVALID);
+        if (int_id < storage_map->size() && (*storage_map)[int_id] != PreStorageClass::INVALID) {
             return (*storage_map)[int_id];
         }
         THROWF(db0::InputException)
-- 
2.43.0


From f8a43aabcd4fb421c2f22f015a1475dba4033f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 37/83] fix: repr of an enum value of a closed prefix raises
 instead of terminating, enum index range

---
 src/dbzero/bindings/python/types/PyEnum.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index 2d0275a..3a5f3f9 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -114,7 +114,7 @@ namespace db0::python
             if (index < 0) {
                 index += enum_def.m_values.size();
             }
-            if (index < 0 || index > (long)enum_def.m_values.size()) {
+            if (index < 0 || index >= (long)enum_def.m_values.size()) {
                 PyErr_SetString(PyExc_IndexError, "Index out of range");
                 return NULL;
             }
@@ -206,7 +206,7 @@ namespace db0::python
             if (index < 0) {
                 index += enum_->size();
             }
-            if (index < 0 || index > (long)enum_->size()) {
+            if (index < 0 || index >= (long)enum_->size()) {
                 PyErr_SetString(PyExc_IndexError, "Index out of range");
                 return NULL;
             }
@@ -446,13 +446,20 @@ namespace db0::python
         return PyUnicode_FromString(self->ext().m_str_repr.c_str());
     }
     
-    PyObject *PyEnumValue_repr(PyEnumValue *self)
-    {        
+    PyObject *tryPyEnumValue_repr(PyEnumValue *self)
+    {
         auto &enum_factory = self->ext().m_fixture.safe_lock()->get<db0::object_model::EnumFactory>();
         auto enum_ = enum_factory.getEnumByUID(self->ext().m_enum_uid);
         return PyUnicode_FromFormat("<EnumValue %s.%s>", enum_->getName().c_str(), self->ext().m_str_repr.c_str());
     }
 
+    PyObject *PyEnumValue_repr(PyEnumValue *self)
+    {
+        PY_API_FUNC
+        // NOTE: the prefix might be already closed
+        return runSafe(tryPyEnumValue_repr, self);
+    }
+
     PyObject *PyEnumValueRepr_str(PyEnumValueRepr *self) {
         return PyUnicode_FromString(self->ext().m_str_repr.c_str());
     }
-- 
2.43.0


From 239ba1807ac37bbff608a980d42ace0a1e8aa593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 38/83] fix: adding a value which cannot be stored leaves the
 set as it was

---
 src/dbzero/bindings/python/PyHash.cpp | 4 ++++
 src/dbzero/object_model/set/Set.cpp   | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index a85fb0c..2b34fc3 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -37,6 +37,10 @@ namespace db0::python
     template <> std::int64_t getPyHashImpl<TypeId::STRING>(db0::swine_ptr<Fixture> &, PyObject *key)
     {
         auto unicode_value = PyUnicode_AsUTF8(key);
+        if (!unicode_value) {
+            // e.g. lone surrogates cannot be encoded (Python error already set)
+            return -1;
+        }
         return murmurhash64A(unicode_value, std::strlen(unicode_value));
     }
 
diff --git a/src/dbzero/object_model/set/Set.cpp b/src/dbzero/object_model/set/Set.cpp
index 43e54b6..bea0a6c 100644
--- a/src/dbzero/object_model/set/Set.cpp
+++ b/src/dbzero/object_model/set/Set.cpp
@@ -126,22 +126,22 @@ namespace db0::object_model
         
         bool is_modified = false;
         if (iter == m_index.end()) {
-            ++modify().m_size;
             auto set_it = createSetItem<LangToolkit>(
                 fixture, key, type_id, lang_value, storage_class, getMemberFlags()
             );
             m_index.insert(set_it);
+            ++modify().m_size;
             is_modified = true;
         } else {
             auto item = getItem(key, lang_value);
-            if (item == nullptr) {                
-                ++modify().m_size;
+            if (item == nullptr) {
                 auto [key, address] = *iter;
                 auto bindex = address.getIndex(*fixture);
                 auto item = createTypedItem<LangToolkit>(
                     fixture, type_id, lang_value, storage_class, getMemberFlags()
                 );
                 bindex.insert(item);
+                ++modify().m_size;
                 if (bindex.getAddress() != address.m_index_address) {
                     // auto new_typed_index = TypedIndex<TypedItem_Address, SetIndex>(new_address, bindex.getIndexType());
                     m_index.erase(iter);
-- 
2.43.0


From 7cb9cb76481317d1ca48e5fe27951b3482ffbadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 39/83] fix: members replaced or deleted in a constructor, or
 of a failed one, are released

---
 .../object_model/object/ObjectImplBase.cpp    | 43 ++++++++++++++++---
 .../object_model/object/ObjectInitializer.cpp | 28 ++++++++++++
 .../object_model/object/ObjectInitializer.hpp |  4 ++
 3 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/src/dbzero/object_model/object/ObjectImplBase.cpp b/src/dbzero/object_model/object/ObjectImplBase.cpp
index 8563e00..e61e1c1 100644
--- a/src/dbzero/object_model/object/ObjectImplBase.cpp
+++ b/src/dbzero/object_model/object/ObjectImplBase.cpp
@@ -101,7 +101,16 @@ namespace db0::object_model
         this->unregister();
         if (!this->hasInstance()) {
             // release initializer if it exists, object not created
-            InitManager::instance.tryCloseInitializer(*this);
+            auto initializer_ptr = InitManager::instance.findInitializer(*this);
+            if (initializer_ptr) {
+                try {
+                    // members assigned before the initialization failed
+                    initializer_ptr->unrefAll();
+                } catch (...) {
+                    // e.g. prefix no longer accessible
+                }
+                InitManager::instance.tryCloseInitializer(*this);
+            }
         }
     }
     
@@ -197,8 +206,12 @@ namespace db0::object_model
             THROWF(db0::InputException) << "Attribute not found: " << field_name;
         }
         
+        if (member_id.hasFidelity(0)) {
+            initializer.unrefAt(member_id.get(0).getIndexAndOffset());
+        }
+
         for (const auto &field_info: member_id) {
-            assert(field_info.first);            
+            assert(field_info.first);
             auto loc = field_info.first.getIndexAndOffset();
             // mark as deleted
             if (field_info.second == 0) {
@@ -249,13 +262,16 @@ namespace db0::object_model
             // register a regular member with the initializer
             // NOTE: a new member receives the no-cache flag if set (at the type level)
             auto member_flags = type.isNoCache() ? AccessFlags { AccessOptions::no_cache } : AccessFlags();
-            initializer.set(member_id.get(0).getIndexAndOffset(), storage_class,
-                createMember<LangToolkit>(fixture, type_id, storage_class, obj_ptr, member_flags)
-            );
+            auto loc = member_id.get(0).getIndexAndOffset();
+            auto value = createMember<LangToolkit>(fixture, type_id, storage_class, obj_ptr, member_flags);
+            // release the replaced value
+            initializer.unrefAt(loc);
+            initializer.set(loc, storage_class, value);
         } else {
             if (member_id.hasFidelity(0)) {
                 // remove any existing regular initialization
                 auto loc = member_id.get(0).getIndexAndOffset();
+                initializer.unrefAt(loc);
                 initializer.remove(loc);
             }
             // For now only fidelity == 2 is supported (lo-fi storage)
@@ -367,7 +383,10 @@ namespace db0::object_model
         auto [index, offset] = field_info.first.getIndexAndOffset();
         // pos-vt lookup
         if ((*this)->pos_vt().find(index, pos)) {
-            if (field_info.second == 0 || slotExists((*this)->pos_vt().values()[pos], field_info.second, offset)) {                    
+            // NOTE: an undefined slot holds nothing, the member may be stored in the slot of another fidelity
+            if (field_info.second == 0 ? (*this)->pos_vt().types()[pos] != StorageClass::UNDEFINED :
+                slotExists((*this)->pos_vt().values()[pos], field_info.second, offset))
+            {
                 result = { field_info, &(*this)->pos_vt() };
             }
             return true;
@@ -614,7 +633,17 @@ namespace db0::object_model
                 find_result = { false, false };
                 return true;
             }
-            find_result = { initializer_ptr->tryGetAt(loc, result), false };
+            if (!initializer_ptr->tryGetAt(loc, result)) {
+                find_result = { false, false };
+            } else if (result.first == StorageClass::DELETED) {
+                // report as deleted
+                find_result = { false, true };
+            } else if (field_info.second == 0) {
+                find_result = { result.first != StorageClass::UNDEFINED, false };
+            } else {
+                // NOTE: the slot is shared between multiple lo-fi members
+                find_result = hasValueAt(result.second, field_info.second, loc.second);
+            }
             return true;
         }
         
diff --git a/src/dbzero/object_model/object/ObjectInitializer.cpp b/src/dbzero/object_model/object/ObjectInitializer.cpp
index 780c7da..8b7ffaa 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.cpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.cpp
@@ -3,6 +3,7 @@
 
 #include "ObjectInitializer.hpp"
 #include <dbzero/object_model/class.hpp>
+#include <dbzero/object_model/value.hpp>
 #include <dbzero/workspace/Fixture.hpp>
 
 namespace db0::object_model
@@ -68,6 +69,33 @@ namespace db0::object_model
         return m_values.remove(loc.first, mask);
     }
     
+    void ObjectInitializer::unrefAt(std::pair<std::uint32_t, std::uint32_t> loc)
+    {
+        std::pair<StorageClass, Value> value;
+        if (tryGetAt(loc, value) && value.first != StorageClass::UNDEFINED) {
+            auto fixture = getFixture();
+            unrefMember<LangConfig::LangToolkit>(fixture, value.first, value.second);
+        }
+    }
+
+    void ObjectInitializer::unrefAll()
+    {
+        if (empty()) {
+            return;
+        }
+        auto fixture = tryGetFixture();
+        if (!fixture) {
+            return;
+        }
+        m_values.sortAndMerge();
+        for (auto &xvalue: m_values) {
+            if (xvalue.m_type != StorageClass::UNDEFINED) {
+                unrefMember<LangConfig::LangToolkit>(fixture, xvalue.m_type, xvalue.m_value);
+            }
+        }
+        m_values.clear();
+    }
+
     bool ObjectInitializer::tryGetAt(std::pair<std::uint32_t, std::uint32_t> loc,
         std::pair<StorageClass, Value> &result) const
     {
diff --git a/src/dbzero/object_model/object/ObjectInitializer.hpp b/src/dbzero/object_model/object/ObjectInitializer.hpp
index 8384037..bf3c2b1 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.hpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.hpp
@@ -140,6 +140,10 @@ namespace db0::object_model
         void set(std::pair<std::uint32_t, std::uint32_t> loc, StorageClass storage_class, Value value, 
             std::uint64_t mask = 0);
         bool remove(std::pair<std::uint32_t, std::uint32_t> loc, std::uint64_t mask = 0);
+        // Release (unreference) a regular value, before it gets replaced or removed
+        void unrefAt(std::pair<std::uint32_t, std::uint32_t> loc);
+        // Release all values held by the initializer, i.e. when the object's initialization failed
+        void unrefAll();
         
         // Allows migrating initialization to other fixture (only for empty ObjectInitializer)
         // @return false if operation failed (exception not thrown)
-- 
2.43.0


From e9a207a6dfd5a66792646cf4d94692f012810082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 40/83] fix: deleting a member twice raises, a replaced member
 does not come back

---
 src/dbzero/object_model/object/Object.cpp         | 13 +++++++++----
 src/dbzero/object_model/object/ObjectImplBase.cpp |  5 ++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/object_model/object/Object.cpp b/src/dbzero/object_model/object/Object.cpp
index 0d8c914..e9b9592 100644
--- a/src/dbzero/object_model/object/Object.cpp
+++ b/src/dbzero/object_model/object/Object.cpp
@@ -219,7 +219,9 @@ namespace db0::object_model
         
         unsigned int pos = 0;
         auto [field_info, loc_ptr] = tryGetMemberSlot(member_id, pos);
-        if (!field_info.first) {
+        std::pair<StorageClass, Value> member;
+        // NOTE: the slot might exist but be already marked as deleted
+        if (!field_info.first || !tryGetMemberAt(field_info, member).first) {
             THROWF(db0::InputException) << "Attribute not found: " << field_name;
         }
         
@@ -320,6 +322,7 @@ namespace db0::object_model
         }
         
         if (fidelity == 0) {
+            auto old_type_id = getSchemaTypeId(xvalue.m_type);
             unrefMember(*fixture, xvalue);
             if (storage_class == StorageClass::DELETED) {
                 // mark as deleted in kv-index
@@ -340,7 +343,7 @@ namespace db0::object_model
                     this->modify().m_kv_type = kv_index_ptr->getIndexType();
                 }
             }
-            m_type->removeFromSchema(field_id, fidelity, getSchemaTypeId(xvalue.m_type));
+            m_type->removeFromSchema(field_id, fidelity, old_type_id);
         } else {
             assert(fidelity == 2);
             auto value = xvalue.m_value;
@@ -457,10 +460,12 @@ namespace db0::object_model
             auto [index, offset] = field_info.first.getIndexAndOffset();
             XValue value(index);
             if (kv_index_ptr->findOne(value)) {
-                if (field_info.second == 0 || slotExists(value.m_value, field_info.second, offset)) {
+                if (field_info.second == 0 ? value.m_type != StorageClass::UNDEFINED :
+                    slotExists(value.m_value, field_info.second, offset))
+                {
                     result = { field_info, nullptr };
                 }
-                return true;                
+                return true;
             }
         }
 
diff --git a/src/dbzero/object_model/object/ObjectImplBase.cpp b/src/dbzero/object_model/object/ObjectImplBase.cpp
index e61e1c1..aafb965 100644
--- a/src/dbzero/object_model/object/ObjectImplBase.cpp
+++ b/src/dbzero/object_model/object/ObjectImplBase.cpp
@@ -394,7 +394,10 @@ namespace db0::object_model
         
         // index-vt lookup
         if ((*this)->index_vt().find(index, pos)) {
-            if (field_info.second == 0 || slotExists((*this)->index_vt().xvalues()[pos].m_value, field_info.second, offset)) {
+            auto xvalue = (*this)->index_vt().xvalues()[pos];
+            if (field_info.second == 0 ? xvalue.m_type != StorageClass::UNDEFINED :
+                slotExists(xvalue.m_value, field_info.second, offset))
+            {
                 result = { field_info, &(*this)->index_vt() };
             }
             return true;
-- 
2.43.0


From ff3259842dcc7e5d10ad10d963cef5ec86b9f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 41/83] fix: index updates made through a held index are
 committed

---
 src/dbzero/object_model/index/Index.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbzero/object_model/index/Index.cpp b/src/dbzero/object_model/index/Index.cpp
index 9370a13..767d3d0 100644
--- a/src/dbzero/object_model/index/Index.cpp
+++ b/src/dbzero/object_model/index/Index.cpp
@@ -121,6 +121,11 @@ namespace db0::object_model
             return;
         }
 
+        if (!empty()) {
+            // NOTE: the index is marked as modified for the underlying range tree to get committed
+            m_index.modify();
+        }
+
         switch (m_new_type) {
             case IndexDataType::Int64: {
                 auto &ib = getExisting<std::int64_t>();
-- 
2.43.0


From 5649e89ff8b890dfbb5203469d44c7b387286ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 42/83] fix: a tag first used in a cancelled atomic block can
 be used again

---
 src/dbzero/object_model/tags/TagIndex.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 8aa67cf..716f119 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -314,10 +314,8 @@ namespace db0::object_model
         if (m_batch_op_types) {
             m_batch_op_types.reset();
         }
-        // undo inc-ref
-        for (auto tag_addr: m_inc_refed_tags) {
-            m_string_pool.unRefByAddr(tag_addr);
-        }
+        // NOTE: no need to undo inc-refs here since the string pool gets rolled back with the transaction
+        m_inc_refed_tags.clear();
         // NOTE: also need to clear buffers which may contain incomplete objects
         m_object_cache.clear();
         m_active_cache.clear();
-- 
2.43.0


From e3d784a3dab0de0aa9cec1f2cf84f30d001873c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 43/83] fix: objects opened in a cancelled atomic block take
 part in later atomic blocks and commits

---
 src/dbzero/object_model/ObjectBase.hpp | 18 ++++++++---------
 src/dbzero/workspace/GC0.cpp           | 18 ++++++++---------
 src/dbzero/workspace/GC0.hpp           | 28 ++++++++++++++++++--------
 3 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index 584a749..35d12fc 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -16,17 +16,17 @@ namespace db0
     
     using StorageClass = db0::object_model::StorageClass;    
     
-    template <typename T> void addToGC0(Fixture &fixture, void *vptr) {
-        fixture.getGC0().add<T>(vptr);
+    template <typename T> void addToGC0(Fixture &fixture, void *vptr, Address address, bool is_new) {
+        fixture.getGC0().add<T>(vptr, address, is_new);
     }
 
-    template <typename T> bool tryAddToGC0(Fixture &fixture, void *vptr) 
+    template <typename T> bool tryAddToGC0(Fixture &fixture, void *vptr, Address address, bool is_new) 
     {
         auto gc0_ptr = fixture.tryGetGC0();
         if (!gc0_ptr) {
             return false;
         }
-        gc0_ptr->add<T>(vptr);
+        gc0_ptr->add<T>(vptr, address, is_new);
         return true;
     }
 
@@ -54,7 +54,7 @@ namespace db0
             : has_fixture<BaseT>()
         {
             initNew(fixture, std::forward<Args>(args)...);            
-            addToGC0<T>(*fixture, this);
+            addToGC0<T>(*fixture, this, this->getAddress(), true);
             m_gc_registered = true;
         }
         
@@ -71,7 +71,7 @@ namespace db0
         ObjectBase(tag_from_address, db0::swine_ptr<Fixture> &fixture, Address address, AccessFlags access_mode = {})
             : has_fixture<BaseT>(typename has_fixture<BaseT>::tag_from_address(), fixture, address, 0, access_mode)
         {
-            m_gc_registered = tryAddToGC0<T>(*fixture, this);
+            m_gc_registered = tryAddToGC0<T>(*fixture, this, this->getAddress(), false);
         }
 
         // Move existing instance / stem
@@ -79,7 +79,7 @@ namespace db0
         ObjectBase(tag_from_stem, db0::swine_ptr<Fixture> &fixture, BaseT &&stem)
             : has_fixture<BaseT>(typename has_fixture<BaseT>::tag_from_stem(), fixture, std::move(stem))        
         {
-            m_gc_registered = tryAddToGC0<T>(*fixture, this);
+            m_gc_registered = tryAddToGC0<T>(*fixture, this, this->getAddress(), false);
         }
         
         ~ObjectBase()
@@ -106,7 +106,7 @@ namespace db0
         {
             unregister();
             initNew(fixture, std::forward<Args>(args)...);
-            m_gc_registered = tryAddToGC0<T>(*fixture, this);
+            m_gc_registered = tryAddToGC0<T>(*fixture, this, this->getAddress(), true);
         }
         
         inline bool hasInstance() const {
@@ -297,7 +297,7 @@ namespace db0
         fixture->getLangCache().moveFrom(this->getFixture()->getLangCache(), this->getAddress(), 
             new_instance.getAddress());
         // move instance to a different GC0 (preserving the same wrapper object)
-        fixture->getGC0().moveFrom<T>(this->getFixture()->getGC0(), this);
+        fixture->getGC0().moveFrom<T>(this->getFixture()->getGC0(), this, new_instance.getAddress());
         new_instance.m_gc_registered = true;
         auto atomic_ctx_ptr = fixture->tryGetAtomicContext();
         if (atomic_ctx_ptr) {
diff --git a/src/dbzero/workspace/GC0.cpp b/src/dbzero/workspace/GC0.cpp
index 43626f2..fb5ce37 100644
--- a/src/dbzero/workspace/GC0.cpp
+++ b/src/dbzero/workspace/GC0.cpp
@@ -74,6 +74,10 @@ namespace db0
         }
         // NOTE: we erase by vptr because hasRefs may have side effects and invalidate the iterator
         m_vptr_map.erase(vptr);
+        // NOTE: vptr may get reused by another instance
+        if (!is_volatile) {
+            m_volatile.erase(vptr);
+        }
         lock.unlock();
         
         // drop object after erasing from map due to possible recursion
@@ -220,6 +224,7 @@ namespace db0
     {
         assert(m_atomic);
         m_volatile.clear();
+        m_volatile_addrs.clear();
         m_atomic = false;
     }
     
@@ -238,11 +243,10 @@ namespace db0
             }
         }
         for (auto vptr : m_volatile) {
-            if (vptr) {
-                tryRemove(vptr, true);
-            }
+            tryRemove(vptr, true);
         }
         m_volatile.clear();
+        m_volatile_addrs.clear();
         m_atomic = false;
     }
     
@@ -258,13 +262,7 @@ namespace db0
             m_flush_map.erase(it);                    
         }
 
-        if (m_atomic) {
-            for (auto &volatile_ptr: m_volatile) {
-                if (volatile_ptr == vptr) {
-                    volatile_ptr = nullptr;
-                }
-            }
-        }
+        m_volatile.erase(vptr);
         return flush_op;
     }
 
diff --git a/src/dbzero/workspace/GC0.hpp b/src/dbzero/workspace/GC0.hpp
index 24c5f3c..2f67f71 100644
--- a/src/dbzero/workspace/GC0.hpp
+++ b/src/dbzero/workspace/GC0.hpp
@@ -5,6 +5,7 @@
 
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 #include <mutex>
 #include <optional>
 #include <dbzero/core/vspace/vtypeless.hpp>
@@ -99,9 +100,11 @@ namespace db0
         ~GC0();
         
         // register instance with type specific ops, must be a known / registered type
-        template <typename T> void add(void *vptr);
+        // @param is_new true for a newly created (as opposed to fetched by address) instance
+        template <typename T> void add(void *vptr, Address address, bool is_new);
         // move instance from another GC0
-        template <typename T> void moveFrom(GC0 &other, void *vptr);
+        // @param new_address address of the instance in this GC0's fixture
+        template <typename T> void moveFrom(GC0 &other, void *vptr, Address new_address);
         
         /**
          * Unregister instance (i.e. when reference from Python was removed)
@@ -166,8 +169,10 @@ namespace db0
         std::unordered_map<UniqueAddress, StorageClass> m_scheduled_for_deletion;
         // flag indicating atomic operation in progress
         bool m_atomic = false;
-        // the list of volatile instances - i.e. created during atomic operation
-        std::vector<void*> m_volatile;
+        // volatile instances - i.e. representing objects created during the atomic operation
+        std::unordered_set<void*> m_volatile;
+        // addresses of the objects created during the atomic operation
+        std::unordered_set<std::uint64_t> m_volatile_addrs;
         mutable std::mutex m_mutex;
         
         void commitAll();
@@ -181,7 +186,7 @@ namespace db0
         }
     };
     
-    template <typename T> void GC0::add(void *vptr)
+    template <typename T> void GC0::add(void *vptr, Address address, bool is_new)
     {
         // vptr must not be null
         assert(vptr);
@@ -196,11 +201,17 @@ namespace db0
             m_flush_map[vptr] = T::m_gc_ops_id;
         }
         if (m_atomic) {
-            m_volatile.push_back(vptr);
+            // NOTE: instances of the objects which existed before the atomic operation must survive its rollback
+            if (is_new) {
+                m_volatile_addrs.insert(address.getOffset());
+            }
+            if (is_new || m_volatile_addrs.count(address.getOffset())) {
+                m_volatile.insert(vptr);
+            }
         }
     }
     
-    template <typename T> void GC0::moveFrom(GC0 &other, void *vptr)
+    template <typename T> void GC0::moveFrom(GC0 &other, void *vptr, Address new_address)
     {
         std::unique_lock<std::mutex> lock(m_mutex);
         auto flush_op = other.erase(vptr);
@@ -210,7 +221,8 @@ namespace db0
             m_flush_map[vptr] = *flush_op;
         }
         if (m_atomic) {
-            m_volatile.push_back(vptr);
+            m_volatile_addrs.insert(new_address.getOffset());
+            m_volatile.insert(vptr);
         }
     }
     
-- 
2.43.0


From 2cacb2a2b195c4e668865ac0210e8257cb8ba3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 44/83] fix: members first assigned in a cancelled atomic block
 can be used again

---
 .../core/collections/vector/LimitedMatrixCache.hpp     | 10 ++++++++++
 src/dbzero/object_model/class/Class.cpp                | 10 ++++++++++
 src/dbzero/object_model/class/Class.hpp                |  3 ++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp b/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp
index 6fd137f..59b0be8 100644
--- a/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp
+++ b/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp
@@ -57,6 +57,9 @@ namespace db0
         // This operation is to handle the "detach" signal / to prevent unecessary refreshes
         void detach();
 
+        // Drop all cached items, they'll be loaded again from the matrix with the next refresh
+        void clear();
+
         typename super_t::const_iterator cbegin() const {
             return super_t::begin();
         }
@@ -154,4 +157,11 @@ namespace db0
         m_detached = true;
     }
 
+    template <typename MatrixT, typename ItemT, typename AdapterT>
+    void LimitedMatrixCache<MatrixT, ItemT, AdapterT>::clear()
+    {
+        super_t::clear();
+        m_detached = true;
+    }
+
 }
diff --git a/src/dbzero/object_model/class/Class.cpp b/src/dbzero/object_model/class/Class.cpp
index b8bad11..ec06699 100644
--- a/src/dbzero/object_model/class/Class.cpp
+++ b/src/dbzero/object_model/class/Class.cpp
@@ -249,6 +249,7 @@ namespace db0::object_model
 
     std::optional<Class::Member> Class::tryGetMember(const char *name) const
     {
+        m_member_cache.fastRefresh();
         auto it = m_index.find(name);
         if (it == m_index.end()) {
             return {};
@@ -449,6 +450,11 @@ namespace db0::object_model
     
     void Class::rollback() {
         m_schema.rollback();
+        // fields (or their fidelities) may have been added since the last flush,
+        // members need to be loaded again after the rollback
+        m_index.clear();
+        m_unique_keys.clear();
+        m_member_cache.clear();
     }
 
     void Class::commit() const
@@ -786,6 +792,10 @@ namespace db0::object_model
     
     FieldID Class::getPrimaryKey(unsigned int index) const
     {
+        if (index >= m_unique_keys.size()) {
+            // members may need to be loaded again (e.g. after a rollback)
+            m_member_cache.refresh();
+        }
         assert(index < m_unique_keys.size());
         return m_unique_keys[index];
     }
diff --git a/src/dbzero/object_model/class/Class.hpp b/src/dbzero/object_model/class/Class.hpp
index 1c4ba1b..cf3a7c4 100644
--- a/src/dbzero/object_model/class/Class.hpp
+++ b/src/dbzero/object_model/class/Class.hpp
@@ -142,7 +142,8 @@ DB0_PACKED_END
         std::pair<MemberID, bool> findField(const char *name) const;
         
         // Get the total number of unique members declared in this class
-        std::size_t size() const {            
+        std::size_t size() const {
+            m_member_cache.fastRefresh();
             return m_index.size();
         }
 
-- 
2.43.0


From 9c70d67b7b4a1531475c8371277e2923b9df6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 45/83] fix: an enum first used in a cancelled atomic block can
 be used again

---
 .../bindings/python/types/PyEnumType.cpp      | 21 ++++++++++++-------
 .../bindings/python/types/PyEnumType.hpp      |  8 +++++--
 src/dbzero/object_model/ObjectModel.cpp       |  4 ++++
 src/dbzero/object_model/enum/EnumFactory.cpp  | 13 ++++++++++++
 src/dbzero/object_model/enum/EnumFactory.hpp  |  9 ++++++++
 5 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/bindings/python/types/PyEnumType.cpp b/src/dbzero/bindings/python/types/PyEnumType.cpp
index fd16e1a..6c23954 100644
--- a/src/dbzero/bindings/python/types/PyEnumType.cpp
+++ b/src/dbzero/bindings/python/types/PyEnumType.cpp
@@ -26,7 +26,7 @@ namespace db0::python
             return false;
         }
 
-        if (m_enum_cache.find(fixture_uuid) != m_enum_cache.end()) {
+        if (tryGetCached(fixture_uuid)) {
             return true;
         }
 
@@ -38,9 +38,8 @@ namespace db0::python
     const Enum &PyEnumData::get() const
     {        
         auto fixture_uuid = getFixtureUUID();
-        auto it = m_enum_cache.find(fixture_uuid);
-        if (it != m_enum_cache.end()) {
-            return *it->second;
+        if (auto cached_ptr = tryGetCached(fixture_uuid)) {
+            return *cached_ptr;
         }
 
         auto fixture = PyToolkit::getPyWorkspace().getWorkspace().getFixture(fixture_uuid, AccessType::READ_ONLY);
@@ -59,9 +58,8 @@ namespace db0::python
     Enum *PyEnumData::tryCreate()
     {
         auto fixture_uuid = getFixtureUUID();
-        auto it = m_enum_cache.find(fixture_uuid);
-        if (it != m_enum_cache.end()) {
-            return it->second.get();
+        if (auto cached_ptr = tryGetCached(fixture_uuid)) {
+            return cached_ptr.get();
         }
 
         // either get a specific or current prefix (must already be opened)
@@ -92,6 +90,15 @@ namespace db0::python
         return *enum_ptr;
     }
     
+    std::shared_ptr<Enum> PyEnumData::tryGetCached(std::uint64_t fixture_uuid) const
+    {
+        auto it = m_enum_cache.find(fixture_uuid);
+        if (it == m_enum_cache.end()) {
+            return nullptr;
+        }
+        return it->second.lock();
+    }
+
     void PyEnumData::close()
     {
         m_enum_cache.clear();
diff --git a/src/dbzero/bindings/python/types/PyEnumType.hpp b/src/dbzero/bindings/python/types/PyEnumType.hpp
index 598c713..cbb7238 100644
--- a/src/dbzero/bindings/python/types/PyEnumType.hpp
+++ b/src/dbzero/bindings/python/types/PyEnumType.hpp
@@ -66,8 +66,12 @@ namespace db0::python
     private:
         // enum specific fixture UUID (for scoped enums) or 0 to use the current fixture
         mutable std::optional<std::uint64_t> m_fixture_uuid;
-        // prefix-specific enum instances
-        mutable std::unordered_map<std::uint64_t, std::shared_ptr<Enum> > m_enum_cache;
+        // prefix-specific enum instances (owned by the respective enum factories,
+        // may expire if the enum was created in a cancelled atomic operation)
+        mutable std::unordered_map<std::uint64_t, std::weak_ptr<Enum> > m_enum_cache;
+
+        // @return nullptr if the enum instance is not cached
+        std::shared_ptr<Enum> tryGetCached(std::uint64_t fixture_uuid) const;
         
         // resolve a concrete fixture UUID (!=0)
         std::uint64_t getFixtureUUID() const;
diff --git a/src/dbzero/object_model/ObjectModel.cpp b/src/dbzero/object_model/ObjectModel.cpp
index 4d9401b..db444c1 100644
--- a/src/dbzero/object_model/ObjectModel.cpp
+++ b/src/dbzero/object_model/ObjectModel.cpp
@@ -78,11 +78,13 @@ namespace db0::object_model
 
                 fixture->addRollbackHandler([&]() {
                     class_factory.rollback();
+                    enum_factory.rollback();
                     tag_index.rollback();                
                 });
                 
                 fixture->addFlushHandler([&]() {
                     class_factory.flush();
+                    enum_factory.flush();
                     tag_index.flush();
                 });
                                 
@@ -130,11 +132,13 @@ namespace db0::object_model
                 
                 fixture->addRollbackHandler([&]() {
                     class_factory.rollback();
+                    enum_factory.rollback();
                     tag_index.rollback();                    
                 });
                 
                 fixture->addFlushHandler([&]() {
                     class_factory.flush();
+                    enum_factory.flush();
                     tag_index.flush();
                 });
                 if (fixture->getAccessType() == db0::AccessType::READ_WRITE) {
diff --git a/src/dbzero/object_model/enum/EnumFactory.cpp b/src/dbzero/object_model/enum/EnumFactory.cpp
index e0a5b64..fdfc085 100644
--- a/src/dbzero/object_model/enum/EnumFactory.cpp
+++ b/src/dbzero/object_model/enum/EnumFactory.cpp
@@ -140,6 +140,7 @@ namespace db0::object_model
             }
         }
         
+        m_pending_ptrs.push_back(enum_ptr);
         // registering enum in the by-pointer cache (for accessing by-EnumPtr)
         return this->getEnum(enum_ptr, enum_);
     }
@@ -324,6 +325,18 @@ namespace db0::object_model
         super_t::detach();
     }
     
+    void EnumFactory::flush() const {
+        m_pending_ptrs.clear();
+    }
+
+    void EnumFactory::rollback()
+    {
+        for (auto &ptr: m_pending_ptrs) {
+            m_ptr_cache.erase(ptr);
+        }
+        m_pending_ptrs.clear();
+    }
+
     std::optional<EnumValue> EnumFactory::tryGetEnumValue(const EnumValueRepr &enum_value_repr)
     {
         const auto &enum_type_def = enum_value_repr.getEnumTypeDef();
diff --git a/src/dbzero/object_model/enum/EnumFactory.hpp b/src/dbzero/object_model/enum/EnumFactory.hpp
index c8630f0..7372f98 100644
--- a/src/dbzero/object_model/enum/EnumFactory.hpp
+++ b/src/dbzero/object_model/enum/EnumFactory.hpp
@@ -101,12 +101,21 @@ DB0_PACKED_BEGIN
         
         void detach() const;
 
+        // called to clear the list of recently created (i.e. pending) enums
+        void flush() const;
+
+        // called to forget all enums created since the last flush
+        void rollback();
+
     private:
         // enum maps in 4 variants: 0: type ID, 1: name + module, 2: name + values: 3: module + values
         std::array<VEnumMap, 4> m_enum_maps;
         // Language specific type to dbzero class mapping
         mutable std::unordered_map<EnumPtr, std::shared_ptr<Enum> > m_ptr_cache;
 
+        // enums created since the last flush (for potential rollback)
+        mutable std::vector<EnumPtr> m_pending_ptrs;
+
         // Pull through by-pointer cache
         std::shared_ptr<Enum> getEnum(EnumPtr, std::shared_ptr<Enum>);
         
-- 
2.43.0


From db06b545e5b040ab084ac9ebf586f2549a6c598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 46/83] fix: index range tree keeps exactly the added pairs
 (removal of a stored pair re-added in the same batch, duplicate nulls, range
 split, erasing out of bounds)

---
 .../core/collections/range_tree/RangeTree.hpp | 75 ++++++++-----------
 1 file changed, 30 insertions(+), 45 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index 67cc433..9fe0d84 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -187,14 +187,10 @@ DB0_PACKED_END
             while (begin != end) {
                 auto range = getExistingRange(*begin);
                 auto _end = end;
+                // NOTE: elements which don't exist in the range are ignored on erase
                 while (begin != end && range.inUpperBound(*begin)) {
                     std::pop_heap(begin, end, CompT());
                     --end;
-                    if (!range.inLowerBound(*begin)) {
-                        // ignore the element out of bounds
-                        *(end + 1) = *_end;
-                        --_end;
-                    }
                 }
                 
                 // erase from current range and continue with the next one
@@ -228,7 +224,7 @@ DB0_PACKED_END
             assert(null_block_ptr);
 
             // insert values into the null block directly
-            auto diff = null_block_ptr->bulkInsertUnique(begin, end, add_callback_ptr).first;
+            auto diff = null_block_ptr->bulkInsertUnique(begin, end, add_callback_ptr).second;
             if (diff > 0) {
                 this->modify().m_size += diff;
             }
@@ -341,6 +337,7 @@ DB0_PACKED_END
                 m_next_it = other.m_next_it;
                 m_block = std::move(other.m_block);
                 m_bounds = other.m_bounds;
+                m_is_first = other.m_is_first;
             }
             
             void next()
@@ -371,43 +368,33 @@ DB0_PACKED_END
                 return m_bounds;
             }
 
-            // split current block
-            BlockT split()
+            // Split current block, i.e. move the upper half of its items (by key) to a new block
+            // @return the new block with its first item (by key)
+            std::pair<ItemT, BlockT> split()
             {
                 // collect block items into memory
                 std::vector<ItemT> items;
-                for (auto it = m_block->begin(), end = m_block->end(); it != end; ++it) {
+                for (auto it = (*this)->begin(), end = (*this)->end(); it != end; ++it) {
                     items.push_back(*it);
                 }
-                if (items.empty()) {
-                    return {};
-                }
-
-                // make heap by-key
-                typename ItemT::HeapCompT comp;
-                std::make_heap(items.begin(), items.end(), comp);
-                // select middle element as the split point
-                auto split_pt = *(items.begin() + items.size() / 2);
-                // erase items < split_pt from the original block
-                std::function<bool(ItemT)> selector = [comp, split_pt](ItemT item) {
-                    return comp(split_pt, item);
+                assert(items.size() > 1);
+
+                // select middle element (by key) as the split point
+                auto split_it = items.begin() + items.size() / 2;
+                std::nth_element(items.begin(), split_it, items.end(), [](const ItemT &a, const ItemT &b) {
+                    return a.ltByKey(b);
+                });
+                auto split_pt = *split_it;
+                // erase items >= split_pt from the original block
+                std::function<bool(ItemT)> selector = [split_pt](ItemT item) {
+                    return !item.ltByKey(split_pt);
                 };
-
                 (*this)->bulkErase(selector);
-                auto it = items.begin(), end = items.end();
-                while (it != end) {
-                    if (!comp(split_pt, *it)) {
-                        --end;
-                        std::swap(*it, *end);
-                    } else {
-                        ++it;
-                    }                    
-                }
 
                 // create new block & populate with remaining items
                 BlockT new_block(m_index_ptr->getMemspace());
-                new_block.bulkInsert(items.begin(), end);
-                return new_block;
+                new_block.bulkInsert(split_it, items.end());
+                return { split_pt, new_block };
             }
 
             /**
@@ -580,10 +567,8 @@ DB0_PACKED_END
 
             void remove(KeyT key, ValueT value)
             {
-                // if element is in "to add" list then simply remove it from there
-                if (m_add_items.erase(ItemT {key, value})) {
-                    return;
-                }
+                // NOTE: the element must be removed from the tree as well, since it might've been flushed before
+                m_add_items.erase(ItemT {key, value});
                 m_remove_items.insert(ItemT {key, value});
             }
 
@@ -593,10 +578,8 @@ DB0_PACKED_END
 
             void removeNull(ValueT value)
             {
-                // if element is in "to add" list then simply remove it from there
-                if (m_add_null_items.erase(value)) {
-                    return;
-                }
+                // NOTE: the element must be removed from the tree as well, since it might've been flushed before
+                m_add_null_items.erase(value);
                 m_remove_null_items.insert(value);
             }
 
@@ -737,8 +720,9 @@ DB0_PACKED_END
             }
 
             auto it = m_index.findLowerEqualBound(RT_Item { item });
+            // less than all stored items, use the first range
             if (it == m_index.end()) {
-                it = --m_index.end();
+                it = m_index.begin();
             }
 
             // retrieve existing range
@@ -749,8 +733,9 @@ DB0_PACKED_END
         {
             assert(!m_index.empty());
             auto it = m_index.findLowerEqualBound(RT_Item { item });
+            // less than all stored items, use the first range
             if (it == m_index.end()) {
-                it = --m_index.end();
+                it = m_index.begin();
             }
 
             // retrieve existing range
@@ -767,8 +752,8 @@ DB0_PACKED_END
 
         RangeIterator splitRange(RangeIterator &&range)
         {
-            auto new_block = range.split();
-            m_index.insert({ new_block.front(), new_block });
+            auto [first_item, new_block] = range.split();
+            m_index.insert({ first_item, new_block });
             auto it = m_index.find(RT_Item { *range.getBounds().first });
             return { m_index, it, m_index.begin(), m_index.end(), it == m_index.begin(), true };
         }
-- 
2.43.0


From 09b6598817c3fed40f8ab552fab5923b1afdd2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 47/83] fix: a rejected index add/remove leaves the index
 unchanged, key type follows the index after clear, cancel and refresh

---
 src/dbzero/object_model/index/Index.cpp | 79 +++++++++++++++++--------
 src/dbzero/object_model/index/Index.hpp |  6 ++
 2 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/src/dbzero/object_model/index/Index.cpp b/src/dbzero/object_model/index/Index.cpp
index 767d3d0..26f89b6 100644
--- a/src/dbzero/object_model/index/Index.cpp
+++ b/src/dbzero/object_model/index/Index.cpp
@@ -162,6 +162,17 @@ namespace db0::object_model
             m_initial_type = m_new_type;
             m_index.modify().m_data_type = m_new_type;            
         }
+        // all updates flushed, release the builder
+        m_index_builder = nullptr;
+    }
+    
+    void Index::Builder::refreshType()
+    {
+        // NOTE: the type may be different than the last known one (e.g. after cancel, clear or refresh)
+        if (!m_index_builder) {
+            m_initial_type = m_index->m_data_type;
+            m_new_type = m_initial_type;
+        }
     }
     
     void Index::Builder::update(TypeId type_id)
@@ -294,30 +305,32 @@ namespace db0::object_model
             return;
         }
 
-        if (m_builder.getDataType() == IndexDataType::Auto) {
-            // update builder to a concrete data type
-            m_builder.update(type_manager.getTypeId(key));
+        // NOTE: arguments need to be validated before updating the builder's data type or the dirty state
+        type_manager.extractAnyObject(value);
+        m_builder.refreshType();
+        auto data_type = m_builder.getDataType();
+        if (data_type == IndexDataType::Auto) {
+            data_type = getIndexDataType(type_manager.getTypeId(key));
         }
 
-        // subscribe for flush operation
-        if (!isDirty()) {
-            setDirty(true);
-        }
-
-        switch (m_builder.getDataType()) {
+        switch (data_type) {
             case IndexDataType::Int64: {
-                m_builder.get<std::int64_t>().add(type_manager.extractInt64(key), value); 
+                auto int_key = type_manager.extractInt64(key);
+                beginUpdate(key);
+                m_builder.get<std::int64_t>().add(int_key, value);
                 break;
             }
 
             case IndexDataType::UInt64: {
-                m_builder.get<std::uint64_t>().add(type_manager.extractUInt64(key), value);
+                auto uint_key = type_manager.extractUInt64(key);
+                beginUpdate(key);
+                m_builder.get<std::uint64_t>().add(uint_key, value);
                 break;
             }
 
             default:
                 THROWF(db0::InputException) << "Index of type " 
-                    << static_cast<std::uint16_t>(m_builder.getDataType())
+                    << static_cast<std::uint16_t>(data_type)
                     << " does not allow adding key type: " 
                     << LangToolkit::getTypeName(key) << THROWF_END;
         }
@@ -334,36 +347,50 @@ namespace db0::object_model
             return;
         }
 
-        if (m_builder.getDataType() == IndexDataType::Auto) {
-            // update to a concrete data type
-            m_builder.update(type_manager.getTypeId(key));
-        }
-
-        // subscribe for flush operation
-        if (!isDirty()) {
-            setDirty(true);            
+        // NOTE: arguments need to be validated before updating the builder's data type or the dirty state
+        type_manager.extractAnyObject(value);
+        m_builder.refreshType();
+        auto data_type = m_builder.getDataType();
+        if (data_type == IndexDataType::Auto) {
+            data_type = getIndexDataType(type_manager.getTypeId(key));
         }
 
-        switch (m_builder.getDataType()) {
+        switch (data_type) {
             case IndexDataType::Int64: {
-                m_builder.get<std::int64_t>().remove(type_manager.extractInt64(key), value); 
+                auto int_key = type_manager.extractInt64(key);
+                beginUpdate(key);
+                m_builder.get<std::int64_t>().remove(int_key, value);
                 break;
             }
 
             case IndexDataType::UInt64: {
-                m_builder.get<std::uint64_t>().remove(type_manager.extractUInt64(key), value);
+                auto uint_key = type_manager.extractUInt64(key);
+                beginUpdate(key);
+                m_builder.get<std::uint64_t>().remove(uint_key, value);
                 break;
             }
 
             default:
                 THROWF(db0::InputException) << "Index of type " 
-                    << static_cast<std::uint16_t>(m_builder.getDataType())
+                    << static_cast<std::uint16_t>(data_type)
                     << " does not allow keys of type: " 
                     << LangToolkit::getTypeName(key) << THROWF_END;
         }
         m_mutation_log->onDirty();
     }
     
+    void Index::beginUpdate(ObjectPtr key)
+    {
+        if (m_builder.getDataType() == IndexDataType::Auto) {
+            // update builder to a concrete data type
+            m_builder.update(LangToolkit::getTypeManager().getTypeId(key));
+        }
+        // subscribe for flush operation
+        if (!isDirty()) {
+            setDirty(true);
+        }
+    }
+
     std::unique_ptr<Index::IteratorFactory> Index::range(ObjectPtr min, ObjectPtr max, bool null_first) const
     {
         assert(hasInstance());
@@ -459,6 +486,8 @@ namespace db0::object_model
     void Index::addNull(ObjectPtr obj_ptr)
     {
         assert(hasInstance());
+        LangToolkit::getTypeManager().extractAnyObject(obj_ptr);
+        m_builder.refreshType();
         // subscribe for flush operation
         if (!isDirty()) {
             setDirty(true);
@@ -524,6 +553,8 @@ namespace db0::object_model
 
     void Index::removeNull(ObjectPtr obj_ptr)
     {
+        LangToolkit::getTypeManager().extractAnyObject(obj_ptr);
+        m_builder.refreshType();
         if (!isDirty()) {
             setDirty(true);
         }
diff --git a/src/dbzero/object_model/index/Index.hpp b/src/dbzero/object_model/index/Index.hpp
index c7572a7..63214c7 100644
--- a/src/dbzero/object_model/index/Index.hpp
+++ b/src/dbzero/object_model/index/Index.hpp
@@ -130,6 +130,9 @@ namespace db0::object_model
 
             void rollback();
 
+            // Synchronize with the index data type (only if there're no pending updates)
+            void refreshType();
+
             bool empty() const;
 
             inline IndexDataType getDataType() const {
@@ -189,6 +192,9 @@ namespace db0::object_model
         
         void _flush();
 
+        // Prepare for adding / removing a specific (not null) key
+        void beginUpdate(ObjectPtr key);
+
     private: 
         // actual index instance (must be cast to a specific type)
         mutable std::shared_ptr<void> m_index;
-- 
2.43.0


From f8b9eca1a69596155f7297e512377744d6c3b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 48/83] fix: out-of-range integers are rejected instead of
 being converted to -1 (index keys, bytearray)

---
 src/dbzero/bindings/python/PyTypeManager.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/bindings/python/PyTypeManager.cpp b/src/dbzero/bindings/python/PyTypeManager.cpp
index 9a5315f..dbb4e8c 100644
--- a/src/dbzero/bindings/python/PyTypeManager.cpp
+++ b/src/dbzero/bindings/python/PyTypeManager.cpp
@@ -428,7 +428,12 @@ namespace db0::python
             THROWF(db0::InputException) << "Expected an integer object, got " 
                 << PyToolkit::getTypeName(int_ptr) << THROWF_END;
         }
-        return PyLong_AsLongLong(int_ptr);
+        auto result = PyLong_AsLongLong(int_ptr);
+        if (result == -1 && PyErr_Occurred()) {
+            // NOTE: the Python error is propagated
+            THROWF(db0::InputException) << "Integer out of range" << THROWF_END;
+        }
+        return result;
     }
     
     std::uint64_t PyTypeManager::extractUInt64(ObjectPtr obj_ptr) const {
@@ -448,8 +453,13 @@ namespace db0::python
                 return pyTimeToUint64(obj_ptr);
             case TypeId::TIME_TZ:
                 return pyTimeWithTzToUint64(obj_ptr);
-            case TypeId::INTEGER:
-                return PyLong_AsUnsignedLongLong(obj_ptr);
+            case TypeId::INTEGER: {
+                auto result = PyLong_AsUnsignedLongLong(obj_ptr);
+                if (PyErr_Occurred()) {
+                    THROWF(db0::InputException) << "Integer out of range" << THROWF_END;
+                }
+                return result;
+            }
             case TypeId::DECIMAL:
                 return pyDecimalToUint64(obj_ptr);
             default:
-- 
2.43.0


From 7b4f6d4ea0207cb1b5254aa4be08ba0106811393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 49/83] fix: nested index sort with nulls first returns the
 remaining objects

---
 .../core/collections/range_tree/RT_SortIterator.hpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp b/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
index 7c39ddb..ba44047 100644
--- a/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
+++ b/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
@@ -100,8 +100,6 @@ namespace db0
         // the optional inner-sort iterator
         std::unique_ptr<SortedIterator<ValueT> > m_inner_it;
         std::unique_ptr<SortedIterator<ValueT> > m_sorted_it;
-        // a flag indicating that m_sorted_it was created over the null block
-        bool m_sorted_null_block = false;
         
         // Create AND-joined with FT-iterator
         RT_SortIterator(const IndexBase &index, std::uint64_t uid, SharedPtrWrapper<RT_TreeT> tree_ptr, bool has_query,
@@ -258,10 +256,6 @@ namespace db0
                     if (m_sorted_it->isEnd()) {
                         m_sorted_it = nullptr;
                         m_sort_buffer.clear();
-                        if (m_sorted_null_block) {
-                            // end the iterator after completing the null block
-                            m_is_end = true;
-                        }
                     }
                     return;
                 }
@@ -275,14 +269,13 @@ namespace db0
                 if (next_key_null_1) {
                     // since the null area was reached, finish with combining the
                     // null block and the inner sorted iterator
+                    // NOTE: the remaining (non-null) items follow if the null block comes first
+                    m_null_it = nullptr;
                     m_sorted_it = m_inner_it->beginSorted(beginNullBlockQuery());
                     if (m_sorted_it->isEnd()) {
                         // edge case when null items cannot be joined with the inner iterator
                         m_sorted_it = nullptr;
-                        m_is_end = true;
-                        return;
                     }
-                    m_sorted_null_block = true;
                     // continue with the sorted iterator
                     continue;
                 }
@@ -320,7 +313,6 @@ namespace db0
                     
                     // sort the buffer with the inner iterator
                     m_sorted_it = m_inner_it->beginSorted(std::move(inner_query));
-                    m_sorted_null_block = false;
                     // it might happen that values are not present in the inner iterator (need to be ignored)
                     if (m_sorted_it->isEnd()) {
                         m_sorted_it = nullptr;
@@ -545,7 +537,6 @@ namespace db0
             }
             return 1.0;            
         }
-        return false;        
         return m_index.getAddress() == other.m_index.getAddress() ? 0.0 : 1.0;
     }
 
-- 
2.43.0


From 6aafa58a1f329a18070d8205fcaa1d8ab647c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 50/83] fix: index range query joined with other queries stays
 within its range

---
 .../range_tree/FT_BoundIterator.hpp           | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp b/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp
index 10d583c..9e0b74f 100644
--- a/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp
+++ b/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp
@@ -35,6 +35,10 @@ namespace db0
 
 		void operator--() override;
 
+		void next(void *buf = nullptr) override;
+
+		bool isNextKeyDuplicated() const override;
+
 		bool join(ValueT join_key, int direction) override;
 
 		void joinBound(ValueT join_key) override;
@@ -97,6 +101,29 @@ namespace db0
         fixDec();
     }
 
+    template <typename KeyT, typename ValueT, typename IndexT>
+    void FT_BoundIterator<KeyT, ValueT, IndexT>::next(void *buf)
+    {
+        super_t::next(buf);
+        fixDec();
+    }
+
+    template <typename KeyT, typename ValueT, typename IndexT>
+    bool FT_BoundIterator<KeyT, ValueT, IndexT>::isNextKeyDuplicated() const
+    {
+        assert(!super_t::isEnd());
+        // only the items from within the key range are taken into account
+        auto next = super_t::m_iterator;
+        do {
+            if (super_t::m_direction > 0) {
+                ++next;
+            } else {
+                --next;
+            }
+        } while (!next.is_end() && !m_key_range.contains((*next).m_key));
+        return !next.is_end() && (*next).m_value == (*super_t::m_iterator).m_value;
+    }
+
     template <typename KeyT, typename ValueT, typename IndexT>
     bool FT_BoundIterator<KeyT, ValueT, IndexT>::join(ValueT join_key, int direction)
     {
-- 
2.43.0


From a9fbda1876077bf88bbf6c8f7f6f01327cbf0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 51/83] fix: index sort returns an object once for each of its
 keys

---
 .../v_bindex_joinable_const_iterator.hpp      | 11 +++--
 .../collections/full_text/FT_ANDIterator.cpp  | 41 +++++++++++++------
 .../collections/full_text/FT_ANDIterator.hpp  |  5 +++
 .../full_text/FT_IndexIterator.hpp            |  8 +++-
 .../collections/full_text/IteratorGroup.hpp   |  3 ++
 .../vector/joinable_const_iterator.hpp        |  8 ++--
 src/dbzero/core/utils/SortedArray.hpp         | 31 ++++++--------
 7 files changed, 68 insertions(+), 39 deletions(-)

diff --git a/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp b/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp
index 07f7ce1..bc72c96 100644
--- a/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp
+++ b/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp
@@ -441,7 +441,8 @@ namespace db0
             m_it_data.reset();
         }
         
-        bool isNextKeyDuplicated() const
+        // @tparam KeyT the key type to compare items by (e.g. just a part of the item)
+        template <typename KeyT = item_t> bool isNextKeyDuplicated() const
         {
             assert(!is_end());
             auto it_data_next = m_it_data;
@@ -472,13 +473,17 @@ namespace db0
                 
                 data_vector data_buf_next(m_index_ptr->myPtr(it_node_next->m_data.ptr_b_data));
                 auto it_data_next = data_buf_next->beginJoin(m_direction);
-                return !m_comp(*m_it_data, *it_data_next) && !m_comp(*it_data_next, *m_it_data);
+                return isSameKey<KeyT>(*m_it_data, *it_data_next);
             }
 
-            return !m_comp(*m_it_data, *it_data_next) && !m_comp(*it_data_next, *m_it_data);
+            return isSameKey<KeyT>(*m_it_data, *it_data_next);
         }
         
     protected:
+        template <typename KeyT> bool isSameKey(const KeyT &a, const KeyT &b) const {
+            return !m_comp(a, b) && !m_comp(b, a);
+        }
+
         friend class vso_b_index;
         item_comp_t m_comp;
         bindex_tree_t *m_index_ptr;
diff --git a/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp b/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
index c7ebde0..4c4ec2a 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
@@ -234,21 +234,40 @@ namespace db0
     void FT_JoinANDIterator<key_t, UniqueKeys, key_storage_t>::_next()
     {
         // Try advancing one of the iterators which holds a duplicate key
-        for (auto &joinable: m_joinable) {
-            if ((*joinable).isNextKeyDuplicated()) {
-                joinable.nextKey(m_direction);
-                return;
+        m_duplicates_it = findDuplicates();
+        if (m_duplicates_it) {
+            if (m_direction < 0) {
+                --(*m_duplicates_it);
+            } else {
+                ++(*m_duplicates_it);
             }
+            return;
         }
-            
-        // advance the head iterator otherwise
-        if (!m_joinable.front().nextKey(m_direction, &m_join_key)) {
+        
+        // advance the head iterator otherwise (past its duplicates)
+        if (!m_joinable.front().nextUniqueKey(m_direction, &m_join_key)) {
             setEnd();
             return;
         }
         joinAll();
     }
     
+    template <typename key_t, bool UniqueKeys, typename key_storage_t>
+    typename FT_JoinANDIterator<key_t, UniqueKeys, key_storage_t>::FT_IteratorT *
+    FT_JoinANDIterator<key_t, UniqueKeys, key_storage_t>::findDuplicates() const
+    {
+        // only the duplicates from one of the iterators (the first one) are reported for a specific key
+        if (m_duplicates_it) {
+            return m_duplicates_it->isNextKeyDuplicated() ? m_duplicates_it : nullptr;
+        }
+        for (auto &it: m_joinable.iterators()) {
+            if (it->isNextKeyDuplicated()) {
+                return it.get();
+            }
+        }
+        return nullptr;
+    }
+
     template <typename key_t, bool UniqueKeys, typename key_storage_t> 
     void FT_JoinANDIterator<key_t, UniqueKeys, key_storage_t>::_nextUnique()
     {
@@ -263,6 +282,7 @@ namespace db0
     void FT_JoinANDIterator<key_t, UniqueKeys, key_storage_t>::joinAll()
     {
         auto it = m_joinable.begin(), end = m_joinable.end();
+        m_duplicates_it = nullptr;
         assert(it != end);
         assert(!(**it).isEnd());
         assert(m_join_key == (**it).getKey());
@@ -493,12 +513,7 @@ namespace db0
         if constexpr (UniqueKeys) {        
             return false;
         } else {
-            for (auto &joinable: m_joinable) {
-                if ((*joinable).isNextKeyDuplicated()) {
-                    return true;
-                }
-            }
-            return false;
+            return findDuplicates() != nullptr;
         }
     }
     
diff --git a/src/dbzero/core/collections/full_text/FT_ANDIterator.hpp b/src/dbzero/core/collections/full_text/FT_ANDIterator.hpp
index a44fdfb..654dd3c 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDIterator.hpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDIterator.hpp
@@ -120,9 +120,14 @@ namespace db0
 		mutable IteratorGroup<key_t, key_storage_t> m_joinable;
 		bool m_end;
 		key_storage_t m_join_key;
+        // the iterator being advanced over duplicates of the current key (if any)
+        FT_IteratorT *m_duplicates_it = nullptr;
         
 		void setEnd();
 
+        // @return iterator which holds a further duplicate of the current key or nullptr
+        FT_IteratorT *findDuplicates() const;
+
         void _next();
         void _next(void*);
         void _nextUnique();
diff --git a/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp b/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp
index e4b0b30..391b06c 100644
--- a/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp
+++ b/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp
@@ -320,7 +320,13 @@ namespace db0
 	
 	template <typename bindex_t, typename key_t, typename IndexKeyT>
 	bool FT_IndexIterator<bindex_t, key_t, IndexKeyT>::isNextKeyDuplicated() const {
-		return getIterator().isNextKeyDuplicated();
+		// NOTE: items might hold more than just the key, in which case must be compared by-key
+		using ItemT = std::decay_t<decltype(*getIterator())>;
+		if constexpr (std::is_same_v<ItemT, key_t>) {
+			return getIterator().isNextKeyDuplicated();
+		} else {
+			return getIterator().template isNextKeyDuplicated<key_t>();
+		}
 	}
 	
 } 
diff --git a/src/dbzero/core/collections/full_text/IteratorGroup.hpp b/src/dbzero/core/collections/full_text/IteratorGroup.hpp
index 60a279b..354f086 100644
--- a/src/dbzero/core/collections/full_text/IteratorGroup.hpp
+++ b/src/dbzero/core/collections/full_text/IteratorGroup.hpp
@@ -50,6 +50,9 @@ namespace db0
 
         const_iterator begin() const { return m_group.begin(); }
         const_iterator end() const { return m_group.end(); }
+
+        // the iterators in the original order (i.e. not affected by swapFront)
+        const std::list<std::unique_ptr<FT_IteratorT> > &iterators() const { return m_iterators; }
         
         std::size_t size() const;
 
diff --git a/src/dbzero/core/collections/vector/joinable_const_iterator.hpp b/src/dbzero/core/collections/vector/joinable_const_iterator.hpp
index 61dbd3e..c70036c 100644
--- a/src/dbzero/core/collections/vector/joinable_const_iterator.hpp
+++ b/src/dbzero/core/collections/vector/joinable_const_iterator.hpp
@@ -292,7 +292,8 @@ namespace db0
             }
 		}
 		
-		bool isNextKeyDuplicated() const
+		// @tparam KeyT the key type to compare items by (e.g. just a part of the item)
+		template <typename KeyT = data_t> bool isNextKeyDuplicated() const
 		{
 			assert(m_current && m_current != this->m_end);
 			auto next = m_current;
@@ -301,14 +302,15 @@ namespace db0
 				if (next == this->m_end) {
 					return false;
 				}
-				return !this->m_comp(*m_current, *next) && !this->m_comp(*next, *m_current);
 			} else {
 				if (m_current == this->m_begin) {
 					return false;
 				}
 				--next;
-				return !this->m_comp(*m_current, *next) && !this->m_comp(*next, *m_current);
 			}
+			const KeyT &key = *m_current;
+			const KeyT &next_key = *next;
+			return !this->m_comp(key, next_key) && !this->m_comp(next_key, key);
 		}
 		
 	private:
diff --git a/src/dbzero/core/utils/SortedArray.hpp b/src/dbzero/core/utils/SortedArray.hpp
index cb1888a..77edae1 100644
--- a/src/dbzero/core/utils/SortedArray.hpp
+++ b/src/dbzero/core/utils/SortedArray.hpp
@@ -57,17 +57,13 @@ namespace db0
 				std::size_t diff = (size_t)(end - it);
 				while (diff > 2) {
 					Iterator c = it + (diff >> 1);
-					// "c" meets the join criteria
-					if (m_comp(key,*c)) {
-						end = (c + 1);
-					} else {
+					// NOTE: with many equal elements, the first one must be located
+					if (m_comp(*c,key)) {
 						// "c" doesn't meet the join criteria
-						if (m_comp(*c,key)) {
-							it = c + 1;
-						}
-						else {
-							return c;
-						}
+						it = c + 1;
+					} else {
+						// "c" meets the join criteria
+						end = (c + 1);
 					}
 					diff = (std::size_t)(end - it);
 				}
@@ -86,16 +82,13 @@ namespace db0
 				std::size_t diff = (std::size_t)(it - begin);
 				while (diff > 2) {
 					Iterator c = begin + (diff >> 1);
-					// "c" meets the join criteria
-					if (m_comp(*c, key)) {
-						begin = c;
-					} else {
+					// NOTE: with many equal elements, the last one must be located
+					if (m_comp(key, *c)) {
 						// "c" doesn't meet the join criteria
-						if (m_comp(key, *c)) {
-							it = c;
-						} else {
-							return c;
-						}
+						it = c;
+					} else {
+						// "c" meets the join criteria
+						begin = c;
 					}
 					diff = (std::size_t)(it - begin);
 				}
-- 
2.43.0


From 7f3326206118bb28fec217c088fc104ccb51839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 52/83] fix: removing a tag from an object which does not have
 it keeps its reference count

---
 src/dbzero/core/collections/b_index/mb_index.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index fe323d4..c1fffe4 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -302,10 +302,15 @@ namespace db0
                 if (key_count > 0) {
                     bindex::type type_after_erase = getIndexTypeAfterErase(key_count);
                     if (type_after_erase == bindex::type::empty) {
+                        // NOTE: the input may contain elements which are not in the collection
+                        // only the erased ones must be notified
+                        item_t data[4];
+                        item_t *data_end = data;
+                        data_end += m_interface.copyAll(data);
                         // morph to empty_index (this will erase all elements)
                         morphToEmpty();
 						if (callback_ptr) {
-							for (auto it = begin; it != end; ++it) {
+							for (auto it = data; it != data_end; ++it) {
 								(*callback_ptr)(*it);
 							}
 						}
-- 
2.43.0


From c456e972aa234093ec8e2ec6d497564a46228c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 53/83] fix: modifications of data crossing a page boundary are
 no longer lost after an atomic operation

---
 src/dbzero/core/memory/PrefixCache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index b270333..f474d54 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -612,6 +612,12 @@ namespace db0
         // into the underlying parent DP-locks
         // This is fine because in the head transaction we've released all boundary locks
         // so they need not to be merged
+        // NOTE: must also be erased from the map, otherwise the entry would be found (and fed with parents from a past state)
+        // as soon as the head transaction assumes the from_state_num
+        for (auto &lock: m_volatile_boundary_locks) {
+            lock->flushBoundary();
+            eraseBoundaryRange(lock->getAddress(), lock->size(), from_state_num);
+        }
         m_volatile_boundary_locks.clear();
         
         // first collect residual parts from dirty wide locks
-- 
2.43.0


From b182889cbb44ea65266f0b340d6f8ddc7ccf6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 54/83] fix: tags of other prefixes and memo objects as tags
 can be removed, and added as part of a list

---
 src/dbzero/object_model/tags/TagIndex.cpp | 110 +++++++++++++---------
 src/dbzero/object_model/tags/TagIndex.hpp |   2 +
 2 files changed, 69 insertions(+), 43 deletions(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 716f119..55c0621 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -181,50 +181,56 @@ namespace db0::object_model
         // since it's less common, defer initialization until first occurence
         db0::FT_BaseIndex<LongTagT>::BatchOperationBuilder *batch_op_long_ptr = nullptr;
         auto &type_manager = LangToolkit::getTypeManager();
+        auto add_tag = [&](ObjectPtr arg) {
+            auto type_id = type_manager.getTypeId(arg);
+            bool inc_ref = false;
+            auto tag_addr = tryAddShortTag(type_id, arg, inc_ref);
+            if (tag_addr) {
+                batch_op_short->addTag(active_key, *tag_addr);
+                if (inc_ref) {
+                    m_inc_refed_tags.insert(*tag_addr);
+                }
+            } else {
+                // must try adding as a long tag (item from a foreign scope)
+                if (!batch_op_long_ptr) {
+                    batch_op_long_ptr = &getBatchOperationLong(memo_ptr, active_key);
+                }
+                auto long_tag = getLongTag(type_id, arg);
+                (*batch_op_long_ptr)->addTag(active_key, long_tag);
+            }
+        };
+
         for (std::size_t i = 0; i < nargs; ++i) {
             ObjectPtr arg = args[i];
             // must check for string since it's an iterable as well
             if (!LangToolkit::isString(arg) && LangToolkit::isIterable(arg)) {
-                auto tag_sequence = IterableSequence(LangToolkit::getIterator(arg), ForwardIterator::end(), [this](ObjectSharedPtr arg) {
-                    bool inc_ref = false;
-                    auto result = tryAddShortTag(arg.get(), inc_ref);
-                    if (!result) {
-                        // FIXME: implement
-                        THROWF(db0::InputException) << "Unable to add foreign tag";
-                    }
-                    if (inc_ref) {
-                        m_inc_refed_tags.insert(*result);
-                    }
-                    return *result;
-                });
                 // sequence (pair) may represent a single long tag
                 if (isLongTag(arg)) {
+                    auto tag_sequence = IterableSequence(LangToolkit::getIterator(arg), ForwardIterator::end(), [this](ObjectSharedPtr arg) {
+                        bool inc_ref = false;
+                        auto result = tryAddShortTag(arg.get(), inc_ref);
+                        if (!result) {
+                            // FIXME: implement
+                            THROWF(db0::InputException) << "Unable to add foreign tag";
+                        }
+                        if (inc_ref) {
+                            m_inc_refed_tags.insert(*result);
+                        }
+                        return *result;
+                    });
                     if (!batch_op_long_ptr) {
                         batch_op_long_ptr = &getBatchOperationLong(memo_ptr, active_key);
                     }
                     auto tag = makeLongTagFromSequence(tag_sequence);
                     (*batch_op_long_ptr)->addTags(active_key, TagPtrSequence(&tag, &tag + 1));
                 } else {
-                    batch_op_short->addTags(active_key, tag_sequence);
-                }
-            } else {
-                auto type_id = type_manager.getTypeId(arg);
-                bool inc_ref = false;
-                auto tag_addr = tryAddShortTag(type_id, arg, inc_ref);
-                if (tag_addr) {
-                    batch_op_short->addTag(active_key, *tag_addr);
-                    if (inc_ref) {
-                        m_inc_refed_tags.insert(*tag_addr);
+                    for (auto it = ForwardIterator(LangToolkit::getIterator(arg)), end = ForwardIterator::end(); it != end; ++it) {
+                        add_tag((*it).get());
                     }
-                } else {
-                    // must try adding as a long tag (item from a foreign scope)
-                    if (!batch_op_long_ptr) {
-                        batch_op_long_ptr = &getBatchOperationLong(memo_ptr, active_key);
-                    }
-                    auto long_tag = getLongTag(arg);
-                    (*batch_op_long_ptr)->addTag(active_key, long_tag);
                 }
-            }            
+            } else {
+                add_tag(arg);
+            }
             m_mutation_log->onDirty();            
         }
     }
@@ -282,26 +288,44 @@ namespace db0::object_model
             return;
         }
 
-        using IterableSequence = TagMakerSequence<ForwardIterator, ObjectSharedPtr>;
-        ActiveValueT active_key = { UniqueAddress(), nullptr };
-        auto &batch_operation = getBatchOperationShort(memo_ptr, active_key, false);
         for (std::size_t i = 0; i < nargs; ++i) {
-            auto type_id = LangToolkit::getTypeManager().getTypeId(args[i]);
             // must check for string since it's an iterable as well
-            if (type_id != TypeId::STRING && LangToolkit::isIterable(args[i])) {
-                batch_operation->removeTags(active_key,
-                    IterableSequence(LangToolkit::getIterator(args[i]), ForwardIterator::end(), [&](ObjectSharedPtr arg) {
-                        return getShortTag(arg.get());
-                    })
-                );
-                m_mutation_log->onDirty();
+            // NOTE: sequence (pair) may represent a single long tag
+            if (!LangToolkit::isString(args[i]) && LangToolkit::isIterable(args[i]) && !isLongTag(args[i])) {
+                for (auto it = ForwardIterator(LangToolkit::getIterator(args[i])), end = ForwardIterator::end(); it != end; ++it) {
+                    removeTag(memo_ptr, (*it).get());
+                }
             } else {
-                batch_operation->removeTag(active_key, getShortTag(type_id, args[i]));
-                m_mutation_log->onDirty();
+                removeTag(memo_ptr, args[i]);
             }
         }
     }
     
+    void TagIndex::removeTag(ObjectPtr memo_ptr, ObjectPtr arg)
+    {
+        ActiveValueT active_key = { UniqueAddress(), nullptr };
+        auto type_id = LangToolkit::getTypeManager().getTypeId(arg);
+        std::optional<ShortTagT> tag;
+        if (type_id == TypeId::MEMO_OBJECT) {
+            tag = tryAddShortTagFromMemo(arg);
+        } else if (type_id == TypeId::DB0_TAG) {
+            tag = tryAddShortTagFromTag(arg);
+        } else if (!isLongTag(arg)) {
+            tag = getShortTag(type_id, arg);
+        }
+        
+        if (tag) {
+            auto &batch_operation = getBatchOperationShort(memo_ptr, active_key, false);
+            batch_operation->removeTag(active_key, *tag);
+        } else {
+            // long tag, e.g. item from a foreign scope
+            auto long_tag = getLongTag(type_id, arg);
+            auto &batch_operation = getBatchOperationLong(memo_ptr, active_key);
+            batch_operation->removeTag(active_key, long_tag);
+        }
+        m_mutation_log->onDirty();
+    }
+    
     void TagIndex::rollback()
     {
         // Reject any pending updates
diff --git a/src/dbzero/object_model/tags/TagIndex.hpp b/src/dbzero/object_model/tags/TagIndex.hpp
index 6600b95..93fd94f 100644
--- a/src/dbzero/object_model/tags/TagIndex.hpp
+++ b/src/dbzero/object_model/tags/TagIndex.hpp
@@ -205,6 +205,8 @@ DB0_PACKED_END
         ShortTagT addShortTagFromString(ObjectPtr, bool &inc_ref) const;
         // return 0x0 if object is from a different prefix (must be added as long tag)
         std::optional<ShortTagT> tryAddShortTagFromTag(ObjectPtr) const;        
+        void removeTag(ObjectPtr memo_ptr, ObjectPtr arg);
+
         std::optional<ShortTagT> tryAddShortTagFromMemo(ObjectPtr) const;
         
         bool addIterator(ObjectPtr, db0::FT_IteratorFactory<UniqueAddress> &factory,
-- 
2.43.0


From 693f7781c5a3e6c45d8816a65c8e8655a375b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 55/83] fix: type tags of an object dropped with pending tag
 updates are removed

---
 src/dbzero/core/collections/full_text/FT_BaseIndex.hpp | 8 ++++++++
 src/dbzero/object_model/tags/TagIndex.cpp              | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 37cb250..b520688 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -232,6 +232,14 @@ namespace db0
                 m_remove_set.revert(key);
             }
             
+            // Revert only the "add" operations associated with a specific key
+            void revertAdded(KeyT key)
+            {
+                std::lock_guard<std::recursive_mutex> lock(m_mutex);
+                m_commit_called = false;
+                m_add_set.revert(key);
+            }
+            
             // Cancels all modifications
             void clear();
 
diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 55c0621..def83ca 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -1145,7 +1145,8 @@ namespace db0::object_model
             m_batch_op_long->revert(addr);
         }
         if (m_batch_op_types) {
-            m_batch_op_types->revert(addr);
+            // NOTE: removals must be retained, since the type tags might've been assigned before this batch
+            m_batch_op_types->revertAdded(addr);
         }        
     }
     
-- 
2.43.0


From 43b475becb434d2ed65e9cf9bcc9cbb1cd890e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:12 +0000
Subject: [PATCH 56/83] fix: a tagged object is kept when its last reference is
 dropped before the tag gets flushed

---
 src/dbzero/object_model/tags/TagIndex.cpp | 9 +++++++++
 src/dbzero/object_model/tags/TagIndex.hpp | 6 ++++++
 src/dbzero/object_model/value/Member.cpp  | 4 +++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index def83ca..fbaedc8 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -181,6 +181,8 @@ namespace db0::object_model
         // since it's less common, defer initialization until first occurence
         db0::FT_BaseIndex<LongTagT>::BatchOperationBuilder *batch_op_long_ptr = nullptr;
         auto &type_manager = LangToolkit::getTypeManager();
+        // NOTE: the object is held by either the object cache or the active pre-cache until flush
+        m_tagged.insert(memo_ptr);
         auto add_tag = [&](ObjectPtr arg) {
             auto type_id = type_manager.getTypeId(arg);
             bool inc_ref = false;
@@ -340,6 +342,7 @@ namespace db0::object_model
         }
         // NOTE: no need to undo inc-refs here since the string pool gets rolled back with the transaction
         m_inc_refed_tags.clear();
+        m_tagged.clear();
         // NOTE: also need to clear buffers which may contain incomplete objects
         m_object_cache.clear();
         m_active_cache.clear();
@@ -368,6 +371,7 @@ namespace db0::object_model
         m_active_cache.clear();
         m_active_pre_cache.clear();
         m_inc_refed_tags.clear();
+        m_tagged.clear();
     }
     
     void TagIndex::tryTagIncRef(ShortTagT tag_addr) const
@@ -498,6 +502,7 @@ namespace db0::object_model
         m_object_cache.clear();
         m_active_cache.clear();
         m_inc_refed_tags.clear();
+        m_tagged.clear();
     }
     
     void TagIndex::buildActiveValues() const
@@ -1134,6 +1139,10 @@ namespace db0::object_model
         return m_object_cache.find(addr) != m_object_cache.end();               
     }
     
+    bool TagIndex::isPendingTag(ObjectPtr memo_ptr) const {
+        return m_tagged.find(memo_ptr) != m_tagged.end();
+    }
+    
     void TagIndex::revert(ObjectPtr memo_ptr) const
     {
         auto &memo = LangToolkit::getTypeManager().extractAnyObject(memo_ptr);
diff --git a/src/dbzero/object_model/tags/TagIndex.hpp b/src/dbzero/object_model/tags/TagIndex.hpp
index 93fd94f..11a95a6 100644
--- a/src/dbzero/object_model/tags/TagIndex.hpp
+++ b/src/dbzero/object_model/tags/TagIndex.hpp
@@ -118,6 +118,10 @@ DB0_PACKED_END
         // Check if there's any queued update for the provided address
         // which may affect a future state of the object (e.g. add tags or drop)
         bool isPendingUpdate(UniqueAddress) const;
+        
+        // Check if any tags have been assigned to the object since the last flush
+        // (which means that it may become referenced on flush)
+        bool isPendingTag(ObjectPtr memo_ptr) const;
 
         bool empty() const;
         
@@ -157,6 +161,8 @@ DB0_PACKED_END
         mutable std::unordered_map<ObjectPtr, UniqueAddress> m_active_cache;
         // Additional buffer to preserve / release ownership for active-cache objects
         mutable std::unordered_set<ObjectSharedExtPtr> m_active_pre_cache;
+        // Objects (held by the above caches) to which tags have been assigned since the last flush
+        mutable std::unordered_set<ObjectPtr> m_tagged;
         db0::weak_swine_ptr<Fixture> m_fixture;
         // the associated fixture UUID (for validation purposes)
         const std::uint64_t m_fixture_uuid;
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index bbf679f..fc38c07 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -4,6 +4,7 @@
 #include "Member.hpp"
 #include <dbzero/core//serialization/Serializable.hpp>
 #include <dbzero/object_model/tags/ObjectIterator.hpp>
+#include <dbzero/object_model/tags/TagIndex.hpp>
 #include <dbzero/object_model/enum/Enum.hpp>
 #include <dbzero/object_model/enum/EnumValue.hpp>
 #include <dbzero/object_model/enum/EnumFactory.hpp>
@@ -717,7 +718,8 @@ namespace db0::object_model
             object.decRef(false);
             if (!object.hasRefs()) {
                 // NOTE: we'll drop the object immediately on condition it has no language references
-                if (!LangToolkit::hasLangRefs(*obj_ptr)) {
+                // and is not about to be referenced by a tag (otherwise to be dropped by GC0)
+                if (!LangToolkit::hasLangRefs(*obj_ptr) && !fixture->get<TagIndex>().isPendingTag(*obj_ptr)) {
                     auto unique_addr = object.getUniqueAddress();                    
                     // drop dbzero instance, replacing it with a "null" placeholder
                     object.dropInstance(lock);
-- 
2.43.0


From 3f0918d2707ff5c7ed45590499b9abba5fe04f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 57/83] fix: a committed object can be assigned to its own
 member

---
 src/dbzero/object_model/object/Object.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbzero/object_model/object/Object.cpp b/src/dbzero/object_model/object/Object.cpp
index e9b9592..441062e 100644
--- a/src/dbzero/object_model/object/Object.cpp
+++ b/src/dbzero/object_model/object/Object.cpp
@@ -155,6 +155,7 @@ namespace db0::object_model
             std::tie(old_field_info, old_loc_ptr) = tryGetMemberSlot(member_id, old_pos);
         }
         
+        auto old_member_id = member_id;
         if (!member_id || !(field_id = member_id.tryGet(storage_fidelity))) {
             // try mutating the class first
             member_id = m_type->addField(field_name, storage_fidelity);
@@ -169,6 +170,10 @@ namespace db0::object_model
         );
         // make sure object address is not null
         assert(!(storage_class == StorageClass::OBJECT_REF && value.cast<std::uint64_t>() == 0));
+        // NOTE: creating a member may modify (and relocate) this object if it's being assigned to itself
+        if (old_field_info.first) {
+            std::tie(old_field_info, old_loc_ptr) = tryGetMemberSlot(old_member_id, old_pos);
+        }
         
         if (field_id == old_field_info.first) {
             // Set / update value at the existing location
-- 
2.43.0


From e0769d3d61e0de530e3049aad5838f36901a505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 58/83] fix: a class first opened in a cancelled atomic block
 keeps a single instance

---
 src/dbzero/object_model/class/ClassFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/class/ClassFactory.cpp b/src/dbzero/object_model/class/ClassFactory.cpp
index 01d97a7..393e280 100644
--- a/src/dbzero/object_model/class/ClassFactory.cpp
+++ b/src/dbzero/object_model/class/ClassFactory.cpp
@@ -300,8 +300,8 @@ namespace db0::object_model
                 type->setRuntimeFlags(LangToolkit::getMemoFlags(lang_type));
             }
             // register the mapping to language specific type object
+            // NOTE: existing class must be retained on rollback, since objects may already hold the instance
             it_cached = m_ptr_cache.insert({ptr, ClassItem { type, lang_type }}).first;
-            m_pending_ptrs.push_back(ptr);
         }
         // register the lang type mapping if missing
         if (lang_type && !it_cached->second.m_lang_type) {
-- 
2.43.0


From eab941d9552676be15ce3c46385f203cae059f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 59/83] fix: classes and schema updates from before a cancelled
 atomic block are kept

---
 src/dbzero/workspace/Fixture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index 1c58b1b..c72d0eb 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -451,6 +451,8 @@ namespace db0
     {
         getGC0().flushAllOf(Memspace::getForFlush());
         m_maybe_need_flush.clear();
+        // NOTE: flush, so that only the updates from the atomic operation are pending (and may be rolled back)
+        flush();
         for (auto &commit: m_close_handlers) {
             commit(true);
         }
-- 
2.43.0


From 2baaa05955eb619488c8f64b97619b2f47a7b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 60/83] fix: a cancelled atomic block works with read-only
 prefixes open, forgets objects it created and drops unreferenced ones

---
 src/dbzero/workspace/GC0.cpp       | 38 +++++++++++++++++++++++++++++-
 src/dbzero/workspace/GC0.hpp       |  7 ++++++
 src/dbzero/workspace/Workspace.cpp | 10 +++++++-
 3 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/workspace/GC0.cpp b/src/dbzero/workspace/GC0.cpp
index fb5ce37..fee4c1f 100644
--- a/src/dbzero/workspace/GC0.cpp
+++ b/src/dbzero/workspace/GC0.cpp
@@ -70,10 +70,15 @@ namespace db0
             } else {
                 // at this stage just collect the ops and remove the entry
                 drop_op = ops.drop;
+                auto it_unref = m_atomic_unreferenced.find(vptr);
+                if (it_unref != m_atomic_unreferenced.end()) {
+                    m_atomic_dropped.push_back(it_unref->second);
+                }
             }
         }
         // NOTE: we erase by vptr because hasRefs may have side effects and invalidate the iterator
         m_vptr_map.erase(vptr);
+        m_atomic_unreferenced.erase(vptr);
         // NOTE: vptr may get reused by another instance
         if (!is_volatile) {
             m_volatile.erase(vptr);
@@ -217,6 +222,16 @@ namespace db0
         assert(!m_atomic);
         // commmit all active v_object instances so that the underlying locks can be re-created (CoW)        
         commitAll();
+        m_atomic_unreferenced.clear();
+        if (!m_read_only) {
+            auto &ops_list = getSharedState().m_ops;
+            for (auto &[vptr, ops_id] : m_vptr_map) {
+                auto &ops = ops_list[ops_id];
+                if (ops.hasRefs && ops.drop && !ops.hasRefs(vptr)) {
+                    m_atomic_unreferenced[vptr] = ops.address(vptr);
+                }
+            }
+        }
         m_atomic = true;
     }
 
@@ -225,6 +240,8 @@ namespace db0
         assert(m_atomic);
         m_volatile.clear();
         m_volatile_addrs.clear();
+        m_atomic_unreferenced.clear();
+        m_atomic_dropped.clear();
         m_atomic = false;
     }
     
@@ -246,16 +263,35 @@ namespace db0
             tryRemove(vptr, true);
         }
         m_volatile.clear();
-        m_volatile_addrs.clear();
+        m_atomic_unreferenced.clear();
         m_atomic = false;
     }
     
+    void GC0::afterCancelAtomic()
+    {
+        auto fixture = this->getFixture();
+        // the objects created by the cancelled operation must not be found under addresses which are free again
+        auto volatile_addrs = std::move(m_volatile_addrs);
+        m_volatile_addrs.clear();
+        for (auto addr: volatile_addrs) {
+            fixture->getLangCache().erase(Address::fromOffset(addr));
+        }
+        auto &ops_list = getSharedState().m_ops;
+        auto &ops_map = getSharedState().m_ops_map;
+        auto dropped = std::move(m_atomic_dropped);
+        m_atomic_dropped.clear();
+        for (auto &addr_pair: dropped) {
+            ops_list[ops_map[addr_pair.second]].dropByAddr(fixture, addr_pair.first.getAddress());
+        }
+    }
+    
     std::optional<unsigned int> GC0::erase(void *vptr)
     {
         std::optional<unsigned int> flush_op;
         std::unique_lock<std::mutex> lock(m_mutex);
         assert(m_vptr_map.find(vptr) != m_vptr_map.end());
         m_vptr_map.erase(vptr);
+        m_atomic_unreferenced.erase(vptr);
         auto it = m_flush_map.find(vptr);
         if (it != m_flush_map.end()) {
             flush_op = it->second;
diff --git a/src/dbzero/workspace/GC0.hpp b/src/dbzero/workspace/GC0.hpp
index 2f67f71..0cc7195 100644
--- a/src/dbzero/workspace/GC0.hpp
+++ b/src/dbzero/workspace/GC0.hpp
@@ -132,6 +132,9 @@ namespace db0
         void endAtomic();
         // @param vptrs instances which subscribed for flush since the atomic operation began
         void cancelAtomic(const std::vector<vtypeless*> &);
+        // To be called once cancelled, forgets the instances created by the atomic operation
+        // and drops again the unreferenced ones, dropped in the course of it
+        void afterCancelAtomic();
         
         struct CommitContext
         {
@@ -173,6 +176,10 @@ namespace db0
         std::unordered_set<void*> m_volatile;
         // addresses of the objects created during the atomic operation
         std::unordered_set<std::uint64_t> m_volatile_addrs;
+        // instances not referenced already before the atomic operation
+        std::unordered_map<void*, std::pair<UniqueAddress, StorageClass> > m_atomic_unreferenced;
+        // and the ones of them which got dropped (i.e. to be restored by rollback)
+        std::vector<std::pair<UniqueAddress, StorageClass> > m_atomic_dropped;
         mutable std::mutex m_mutex;
         
         void commitAll();
diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 7eddfd3..ec31a4a 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) 2025 DBZero Software sp. z o.o.
 
 #include "Workspace.hpp"
+#include "GC0.hpp"
 #include <dbzero/core/memory/MetaAllocator.hpp>
 #include "FixtureThreads.hpp"
 #include "Config.hpp"
@@ -688,9 +689,16 @@ namespace db0
         assert(m_atomic_context_ptr);
         // end atomic with all open fixtures
         for (auto &[uuid, fixture] : m_fixtures) {
-            fixture->cancelAtomic();
+            if (fixture->getAccessType() == AccessType::READ_WRITE) {
+                fixture->cancelAtomic();
+            }
         }
         m_atomic_context_ptr = nullptr;
+        for (auto &[uuid, fixture] : m_fixtures) {
+            if (fixture->getAccessType() == AccessType::READ_WRITE) {
+                fixture->getGC0().afterCancelAtomic();
+            }
+        }
     }
 
     void Workspace::setAutocommitInterval(std::uint64_t interval_ms) {
-- 
2.43.0


From d9821bd1bc61dae7845d284451e30720c9239975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 61/83] fix: a refreshing reader misses page updates when the
 DP changelog is ahead of the committed state

Chunks of the DP changelog beyond the synced state (or appended after the buffered block)
were consumed without notifying about their pages, which then stayed stale in the reader's cache.
---
 src/dbzero/core/storage/BDevStorage.cpp | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 6fc8835..f9ecd93 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -725,6 +725,7 @@ namespace db0
                 }
                 
                 // refresh underlying sparse index / diff index after DRAM update
+                auto last_state_num = m_sparse_pair.getMaxStateNum();
                 m_sparse_pair.refresh();
                 
                 // this is the state number to sync-up to (which must be identical as dram_state_num)
@@ -735,15 +736,34 @@ namespace db0
                         << *dram_state_num << " does not match max known state number " << max_state_num;
                 }
                 
-                // send all page-update notifications to the provided handler
+                // send all page-update notifications to the provided handler (up to the max known state number,
+                // the stream may already hold updates from a transaction being written)
                 if (on_page_updated) {
                     StateNumType updated_state_num = 0;
+                    // The last chunk read so far may come from a transaction which had not been completed at that time
+                    // (DP changelog is flushed before DRAM changelog), its updates have not been notified yet
+                    if (auto chunk_ptr = m_dp_changelog_io.getLastChangeLogChunk()) {
+                        if (chunk_ptr->m_state_num > last_state_num && chunk_ptr->m_state_num <= max_state_num) {
+                            updated_state_num = chunk_ptr->m_state_num;
+                            for (auto page_num: *chunk_ptr) {
+                                on_page_updated(page_num, updated_state_num);
+                            }
+                        }
+                    }
                     m_dp_changelog_io.refresh();
                     // NOTE: readers allow reading the same contents multiple times
                     auto reader = m_dp_changelog_io.getStreamReader();
                     // feed the reader with all available chunks, in case of IOException the stream is getting reverted
                     // this is to make the operation atomic
-                    while (auto chunk_ptr = reader.readChangeLogChunk()) {
+                    while (updated_state_num != max_state_num) {
+                        auto chunk_ptr = reader.readChangeLogChunk();
+                        if (!chunk_ptr) {
+                            // the buffered block is exhausted, continue only if appended in meantime
+                            if (!m_dp_changelog_io.refresh()) {
+                                break;
+                            }
+                            continue;
+                        }
                         if (chunk_ptr->m_state_num == max_state_num) {
                             // stop at the max known state number
                             break;
@@ -757,7 +777,7 @@ namespace db0
                     
                     // reset to read all updates again
                     reader.reset();
-                    for (;;) {
+                    while (updated_state_num != max_state_num) {
                         auto dp_change_log_ptr = reader.readChangeLogChunk();
                         if (!dp_change_log_ptr || dp_change_log_ptr->m_state_num > max_state_num) {
                             // end of the stream or the max known state number reached
-- 
2.43.0


From 03d02e70f41751a23e8c2bcaaa31c9b4044c17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 62/83] fix: a reader refreshing while a DRAM page is being
 overwritten gets stuck at the old state

Inconsistent changes were applied partially and their changelog chunks dropped, which left
the refresh pending forever. Changes are now applied only when consistent, otherwise
the stream positions are restored and the refresh repeated.
---
 src/dbzero/core/storage/BDevStorage.cpp   | 32 ++++++++++++++++-------
 src/dbzero/core/storage/BDevStorage.hpp   |  2 ++
 src/dbzero/core/storage/BlockIOStream.cpp |  6 ++++-
 src/dbzero/core/storage/DRAM_IOStream.cpp | 32 ++++++++++++++++-------
 src/dbzero/core/storage/DRAM_IOStream.hpp |  5 +++-
 5 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index f9ecd93..75646b6 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -80,6 +80,7 @@ namespace db0
         // since other process might be actively modifying the underlying file
         if (m_access_type == AccessType::READ_ONLY && !m_flags.test(StorageOptions::NO_LOAD)) {
             refresh();
+            m_notified_state_num = m_sparse_pair.getMaxStateNum();
         }
         
         // Validate state consistency
@@ -674,6 +675,8 @@ namespace db0
         // needs to be retried until successful
         // WARNING: if the reader is much slower that the writer (~100x slower) then this loop might not terminate
         bool is_consistent = true;
+        // state number of the recent unsuccessful (inconsistent) attempt
+        std::optional<StateNumType> inconsistent_state_num;
         // continue refreshing until all updates are retrieved to guarantee a consistent state
         do {
             // safe stream positions for rollback on file read failure
@@ -700,7 +703,6 @@ namespace db0
                     // no updates to process
                     break;
                 }
-                dram_changelog_io_pos = m_dram_changelog_io.getStreamPos();
                 // NOTE: ext DRAM updates have incremental nature so they might preceed DRAM updates
                 // without breaking the consistency
                 std::optional<StateNumType> ext_dram_state_num;
@@ -708,24 +710,31 @@ namespace db0
                     assert(m_ext_dram_changelog_io);
                     m_ext_dram_changelog_io->refresh();
                     ext_dram_state_num = m_ext_dram_io->beginApplyChanges(*m_ext_dram_changelog_io);
-                    ext_dram_changelog_io_pos = m_ext_dram_changelog_io->getStreamPos();
                 }
                 
                 assert(dram_state_num);
-                is_consistent = m_dram_io.completeApplyChanges(*dram_state_num);
+                is_consistent = true;
                 if (!!m_ext_space && ext_dram_state_num) {
-                    is_consistent &= m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
-                    m_ext_space.refresh();
+                    is_consistent = m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
+                    if (is_consistent) {
+                        m_ext_space.refresh();
+                    }
                 }
+                is_consistent = is_consistent && m_dram_io.completeApplyChanges(*dram_state_num);
                 
                 if (!is_consistent) {
-                    // must continue with the refresh until getting a consistent state
-                    m_dram_changelog_io.refresh();
+                    // nothing has been applied, must start over from the same positions in order to get a consistent state
+                    m_dram_io.cancelApplyChanges();
+                    revert_streams();
+                    if (inconsistent_state_num == dram_state_num) {
+                        // a chunk is being overwritten at the moment, repeat with the next refresh
+                        break;
+                    }
+                    inconsistent_state_num = dram_state_num;
                     continue;
                 }
                 
                 // refresh underlying sparse index / diff index after DRAM update
-                auto last_state_num = m_sparse_pair.getMaxStateNum();
                 m_sparse_pair.refresh();
                 
                 // this is the state number to sync-up to (which must be identical as dram_state_num)
@@ -743,7 +752,7 @@ namespace db0
                     // The last chunk read so far may come from a transaction which had not been completed at that time
                     // (DP changelog is flushed before DRAM changelog), its updates have not been notified yet
                     if (auto chunk_ptr = m_dp_changelog_io.getLastChangeLogChunk()) {
-                        if (chunk_ptr->m_state_num > last_state_num && chunk_ptr->m_state_num <= max_state_num) {
+                        if (chunk_ptr->m_state_num > m_notified_state_num && chunk_ptr->m_state_num <= max_state_num) {
                             updated_state_num = chunk_ptr->m_state_num;
                             for (auto page_num: *chunk_ptr) {
                                 on_page_updated(page_num, updated_state_num);
@@ -791,9 +800,14 @@ namespace db0
                             on_page_updated(page_num, updated_state_num);                            
                         }                        
                     }
+                    m_notified_state_num = max_state_num;
                 }
                 
             } catch (db0::IOException &) {
+                m_dram_io.cancelApplyChanges();
+                if (!!m_ext_space) {
+                    m_ext_dram_io->cancelApplyChanges();
+                }
                 revert_streams();
                 // NOTE: this may be a temporary problem, refresh needs repeating
                 break;
diff --git a/src/dbzero/core/storage/BDevStorage.hpp b/src/dbzero/core/storage/BDevStorage.hpp
index 94a1cac..a11cc03 100644
--- a/src/dbzero/core/storage/BDevStorage.hpp
+++ b/src/dbzero/core/storage/BDevStorage.hpp
@@ -194,6 +194,8 @@ DB0_PACKED_END
 #endif
         
         bool m_refresh_pending = false;
+        // the latest state number for which page updates have been notified (see completeRefresh)
+        StateNumType m_notified_state_num = 0;
         mutable std::shared_mutex m_mutex;
 #ifndef NDEBUG
         // total number of bytes from mutated data pages
diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 37a2624..b9b5c3e 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -496,7 +496,11 @@ namespace db0
         flush();
         // try reading a full block
         if ((address + m_block_size > m_file.size()) || !readBlock(address, m_block_begin)) {
-            THROWF(db0::InternalException) << "BlockIOStream unable to set position in stream";
+            // NOTE: the current block may be just being overwritten by the writer process (invalid checksum),
+            // continue with the buffered contents in such case, possible to be refreshed later
+            if (m_access_type != AccessType::READ_ONLY || !m_checksums_enabled || address != m_address) {
+                THROWF(db0::InternalException) << "BlockIOStream unable to set position in stream";
+            }
         }
         
         m_address = address;
diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 0dc29f1..7dc732f 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -311,25 +311,37 @@ namespace db0
     
     bool DRAM_IOStream::completeApplyChanges(StateNumType max_state_num)
     {
-        bool is_consistent = true;
+        // NOTE: nothing gets applied unless all of the chunks are consistent (also must not be beyond max_state_num + 1)
         for (const auto &item: m_read_ahead_chunks) {
-            auto address = item.first;
             const auto &buffer = item.second;
             const auto &header = o_dram_chunk_header::__const_ref(buffer.data() + o_block_io_chunk_header::sizeOf());
-            // NOTE: ignore invalid or incomplete DRAM chunks (too fresh to be included)
-            if (!isDRAM_ChunkValid(m_dram_page_size, header, header.getData(), buffer.data() + buffer.size())) {
-                // NOTE: since we don't know chunk's actual status, must assume inconsistency
-                is_consistent = false;
+            // NOTE: null header is assumed as not violating consistency
+            if (!header) {
                 continue;
             }
-            bool consistent_update;
-            updateDRAMPage(address, nullptr, header, header.getData(), max_state_num, &consistent_update);
-            is_consistent &= consistent_update;
+            // NOTE: since we don't know actual status of an invalid or incomplete chunk (too fresh to be included), 
+            // must assume inconsistency
+            if (header.m_state_num > max_state_num + 1
+                || !isDRAM_ChunkValid(m_dram_page_size, header, header.getData(), buffer.data() + buffer.size()))
+            {
+                m_read_ahead_chunks.clear();
+                return false;
+            }
+        }
+
+        for (const auto &item: m_read_ahead_chunks) {
+            const auto &buffer = item.second;
+            const auto &header = o_dram_chunk_header::__const_ref(buffer.data() + o_block_io_chunk_header::sizeOf());
+            updateDRAMPage(item.first, nullptr, header, header.getData(), max_state_num);
         }
         m_read_ahead_chunks.clear();
-        return is_consistent;
+        return true;
     }
     
+    void DRAM_IOStream::cancelApplyChanges() {
+        m_read_ahead_chunks.clear();
+    }
+
     void DRAM_IOStream::flush() {
         THROWF(db0::IOException) << "DRAM_IOStream::flush not allowed";
     }
diff --git a/src/dbzero/core/storage/DRAM_IOStream.hpp b/src/dbzero/core/storage/DRAM_IOStream.hpp
index 5abf37a..3b5eee1 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.hpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.hpp
@@ -102,8 +102,11 @@ DB0_PACKED_END
         
         // Apply buffered changes (allowed on condition beginApplyChanges succeeded)
         // @param max_state_num the last known consistent state number
-        // @return false if the applied changes were INCONSISTENT (refresh must be repeated)
+        // @return false if the changes are INCONSISTENT, nothing gets applied then (refresh must be repeated)
         bool completeApplyChanges(StateNumType max_state_num);
+
+        // Drop buffered changes without applying
+        void cancelApplyChanges();
         
         /**
          * Get the underlying DRAM pair (prefix and allocator)
-- 
2.43.0


From a94a048b00db855c05bff17590117a5a8804d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:24 +0000
Subject: [PATCH 63/83] fix: snapshot() must not return an older head view
 after prefixes advanced by refresh or autocommit

---
 src/dbzero/workspace/Workspace.cpp     |  3 ++-
 src/dbzero/workspace/WorkspaceView.cpp | 14 ++++++++++++++
 src/dbzero/workspace/WorkspaceView.hpp |  3 +++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index ec31a4a..189e8ca 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -789,7 +789,8 @@ namespace db0
     std::shared_ptr<WorkspaceView> Workspace::getWorkspaceHeadView() const
     {
         auto result = m_head_view.lock();
-        if (!result) {
+        // NOTE: fixtures may advance without invalidating the view (e.g. refreshed or auto-committed)
+        if (!result || !result->isHead()) {
             result = std::shared_ptr<WorkspaceView>(new WorkspaceView(const_cast<Workspace&>(*this)));
             m_head_view = result;
             m_views.push_back(result);
diff --git a/src/dbzero/workspace/WorkspaceView.cpp b/src/dbzero/workspace/WorkspaceView.cpp
index 02d1880..ec02eff 100644
--- a/src/dbzero/workspace/WorkspaceView.cpp
+++ b/src/dbzero/workspace/WorkspaceView.cpp
@@ -150,6 +150,20 @@ namespace db0
         return m_snapshot_fixtures.find(*uuid) != m_snapshot_fixtures.end();
     }
     
+    bool WorkspaceView::isHead() const
+    {
+        if (m_closed || m_default_uuid != m_workspace_ptr->getDefaultUUID()) {
+            return false;
+        }
+        bool result = true;
+        m_workspace_ptr->forEachFixture([&, this](const Fixture &fixture) {
+            auto it = m_state_nums.find(fixture.getUUID());
+            result = it != m_state_nums.end() && it->second == fixture.getPrefix().getStateNum(true);
+            return result;
+        });
+        return result;
+    }
+
     db0::swine_ptr<Fixture> WorkspaceView::tryGetFixture(std::uint64_t uuid, std::optional<AccessType> access_type)
     {
         if (m_closed) {
diff --git a/src/dbzero/workspace/WorkspaceView.hpp b/src/dbzero/workspace/WorkspaceView.hpp
index eb20dce..b6e8108 100644
--- a/src/dbzero/workspace/WorkspaceView.hpp
+++ b/src/dbzero/workspace/WorkspaceView.hpp
@@ -26,6 +26,9 @@ namespace db0
 
         bool hasFixture(const PrefixName &) const override;
 
+        // check if the view (still) represents the latest finalized states of all open fixtures
+        bool isHead() const;
+
         db0::swine_ptr<Fixture> tryGetFixture(const PrefixName &, std::optional<AccessType> = {}) override;
         
         db0::swine_ptr<Fixture> tryGetFixture(std::uint64_t uuid, std::optional<AccessType> = {}) override;
-- 
2.43.0


From 0dacb064e7edab6ccb3740f5ca02027a52b975cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 64/83] fix: a refreshing reader must not skip page updates
 when the DP changelog block is not readable yet

---
 src/dbzero/core/storage/BDevStorage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 75646b6..35ba872 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -769,7 +769,8 @@ namespace db0
                         if (!chunk_ptr) {
                             // the buffered block is exhausted, continue only if appended in meantime
                             if (!m_dp_changelog_io.refresh()) {
-                                break;
+                                // the block may be just being overwritten, refresh needs repeating
+                                THROWF(db0::IOException) << "DP changelog not available for state number: " << max_state_num;
                             }
                             continue;
                         }
-- 
2.43.0


From 7dc5d048c89490433d1e0003ab7ba596dc011179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 65/83] fix: a reader must handle DP changelog chunks left by a
 crashed writer (same state number twice)

---
 src/dbzero/core/storage/BDevStorage.cpp | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 35ba872..0fc980c 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -764,41 +764,45 @@ namespace db0
                     auto reader = m_dp_changelog_io.getStreamReader();
                     // feed the reader with all available chunks, in case of IOException the stream is getting reverted
                     // this is to make the operation atomic
-                    while (updated_state_num != max_state_num) {
+                    // NOTE: multiple chunks may exist with the same state number (if the writer process crashed 
+                    // before completing the transaction), therefore must continue after reaching the max known state number
+                    for (;;) {
                         auto chunk_ptr = reader.readChangeLogChunk();
                         if (!chunk_ptr) {
                             // the buffered block is exhausted, continue only if appended in meantime
-                            if (!m_dp_changelog_io.refresh()) {
+                            if (m_dp_changelog_io.refresh()) {
+                                continue;
+                            }
+                            if (updated_state_num != max_state_num) {
                                 // the block may be just being overwritten, refresh needs repeating
                                 THROWF(db0::IOException) << "DP changelog not available for state number: " << max_state_num;
                             }
-                            continue;
-                        }
-                        if (chunk_ptr->m_state_num == max_state_num) {
-                            // stop at the max known state number
                             break;
                         }
                         if (chunk_ptr->m_state_num > max_state_num) {
-                            // NOTE: this critical and irrecoverable error indicates corruption of the DP changelog stream
-                            THROWF(db0::InternalException) << "Inconsistent state: DP changelog state number "
-                                << chunk_ptr->m_state_num << " exceeds max known state number " << max_state_num;   
+                            if (updated_state_num != max_state_num) {
+                                // NOTE: this critical and irrecoverable error indicates corruption of the DP changelog stream
+                                THROWF(db0::InternalException) << "Inconsistent state: DP changelog state number "
+                                    << chunk_ptr->m_state_num << " exceeds max known state number " << max_state_num;
+                            }
+                            // a transaction being written, to be notified with the next refresh
+                            break;
                         }
+                        updated_state_num = chunk_ptr->m_state_num;
                     }
                     
                     // reset to read all updates again
                     reader.reset();
-                    while (updated_state_num != max_state_num) {
+                    for (;;) {
                         auto dp_change_log_ptr = reader.readChangeLogChunk();
                         if (!dp_change_log_ptr || dp_change_log_ptr->m_state_num > max_state_num) {
                             // end of the stream or the max known state number reached
                             break;
                         }
                         
-                        assert(dp_change_log_ptr->m_state_num != updated_state_num);
-                        updated_state_num = dp_change_log_ptr->m_state_num;
                         // Elements are logical page numbers (mutated in that transaction)
                         for (auto page_num: *dp_change_log_ptr) {
-                            on_page_updated(page_num, updated_state_num);                            
+                            on_page_updated(page_num, dp_change_log_ptr->m_state_num);
                         }                        
                     }
                     m_notified_state_num = max_state_num;
-- 
2.43.0


From 987f5e400852657165938d82f3520671437103b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 66/83] fix: after a crash the block linked to a stream but not
 written yet must not be reused by other streams

---
 src/dbzero/core/storage/BlockIOStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index b9b5c3e..184adc8 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -424,6 +424,10 @@ namespace db0
             assert(false);
             THROWF(db0::InternalException) << "BlockIOStream::tail: Failed (must be EOS)";
         }
+        if (m_block_header.hasNext()) {
+            // NOTE: the next block may be already linked but not written yet (e.g. after the process crash)
+            return std::max(m_address, m_block_header.m_next_block_address) + m_block_size;
+        }
         return m_address + m_block_size;
     }
     
-- 
2.43.0


From 11613852682c7ac9cfce92abbf45505708d6d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 67/83] fix: closing a prefix must drop the restored prefix
 from the history of current prefixes

---
 src/dbzero/workspace/Workspace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 189e8ca..651a30f 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -281,7 +281,10 @@ namespace db0
                     // change default fixture to the last one from the history
                     while (!m_current_prefix_history.empty() && !m_default_fixture) {
                         m_default_fixture = tryFindFixture(m_current_prefix_history.back());
-                        m_current_prefix_history.pop_back();
+                        // NOTE: the restored prefix must remain in the history (it may get closed later)
+                        if (!m_default_fixture) {
+                            m_current_prefix_history.pop_back();
+                        }
                     }
                 }
 
-- 
2.43.0


From eb0bb7621a63a578cb9e962f24a4e8aaa3de31cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 68/83] fix: creating an object in a read-only prefix must
 raise an error, not end the process

---
 src/dbzero/bindings/python/Memo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index 351c81f..60dd56a 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -278,6 +278,14 @@ namespace db0::python
                 return -1;
             }
             
+            // the prefix selected while initializing (see set_prefix) may be read-only
+            if (self->ext().getFixture()->getAccessType() != AccessType::READ_WRITE) {
+                self->ext().setDefunct();
+                PyErr_Format(PyExc_RuntimeError, "Unable to update the read-only prefix: %s",
+                    self->ext().getFixture()->getPrefix().getName().c_str());
+                return -1;
+            }
+
             // invoke post-init on associated dbzero object
             auto &object = self->modifyExt();
             db0::FixtureLock fixture(object.getFixture());            
-- 
2.43.0


From f3af48107bebf36e4f7cdc7a1807459f9e843e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 69/83] fix: creating a singleton or the first object of a
 class in a read-only prefix must raise an error

---
 .../object_model/object/ObjectInitializer.cpp    |  3 ---
 .../object_model/object/ObjectInitializer.hpp    | 16 ++++++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/object_model/object/ObjectInitializer.cpp b/src/dbzero/object_model/object/ObjectInitializer.cpp
index 8b7ffaa..85a6bf1 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.cpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.cpp
@@ -34,8 +34,6 @@ namespace db0::object_model
     {
         if (!m_class) {
             assert(m_type_initializer);
-            assert(m_fixture);
-
             if (!m_fixture) {
                 THROWF(db0::InternalException)
                     << "ObjectInitializer: Unable to initialize type because Fixture not set" << THROWF_END;
@@ -215,7 +213,6 @@ namespace db0::object_model
     
     void ObjectInitializerManager::closeAt(std::uint32_t loc)
     {
-        auto result = m_initializers[loc]->getClassPtr();
         m_initializers[loc]->reset();
         // move to inactive slot
         std::swap(m_initializers[loc], m_initializers[m_active_count - 1]);
diff --git a/src/dbzero/object_model/object/ObjectInitializer.hpp b/src/dbzero/object_model/object/ObjectInitializer.hpp
index bf3c2b1..429eb03 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.hpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.hpp
@@ -176,6 +176,11 @@ namespace db0::object_model
         Class &getClass() const;
         
         std::shared_ptr<Class> getClassPtr() const;
+        
+        // @return nullptr if the type has not been resolved yet
+        inline std::shared_ptr<Class> tryGetClassPtr() const {
+            return m_class;
+        }
 
         inline std::pair<std::uint32_t, std::uint32_t> getRefCounts() const {
             return m_ref_counts;
@@ -239,7 +244,8 @@ namespace db0::object_model
     {        
         for (auto i = 0u; i < m_active_count; ++i) {
             if (m_initializers[i]->operator==(object)) {
-                auto result = m_initializers[i]->getClassPtr();
+                // NOTE: the type may not be resolved yet (e.g. not available with a read-only prefix)
+                auto result = m_initializers[i]->tryGetClassPtr();
                 closeAt(i);
                 return result;
             }
@@ -250,11 +256,9 @@ namespace db0::object_model
     template <typename T>
     std::shared_ptr<Class> ObjectInitializerManager::closeInitializer(const T &object)
     {
-        auto result = tryCloseInitializer(object);
-        if (result) {
-            return result;
-        }
-        THROWF(db0::InternalException) << "Initializer not found" << THROWF_END;
+        auto result = getInitializer(object).getClassPtr();
+        tryCloseInitializer(object);
+        return result;
     }
     
     template <typename T>
-- 
2.43.0


From 68e49201919d57344040466d49ca38ca8811c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 70/83] fix: cancelling an atomic block over several prefixes
 must revert objects at equal addresses

---
 src/dbzero/object_model/ObjectBase.hpp | 11 ++---------
 src/dbzero/workspace/AtomicContext.cpp | 15 +++------------
 src/dbzero/workspace/AtomicContext.hpp |  8 +++-----
 3 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index 35d12fc..9d65520 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -282,7 +282,7 @@ namespace db0
             if (fixture) {
                 auto atomic_context_ptr = fixture->tryGetAtomicContext();
                 if (atomic_context_ptr) {
-                    atomic_context_ptr->add(this->getAddress(), ptr);
+                    atomic_context_ptr->add(ptr);
                 }
             }
         }
@@ -299,14 +299,7 @@ namespace db0
         // move instance to a different GC0 (preserving the same wrapper object)
         fixture->getGC0().moveFrom<T>(this->getFixture()->getGC0(), this, new_instance.getAddress());
         new_instance.m_gc_registered = true;
-        auto atomic_ctx_ptr = fixture->tryGetAtomicContext();
-        if (atomic_ctx_ptr) {
-            // move instance to a different atomic context (changing its address)
-            assert(this->getFixture()->tryGetAtomicContext());
-            atomic_ctx_ptr->moveFrom(*this->getFixture()->tryGetAtomicContext(), this->getAddress(),
-                new_instance.getAddress());
-        }
-        
+        // NOTE: the AtomicContext (if any) references the same wrapper object, no need to move it
         this->destroy();
         *this = std::move(new_instance);
     }
diff --git a/src/dbzero/workspace/AtomicContext.cpp b/src/dbzero/workspace/AtomicContext.cpp
index e45ed26..a91ed39 100644
--- a/src/dbzero/workspace/AtomicContext.cpp
+++ b/src/dbzero/workspace/AtomicContext.cpp
@@ -145,19 +145,10 @@ namespace db0
         m_atomic_lock.unlock();
     }
     
-    void AtomicContext::add(Address address, ObjectPtr lang_object)
+    void AtomicContext::add(ObjectPtr lang_object)
     {
-        if (m_objects.find(address) == m_objects.end()) {
-            m_objects.insert({address, lang_object});            
-        }        
-    }
-
-    void AtomicContext::moveFrom(AtomicContext &other, Address src_address, Address dst_address)
-    {
-        auto it = other.m_objects.find(src_address);
-        if (it != other.m_objects.end()) {
-            add(dst_address, it->second.get());
-            other.m_objects.erase(it);
+        if (m_objects.find(lang_object) == m_objects.end()) {
+            m_objects.insert({lang_object, lang_object});
         }
     }
     
diff --git a/src/dbzero/workspace/AtomicContext.hpp b/src/dbzero/workspace/AtomicContext.hpp
index 3e2a443..e1548bc 100644
--- a/src/dbzero/workspace/AtomicContext.hpp
+++ b/src/dbzero/workspace/AtomicContext.hpp
@@ -52,10 +52,7 @@ namespace db0
         AtomicContext(std::shared_ptr<Workspace> &, std::unique_lock<std::mutex> &&);
 
         // Register specific instance with the current transaction (for rollback/detach)
-        void add(Address, ObjectPtr);
-        
-        // Try moving instance from a different AtomicContext
-        void moveFrom(AtomicContext &, Address src_address, Address dst_address);
+        void add(ObjectPtr);
         
         void approve();
         void cancel();
@@ -65,7 +62,8 @@ namespace db0
         
     private:
         std::shared_ptr<Workspace> m_workspace;
-        std::unordered_map<Address, ObjectSharedExtPtr> m_objects;
+        // instances are identified by the language object (addresses are only unique within a single fixture)
+        std::unordered_map<ObjectPtr, ObjectSharedExtPtr> m_objects;
         
         // mutex / lock to prevent mutliple concurrent atomic operations
         // also acquired by the autocommit-thread to prevent auto-commit during atomic operation
-- 
2.43.0


From f2137e41aca653d0a5382b655107d22498b10ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 71/83] fix: clear_cache must not destroy the members of an
 unreferenced object twice

---
 src/dbzero/object_model/LangCache.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dbzero/object_model/LangCache.cpp b/src/dbzero/object_model/LangCache.cpp
index a28a5ba..7cf6c88 100644
--- a/src/dbzero/object_model/LangCache.cpp
+++ b/src/dbzero/object_model/LangCache.cpp
@@ -149,19 +149,22 @@ namespace db0
     
     void LangCache::clear(bool expired_only)
     {
-        std::vector<ObjectSharedExtPtr> to_destroy;
         std::unique_lock<std::shared_mutex> lock(m_mutex);
-        for (auto &item: m_cache) {
+        // NOTE: objects are removed one by one because destroying an unreferenced object releases its members, which
+        // need to be found here if they have instances (otherwise they'd be dropped twice)
+        for (std::size_t i = 0; i < m_cache.size(); ++i) {
+            auto &item = m_cache[i];
             // NOTE: we check for any refernces except from LangCache itself (+1)
             if (item.second.get() && (!expired_only || !LangToolkit::hasAnyLangRefs(item.second.get(), 1))) {
                 m_uid_to_index.erase(item.first);
                 // grab object for destruction outside of the lock
-                to_destroy.push_back(std::move(item.second));
+                ObjectSharedExtPtr to_destroy = std::move(item.second);
                 --m_size;
+                lock.unlock();
+                to_destroy.reset();
+                lock.lock();
             }
-        }        
-        lock.unlock();
-        // destroy outside of the lock
+        }
     }
     
     void LangCache::clearDefunct()
-- 
2.43.0


From 2f242348c1aaa1b01cba6b5a0842899995203a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 72/83] fix: reserved slabs must outlive the slab cache

---
 src/dbzero/core/memory/SlabManager.cpp | 29 +++++++++++---------------
 src/dbzero/core/memory/SlabManager.hpp |  2 +-
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/dbzero/core/memory/SlabManager.cpp b/src/dbzero/core/memory/SlabManager.cpp
index 652cd74..5b7d713 100644
--- a/src/dbzero/core/memory/SlabManager.cpp
+++ b/src/dbzero/core/memory/SlabManager.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) 2025 DBZero Software sp. z o.o.
 
 #include "SlabManager.hpp"
+#include <algorithm>
 
 namespace db0
 
@@ -282,26 +283,19 @@ namespace db0
             THROWF(db0::InputException) << "Slab " << slab_id << " does not exist";
         }
 
-        // look up with the cache first
-        auto it = m_slabs.find(address);
-        if (it != m_slabs.end()) {
-            auto slab_item = it->second.lock();
-            if (slab_item) {
-                return slab_item->m_slab;
-            }
-        }
-
-        // retrieve slab definition
-        auto slab_def_ptr = m_slab_defs.find_equal(slab_id);
-        if (!slab_def_ptr.first) {
+        // pull through cache
+        auto slab_item = tryOpenSlab(address);
+        if (!slab_item) {
             THROWF(db0::InternalException) << "Slab definition not found: " << slab_id;
         }
         
-        // pull through cache
-        auto result = openSlab(*slab_def_ptr.first)->m_slab;
         // and add for non-expiry cache
-        m_reserved_slabs.push_back(result);
-        return result;
+        // NOTE: need to retain the slab item (and not just the slab) so that it can be found by commit / detach and
+        // does not get opened again (as a different instance) after being evicted from the recycler
+        if (std::find(m_reserved_slabs.begin(), m_reserved_slabs.end(), slab_item) == m_reserved_slabs.end()) {
+            m_reserved_slabs.push_back(slab_item);
+        }
+        return slab_item->m_slab;
     }
 
     Address SlabManager::getFirstAddress() const {
@@ -461,7 +455,8 @@ namespace db0
         );
         // add to cache (it's safe to reference item from the unordered_map)
         auto cache_item = std::make_shared<SlabItem>(slab, cap_item);
-        m_slabs.emplace(addr, cache_item);
+        // NOTE: an expired entry may still exist
+        m_slabs[addr] = cache_item;
         
         // append with the recycler
         if (m_recycler_ptr) {
diff --git a/src/dbzero/core/memory/SlabManager.hpp b/src/dbzero/core/memory/SlabManager.hpp
index 4b2653e..b673a0a 100644
--- a/src/dbzero/core/memory/SlabManager.hpp
+++ b/src/dbzero/core/memory/SlabManager.hpp
@@ -147,7 +147,7 @@ namespace db0
         const std::uint32_t m_page_size;
         // slab cache by address
         mutable std::unordered_map<std::uint64_t, std::weak_ptr<SlabItem> > m_slabs;
-        mutable std::vector<std::shared_ptr<SlabAllocator> > m_reserved_slabs;
+        mutable std::vector<std::shared_ptr<SlabItem> > m_reserved_slabs;
         // active slabs for each supported locality (0 or 1)
         mutable ActiveSlab m_active_slab;
         // address by allocation ID (from the algo-allocator)
-- 
2.43.0


From c16bdfd57a6a950c82a8b385450da54386e99c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 73/83] fix: dict pop and clear must not be accepted by a
 read-only prefix

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 9e01ff9..13acc04 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -433,6 +433,7 @@ namespace db0::python
     
     PyObject *tryDictObject_clear(DictObject *dict_obj)
     {
+        db0::FixtureLock lock(dict_obj->ext().getFixture());
         dict_obj->modifyExt().clear();
         Py_RETURN_NONE;
     }
@@ -550,6 +551,7 @@ namespace db0::python
         auto maybe_hash = getPyHashIfExists(fixture, *elem);
         if (maybe_hash) {
             if (dict_object->ext().hasItem(maybe_hash->first, *elem)) {
+                db0::FixtureLock lock(fixture);
                 return dict_object->modifyExt().pop(maybe_hash->first, *elem).steal();
             }
         }
-- 
2.43.0


From 1ab9343f8589e98e8a09f92f3801ed22073e2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 74/83] fix: index add and remove must not be accepted by a
 read-only prefix

---
 src/dbzero/bindings/python/collections/PyIndex.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyIndex.cpp b/src/dbzero/bindings/python/collections/PyIndex.cpp
index 47679d3..c3f63e4 100644
--- a/src/dbzero/bindings/python/collections/PyIndex.cpp
+++ b/src/dbzero/bindings/python/collections/PyIndex.cpp
@@ -103,9 +103,9 @@ namespace db0::python
     
     PyObject *tryIndexObject_add(IndexObject *index_obj, PyObject *const *args, Py_ssize_t nargs)
     {
+        // NOTE: although add() is a buffered operation, it must not be accepted by a read-only prefix
+        FixtureLock lock(index_obj->ext().getFixture());
         index_obj->modifyExt().add(args[0], args[1]);
-        // NOTE: we don't need to lock the fixture here, because add() is a buffered operation
-        index_obj->ext().getFixture()->onUpdated();
         Py_RETURN_NONE;
     }
     
@@ -122,9 +122,9 @@ namespace db0::python
 
     PyObject *tryIndexObject_remove(IndexObject *index_obj, PyObject *const *args, Py_ssize_t nargs)
     {
+        // NOTE: although remove() is a buffered operation, it must not be accepted by a read-only prefix
+        FixtureLock lock(index_obj->ext().getFixture());
         index_obj->modifyExt().remove(args[0], args[1]);
-        // NOTE: we don't need to lock the fixture here, because remove() is a buffered operation
-        index_obj->ext().getFixture()->onUpdated();
         Py_RETURN_NONE;
     }
 
-- 
2.43.0


From e62778c78015a57eaa975d3fa56f770eed9fa59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 75/83] fix: closing a snapshot must not close other snapshot
 objects of the same state

---
 src/dbzero/bindings/python/PySnapshot.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/PySnapshot.cpp b/src/dbzero/bindings/python/PySnapshot.cpp
index 2770ae4..aa2438b 100644
--- a/src/dbzero/bindings/python/PySnapshot.cpp
+++ b/src/dbzero/bindings/python/PySnapshot.cpp
@@ -260,7 +260,14 @@ namespace db0::python
             return NULL;
         }
         
-        reinterpret_cast<PySnapshotObject*>(self)->modifyExt().close();
+        auto &py_snapshot = *reinterpret_cast<PySnapshotObject*>(self);
+        auto snapshot = py_snapshot.getSharedPtr();
+        // the (head) view may be shared with other snapshot objects, in which case only release this one
+        if (snapshot.use_count() > 2) {
+            py_snapshot.reset();
+        } else if (snapshot) {
+            snapshot->close();
+        }
         Py_RETURN_NONE;
     }
     
-- 
2.43.0


From d34b153b252f010c680a04b3142719315fe00a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 76/83] fix: the sorted vector must report its new address when
 it grows while dynamic attributes are added

---
 src/dbzero/core/collections/b_index/mb_index.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index c1fffe4..6cc3b07 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -364,8 +364,10 @@ namespace db0
                     return result;
                 }
             }
+            // NOTE: the underlying collection may be relocated as it grows
+            auto old_addr = getAddress();
             m_interface.insert(item);
-			return result;
+			return result || getAddress() != old_addr;
 		}
 		
 		/**
-- 
2.43.0


From c8d7ee9efe6e91fc79dca59d5d4d69faf0ba060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 77/83] fix: looking up absent dynamic attributes in a sorted
 vector must not dereference null

---
 src/dbzero/core/collections/vector/v_sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/vector/v_sorted_vector.hpp b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
index 9515d0e..2ed7b3c 100644
--- a/src/dbzero/core/collections/vector/v_sorted_vector.hpp
+++ b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
@@ -872,7 +872,7 @@ DB0_PACKED_END
         bool updateExisting(const data_t &data, data_t *old_data = nullptr)
         {
             auto it = (*this)->find(data);
-            if (it == (*this)->end()) {
+            if (!it) {
                 return false;
             }
             
@@ -888,7 +888,7 @@ DB0_PACKED_END
         bool findOne(data_t &data) const
         {
             auto it = (*this)->find(data);
-            if (it == (*this)->end()) {
+            if (!it) {
                 return false;
             }
 
-- 
2.43.0


From 5c2a765730457f8be57ae376c5836f8355ab3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 78/83] fix: a weak reference must expire when its address is
 reused by another object

---
 src/dbzero/bindings/python/MemoExpiredRef.cpp | 23 +++++++++++++++++--
 src/dbzero/bindings/python/PyToolkit.cpp      | 20 +++-------------
 src/dbzero/bindings/python/PyToolkit.hpp      |  7 +-----
 src/dbzero/bindings/python/dbzero.cpp         |  2 ++
 src/dbzero/object_model/ObjectBase.hpp        |  2 +-
 src/dbzero/object_model/value/Member.cpp      | 10 ++++----
 6 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/dbzero/bindings/python/MemoExpiredRef.cpp b/src/dbzero/bindings/python/MemoExpiredRef.cpp
index c9d0360..9ec3bcb 100644
--- a/src/dbzero/bindings/python/MemoExpiredRef.cpp
+++ b/src/dbzero/bindings/python/MemoExpiredRef.cpp
@@ -41,15 +41,34 @@ namespace db0::python
         return nullptr;
     }
     
+    PyObject *PyAPI_MemoExpiredRef_richcompare(PyObject *self, PyObject *other, int op)
+    {
+        if ((op != Py_EQ && op != Py_NE) || !MemoExpiredRef_Check(other)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
+        auto &lhs = *reinterpret_cast<MemoExpiredRef*>(self);
+        auto &rhs = *reinterpret_cast<MemoExpiredRef*>(other);
+        bool eq = lhs.getFixtureUUID() == rhs.getFixtureUUID() && lhs.getUniqueAddress() == rhs.getUniqueAddress();
+        return PyBool_FromLong(eq == (op == Py_EQ));
+    }
+    
+    Py_hash_t PyAPI_MemoExpiredRef_hash(PyObject *self)
+    {
+        auto result = static_cast<Py_hash_t>(reinterpret_cast<MemoExpiredRef*>(self)->getAddress().getOffset());
+        return result == -1 ? -2 : result;
+    }
+    
     PyTypeObject MemoExpiredRefType = 
     {
         PYVAROBJECT_HEAD_INIT_DESIGNATED,
         .tp_name = "MemoExpiredRef",
         .tp_basicsize = sizeof(MemoExpiredRef),
-        .tp_itemsize = 0,    
+        .tp_itemsize = 0,
+        .tp_hash = PyAPI_MemoExpiredRef_hash,
         .tp_getattro = reinterpret_cast<getattrofunc>(PyAPI_MemoExpiredRef_getattro),
         .tp_setattro = reinterpret_cast<setattrofunc>(PyAPI_MemoEpxiredRef_setattro),
         .tp_flags = Py_TPFLAGS_DEFAULT,
+        .tp_richcompare = PyAPI_MemoExpiredRef_richcompare,
         .tp_new = PyType_GenericNew,
     };
 
@@ -65,7 +84,7 @@ namespace db0::python
         }
         
         py_expired_ref->init(fixture_uuid, address);        
-        return reinterpret_cast<PyObject*>(py_expired_ref);
+        return Py_OWN(reinterpret_cast<PyObject*>(py_expired_ref));
     }
     
 }
diff --git a/src/dbzero/bindings/python/PyToolkit.cpp b/src/dbzero/bindings/python/PyToolkit.cpp
index 3d341d2..9714102 100644
--- a/src/dbzero/bindings/python/PyToolkit.cpp
+++ b/src/dbzero/bindings/python/PyToolkit.cpp
@@ -367,24 +367,10 @@ namespace db0::python
         return obj_ptr;
     }
     
-    PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &fixture, Address addr,
-        std::uint64_t obj_fixture_uuid, UniqueAddress obj_address)
+    PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(std::uint64_t obj_fixture_uuid, UniqueAddress obj_address)
     {
-        // try unloading from cache first
-        auto &lang_cache = fixture->getLangCache();
-        auto obj_ptr = tryUnloadObjectFromCache(lang_cache, addr);
-        
-        if (obj_ptr.get()) {
-            return obj_ptr;
-        }
-        
-        obj_ptr = MemoExpiredRef_new(obj_fixture_uuid, obj_address);
-        lang_cache.add(addr, obj_ptr.get());
-        return obj_ptr;
-    }
-    
-    PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &fixture, const LongWeakRef &weak_ref) {
-        return unloadExpiredRef(fixture, weak_ref.getAddress(), weak_ref->m_fixture_uuid, weak_ref->m_address);
+        // NOTE: must not be cached, the address of the expired object may get reused
+        return MemoExpiredRef_new(obj_fixture_uuid, obj_address);
     }
     
     PyToolkit::ObjectSharedPtr PyToolkit::unloadList(db0::swine_ptr<Fixture> fixture, Address address, 
diff --git a/src/dbzero/bindings/python/PyToolkit.hpp b/src/dbzero/bindings/python/PyToolkit.hpp
index 6b918e1..1a88033 100644
--- a/src/dbzero/bindings/python/PyToolkit.hpp
+++ b/src/dbzero/bindings/python/PyToolkit.hpp
@@ -109,16 +109,11 @@ namespace db0::python
         
         static bool isExistingObject(db0::swine_ptr<Fixture> &, Address, std::uint16_t instance_id = 0);
         
-        static ObjectSharedPtr unloadExpiredRef(db0::swine_ptr<Fixture> &, const LongWeakRef &);
-        
         /**
-         * @param fixture prefix to unload from
-         * @param addr the weak ref object's address (for cache)
          * @param obj_fixture_uuid the fixture UUID of the referenced object
          * @param obj_address the address of the referenced object
          */
-        static ObjectSharedPtr unloadExpiredRef(db0::swine_ptr<Fixture> &, Address addr, std::uint64_t obj_fixture_uuid,
-            UniqueAddress obj_address);
+        static ObjectSharedPtr unloadExpiredRef(std::uint64_t obj_fixture_uuid, UniqueAddress obj_address);
         
         // Unload with known type & lang class (hints)
         // note that lang_class may be a base of the actual type (e.g. MemoBase)
diff --git a/src/dbzero/bindings/python/dbzero.cpp b/src/dbzero/bindings/python/dbzero.cpp
index 3606e68..4a21e67 100644
--- a/src/dbzero/bindings/python/dbzero.cpp
+++ b/src/dbzero/bindings/python/dbzero.cpp
@@ -12,6 +12,7 @@
 #include "PyAtomic.hpp"
 #include "PyLocked.hpp"
 #include "PyWeakProxy.hpp"
+#include "MemoExpiredRef.hpp"
 #include <dbzero/bindings/python/types/PyObjectId.hpp>
 #include <dbzero/bindings/python/collections/PyList.hpp>
 #include <dbzero/bindings/python/collections/PyByteArray.hpp>
@@ -214,6 +215,7 @@ PyMODINIT_FUNC PyInit_dbzero(void)
         &py::PyTagType,
         &py::PyLockedType,
         &py::PyWeakProxyType,
+        &py::MemoExpiredRefType,
     };
     
     // register all types
diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index 9d65520..fb1a9a2 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -186,7 +186,7 @@ namespace db0
             if (instance_id || check_has_refs) {
                 // NOTE: here we use trusted size_of retrieved from the allocator
                 auto stem = BaseT(db0::tag_verified(), fixture->myPtr(address), size_of);
-                if (instance_id && stem->m_header.m_instance_id == instance_id) {
+                if (instance_id && stem->m_header.m_instance_id != instance_id) {
                     return false;
                 }
                 if (check_has_refs && !stem->hasRefs()) {
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index fc38c07..8b10986 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -617,12 +617,12 @@ namespace db0::object_model
         db0::swine_ptr<Fixture> &fixture, Value value, unsigned int, AccessFlags)
     {
         auto address = value.asUniqueAddress();
-        // NOTE: instance_id not validated since it's a trusted reference
-        if (PyToolkit::isExistingObject(fixture, address.getAddress())) {
+        // NOTE: instance_id must be validated since the address may already be occupied by another object
+        if (PyToolkit::isExistingObject(fixture, address.getAddress(), address.getInstanceId())) {
             return PyToolkit::unloadObject(fixture, address);
         } else {
             // NOTE: expired objects are unloaded as MemoExpiredRef (placeholders)
-            return PyToolkit::unloadExpiredRef(fixture, address.getAddress(), fixture->getUUID(), address);
+            return PyToolkit::unloadExpiredRef(fixture->getUUID(), address);
         }
     }
     
@@ -633,12 +633,12 @@ namespace db0::object_model
         LongWeakRef weak_ref(fixture, value.asAddress());
         auto other_fixture = fixture->getWorkspace().getFixture(weak_ref->m_fixture_uuid);
         auto address = weak_ref->m_address;
-        if (PyToolkit::isExistingObject(other_fixture, address.getAddress())) {
+        if (PyToolkit::isExistingObject(other_fixture, address.getAddress(), address.getInstanceId())) {
             // unload object from a foreign prefix
             return PyToolkit::unloadObject(other_fixture, address);
         } else {
             // NOTE: expired objects are unloaded as MemoExpiredRef (placeholders)
-            return PyToolkit::unloadExpiredRef(fixture, weak_ref);
+            return PyToolkit::unloadExpiredRef(weak_ref->m_fixture_uuid, address);
         }
     }
     
-- 
2.43.0


From 076af4555233a67d3c5ed6737a7cf9b51720fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 79/83] fix: weak_proxy must reject anything but memo objects

---
 src/dbzero/bindings/python/PyWeakProxy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/PyWeakProxy.cpp b/src/dbzero/bindings/python/PyWeakProxy.cpp
index 993de33..cc9b42b 100644
--- a/src/dbzero/bindings/python/PyWeakProxy.cpp
+++ b/src/dbzero/bindings/python/PyWeakProxy.cpp
@@ -42,7 +42,10 @@ namespace db0::python
     
     PyObject *tryWeakProxy(PyObject *py_obj)
     {
-        assert(PyAnyMemo_Check(py_obj));
+        if (!PyAnyMemo_Check(py_obj)) {
+            PyErr_SetString(PyExc_TypeError, "weak_proxy requires a memo object");
+            return nullptr;
+        }
         auto py_weak_proxy = PyObject_New(PyWeakProxy, &PyWeakProxyType);
 
         if (!py_weak_proxy) {
-- 
2.43.0


From affeb4adf784eae64bb72ceb6c59f9ebcc5d9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 80/83] fix: an index must reject weak proxies instead of
 failing to commit

---
 src/dbzero/object_model/index/Index.cpp | 16 ++++++++++++----
 src/dbzero/object_model/index/Index.hpp |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/index/Index.cpp b/src/dbzero/object_model/index/Index.cpp
index 26f89b6..6d60a0d 100644
--- a/src/dbzero/object_model/index/Index.cpp
+++ b/src/dbzero/object_model/index/Index.cpp
@@ -295,6 +295,14 @@ namespace db0::object_model
         }
     }
 
+    void Index::validateMemoObject(ObjectPtr obj_ptr)
+    {
+        // NOTE: weak proxies must be rejected here, they could only fail when the updates are flushed
+        if (!LangToolkit::isAnyMemoObject(obj_ptr)) {
+            THROWF(db0::InputException) << "Expected a memo object" << THROWF_END;
+        }
+    }
+    
     void Index::add(ObjectPtr key, ObjectPtr value)
     {        
         assert(hasInstance());
@@ -306,7 +314,7 @@ namespace db0::object_model
         }
 
         // NOTE: arguments need to be validated before updating the builder's data type or the dirty state
-        type_manager.extractAnyObject(value);
+        validateMemoObject(value);
         m_builder.refreshType();
         auto data_type = m_builder.getDataType();
         if (data_type == IndexDataType::Auto) {
@@ -348,7 +356,7 @@ namespace db0::object_model
         }
 
         // NOTE: arguments need to be validated before updating the builder's data type or the dirty state
-        type_manager.extractAnyObject(value);
+        validateMemoObject(value);
         m_builder.refreshType();
         auto data_type = m_builder.getDataType();
         if (data_type == IndexDataType::Auto) {
@@ -486,7 +494,7 @@ namespace db0::object_model
     void Index::addNull(ObjectPtr obj_ptr)
     {
         assert(hasInstance());
-        LangToolkit::getTypeManager().extractAnyObject(obj_ptr);
+        validateMemoObject(obj_ptr);
         m_builder.refreshType();
         // subscribe for flush operation
         if (!isDirty()) {
@@ -553,7 +561,7 @@ namespace db0::object_model
 
     void Index::removeNull(ObjectPtr obj_ptr)
     {
-        LangToolkit::getTypeManager().extractAnyObject(obj_ptr);
+        validateMemoObject(obj_ptr);
         m_builder.refreshType();
         if (!isDirty()) {
             setDirty(true);
diff --git a/src/dbzero/object_model/index/Index.hpp b/src/dbzero/object_model/index/Index.hpp
index 63214c7..67cee9f 100644
--- a/src/dbzero/object_model/index/Index.hpp
+++ b/src/dbzero/object_model/index/Index.hpp
@@ -299,6 +299,7 @@ namespace db0::object_model
             }
         }
 
+        static void validateMemoObject(ObjectPtr);
         // adds to with a null key, compatible with all types
         void addNull(ObjectPtr);
         void removeNull(ObjectPtr);
-- 
2.43.0


From 88ce153d9ba309f04cb68ca1f72e6b5970129b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:16 +0000
Subject: [PATCH 81/83] fix: a locked section must report the latest state
 number of a prefix closed twice inside it

---
 src/dbzero/workspace/Workspace.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 651a30f..3d5c42f 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -647,10 +647,11 @@ namespace db0
         // also report prefixes closed inside the locked section
         auto it = m_locked_section_log.find(locked_section_id);
         if (it != m_locked_section_log.end()) {
-            for (auto &[prefix_name, state_num] : it->second) {
+            // NOTE: a prefix may get closed several times, the most recent state number is reported
+            for (auto log_it = it->second.rbegin(); log_it != it->second.rend(); ++log_it) {
                 // avoid reporting more than once
-                if (px_names.insert(prefix_name).second) {
-                    callback(prefix_name, state_num);
+                if (px_names.insert(log_it->first).second) {
+                    callback(log_it->first, log_it->second);
                 }
             }
             m_locked_section_log.erase(it);
-- 
2.43.0


From 4d51b9bc09b015ab0939dd58bf46229ce0fdbd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:47 +0000
Subject: [PATCH 82/83] fix: nested locked sections and locked sections inside
 atomic operations must not deadlock with auto-commit

---
 src/dbzero/bindings/python/PyLocked.cpp | 29 +++++++++++++++----------
 src/dbzero/workspace/AtomicContext.cpp  | 14 ++++++++++++
 src/dbzero/workspace/AtomicContext.hpp  |  8 +++++++
 src/dbzero/workspace/FixtureThreads.cpp |  9 ++++----
 src/dbzero/workspace/LockedContext.cpp  | 20 +++++++++++++++--
 src/dbzero/workspace/LockedContext.hpp  | 14 +++++++++++-
 6 files changed, 75 insertions(+), 19 deletions(-)

diff --git a/src/dbzero/bindings/python/PyLocked.cpp b/src/dbzero/bindings/python/PyLocked.cpp
index f929217..26ba0de 100644
--- a/src/dbzero/bindings/python/PyLocked.cpp
+++ b/src/dbzero/bindings/python/PyLocked.cpp
@@ -6,6 +6,7 @@
 #include "PyInternalAPI.hpp"
 #include "PySafeAPI.hpp"
 #include <dbzero/workspace/FixtureThreads.hpp>
+#include <dbzero/workspace/AtomicContext.hpp>
 #include <dbzero/bindings/python/PySafeAPI.hpp>
 
 namespace db0::python
@@ -48,14 +49,8 @@ namespace db0::python
         .tp_free = PyObject_Free,
     };
     
-    PyLocked *PyAPI_tryBeginLocked(PyObject *self)
+    PyLocked *PyAPI_tryBeginLocked(PyObject *self, std::shared_lock<std::shared_mutex> &&shared_lock)
     {   
-        // NOTE: lock order is important here (API, GIL order is provided by PY_API_FUNC macro)
-        // 1. locked_mutex (shared)
-        // 2. API
-        // 3. GIL
-        auto shared_lock = db0::LockedContext::lockShared();
-
         PY_API_FUNC
         auto workspace_ptr = PyToolkit::getPyWorkspace().getWorkspaceSharedPtr();
         auto py_object = Py_OWN(PyLocked_new(&PyLockedType, NULL, NULL));
@@ -71,15 +66,25 @@ namespace db0::python
             return NULL;
         }
         
-        // this (temporary) lock is to prevent auto-commit starvation which might
-        // happen in a heavy load situation when locked sections are created indefinitely
-        // owning the LockedCoontext's shared mutex
+        // NOTE: lock order is important here (API, GIL order is provided by PY_API_FUNC macro)
+        // 1. locked_mutex (shared)
+        // 2. API
+        // 3. GIL
+        std::shared_lock<std::shared_mutex> shared_lock;
         {
+            // this is to prevent GIL-related deadlocks
             WithGIL_Unlocked no_gil;
-            db0::AutoCommitThread::preventAutoCommit();
+            // this (temporary) lock is to prevent auto-commit starvation which might
+            // happen in a heavy load situation when locked sections are created indefinitely
+            // owning the LockedCoontext's shared mutex
+            // NOTE: auto-commit may be waiting for this very thread to complete its locked section or atomic operation
+            if (!db0::LockedContext::isInsideThread() && !db0::AtomicContext::isInsideThread()) {
+                db0::AutoCommitThread::preventAutoCommit();
+            }
+            shared_lock = db0::LockedContext::lockShared();
         }
 
-        return runSafe(PyAPI_tryBeginLocked, self);
+        return runSafe(PyAPI_tryBeginLocked, self, std::move(shared_lock));
     }
     
     bool PyLocked_Check(PyObject *object) {
diff --git a/src/dbzero/workspace/AtomicContext.cpp b/src/dbzero/workspace/AtomicContext.cpp
index a91ed39..6e1f5c1 100644
--- a/src/dbzero/workspace/AtomicContext.cpp
+++ b/src/dbzero/workspace/AtomicContext.cpp
@@ -17,6 +17,7 @@ namespace db0
 {
     
     std::mutex AtomicContext::m_atomic_mutex;
+    std::atomic<std::thread::id> AtomicContext::m_atomic_thread_id;
 
     // NOTE: since objects might've been destroyed inside atomic operation, we need to check before detaching
     template <typename T> void detachExisting(const T &obj)
@@ -87,6 +88,7 @@ namespace db0
         , m_atomic_lock(std::move(lock))
     {
         assert(isActive());
+        m_atomic_thread_id = std::this_thread::get_id();
         m_workspace->preAtomic();
         m_workspace->beginAtomic(this);
     }
@@ -106,10 +108,12 @@ namespace db0
             m_workspace->cancelAtomic();
             m_objects.clear();
         } catch (...) {
+            m_atomic_thread_id = std::thread::id();
             m_atomic_lock.unlock();
             throw;
         }
         // unlock the atomic mutex
+        m_atomic_thread_id = std::thread::id();
         m_atomic_lock.unlock();
     }
     
@@ -138,10 +142,12 @@ namespace db0
             m_workspace->endAtomic();
             m_objects.clear();
         } catch (...) {
+            m_atomic_thread_id = std::thread::id();
             m_atomic_lock.unlock();
             throw;
         }
         // unlock the atomic mutext
+        m_atomic_thread_id = std::thread::id();
         m_atomic_lock.unlock();
     }
     
@@ -155,6 +161,14 @@ namespace db0
     std::unique_lock<std::mutex> AtomicContext::lock() {
         return std::unique_lock<std::mutex>(m_atomic_mutex);
     }
+
+    std::unique_lock<std::mutex> AtomicContext::deferLock() {
+        return std::unique_lock<std::mutex>(m_atomic_mutex, std::defer_lock);
+    }
+
+    bool AtomicContext::isInsideThread() {
+        return m_atomic_thread_id.load() == std::this_thread::get_id();
+    }
     
     bool AtomicContext::isActive() const {
         return m_atomic_lock.owns_lock();
diff --git a/src/dbzero/workspace/AtomicContext.hpp b/src/dbzero/workspace/AtomicContext.hpp
index e1548bc..2ea1372 100644
--- a/src/dbzero/workspace/AtomicContext.hpp
+++ b/src/dbzero/workspace/AtomicContext.hpp
@@ -3,6 +3,8 @@
 
 #pragma once
 
+#include <atomic>
+#include <thread>
 #include <memory>
 #include <dbzero/object_model/LangConfig.hpp>
 #include <unordered_set>
@@ -59,6 +61,10 @@ namespace db0
         void close();
         
         static std::unique_lock<std::mutex> lock();
+        // NOTE: the lock is not acquired yet (must be taken together with the locked-sections' lock)
+        static std::unique_lock<std::mutex> deferLock();
+        // Check if the current thread is inside an atomic operation
+        static bool isInsideThread();
         
     private:
         std::shared_ptr<Workspace> m_workspace;
@@ -69,6 +75,8 @@ namespace db0
         // also acquired by the autocommit-thread to prevent auto-commit during atomic operation
         static std::mutex m_atomic_mutex;
         std::unique_lock<std::mutex> m_atomic_lock;
+        // the thread which started the active atomic operation
+        static std::atomic<std::thread::id> m_atomic_thread_id;
 
         bool isActive() const;
     };
diff --git a/src/dbzero/workspace/FixtureThreads.cpp b/src/dbzero/workspace/FixtureThreads.cpp
index c5aba1b..0acc0c7 100644
--- a/src/dbzero/workspace/FixtureThreads.cpp
+++ b/src/dbzero/workspace/FixtureThreads.cpp
@@ -224,10 +224,11 @@ namespace db0
     {
         assert(!m_context && "Only one AutoSaveContext should exist at the time!");
         auto commit_lock = std::unique_lock<std::mutex>(m_commit_mutex);
-        // must acquire unique lock-context's lock
-        auto locked_context_lock = db0::LockedContext::lockUnique();
-        // and the atomic lock next (order is relevant here !!)
-        auto atomic_lock = db0::AtomicContext::lock();
+        // must acquire unique lock-context's lock and the atomic lock
+        // NOTE: neither may be held while waiting for the other (a locked section may be opened from an atomic operation)
+        auto locked_context_lock = db0::LockedContext::deferUnique();
+        auto atomic_lock = db0::AtomicContext::deferLock();
+        std::lock(locked_context_lock, atomic_lock);
         // To collect callbacks from fixtures as we proceed with commiting
         m_context = std::make_shared<AutoSaveContext>(std::move(commit_lock),
             std::move(locked_context_lock), std::move(atomic_lock)
diff --git a/src/dbzero/workspace/LockedContext.cpp b/src/dbzero/workspace/LockedContext.cpp
index 092e7f1..b0cb3f7 100644
--- a/src/dbzero/workspace/LockedContext.cpp
+++ b/src/dbzero/workspace/LockedContext.cpp
@@ -9,12 +9,17 @@ namespace db0
 {
 
     std::shared_mutex LockedContext::m_locked_mutex;
+    std::mutex LockedContext::m_threads_mutex;
+    std::unordered_map<std::thread::id, unsigned int> LockedContext::m_threads;
     
     LockedContext::LockedContext(std::shared_ptr<Workspace> &workspace, std::shared_lock<std::shared_mutex> &&lock)
         : m_workspace(workspace)
         , m_locked_section_id(m_workspace->beginLocked())
         , m_lock(std::move(lock))
+        , m_thread_id(std::this_thread::get_id())
     {
+        std::lock_guard<std::mutex> threads_lock(m_threads_mutex);
+        ++m_threads[m_thread_id];
     }
     
     void LockedContext::close()
@@ -24,14 +29,25 @@ namespace db0
         };
         m_workspace->endLocked(m_locked_section_id, callback);
         m_lock.unlock();
+        std::lock_guard<std::mutex> threads_lock(m_threads_mutex);
+        auto it = m_threads.find(m_thread_id);
+        if (it != m_threads.end() && --(it->second) == 0) {
+            m_threads.erase(it);
+        }
     }
     
     std::shared_lock<std::shared_mutex> LockedContext::lockShared() {
         return std::shared_lock<std::shared_mutex>(m_locked_mutex);
     }
 
-    std::unique_lock<std::shared_mutex> LockedContext::lockUnique() {
-        return std::unique_lock<std::shared_mutex>(m_locked_mutex);
+    std::unique_lock<std::shared_mutex> LockedContext::deferUnique() {
+        return std::unique_lock<std::shared_mutex>(m_locked_mutex, std::defer_lock);
+    }
+
+    bool LockedContext::isInsideThread()
+    {
+        std::lock_guard<std::mutex> threads_lock(m_threads_mutex);
+        return m_threads.find(std::this_thread::get_id()) != m_threads.end();
     }
     
     std::vector<std::pair<std::string, std::uint64_t> > LockedContext::getMutationLog() const {
diff --git a/src/dbzero/workspace/LockedContext.hpp b/src/dbzero/workspace/LockedContext.hpp
index 0e91901..b7feeb5 100644
--- a/src/dbzero/workspace/LockedContext.hpp
+++ b/src/dbzero/workspace/LockedContext.hpp
@@ -7,6 +7,9 @@
 #include <dbzero/object_model/LangConfig.hpp>
 #include <vector>
 #include <shared_mutex>
+#include <mutex>
+#include <thread>
+#include <unordered_map>
 
 namespace db0
 
@@ -31,7 +34,10 @@ namespace db0
         void close();
                     
         static std::shared_lock<std::shared_mutex> lockShared();
-        static std::unique_lock<std::shared_mutex> lockUnique();
+        // NOTE: the lock is not acquired yet (must be taken together with the atomic lock)
+        static std::unique_lock<std::shared_mutex> deferUnique();
+        // Check if the current thread is inside any locked section
+        static bool isInsideThread();
 
     private:
         std::shared_ptr<Workspace> m_workspace;
@@ -42,6 +48,12 @@ namespace db0
         // mutex to prevent auto-commit operations from locked context
         static std::shared_mutex m_locked_mutex;
         std::shared_lock<std::shared_mutex> m_lock;
+        // the thread this locked section was opened by
+        const std::thread::id m_thread_id;
+        
+        // the number of active locked sections by thread
+        static std::mutex m_threads_mutex;
+        static std::unordered_map<std::thread::id, unsigned int> m_threads;
     };
 
 }
\ No newline at end of file
-- 
2.43.0


From 30b014c39c8c6727f6c4ba7b33ab8927cda4cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:51 +0000
Subject: [PATCH 83/83] fix: a locked section must not report changes made
 before it began

---
 src/dbzero/workspace/Workspace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 3d5c42f..e8f3bcf 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -263,7 +263,10 @@ namespace db0
                 auto &fixture = *(it->second);
                 std::unordered_set<unsigned int> callback_log;
                 fixture.endAllLocked([&](unsigned int locked_section_id) {
-                    if (callback_log.find(locked_section_id) == callback_log.end()) {
+                    // NOTE: sections already completed may be found here if the prefix was opened after their completion
+                    if (m_locked_section_ids.find(locked_section_id) != m_locked_section_ids.end()
+                        && callback_log.find(locked_section_id) == callback_log.end())
+                    {
                         // log prefixes closed inside the locked section
                         m_locked_section_log[locked_section_id].emplace_back(fixture.getPrefix().getName(), fixture.getStateNum());
                         callback_log.insert(locked_section_id);
-- 
2.43.0

