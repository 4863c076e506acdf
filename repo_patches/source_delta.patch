From c31b05fc33b3ebb80673d8c80e0d4cdba9a1e992 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 01/81] fix: DynMem: releasing parts out of order must not hand
 out memory of a live part

---
 anifem++/fem/fem_memory.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..10c7e63 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::size_t next_part = 0; //id of the next memory part, it exceeds ids of all the parts in use
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +486,7 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->next_part++;
             chunk->nparts++;
             return res;
         }
@@ -509,10 +510,12 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
+            if (chunk.next_part == part_id + 1){ // only the top part may give its memory back
                 chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
+                chunk.next_part--;
+            }
             if (chunk.nparts == 0)
-                chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.rbusy = chunk.ibusy = chunk.mbusy = chunk.next_part = 0;
         }
     public:    
     //protected:
-- 
2.43.0


From a2e21c3e87e6de7cdabaef875a81f835d6d218ec Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 02/81] fix: DynMemParallel::get: take the lock, the pool table
 may be reallocated by a concurrent alloc

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..24a3be7 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){ 
+        std::lock_guard<MutexType> lock(m_mutex); // other threads may be extending m_mem
+        return m_mem[mem_id].get(); 
+    }
 
 
 protected:
-- 
2.43.0


From 1f0b86790cd247b8d18429591196ae813873ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 03/81] fix: ParallelFor<STD>: the loop did not compile and
 dropped the loop body when starting threads

---
 anifem++/fem/mutex_type.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..12e83ab 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -7,6 +7,10 @@
 
 #include <thread>
 #include <mutex>
+#include <vector>
+#include <algorithm>
+#include <functional>
+#include <cassert>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -120,12 +124,12 @@ namespace ThreadPar{
             unsigned batch_remainder = niters % nthreads;
 
             std::vector< std::thread > work_threads(nthreads - 1);
+            auto work = [&](int thread_num, RandAccIterator st, RandAccIterator fin){ perform_for_on_thread(thread_num, f, st, fin, args...); };
             for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
+                work_threads[i] = std::thread(work, i+1,
                                 beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
-            perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
+                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder));
+            work(0, beg + batch_size*(nthreads - 1) + batch_remainder, end);
             std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
         }
     };
-- 
2.43.0


From 1990df77b93a89f4435b9f54b7e637eeeaca7755 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 04/81] fix: interval iterators: >= compared with <, -= moved
 forward, --end() used an unset pointer

---
 anifem++/interval/ext_array_enum.h | 8 ++++----
 anifem++/interval/interval_enum.h  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..907aa04 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
@@ -113,7 +113,7 @@ public:
     bool contains(const std::array<UInt, N+1>& i) const;
     std::size_t count(const std::array<UInt, N+1>& i) const { return contains(i) ? 1 : 0; }
     iterator begin(GInt i = 0) const;
-    iterator end() const{ iterator x; x.id.first = m_size; return x; }
+    iterator end() const{ iterator x; x.ptr = this; x.id.first = m_size; return x; }
     iterator find(GInt i) const { return i < size() ? begin(i) : end(); }
     iterator find(const std::array<UInt, N+1>& i) const { return contains(i) ? begin(this->operator[](i)) : end(); }
     /// Returns an iterator to the first element not less than the given key
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..1e78ebf 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -74,7 +74,7 @@ struct interval_external_memory{
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-- 
2.43.0


From 137eb3c9dc90ce811207a1d471e772b3b23b70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 05/81] fix: ext_range_array_enum: lower_bound read past the
 base set, empty base sets and empty ranges broke the enumeration

---
 anifem++/interval/ext_array_enum.h   |  6 ++++--
 anifem++/interval/ext_array_enum.inl | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 907aa04..cf2fac9 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -42,7 +42,9 @@ struct arr_range_func{
 template<unsigned N = 4, typename RangeFunc = vec_range_func<std::size_t, std::size_t>, typename UInt = std::size_t, typename GInt = std::size_t>
 class ext_range_array_enum{
 public:
-    /// Enumerator of initial array set
+    /// Initial array set
+    std::vector<std::array<UInt, N>> m_base;
+    /// Enumerator of arrays from initial array set with non-empty range, it is filled by setup()
     std::vector<std::array<UInt, N>> m_ord;
     /// Inserted rangable value
     RangeFunc m_range_func;
@@ -125,7 +127,7 @@ public:
     ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
     void debug_print_state(std::ostream& out = std::cout) const;
-    void clear() { m_ord.clear(); insert_pos = 0, depends_on = 0; m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear(); m_size = 0; }
+    void clear() { m_base.clear(); m_ord.clear(); insert_pos = 0, depends_on = 0; m_r.clear(); m_w.clear(); m_p.clear(); m_q.clear(); m_qr.clear(); m_qrb.clear(); m_size = 0; }
 private:
     void _setBaseSet(std::vector<std::array<UInt, N>> from_set);
     GInt rg_size(UInt v) const { return m_range_func(v); }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..5c6455b 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -11,6 +11,16 @@ namespace Ani{
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
 ext_range_array_enum<N, RangeFunc, UInt, GInt>& ext_range_array_enum<N, RangeFunc, UInt, GInt>::setup() {
+    // only arrays with non-empty range produce elements
+    m_ord.clear();
+    for (const auto& a: m_base)
+        if (rg_size(a[depends_on]) > 0)
+            m_ord.push_back(a);
+    if (m_ord.empty()){
+        m_r.clear(), m_w.clear(), m_p.clear(), m_q.clear(), m_qr.clear(), m_qrb.clear();
+        m_size = 0;
+        return *this;
+    }
     auto make_check = [](UInt t){
         return [t](const std::array<UInt, N>& a, const std::array<UInt, N>& b){
             for (unsigned i = 0; i < t; ++i)
@@ -717,7 +727,7 @@ template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
 void ext_range_array_enum<N, RangeFunc, UInt, GInt>::_setBaseSet(std::vector<std::array<UInt, N>> from_set){
     std::sort(from_set.begin(), from_set.end(), [](const auto& a, const auto& b){ return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); });
     from_set.erase( std::unique( from_set.begin(), from_set.end() ), from_set.end() );
-    m_ord = std::move(from_set);  
+    m_base = std::move(from_set);  
 }
 
 template<unsigned N, typename RangeFunc, typename UInt, typename GInt>
@@ -749,6 +759,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
     auto beta = [&id = res, n = insert_pos]() -> UInt& { return id[n]; };
     auto alpha = [&id = res, n = insert_pos](UInt k) -> UInt& { return id[k + (k >= n ? 1 : 0)]; };
     UInt n = insert_pos, m = depends_on;
+    if (m_ord.empty()) return end();
     std::array<UInt, N> id;
     std::copy(i.data(), i.data() + insert_pos, id.data());
     std::copy(i.data() + insert_pos+1, i.data() + i.size(), id.data()+insert_pos);
@@ -828,7 +839,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
             if (beta() >= rg_size(it->first[m])) continue;
             if (!compare_arr(it->first, jd)){
                 auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
+                if(kt != m_ord.end() && check_ed(*kt, it->first)){
                     for (unsigned k = 0; k < N; ++k)
                         alpha(k) = (*kt)[k];
                     return begin(this->operator[](res));    
-- 
2.43.0


From 052b7c5c5b857f7d8c6f58e80752637712752c38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:55:49 +0000
Subject: [PATCH 06/81] fix: ext_array_enum: contains() ignored the queried
 tuple, iterators at the end read outside the container, clear() did not
 compile

---
 anifem++/interval/ext_array_enum.h   |  2 +-
 anifem++/interval/ext_array_enum.inl | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index cf2fac9..e3576a0 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -207,7 +207,7 @@ public:
     GInt operator[](const std::array<UInt, N+1>& i) const;
     // ///Reverse mapping
     std::array<UInt, N+1> operator[](GInt i) const;
-    void clear() { m_arr_enum.clear(); m_int_enum.clear(); }
+    void clear() { m_arr_enum.clear(); for (auto& e: m_int_enum) e.clear(); }
 };
 
 }
diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 5c6455b..e8db490 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -883,13 +883,15 @@ template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, ty
 typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator& ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator::operator --(){
     auto n = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
-    auto x = (it2 != ptr->m_arr_enum.end()) ? it2->second[m] : UInt(-1);
+    bool was_end = !(it2 != ptr->m_arr_enum.end());
+    auto x = !was_end ? it2->second[m] : UInt(-1);
     --it2;
     auto v2 = *it2;
-    auto v1 = *it1;
-    if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(v1.first))
+    if (was_end)
+        it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
+    else if (v2.second[m] == x && v2.second[n] + 1 == static_cast<UInt>(it1->first))
         --it1;
-    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(v1.first))
+    else if (v2.second[m] != x || v2.second[n] != static_cast<UInt>(it1->first))
         it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[n]);
     val = std::move(v2);
     val.second[n] = it1->second;
@@ -900,6 +902,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 += n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -911,6 +915,8 @@ typename ext_array_enum<N, NV, T1, T2, T3, T4>::iterator& ext_array_enum<N, NV,
     auto l = ptr->m_arr_enum.insert_pos;
     auto m = ptr->m_arr_enum.depends_on + ((ptr->m_arr_enum.insert_pos <= ptr->m_arr_enum.depends_on) ? 1 : 0);
     it2 -= n;
+    if (it2 == ptr->m_arr_enum.end())
+        return *this;
     auto v2 = *it2;
     it1 = ptr->m_int_enum[v2.second[m]].find_left(v2.second[l]);
     val = std::move(v2);
@@ -925,13 +931,13 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
 template <unsigned N, unsigned NV, typename T1, typename UInt, typename GInt, typename T4>
 typename ext_array_enum<N, NV, T1, UInt, GInt, T4>::iterator ext_array_enum<N, NV, T1, UInt, GInt, T4>::begin(GInt i) const {
-    if (empty()) return end();
+    if (i >= size()) return end();
     auto n = m_arr_enum.insert_pos;
     auto m = m_arr_enum.depends_on + ((m_arr_enum.insert_pos <= m_arr_enum.depends_on) ? 1 : 0);
 
-- 
2.43.0


From 73181013865c2de45c3a543d89e9c4f5f41ed307 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 07/81] fix: interval_map: infinite borders were compared as
 ordinary keys, bounds did not compile, multi-character delimiters were not
 skipped

---
 anifem++/interval/interval_map.inl | 76 +++++++++++-------------------
 1 file changed, 27 insertions(+), 49 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..3e5707d 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -61,7 +61,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return true;
+            if (!m_comp(key, it_ed->first.m_start) || ((boundary_status & 1) && it_ed == m_map_list.begin())) return true;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         return (it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start));
@@ -131,7 +131,7 @@ namespace Ani{
         // if ((boundary_status & 1) && (boundary_status & 2) && m_map_list.size() == 1)
         //     return true;
         if ((boundary_status & 2) && it == &(*std::prev(m_map_list.end())))
-            return !m_comp(key, it->first.m_start);
+            return !m_comp(key, it->first.m_start) || ((boundary_status & 1) && m_map_list.size() == 1);
         if ((boundary_status & 1) && it == &(*m_map_list.begin()))
             return m_comp(key, it->first.m_end);
         return !m_comp(key, it->first.m_start) && m_comp(key, it->first.m_end);
@@ -144,7 +144,7 @@ namespace Ani{
         auto it_ed = m_map_list.end();
         if (boundary_status & 2){
             it_ed = std::prev(m_map_list.end());
-            if (!m_comp(key, it_ed->first.m_start)) return it_ed;
+            if (!m_comp(key, it_ed->first.m_start) || ((boundary_status & 1) && it_ed == m_map_list.begin())) return it_ed;
         }
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); }); 
         if ((it != it_ed) && (((boundary_status & 1) && it == m_map_list.begin()) || !m_comp(key, it->first.m_start)))
@@ -157,13 +157,9 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::internal_lower_bound( const Key& key ) const {
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
-        }
-        auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        return it;
+        if (boundary_status & 2) //< right-infinite interval is not less than any key
+            it_ed = std::prev(it_ed);
+        return std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
     }
 
     template<typename Key, typename T, typename Compare, typename Allocator>
@@ -171,11 +167,8 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::internal_upper_bound( const Key& key ) const {
         if (m_map_list.empty()) return m_map_list.end();
         auto it_ed = m_map_list.end();
-        if (boundary_status & 2){
-            auto it = std::prev(m_map_list.end());
-            if (!comp(key, it_ed->first.m_start)) return it_ed;
-            it_ed = it;
-        }
+        if (boundary_status & 2) //< right-infinite interval has elements greater than any key
+            it_ed = std::prev(it_ed);
         auto it = std::upper_bound(m_map_list.begin(), it_ed, key, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
         if (it == it_ed) return it_ed;
         if (std::max(it->first.m_end, key) - std::min(it->first.m_end, key) == 1) 
@@ -195,43 +188,28 @@ namespace Ani{
         interval_map<Key, T, Compare, Allocator>::insert(key_type start_interval, key_type end_interval, const mapped_type& value, unsigned char bnd_type){
         if (m_comp(end_interval, start_interval) || (bnd_type == 0 && start_interval == end_interval)) 
             return {m_map_list.end(), false};
-        // if (!m_comp(start_interval, end_interval)) return {m_map_list.end(), false};
-        if (boundary_status & 1)
-            m_map_list.front().first.m_start = std::min(m_map_list.front().first.m_start, start_interval, m_comp);
-        if (boundary_status & 2)
-            m_map_list.back().first.m_end = std::max(m_map_list.back().first.m_end, end_interval, m_comp);
-        
-        auto it_st = std::upper_bound(m_map_list.begin(), m_map_list.end(), start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
-        if (bnd_type == 1 && start_interval == end_interval && it_st != m_map_list.begin()){
-            auto it = std::prev(it_st);
-            if (it->first.m_end == start_interval)
-                it_st = it;
-        }
-        if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
-            auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
-                it_st = std::prev(it_st);
-        }
-        auto it_st0 = it_st;
+        // elements intersecting with the new interval: [it_st0, it_end0)
+        // left border of the first and right border of the last elements are ignored if they are infinite
+        auto it_st0 = m_map_list.begin();
+        if (!(bnd_type & 1))
+            it_st0 = std::upper_bound(m_map_list.begin(), ((boundary_status & 2) ? std::prev(m_map_list.end()) : m_map_list.end()), 
+                                      start_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a, b.first.m_end); });
+        auto it_end0 = m_map_list.end();
+        if (!(bnd_type & 2))
+            it_end0 = std::lower_bound(((boundary_status & 1) && it_st0 == m_map_list.begin()) ? std::next(it_st0) : it_st0, m_map_list.end(), 
+                                       end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); });
+        for (auto it = it_st0; it != it_end0; ++it) if (it->second != value)
+            return {it, false};
+        // extend by adjacent elements with same value
+        auto it_st = it_st0, it_end = it_end0;
         if (it_st != m_map_list.begin()){
             auto it_prev = std::prev(it_st);
             if (it_prev->first.m_end == start_interval && it_prev->second == value)
-                it_st = it_prev;     
-        }
-        auto it_end = (it_st0 != m_map_list.end()) ? 
-                    std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
-        if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
-            auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
-                it_end = std::next(it_end);
+                it_st = it_prev;
         }
-        auto it_end0 = it_end;
         if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
         
-        for (auto it = it_st0; it != it_end0; ++it) if (it->second != value)
-            return {it, false};
-        
         auto it = it_st;
         if (std::distance(it_st, it_end) == 0){
             it = m_map_list.emplace(it_end, interval<key_type>{start_interval, end_interval}, std::move(value));
@@ -273,7 +251,7 @@ namespace Ani{
             auto colon_pos = input.find(traits.interval_delimiter, pos);
             if (colon_pos == std::string::npos || colon_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.interval_delimiter + "\" separator");
-            auto arrow_pos = input.find(traits.map_delimiter, colon_pos+1);
+            auto arrow_pos = input.find(traits.map_delimiter, colon_pos + traits.interval_delimiter.size());
             if (arrow_pos == std::string::npos || arrow_pos > lend)
                 throw std::invalid_argument("Missing \"" + traits.map_delimiter + "\" operator");
             
@@ -285,12 +263,12 @@ namespace Ani{
                 left_st = std::max(colon_pos, left_ed+1);
     
             auto right_st = colon_pos+1, right_ed = colon_pos;
-            right_st = input.find_first_not_of(spaces, colon_pos+1);
+            right_st = input.find_first_not_of(spaces, colon_pos + traits.interval_delimiter.size());
             if (right_st < arrow_pos)
                 right_ed = input.find_last_not_of(spaces, arrow_pos - 1);
             
             auto value_st = arrow_pos+2, value_ed = arrow_pos+1;
-            value_st = input.find_first_not_of(spaces, arrow_pos+2);
+            value_st = input.find_first_not_of(spaces, arrow_pos + traits.map_delimiter.size());
             if (value_st == std::string::npos || value_st >= lend)
                 throw std::invalid_argument("Missing mapping value");
             value_ed = input.find_last_not_of(spaces, lend - 1);
@@ -307,7 +285,7 @@ namespace Ani{
                 default:
                     throw std::runtime_error("Reached unreacheable code");
             }
-            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend+1);
+            pos = (lend == std::string::npos) ? std::string::npos : input.find_first_not_of(spaces, lend + traits.elem_delimiter.size());
         }
     
         return m;
-- 
2.43.0


From 6c05fd7db4a0ba34e77c6d23a0de474254b18597 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 08/81] fix: VectorDofMap: the component of a dof given by its
 geometric locus was computed from the wrong count

---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 anifem++/fem/tetdofmap.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..101efa0 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..8d91289 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -402,14 +402,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From bbc8bf1ac4b3e8bb5578cf5cf1d31d68693588f7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 09/81] fix: dof maps: iteration over a part of the tetrahedron
 skipped or misnumbered dofs of vector and complex maps

---
 anifem++/fem/tetdofmap.cpp | 77 +++++++++++++++-----------------------
 anifem++/fem/tetdofmap.h   |  1 +
 anifem++/fem/tetdofmap.inl | 77 ++++++++++++++++----------------------
 3 files changed, 64 insertions(+), 91 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 101efa0..2764ef2 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -513,23 +513,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
@@ -706,15 +692,17 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
+        for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            for (uint dim = 0; dim < m_spaces.size(); ++dim){
+                LocalOrder ll, lend;
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
+                }
             }
         }
         EndByGeomSparsity(lo);
@@ -735,8 +723,7 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            for (++dim; dim < m_spaces.size(); ++dim){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
@@ -760,26 +747,24 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
             return;
         } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
+            for (++dim; dim < m_spaces.size(); ++dim){
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
                 }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
             }
+            auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+            if (!next_pos.isValid()) { 
+                EndByGeomSparsity(lo); 
+                return; 
+            }
+            ss = sp;
+            for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+            for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+            BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+            return;
         }
     }
 }
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..feaeacd 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override { if (m_dim > 0) base->BeginByGeomSparsity(sp, lo, preferGeomOrdering); else EndByGeomSparsity(lo); }
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 8d91289..513e5b7 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -385,6 +385,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override { if (m_dim > 0) m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering); else EndByGeomSparsity(lo); }
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
@@ -490,23 +491,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
@@ -748,15 +735,17 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
+            for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+                TetGeomSparsity ss;
+                ss.set(pos.elem_dim, pos.elem_num);
+                for (uint dim = 0; dim < s.size(); ++dim){
+                    LocalOrder ll, lend;
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
+                    }
                 }
             }
             EndByGeomSparsity(lo);
@@ -779,8 +768,7 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                for (++dim; dim < s.size(); ++dim){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
@@ -804,25 +792,24 @@ namespace FemComDetails{
                 lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
                 return;
             } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
+                for (++dim; dim < s.size(); ++dim){
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
                     }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
                 }
+                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+                if (!next_pos.isValid()) { 
+                    EndByGeomSparsity(lo); 
+                    return; 
+                }
+                ss = sp;
+                for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+                for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+                return;
             }
         }
     }
-- 
2.43.0


From fbb7b7c6e30852e90dfc378710a5f367f08ab4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 10/81] fix: dof maps: validity of a dof index checked the
 wrong fields

---
 anifem++/fem/tetdofmap.h   | 2 +-
 anifem++/fem/tetdofmap.inl | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index feaeacd..8dc9305 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -99,7 +99,7 @@ namespace Ani{
             uchar nelem;    ///< number of geometrical element on the tetrahedron (from 0 to 3 for NODE or FACE, from 0 to 6 for EDGE, always 0 for CELL)
             LocGeomOrder(): leid(uint(-1)), etype(UNDEF), nelem(0) {}
             LocGeomOrder(uchar etype, uchar nelem, uint leid): leid{leid}, etype{etype}, nelem{nelem} {} 
-            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && leid < GeomTypeTetElems(etype); }
+            inline bool isValid() const { return etype != UNDEF && leid != uint(-1) &&  GeomTypeIsValid(etype) && nelem < GeomTypeTetElems(etype); }
             bool operator==(const LocGeomOrder& a) const { return etype == a.etype && nelem == a.nelem && leid == a.leid; }
             bool operator!=(const LocGeomOrder& a) const { return !(*this == a); }
         };
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 513e5b7..0afc8f5 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -33,7 +33,8 @@ inline bool BaseDofMap::isValidIndex(LocalOrder dof_id, bool with_sym_order) con
     auto r = isValidIndex(dof_id.getTetOrder()) && isValidIndex(dof_id.getGeomOrder());
     if (r && with_sym_order){
         auto m = SymComponents(dof_id.etype);
-        r = ((m | DofSymmetries::MASK_UNDEF) || dof_id.lsid >= DofSymmetries::symmetries_amount(dof_id.etype)) ? false : (m | (1 << dof_id.stype));
+        r = !(m & DofSymmetries::MASK_UNDEF) && dof_id.stype < DofSymmetries::symmetries_amount(dof_id.etype) && (m & (1 << dof_id.stype)) 
+            && dof_id.lsid < DofSymmetries::symmetry_volume(dof_id.etype, dof_id.stype);
     } 
     return r; 
 }
-- 
2.43.0


From 02a016d07e13bcc7c9b93ea1d66f71e662b73ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 11/81] fix: dof maps: equality ignored symmetry groups and
 read maps of other compile-time types

---
 anifem++/fem/tetdofmap.cpp |  2 +-
 anifem++/fem/tetdofmap.inl | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 2764ef2..c747163 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -415,7 +415,7 @@ void DofT::UniteDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Local
 bool DofT::UniteDofMap::operator==(const BaseDofMap& o) const {
     if (o.ActualType() != ActualType()) return false;
     auto& a = static_cast<const UniteDofMap&>(o);
-    return m_shiftDof == a.m_shiftDof; //&& m_shiftTetDof == a.m_shiftTetDof
+    return m_shiftDof == a.m_shiftDof && m_symmetries.m_sym == a.m_symmetries.m_sym; //&& m_shiftTetDof == a.m_shiftTetDof
 }
 
 std::array<uint, DofT::NGEOM_TYPES> DofT::VectorDofMap::NumDofs() const  { 
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 0afc8f5..bf669b0 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -443,9 +443,9 @@ namespace FemComDetails{
     template<typename DofMapT>
     bool VectorDofMapCImpl<true, DofMapT>::operator==(const BaseDofMap& o) const{
         if (o.ActualType() != ActualType()) return false;
-        auto& a = static_cast<const VectorDofMapCImpl<true, DofMapT>&>(o);
-        if (m_dim != a.m_dim) return false;
-        return m_base == a.m_base;
+        auto* a = dynamic_cast<const VectorDofMapCImpl<true, DofMapT>*>(&o);
+        if (!a || m_dim != a->m_dim) return false;
+        return m_base == a->m_base;
     }
 
     template<typename DofMapT>
@@ -717,8 +717,8 @@ namespace FemComDetails{
     template<typename... DofMapT>
     bool ComplexDofMapCImpl<true, DofMapT...>::operator==(const BaseDofMap& o) const {
         if (o.ActualType() != ActualType()) return false;
-        auto& a = static_cast<const ComplexDofMapCImpl<true, DofMapT...>&>(o);
-        return Getter<0, Size::value>::isSame(*this, a);
+        auto* a = dynamic_cast<const ComplexDofMapCImpl<true, DofMapT...>*>(&o);
+        return a && Getter<0, Size::value>::isSame(*this, *a);
     }
     template<typename... DofMapT>
     void ComplexDofMapCImpl<true, DofMapT...>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const {
-- 
2.43.0


From a7195d0a06f12a2cc9565e16ef5bec51891693d6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 12/81] fix: complex dof maps: number of dofs on a union of
 element types was read outside the tables

---
 anifem++/fem/tetdofmap.h   | 2 +-
 anifem++/fem/tetdofmap.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 8dc9305..23c55b7 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -682,7 +682,7 @@ namespace Ani{
             uint NestedDim() const override { return m_spaces.size(); }
             uint ActualType() const override { return static_cast<uint>(BaseTypes::ComplexType); }
             uint NumDof(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDof[t][m_spaces.size()] - m_spaceNumDof[t][0]; }
-            uint NumDofOnTet(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDofTet[t][m_spaces.size()] - m_spaceNumDofTet[t][0]; }
+            uint NumDofOnTet(uchar etype) const override { return BaseDofMap::NumDofOnTet(etype); }
             uint NumDofOnTet() const override { return BaseDofMap::NumDofOnTet(); }
             std::array<uint, NGEOM_TYPES> NumDofs() const override;
             std::array<uint, NGEOM_TYPES> NumDofsOnTet() const override;
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index bf669b0..d31e900 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -535,7 +535,7 @@ namespace FemComDetails{
         uint NestedDim() const override { return Size::value; }
         uint ActualType() const override { return static_cast<uint>(BaseTypes::ComplexTemplateType); }
         uint NumDof(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDof[t][Size::value] - m_spaceNumDof[t][0]; }
-        uint NumDofOnTet(uchar etype) const override { auto t = GeomTypeToNum(etype); return m_spaceNumDofTet[t][Size::value] - m_spaceNumDofTet[t][0]; }
+        uint NumDofOnTet(uchar etype) const override { return BaseDofMap::NumDofOnTet(etype); }
         uint NumDofOnTet() const override { auto nn = NumDofsOnTet(); return std::accumulate(nn.begin(), nn.end(), 0U); }
 
         std::array<uint, NGEOM_TYPES> NumDofs() const override;
-- 
2.43.0


From 6ba118334526e0e0cf1a66bca1872996877741e2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 13/81] fix: complex dof maps: a map without components could
 not be queried or multiplied

---
 anifem++/fem/tetdofmap.cpp | 2 ++
 anifem++/fem/tetdofmap.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index c747163..687bf27 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -830,6 +830,7 @@ DofT::DofMap DofT::DofMap::operator*(const DofMap& o) const{
     } else {
         if (t1 == static_cast<uint>(BaseDofMap::BaseTypes::ComplexType)){
             auto bm = this->target<ComplexDofMap>();
+            if (bm->m_spaces.empty()) return DofMap(std::make_shared<ComplexDofMap>(std::vector<std::shared_ptr<BaseDofMap>>{o.base()}));
             auto tpsp = DofMap(bm->m_spaces.back()) * o;
             std::vector<std::shared_ptr<BaseDofMap>> space_union;
             if (tpsp.ActualType() == static_cast<uint>(BaseDofMap::BaseTypes::ComplexType)){
@@ -845,6 +846,7 @@ DofT::DofMap DofT::DofMap::operator*(const DofMap& o) const{
             return DofMap(std::make_shared<ComplexDofMap>(space_union));
         } else if (t2 == static_cast<uint>(BaseDofMap::BaseTypes::ComplexType)){
             auto om = o.target<ComplexDofMap>();
+            if (om->m_spaces.empty()) return DofMap(std::make_shared<ComplexDofMap>(std::vector<std::shared_ptr<BaseDofMap>>{this->base()}));
             auto tpsp = (*this) * DofMap(om->m_spaces.front());
             std::vector<std::shared_ptr<BaseDofMap>> space_union;
             if (tpsp.ActualType() == static_cast<uint>(BaseDofMap::BaseTypes::ComplexType)){
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 23c55b7..f2d19d7 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -676,7 +676,7 @@ namespace Ani{
             std::vector<uint> m_spaceNumDofsTet;
 
             static ComplexDofMap makeCompressed(const std::vector<std::shared_ptr<BaseDofMap>>& spaces);
-            ComplexDofMap() = default;
+            ComplexDofMap(): ComplexDofMap(std::vector<std::shared_ptr<BaseDofMap>>{}) {}
             explicit ComplexDofMap(std::vector<std::shared_ptr<BaseDofMap>> spaces);
             virtual void PushBack(std::shared_ptr<BaseDofMap> space);
             uint NestedDim() const override { return m_spaces.size(); }
-- 
2.43.0


From 8b1841788d1bc1950d3434c58982a67ac0b22f11 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 14/81] fix: compile-time dof maps: setting a component again
 accumulated its dofs

---
 anifem++/fem/tetdofmap.cpp | 2 +-
 anifem++/fem/tetdofmap.inl | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 687bf27..83db6ee 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -452,7 +452,7 @@ std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder
     return {component * nOdf + id.first, id.second};
 }
 void DofT::VectorDofMap::GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const{
-    if (ndims == 0 || ext_dims[0] < 0 || ext_dims[0] >= m_dim) {
+    if (ndims <= 0 || ext_dims[0] < 0 || ext_dims[0] >= m_dim) {
         view.Clear();
         return;
     }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index d31e900..e35dbcf 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -419,7 +419,7 @@ namespace FemComDetails{
 
     template<typename DofMapT>
     void VectorDofMapCImpl<true, DofMapT>::GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const{
-        if (ndims == 0 || ext_dims[0] < 0 || ext_dims[0] >= m_dim) {
+        if (ndims <= 0 || ext_dims[0] < 0 || ext_dims[0] >= m_dim) {
             view.Clear();
             return;
         }
@@ -590,14 +590,14 @@ namespace FemComDetails{
     ComplexDofMapCImpl<true, DofMapT...>& ComplexDofMapCImpl<true, DofMapT...>::set(const typename std::tuple_element<I, Base>::type& v){ 
         for (uint t = 0; t < NGEOM_TYPES; ++t) {
             auto etype = NumToGeomType(t);
-            uint nd = v.NumDof(etype);
-            uint ndt = v.NumDofOnTet(etype);
+            uint nd = v.NumDof(etype) - (m_spaceNumDof[t][I+1] - m_spaceNumDof[t][I]);
+            uint ndt = v.NumDofOnTet(etype) - (m_spaceNumDofTet[t][I+1] - m_spaceNumDofTet[t][I]);
             for (uint i = I; i < Size::value; ++i){
                 m_spaceNumDofTet[t][i+1] += ndt;
                 m_spaceNumDof[t][i+1] += nd;
             }
         }
-        uint ndts = v.NumDofOnTet();
+        uint ndts = v.NumDofOnTet() - (m_spaceNumDofsTet[I+1] - m_spaceNumDofsTet[I]);
         for (uint i = I; i < Size::value; ++i)
             m_spaceNumDofsTet[i+1] += ndts;
         std::get<I>(static_cast<Base&>(*this)) = v;
-- 
2.43.0


From 7a65309866f83717daa437ca6e82fcc3ac679e76 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 15/81] fix: TetGeomSparsity: the complement contained elements
 that do not exist

---
 anifem++/fem/tetdofmap.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index e35dbcf..5cc3952 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -23,9 +23,9 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
     return res;
 }
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
-    TetGeomSparsity res; 
+    TetGeomSparsity res, full = TetGeomSparsity().setCell(true); 
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.elems[d] = full.elems[d] & ~a.elems[d];
     return res;
 }
 
-- 
2.43.0


From 4896927231d7c9b89b291f99266ecf0a3f78e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 16/81] fix: S4::remap_local_order: the image on a face was
 numbered in another order of vertices than the face itself

---
 anifem++/fem/tetdofmap.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 5cc3952..7e50e0a 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -229,6 +229,15 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
     }
     if (r.stype != uchar(-1))
         r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+    if (dim == 2 && r.stype != uchar(-1)){
+        // the index above is given in the order of vertex numbers, return to the local numeration of vertices of the image face
+        const auto id = identity_perm();
+        for (uchar l = 0, vol = DofSymmetries::symmetry_volume(lo.etype, lo.stype); l < vol; ++l)
+            if (DofSymmetries::index_on_reorderd_elem(lo.etype, r.nelem, lo.stype, l, id.data()) == r.lsid){
+                r.lsid = l;
+                break;
+            }
+    }
     r.gid = uint(-1);
     r.leid = uint(-1);
     return r;
-- 
2.43.0


From 95e711ea123eeb6d53ce67ce4a6d92d6d85af760 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 17/81] fix: S4::build_dof_permutation: dofs sharing a locus
 were all sent to the first of them

---
 anifem++/fem/tetdofmap.h   | 3 ++-
 anifem++/fem/tetdofmap.inl | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index f2d19d7..0e593bb 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -256,7 +256,8 @@ namespace Ani{
             inline SymmetryTypeKey symmetry_type_key(const LocalOrder& lo);
             inline bool same_geom_sym(const LocalOrder& a, const LocalOrder& b);
             inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]);
-            inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target);
+            /// @param skip is number of matching d.o.f.s to pass over (several d.o.f.s may share same locus and symmetry index)
+            inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target, int skip = 0);
             inline void build_dof_permutation(const BaseDofMap& map, const uchar sigma[4], double* P, int n);
             inline int stabilizer_character(const uchar g[4], const LocalOrder& repr);
             inline StabilizerData stabilizer_data(const LocalOrder& repr);
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 7e50e0a..85e7e2f 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -242,11 +242,11 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
     r.leid = uint(-1);
     return r;
 }
-inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target){
+inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target, int skip){
     const int n = static_cast<int>(map.NumDofOnTet());
     for (int j = 0; j < n; ++j){
         auto lo = map.LocalOrderOnTet(TetOrder(j));
-        if (same_geom_sym(lo, target)) return j;
+        if (same_geom_sym(lo, target) && skip-- == 0) return j;
     }
     return -1;
 }
@@ -255,7 +255,10 @@ inline void build_dof_permutation(const BaseDofMap& map, const uchar sigma[4], d
     for (int j = 0; j < n; ++j){
         auto lo = map.LocalOrderOnTet(TetOrder(j));
         auto lo_new = remap_local_order(lo, sigma);
-        int new_j = find_tet_dof(map, lo_new);
+        int skip = 0;
+        for (int k = 0; k < j; ++k)
+            if (same_geom_sym(map.LocalOrderOnTet(TetOrder(k)), lo)) ++skip;
+        int new_j = find_tet_dof(map, lo_new, skip);
         if (new_j < 0) continue;
         double s = 1.0;
         if (lo.etype == EDGE_ORIENT){
-- 
2.43.0


From b034282144aef1fec020b4ab41098576eb3e98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:48:52 +0000
Subject: [PATCH 18/81] fix: S4::stabilizer_data: generators of the cell did
 not move the last vertex

---
 anifem++/fem/tetdofmap.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 85e7e2f..054557e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -339,6 +339,7 @@ inline StabilizerData stabilizer_data(const LocalOrder& repr){
     } else {
         sd.generators.push_back({1, 0, 2, 3});
         sd.generators.push_back({0, 2, 1, 3});
+        sd.generators.push_back({0, 1, 3, 2});
     }
     return sd;
 }
-- 
2.43.0


From 6e2d9690da1c4c9b9e5d475a54bd4ed05ef9551c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 19/81] fix: applyVectorDirMatrix: work column was addressed
 past its end

---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..e760006 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From 5311d8a556ac04a6d0694d7c3405bb6847ec00bd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 20/81] fix: applyVectorDir: stated values were overwritten
 while the next known direction was moved to the right hand side

---
 anifem++/fem/operations/dc_on_dof.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index e760006..ade2e23 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -107,8 +107,9 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k]; 
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From 2d1e2b1792d122456672843c70bf3751c588608f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:33:40 +0000
Subject: [PATCH 21/81] fix: report the polynomial order of DIV and CURL of
 vectors of scalar FEM spaces (it was always 0)

---
 anifem++/fem/spaces/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/spaces/common.h b/anifem++/fem/spaces/common.h
index 0b37036..8804616 100644
--- a/anifem++/fem/spaces/common.h
+++ b/anifem++/fem/spaces/common.h
@@ -113,7 +113,7 @@ namespace Ani{
         template<int DIM>
         struct InternalOp<DIM, false>{
             template<OperatorType OP>
-            using OrderT = typename std::integral_constant<int, 0>;
+            using OrderT = typename Operator<GRAD, FemFix<FEM_TYPE>>::Order;
             template<OperatorType OP>
             static BandDenseMatrixX<> appl(AniMemoryX<> &mem, ArrayView<> &U){
                 throw std::runtime_error("This operator defined only for 3D fem spaces");
-- 
2.43.0


From 1e7f58c6078230b5bf1b1988f1972cafd514ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 22/81] fix: undo the column permutation of the full pivoting
 LU correctly in LU_solve

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..4e38b6f 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -353,7 +353,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
-- 
2.43.0


From fd125d49cf17a0149302e7429e5dc030bf847781 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 23/81] fix: refuse unions of linearly dependent spaces also
 without Eigen instead of writing out of bounds

---
 anifem++/fem/fem_space.cpp | 2 +-
 anifem++/fem/geometry.h    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..89546d4 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -1144,7 +1144,7 @@ namespace Ani{
                 for (uint j = 0; j < nf; ++j)
                     s += A(i, j) * B(j, k);
                 double target = (i == k) ? 1.0 : 0.0;
-                max_err = std::max(max_err, std::abs(s - target));
+                max_err = std::isfinite(s) ? std::max(max_err, std::abs(s - target)) : std::numeric_limits<double>::infinity();
                 max_g = std::max(max_g, std::abs(B(i, k)));
             }
             const double tol = 1e-8;
diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4e38b6f..eedb033 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -286,6 +286,7 @@ namespace Ani{
                         pi = i;
                         pj = j;
                     }
+            if (pi < 0) break; //remaining submatrix is zero, the matrix is singular
             //Swap Row
             std::swap(p[k], p[pi]);
             for (int j = 0; j < N; j++)
-- 
2.43.0


From 7b0891b595ef1249c05e76f58203682fc7f30533 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:39:27 +0000
Subject: [PATCH 24/81] fix: fem3Dapply with several tetrahedra at once:
 operators of several parts and the product without Eigen handled only the
 first one

---
 anifem++/fem/operations/core.inl | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..4bcd78b 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + fuse * ARow * BCol, 0);
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
@@ -385,18 +385,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
+                    auto VmCol = Vm.stCol[db+1] - Vm.stCol[db];
                     double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
                     double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
+                    double* from = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + r*dim*mem.q + dim*n + Vm.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
@@ -494,18 +495,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + r*dimA*mem.q + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }     
@@ -540,18 +542,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = mem.V.data + r*dimA*mem.q + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
-- 
2.43.0


From 641ba09341cf16e278b734554306aeb1dd99e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:39:27 +0000
Subject: [PATCH 25/81] fix: DIV of general FEM spaces has one row, not three

---
 anifem++/fem/fem_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 89546d4..4d32d45 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -263,7 +263,7 @@ namespace Ani{
         mem.busy_mtx_parts = st_busy + 1;
         Vx.nparts = 1;
         Vx.data[0] = lU;
-        Vx.stRow[1] = 3;
+        Vx.stRow[1] = 1;
         Vx.stCol[1] = nfa;
         return Vx;
     }
-- 
2.43.0


From f02e83dfc65f6e73bf5a4a1bc912255d250a7415 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:39:27 +0000
Subject: [PATCH 26/81] fix: pass the number of the tetrahedron to PerSelection
 tensors also when the tensor is general

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From c21d692792c0db69d2cef21bd96a32395afa2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 27/81] fix: DIV of composed spaces did not reserve its band
 matrix, so the matrix of the other operator replaced it

---
 anifem++/fem/fem_space.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 4d32d45..64cadbe 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -765,8 +765,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyDIV_1x2(AniMemoryX<> &mem, ArrayView<> &U) const{
@@ -822,8 +823,9 @@ namespace Ani{
         uint mtxishift = mem.busy_mtx_parts > 0 ? 1 : 0;
         BandDenseMatrixX<> bres(1, mem.MTX.data + mem.busy_mtx_parts, mem.MTXI_ROW.data + mem.busy_mtx_parts + mtxishift, mem.MTXI_COL.data + mem.busy_mtx_parts + mtxishift);
         bres.data[0] = res;
-        bres.stRow[1] = 0; bres.stRow[1] = 1;
-        bres.stCol[1] = 0; bres.stCol[1] = nfa;
+        bres.stRow[0] = 0; bres.stRow[1] = 1;
+        bres.stCol[0] = 0; bres.stCol[1] = nfa;
+        mem.busy_mtx_parts = st_busy + 1;
         return bres;
     }
     BandDenseMatrixX<> ComplexFemSpace::applyIDEN(AniMemoryX<> &mem, ArrayView<> &U) const {
-- 
2.43.0


From d9ed439013f58c6128a26b17547b02000a133a1b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 28/81] fix: comparison of vector FEM spaces ignored their
 dimension

---
 anifem++/fem/fem_space.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 64cadbe..047d094 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -405,6 +405,7 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
+        if (o.vec_dim() != vec_dim()) return false;
         return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
-- 
2.43.0


From 2e5d45010b300b960a0b7b6ee3c8613c3119ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 29/81] fix: order of a composite of finite elements given by
 types is the largest order of its components

---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From f3ac9c732582c60d5876681a645ed487e4bc5eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:43:06 +0000
Subject: [PATCH 30/81] fix: memory for evaluation of block operators given by
 types covers the values of the blocks at several points

---
 anifem++/fem/operations/eval.inl | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..5a378cb 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -1,11 +1,22 @@
 namespace Ani{
+    ///Size of mem.extraR required to evaluate the operator at points: besides the own needs of the operator
+    ///internalFem3DApply<Op> keeps there the values computed by parts of a block operator
+    template<typename Op, typename ScalarType, typename IndexType>
+    inline std::size_t __internal_fem3DapplyL_extraR(std::size_t extraR, std::size_t q, std::size_t f){
+        using BandT = decltype(convToBendMx(Op::template apply<ScalarType, IndexType>(std::declval<AniMemory<ScalarType, IndexType>& >(), std::declval<ArrayView<ScalarType>& >()), std::declval<IndexType>(), std::declval<IndexType>()));
+        extraR = std::max(extraR, static_cast<std::size_t>(Op::Nfa::value)*f);
+        if (BandT::Nparts::value > 1 && q > 1)
+            extraR = std::max(extraR, static_cast<std::size_t>(Op::Dim::value)*q*f);
+        return extraR;
+    }
+
     template<typename Op, typename ScalarType, typename IndexType>
     PlainMemory <ScalarType, IndexType> fem3DapplyL_memory_requirements(int pnt_per_tetra, int fusion){
         auto f = fusion, q = pnt_per_tetra;
         PlainMemory<ScalarType, IndexType> pm;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
-        extraR = std::max(extraR, static_cast<std::size_t>(1*Op::Nfa::value*f));
+        extraR = __internal_fem3DapplyL_extraR<Op, ScalarType, IndexType>(extraR, q, f);
         IndexType DU = 0, DIFF = 0;
         IndexType XYG = 3*q*f, XYP = 3*4*f, PSI = 3*3*f, DET = f, MES = f, NRM = 0, XYL = 0, WG = 0;
         pm.dSize = Usz + DU + DIFF + XYG + XYP + PSI + DET + MES + NRM + extraR + XYL + WG;
@@ -55,10 +66,10 @@ namespace Ani{
 
     template<typename Op, typename ScalarType = double, typename IndexType = int>
     inline PlainMemory<ScalarType, IndexType> __internal_fem3DapplyL_setmem(AniMemory<ScalarType, IndexType>& mem, int q, int f, int nfa, int dim, PlainMemory<ScalarType, IndexType> plainMemory){
-        (void) dim;
+        (void) dim; (void) nfa;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
-        extraR = std::max(extraR, static_cast<std::size_t>(1*nfa*f));
+        extraR = __internal_fem3DapplyL_extraR<Op, ScalarType, IndexType>(extraR, q, f);
         //IndexType DU_sz = 0, DIFF_sz = 0;
         IndexType XYG_sz = 3*q*f, XYP_sz = 3*4*f, PSI_sz = 3*3*f, DET_sz = f, MES_sz = f;// NRM_sz = 0, XYL_sz = 0, WG_sz = 0;
         ScalarType* p = plainMemory.ddata;
-- 
2.43.0


From 724918fb2e1e7b710ee8fe25e31e188ccb9f3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 31/81] fix: stack versions of the element routines refuse
 result matrices and point sets that do not fit

---
 anifem++/fem/operations/eval.inl     |  2 +-
 anifem++/fem/operations/int_edge.inl |  6 +++---
 anifem++/fem/operations/int_face.inl | 12 ++++++------
 anifem++/fem/operations/int_pnt.inl  | 12 ++++++------
 anifem++/fem/operations/int_tet.inl  |  6 +++---
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index 5a378cb..d808439 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -60,7 +60,7 @@ namespace Ani{
         __internal_check_fem3DapplyL(XY0, XY1, XY2, XY3, f, q, nfa, dim, dofs, opU);            
         if (f > FUSION)
             throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));    
-        if (q > MAXPNTNUM*4)
+        if (q > MAXPNTNUM)
            throw std::runtime_error("This version of the function not supported more than " + std::to_string(MAXPNTNUM) + " points");
     }
 
diff --git a/anifem++/fem/operations/int_edge.inl b/anifem++/fem/operations/int_edge.inl
index 463e571..de650be 100644
--- a/anifem++/fem/operations/int_edge.inl
+++ b/anifem++/fem/operations/int_edge.inl
@@ -5,9 +5,9 @@ namespace Ani{
               int edge_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value)*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 20)
             throw std::runtime_error("Quadratures more than 20-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
diff --git a/anifem++/fem/operations/int_face.inl b/anifem++/fem/operations/int_face.inl
index a3ebf4c..8179652 100644
--- a/anifem++/fem/operations/int_face.inl
+++ b/anifem++/fem/operations/int_face.inl
@@ -15,9 +15,9 @@ namespace Ani{
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value)*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 9)
             throw std::runtime_error("Quadratures more than 9-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
@@ -53,9 +53,9 @@ namespace Ani{
               int face_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value)*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 9)
             throw std::runtime_error("Quadratures more than 9-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index b7f8773..ef2f242 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -10,9 +10,9 @@ namespace Ani{
               int node_num, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value)*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         IndexType f = XYZ.fusion;
         if (f > FUSION) throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));
         assert(f > 0 && "Coordinate arrays shouldn't be free");
@@ -60,9 +60,9 @@ namespace Ani{
               ArrayView<ScalarType> XYL, ArrayView<ScalarType> WG, const Functor &Dfnc, DenseMatrix <ScalarType> &A, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value)*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         IndexType f = XYZ.fusion, q = std::min(XYL.size/4, WG.size);
         if (f > FUSION) throw std::runtime_error("This version of the function not supported fusion that more than " + std::to_string(FUSION));
         assert(f > 0 && "Coordinate arrays shouldn't be free");
diff --git a/anifem++/fem/operations/int_tet.inl b/anifem++/fem/operations/int_tet.inl
index 334fc00..3fa4cb1 100644
--- a/anifem++/fem/operations/int_tet.inl
+++ b/anifem++/fem/operations/int_tet.inl
@@ -94,9 +94,9 @@ namespace Ani{
                   const Functor &Dfnc, DenseMatrix <ScalarType> &A, int order, void *user_data) {
         MemoryLegacy<ScalarType, FUSION> ml;
         auto mem = ml.template getAniMemory<IndexType>();
-        if (A.size < OpB::Nfa::value*OpA::Nfa::value*mem.f )
-            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f) +
-                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*mem.f));
+        if (A.size < static_cast<std::size_t>(OpB::Nfa::value*OpA::Nfa::value)*XYZ.fusion )
+            throw std::runtime_error("Expected dimensions of A is " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion) +
+                                     ", but A has size = " + std::to_string(A.size) + " < " + std::to_string(OpB::Nfa::value) + "x" + std::to_string(OpA::Nfa::value*XYZ.fusion));
         if (order > 6)
             throw std::runtime_error("Quadratures more than 6-th order are not supported for stack memory version of the function");
         IndexType f = XYZ.fusion;
-- 
2.43.0


From 3bd32270b021803c5aef774b11edb42f57312d22 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:48:24 +0000
Subject: [PATCH 32/81] fix: fem3DpntL for operators given by types does not
 read beyond the weights

---
 anifem++/fem/operations/int_pnt.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/int_pnt.inl b/anifem++/fem/operations/int_pnt.inl
index ef2f242..0de1521 100644
--- a/anifem++/fem/operations/int_pnt.inl
+++ b/anifem++/fem/operations/int_pnt.inl
@@ -88,7 +88,7 @@ namespace Ani{
         assert(f > 0 && "Coordinate arrays shouldn't be free");
         assert(A.size >= static_cast<std::size_t>(OpB::Nfa::value * OpA::Nfa::value * f) && "Not enough memory to save A matrix");
         A.nRow = OpB::Nfa::value; A.nCol = OpA::Nfa::value * f;
-        int q = XYL.size/4;
+        int q = std::min(XYL.size/4, WG.size);
 #ifndef	NDEBUG
         auto t = fem3DpntL_memory_requirements<OpA, OpB, ScalarType, IndexType>(q, f);
         assert(plainMemory.ddata && plainMemory.dSize >= t.dSize && "Not enough of plain memory");
-- 
2.43.0


From a5111bbe0a604273921a2f9a438b68fd55ea48a6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 33/81] fix: interpolateOnRegion keeps the P0 space alive while
 its operator is used

---
 anifem++/fem/fem_space.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 047d094..b674656 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -114,7 +114,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        const P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +135,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        const P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
-- 
2.43.0


From 3f4afb4a54c4942fb759617673aa1ffcfcfb5115 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 34/81] fix: interpolateOnRegion on edges and faces zeroes the
 other barycentric coordinates

---
 anifem++/fem/fem_space.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index b674656..80d111f 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -160,6 +160,7 @@ namespace Ani{
                 auto formula = segment_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
@@ -173,6 +174,7 @@ namespace Ani{
                 auto formula = triangle_quadrature_formulas(max_quad_order);
                 nquads = formula.GetNumPoints();
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
+                std::fill(xyl, xyl + 4*nquads, 0.0);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
-- 
2.43.0


From a4b2089c71ca571a93a6e3cd0e8c961e330b79fc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 35/81] fix: interpolateOnRegion announces enough memory for
 nodes

---
 anifem++/fem/fem_space.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 80d111f..ab50916 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -81,18 +81,8 @@ namespace Ani{
         return ApplyOpFromSpaceView(op, this);
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
-        if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
-        }
+        if (elem_type == DofT::NODE)
+            return interpolateByDOFs_mem_req(max_quad_order);
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
-- 
2.43.0


From 5990e6a319e4567d61047396764d6966542f752a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 36/81] fix: UnionFemSpace interpolation with Piola-mapped
 elements on arbitrary tetrahedra

---
 anifem++/fem/fem_space.cpp | 53 +++++++++++++++++++++++++-------------
 anifem++/fem/fem_space.h   |  4 ++-
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index ab50916..01a4f15 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -948,7 +948,7 @@ namespace Ani{
         auto* cmap = m_order.target<DofT::ComplexDofMap>();
         uint max_nfi = 0;
         for (uint j = 0; j < nf; ++j){
-            if (m_orth_coefs[idof_on_tet + nf * j] == 0.0)
+            if (!m_orth_per_tetra && m_orth_coefs[idof_on_tet + nf * j] == 0.0)
                 continue;
             auto comp = cmap->ComponentID(j);
             uint nsubset = comp.part_id;
@@ -965,9 +965,11 @@ namespace Ani{
             return;
         uint nf = m_order.NumDofOnTet();
         auto* cmap = m_order.target<DofT::ComplexDofMap>();
+        const std::vector<double> tetra_coefs = m_orth_per_tetra ? evalOrthCoefs(XYZ) : std::vector<double>();
+        const std::vector<double>& coefs = m_orth_per_tetra ? tetra_coefs : m_orth_coefs;
         uint max_nfi = 0;
         for (uint j = 0; j < nf; ++j){
-            if (m_orth_coefs[idof_on_tet + nf * j] == 0.0)
+            if (coefs[idof_on_tet + nf * j] == 0.0)
                 continue;
             auto comp = cmap->ComponentID(j);
             max_nfi = std::max(max_nfi, m_subsets[comp.part_id]->m_order.NumDofOnTet());
@@ -986,7 +988,7 @@ namespace Ani{
             tmp_udofs[r] = ArrayView<>(temp + static_cast<std::size_t>(r) * max_nfi, max_nfi);
 
         for (uint j = 0; j < nf; ++j){
-            double w = m_orth_coefs[idof_on_tet + nf * j];
+            double w = coefs[idof_on_tet + nf * j];
             if (w == 0.0)
                 continue;
             auto comp = cmap->ComponentID(j);
@@ -1021,22 +1023,37 @@ namespace Ani{
         }    
     }
     void UnionFemSpace::setupInterpolation(uint max_quad_order){
+        // The functionals of Piola-mapped elements (e.g. RT0, ND0) mix with those of other elements differently on different
+        // tetrahedra: compare reference tetrahedron with one of general form
+        double XYZr[3 * 4]{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1};
+        double XYZg[3 * 4]{0.1, -0.2, 0.3, 1.3, 0.4, -0.1, -0.4, 0.9, 0.6, 0.5, 0.2, 1.7};
+        m_orth_coefs = evalOrthCoefs(Tetra<const double>(XYZr+0, XYZr+3, XYZr+6, XYZr+9), max_quad_order);
+        auto coefs = evalOrthCoefs(Tetra<const double>(XYZg+0, XYZg+3, XYZg+6, XYZg+9), max_quad_order);
+        m_orth_per_tetra = false;
+        for (std::size_t i = 0; i < coefs.size(); ++i)
+            m_orth_per_tetra = m_orth_per_tetra || std::abs(coefs[i] - m_orth_coefs[i]) > 1e-7 * (1 + std::abs(m_orth_coefs[i]));
+    }
+    std::vector<double> UnionFemSpace::evalOrthCoefs(const Tetra<const double>& XYZ, uint max_quad_order) const {
         uint nf = m_order.NumDofOnTet();
-        m_orth_coefs.assign(nf * nf, 0.0);
+        std::vector<double> orth_coefs(nf * nf, 0.0);
         if (nf == 0)
-            return;
+            return orth_coefs;
         if (m_subsets.size() <= 1){
             for (uint i = 0; i < nf; ++i)
-                m_orth_coefs[i + nf * i] = 1.0;
-            return;
+                orth_coefs[i + nf * i] = 1.0;
+            return orth_coefs;
         }
 
         std::vector<double> Bd(nf*nf, 0.0);
         DenseMatrix<> B(Bd.data(), nf, nf);
         uint nfshi = 0, nfshj = 0;
-        double XYZa[3 * 4]{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1};
-        double one = 1;
-        Tetra<const double> XYZ(XYZa+0, XYZa+3, XYZa+6, XYZa+9);
+        double XYP[3 * 4]{0}, PSI[3 * 3]{0};
+        for (int k = 0; k < 3; ++k){
+            XYP[3 + k] = XYZ.XY1[k] - XYZ.XY0[k];
+            XYP[6 + k] = XYZ.XY2[k] - XYZ.XY0[k];
+            XYP[9 + k] = XYZ.XY3[k] - XYZ.XY0[k];
+        }
+        double det = inverse3x3(XYP + 3, PSI), one = 1;
         OpMemoryRequirements req;
         uint max_nfi = 0;
         for (uint si = 0; si < m_subsets.size(); ++si){
@@ -1066,10 +1083,10 @@ namespace Ani{
         pmx.allocateFromRaw(lmem.data(), pmx_sz);
         AniMemoryX<> mem;
         std::array<double, 4> xyl{1, 0, 0, 0};
-        mem.XYP.Init(XYZa, 3*4);
-        mem.PSI.Init(XYZa+3, 3*3);
+        mem.XYP.Init(XYP, 3*4);
+        mem.PSI.Init(PSI, 3*3);
         mem.XYG.Init(nullptr, 3);
-        mem.DET.Init(&one, 1);
+        mem.DET.Init(&det, 1);
         mem.XYL.Init(xyl.data(), 4);
         mem.WG.Init(&one, 1);
         mem.U.Init(pmx.ddata, req.Usz); pmx.ddata += req.Usz; pmx.dSize -= req.Usz;
@@ -1081,10 +1098,9 @@ namespace Ani{
         mem.q = 1, mem.f = 1;
         mem.busy_mtx_parts = 0;
 
-        auto eval_basis_functions = [&mem](const BaseFemSpace& s, std::array<double, 3> x, double* phi){
+        auto eval_basis_functions = [&mem, &XYZ](const BaseFemSpace& s, std::array<double, 3> x, double* phi){
             mem.XYG.Init(x.data(), 3);
-            mem.XYL[0] = 1 - (x[0] + x[1] + x[2]);
-            for (int k = 0; k < 3; ++k) mem.XYL[1+k] = x[k];
+            getBaryCoord(XYZ.XY0.data, XYZ.XY1.data, XYZ.XY2.data, XYZ.XY3.data, ArrayView<const double>(x.data(), 3), mem.XYL, mem.PSI);
             uint dim = s.dim(), snf = s.m_order.NumDofOnTet();
             std::fill(phi, phi + dim*snf, 0);
             auto res = s.applyIDEN(mem, mem.U);
@@ -1098,7 +1114,7 @@ namespace Ani{
 
         std::vector<ArrayView<>> udofs(max_nfi);
         for (uint i = 0; i < max_nfi; ++i)
-            udofs[i] = ArrayView<>(m_orth_coefs.data() + nf * i, nf);
+            udofs[i] = ArrayView<>(orth_coefs.data() + nf * i, nf);
 
         for (uint si = 0; si < m_subsets.size(); ++si){
             nfshj = 0;
@@ -1125,7 +1141,7 @@ namespace Ani{
             }
             nfshi += nfi;
         }
-        DenseMatrix<> A(m_orth_coefs.data(), nf, nf);
+        DenseMatrix<> A(orth_coefs.data(), nf, nf);
         {
             std::vector<double> wmem(2*nf*nf);
             std::vector<int> imem(2*nf);
@@ -1153,6 +1169,7 @@ namespace Ani{
             auto p = std::max_element(A.data + i*nf, A.data + (i+1)*nf, [](double a, double b){ return std::abs(a) < std::abs(b); });
             std::transform(A.data + i*nf, A.data + (i+1)*nf, A.data + i*nf, [m = std::abs(*p)](double a){ return (std::abs(a) > m*1e-7) ? a : 0.0; });
         }
+        return orth_coefs;
     }
     OpMemoryRequirements UnionFemSpace::memIDEN(uint nquadpoints, uint fusion) const {
         return memOP_internal<>(dimIDEN(), nquadpoints, fusion, &BaseFemSpace::memIDEN);
diff --git a/anifem++/fem/fem_space.h b/anifem++/fem/fem_space.h
index cc92f77..607f3b5 100644
--- a/anifem++/fem/fem_space.h
+++ b/anifem++/fem/fem_space.h
@@ -387,8 +387,10 @@ namespace Ani{
         /// Bases are kept as-is; new functionals are I^{new} = W I^{raw}.
         DenseMatrix<const double> GetOrthBasisShiftMatrix() const; 
     private:
-        std::vector<double> m_orth_coefs; ///< W = G^{-1} in col-major layout, size nf x nf
+        std::vector<double> m_orth_coefs; ///< W = G^{-1} on the reference tetrahedron in col-major layout, size nf x nf
+        bool m_orth_per_tetra = false;    ///< W depends on the tetrahedron (Piola-mapped elements mixed with others)
         void setupInterpolation(uint max_quad_order = 5);
+        std::vector<double> evalOrthCoefs(const Tetra<const double>& XYZ, uint max_quad_order = 5) const;
         void setup(); 
         template<typename ...Targs>
         OpMemoryRequirements memOP_internal(uint gdim, uint nquadpoints, uint fusion, OpMemoryRequirements(Ani::BaseFemSpace::* req)(uint , uint, Targs...) const, Targs... ts) const;
-- 
2.43.0


From 51f41140d592c274bca663812647b48820fa2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 37/81] fix: FemUnionT interpolation with Piola-mapped elements
 on arbitrary tetrahedra

---
 anifem++/fem/operators.h   |  2 +-
 anifem++/fem/operators.inl | 67 ++++++++++++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 7429522..cab077d 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -691,7 +691,7 @@ namespace Ani{
         static inline void interpolate(const Tetra<const double>& XYZ, const EvalFunc& f, std::array<ArrayView<>, FUSION> udofs, int idof_on_tet, void* user_data = nullptr, uint max_quad_order = 5){
             constexpr int NF = Operator<IDEN, FemUnionT<Type...>>::Nfa::value;
             constexpr int MaxNfa = FemComDetails::MaxIdenNfaCounter<0, Type...>::value;
-            const auto& W = FemUnionT<Type...>::orthCoefs();
+            const auto W = FemUnionT<Type...>::orthCoefs(XYZ);
             std::array<double, static_cast<std::size_t>(MaxNfa) * FUSION> temp_storage{};
             std::array<ArrayView<>, FUSION> tmp_udofs;
             for (uint r = 0; r < FUSION; ++r)
diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 0647c90..081f3f6 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -145,11 +145,15 @@ namespace Ani{
         };
 
         template<typename FEMTYPE, typename ScalarType, typename IndexType>
-        inline void evalUnionBasisFunctions(AniMemory<ScalarType, IndexType>& mem, const std::array<double, 3>& x, ScalarType* phi) {
+        inline void evalUnionBasisFunctions(AniMemory<ScalarType, IndexType>& mem, const double* x0, const std::array<double, 3>& x, ScalarType* phi) {
             mem.XYG.Init(const_cast<double*>(x.data()), 3);
-            mem.XYL[0] = ScalarType(1) - (x[0] + x[1] + x[2]);
-            for (int k = 0; k < 3; ++k)
-                mem.XYL[1 + k] = x[k];
+            mem.XYL[0] = 1;
+            for (int k = 0; k < 3; ++k){
+                mem.XYL[1 + k] = 0;
+                for (int j = 0; j < 3; ++j)
+                    mem.XYL[1 + k] += mem.PSI[k + 3*j] * (x[j] - x0[j]);
+                mem.XYL[0] -= mem.XYL[1 + k];
+            }
             const int dim = Operator<IDEN, FEMTYPE>::Dim::value;
             const int nf = Operator<IDEN, FEMTYPE>::Nfa::value;
             std::fill(phi, phi + dim * nf, ScalarType(0));
@@ -189,9 +193,9 @@ namespace Ani{
                 for (uint k = 0; k < static_cast<uint>(nfi); ++k) {
                     Dof<TypeSi>::template interpolate<FUSION>(
                         XYZ,
-                        [&mem](const std::array<double, 3>& X, ScalarType* res, uint dim, void* /*user_data*/)->int {
+                        [&mem, &XYZ](const std::array<double, 3>& X, ScalarType* res, uint dim, void* /*user_data*/)->int {
                             (void) dim;
-                            evalUnionBasisFunctions<TypeSj, ScalarType, IndexType>(mem, X, res);
+                            evalUnionBasisFunctions<TypeSj, ScalarType, IndexType>(mem, XYZ.XY0.data, X, res);
                             return 0;
                         },
                         udofs, static_cast<int>(k), nullptr, max_quad_order);
@@ -324,16 +328,35 @@ namespace Ani{
             static const int MaxNfa = MaxIdenNfaCounter<0, T1, T2, Rest...>::value;
 
             static const std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)>& get() {
-                static const std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> coefs = compute();
+                static const std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> coefs = []() {
+                    double XYZr[3 * 4]{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1};
+                    return compute(Tetra<const double>(XYZr + 0, XYZr + 3, XYZr + 6, XYZr + 9));
+                }();
                 return coefs;
             }
+            /// Mixing matrix on the tetrahedron: differs from get() if Piola-mapped elements (e.g. RT0, ND0) are mixed with others
+            static std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> get(const Tetra<const double>& XYZ) {
+                return dependsOnTetra() ? compute(XYZ) : get();
+            }
+            static bool dependsOnTetra() {
+                static const bool depends = []() {
+                    double XYZg[3 * 4]{0.1, -0.2, 0.3, 1.3, 0.4, -0.1, -0.4, 0.9, 0.6, 0.5, 0.2, 1.7};
+                    auto coefs = compute(Tetra<const double>(XYZg + 0, XYZg + 3, XYZg + 6, XYZg + 9));
+                    const auto& ref = get();
+                    for (std::size_t i = 0; i < coefs.size(); ++i)
+                        if (std::abs(coefs[i] - ref[i]) > 1e-7 * (1 + std::abs(ref[i])))
+                            return true;
+                    return false;
+                }();
+                return depends;
+            }
 
             static DenseMatrix<const double> asMatrix() {
                 return DenseMatrix<const double>(get().data(), NF, NF);
             }
 
         private:
-            static std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> compute(uint max_quad_order = 5) {
+            static std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> compute(const Tetra<const double>& XYZ, uint max_quad_order = 5) {
                 (void) max_quad_order;
                 std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> orth{};
                 std::array<double, static_cast<std::size_t>(NF) * static_cast<std::size_t>(NF)> Bd{};
@@ -344,14 +367,19 @@ namespace Ani{
                 UnionIdenMemReq<0, T1, T2, Rest...>::template Impl<double, int>(reqUsz, reqExtraR);
 
                 std::vector<double> dmem(reqUsz + reqExtraR);
-                double XYZa[3 * 4]{0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1};
-                Tetra<const double> XYZ(XYZa + 0, XYZa + 3, XYZa + 6, XYZa + 9);
+                double XYP[3 * 4]{0}, PSI[3 * 3]{0};
+                for (int k = 0; k < 3; ++k) {
+                    XYP[3 + k] = XYZ.XY1[k] - XYZ.XY0[k];
+                    XYP[6 + k] = XYZ.XY2[k] - XYZ.XY0[k];
+                    XYP[9 + k] = XYZ.XY3[k] - XYZ.XY0[k];
+                }
+                double det = inverse3x3(XYP + 3, PSI);
                 AniMemory<double, int> mem;
                 std::array<double, 4> xyl{1, 0, 0, 0};
-                mem.XYP.Init(XYZa, 3 * 4);
-                mem.PSI.Init(XYZa + 3, 3 * 3);
+                mem.XYP.Init(XYP, 3 * 4);
+                mem.PSI.Init(PSI, 3 * 3);
                 mem.XYG.Init(nullptr, 3);
-                mem.DET.Init(nullptr, 0);
+                mem.DET.Init(&det, 1);
                 mem.XYL.Init(xyl.data(), 4);
                 mem.WG.Init(nullptr, 0);
                 mem.U.Init(dmem.data(), reqUsz);
@@ -380,7 +408,7 @@ namespace Ani{
                         for (int j = 0; j < NF; ++j)
                             s += A(i, j) * B(j, k);
                         double target = (i == k) ? 1.0 : 0.0;
-                        max_err = std::max(max_err, std::abs(s - target));
+                        max_err = std::isfinite(s) ? std::max(max_err, std::abs(s - target)) : std::numeric_limits<double>::infinity();
                         max_g = std::max(max_g, std::abs(B(i, k)));
                     }
                     const double tol = 1e-8;
@@ -511,6 +539,12 @@ namespace Ani{
                 * static_cast<std::size_t>(Operator<IDEN, T>::Nfa::value)>& orthCoefs() {
                 return UnionOrthCoefsStorageSingle<T>::get();
             }
+
+            static std::array<double, static_cast<std::size_t>(Operator<IDEN, T>::Nfa::value)
+                * static_cast<std::size_t>(Operator<IDEN, T>::Nfa::value)> orthCoefs(const Tetra<const double>& XYZ) {
+                (void) XYZ;
+                return UnionOrthCoefsStorageSingle<T>::get();
+            }
         };
 
         template<class T1, class T2, class... Rest>
@@ -526,6 +560,11 @@ namespace Ani{
                 * static_cast<std::size_t>(NfaCounter<0, IDEN, T1, T2, Rest...>::value)>& orthCoefs() {
                 return UnionOrthCoefsStorage<T1, T2, Rest...>::get();
             }
+
+            static std::array<double, static_cast<std::size_t>(NfaCounter<0, IDEN, T1, T2, Rest...>::value)
+                * static_cast<std::size_t>(NfaCounter<0, IDEN, T1, T2, Rest...>::value)> orthCoefs(const Tetra<const double>& XYZ) {
+                return UnionOrthCoefsStorage<T1, T2, Rest...>::get(XYZ);
+            }
         };
     }
 
-- 
2.43.0


From 1fc3e019d93e503b406047d272f560712c13f019 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 38/81] fix: default BaseExpr::set_row/set_col used the size of
 the target, rows and columns after the requested one were taken too

---
 anifem++/fem/expr_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 12034ac..e37bb2a 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -34,8 +34,8 @@ namespace Ani{
         virtual BaseExpr& set_sub_matrix(const BaseExpr& val, std::size_t i_start, long i_inc, std::size_t j_start, long j_inc) = 0;
         virtual BaseExpr& set_horzcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_vertcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
-        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, size1(), 0, 1); }
-        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, size2()); }
+        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, val.size1(), 0, 1); }
+        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, val.size2()); }
         virtual BaseExpr& set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs) = 0;
         virtual BaseExpr& set_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_sum(const BaseExpr& a, const BaseExpr& b){ const BaseExpr* arr[2]{&a, &b}; return set_sum(arr, arr+2); }
-- 
2.43.0


From bcd86f62134bd7026210754a16da6454aeea0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 39/81] fix: Expr operator>= computed <=

---
 anifem++/fem/expr_interface.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/expr_interface.inl b/anifem++/fem/expr_interface.inl
index f5adc38..f9fea98 100644
--- a/anifem++/fem/expr_interface.inl
+++ b/anifem++/fem/expr_interface.inl
@@ -99,7 +99,7 @@ namespace Ani{
     APPL_OP_FULL2(operator<, lt)
     APPL_OP_FULL2(operator<=, le)
     APPL_OP_FULL2(operator>, gt)
-    APPL_OP_FULL2(operator>=, le)
+    APPL_OP_FULL2(operator>=, ge)
     APPL_OP_FULL2(operator==, eq)
     APPL_OP_FULL2(operator!=, ne)
     APPL_OP_FULL2(operator&&, and)
-- 
2.43.0


From 571c2b9850d5dc9ddb69c76ef23a297e8c05bbac Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 40/81] fix: Expr::operator()(i, j) accepted indices one past
 the end

---
 anifem++/fem/expr_interface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index e37bb2a..09b1c1c 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -164,7 +164,7 @@ namespace Ani{
             return *this;          
         }
         Expr operator()(std::size_t i, std::size_t j) const {
-            if (i > nrows() || j > ncols())
+            if (i >= nrows() || j >= ncols())
                 throw std::runtime_error("Sizes of expression: " + std::to_string(nrows()) + "x" + std::to_string(ncols()) 
                     + ", but requested value at (" + std::to_string(i) + ", " + std::to_string(j) + ")");
             Expr res = zeroes();
-- 
2.43.0


From 52f573d84057400c7f9c7c432759bd4bfa82b014 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 41/81] fix: copying an empty Expr dereferenced a null pointer

---
 anifem++/fem/expr_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 09b1c1c..1292e1c 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -112,12 +112,12 @@ namespace Ani{
         explicit Expr(const ExprT& f, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0): m_invoker{new ExprT(f)} {}
         template<typename ExprT>
         explicit Expr(ExprT&& f, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0): m_invoker{new ExprT(std::move(f))} {}
-        Expr(const Expr &other): m_invoker(other.m_invoker->makeCopy()) {} 
+        Expr(const Expr &other): m_invoker(other.m_invoker ? other.m_invoker->makeCopy() : nullptr) {} 
         Expr(Expr &&) = default;
         Expr() = default;
         explicit Expr(const std::shared_ptr<BaseExpr>& expr): m_invoker(std::move(expr->makeCopy())) {}
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
-        Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker->makeCopy(), *this; }
+        Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker ? f.m_invoker->makeCopy() : nullptr, *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
         template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
         Expr& operator=(const ExprT& x){ 
-- 
2.43.0


From 824f9ed67703fb9b9a47a92debdbbe7e7ff83c4a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 42/81] fix: Basis<FEM_P3> enumerated face functions in other
 order than dofs of the space

---
 anifem++/fem/spaces/poly_3.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/spaces/poly_3.h b/anifem++/fem/spaces/poly_3.h
index 74557ac..28405c1 100644
--- a/anifem++/fem/spaces/poly_3.h
+++ b/anifem++/fem/spaces/poly_3.h
@@ -185,12 +185,10 @@ namespace Ani{
                     *phi = 4.5 * lmb(j, 0) * lmb(k, 0) * (3*lmb(id, 0) - 1);
                     ++phi;
                 }   
-            for (int j = 0; j < 4; ++j)
-            for (int k = j+1; k < 4; ++k)
-                for (int l = k+1; l < 4; ++l){
-                    *phi = 27 * lmb(j, 0) * lmb(k, 0) * lmb(l, 0); 
-                    ++phi;
-                }
+            for (int j = 0; j < 4; ++j){
+                *phi = 27 * lmb(j, 0) * lmb((j+1)%4, 0) * lmb((j+2)%4, 0); 
+                ++phi;
+            }
         }
     };
 
-- 
2.43.0


From 93b6f76e1b1b6daeb9e5728c2128947c667d20eb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 43/81] fix: Basis<FEM_ND0> took columns instead of rows of
 gradients and read beyond the table of edges

---
 anifem++/fem/spaces/nedelec_0.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index 5a460fc..bd1147e 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -229,15 +229,15 @@ namespace Ani{
     struct Basis<FemFix<FEM_ND0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)}));
+            auto V = det3x3(vertcat({grad_lmb.row(0), grad_lmb.row(1), grad_lmb.row(2)}));
             static const unsigned char IPR[4*6] = {0,1,2,3, 0,2,3,1, 0,3,1,2, 1,2,0,3, 1,3,2,0, 2,3,0,1};
             for (int i = 0; i < 6; ++i){
-                auto l0 = grad_lmb.col(IPR[6*i+0]).T();
-                auto l1 = grad_lmb.col(IPR[6*i+1]).T();
-                auto l2 = grad_lmb.col(IPR[6*i+2]).T();
-                auto l3 = grad_lmb.col(IPR[6*i+3]).T();
+                auto l0 = grad_lmb.row(IPR[4*i+0]).T();
+                auto l1 = grad_lmb.row(IPR[4*i+1]).T();
+                auto l2 = grad_lmb.row(IPR[4*i+2]).T();
+                auto l3 = grad_lmb.row(IPR[4*i+3]).T();
                 auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[6*i+0], 0)*l1 - lmb(IPR[6*i+1], 0)*l0);
+                phi[i] = e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
-- 
2.43.0


From d4e1565b1cafd4702c1af1d4e950c2abdfe12f21 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 44/81] fix: Basis<FEM_RT0> took columns instead of rows of
 gradients and lost signs of functions

---
 anifem++/fem/spaces/raviant_thomas_0.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index 1d330b6..5e1ae3f 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,13 +236,16 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)})));
-            for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.col((i+3)%4))/V * (
-                        lmb((i+0)%4, 0)*cross( grad_lmb.col((i+1)%4).T(), grad_lmb.col((i+2)%4).T() ) + 
-                        lmb((i+1)%4, 0)*cross( grad_lmb.col((i+2)%4).T(), grad_lmb.col((i+0)%4).T() ) +
-                        lmb((i+2)%4, 0)*cross( grad_lmb.col((i+0)%4).T(), grad_lmb.col((i+1)%4).T() )
+            for (int i = 0; i < 4; ++i){
+                // edges from the opposite vertex to nodes of the face: x_a - x_o = cross(l_b, l_c) / det(l_a, l_b, l_c)
+                auto l0 = grad_lmb.row((i+0)%4), l1 = grad_lmb.row((i+1)%4), l2 = grad_lmb.row((i+2)%4);
+                auto V = det3x3(vertcat({l0, l1, l2}));
+                phi[i] = norm(grad_lmb.row((i+3)%4))/V * (
+                        lmb((i+0)%4, 0)*cross( l1.T(), l2.T() ) + 
+                        lmb((i+1)%4, 0)*cross( l2.T(), l0.T() ) +
+                        lmb((i+2)%4, 0)*cross( l0.T(), l1.T() )
                         ); 
+            }
         }
     };
 
-- 
2.43.0


From 5fdd430ae7cdd15cfdb634c12de15c02979a4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:56:53 +0000
Subject: [PATCH 45/81] fix: assignment of a backend value or pointer to Expr
 did not compile

---
 anifem++/fem/expr_interface.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 1292e1c..5f42e6a 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -119,7 +119,7 @@ namespace Ani{
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
         Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker ? f.m_invoker->makeCopy() : nullptr, *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const ExprT& x){ 
             if (m_invoker)
                 m_invoker->set_val(x);
@@ -127,9 +127,9 @@ namespace Ani{
                 m_invoker = std::move(x.makeCopy()); 
             return *this; 
         }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(std::shared_ptr<ExprT>&& x){ m_invoker = std::move(x); return *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const std::shared_ptr<ExprT>& x){ m_invoker = std::move(x->makeCopy()); return *this; }
         
         Expr& operator=(double x){ 
-- 
2.43.0


From 31ec287f399722a0c97be28ddade24c2be9bcca9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:07:57 +0000
Subject: [PATCH 46/81] fix: Tetra::normal_direction did not compile

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index eedb033..ecc82da 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -174,7 +174,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From baf43d9100aedd8f70edc49333d741371105fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 47/81] fix: fullPivLU left entries much smaller than the pivot
 undivided, spoiling the decomposition

---
 anifem++/fem/geometry.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index ecc82da..014a4b9 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -295,20 +295,15 @@ namespace Ani{
             std::swap(q[k], q[pj]);
             for (int i = 0; i < N; i++)
                 std::swap(A(i, k), A(i, pj));
-            Scalar max1 = 0.0;
-            for (int i = k+1; i < N; i++) 
-                max1 = std::max(max1, std::fabs(A(i, k)));    
             //END PIVOT
     
-            //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
-                for (int i = k+1; i < N; i++){
-                    //Column normalisation
-                    Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-                    for (int j = k+1; j < N; j++){
-                        //a(ik)*a(kj) subtracted from lower right submatrix elements
-                        A(i, j) -= (tmp * A(k, j));
-                    }
+            //decompose
+            for (int i = k+1; i < N; i++){
+                //Column normalisation
+                Scalar tmp = ( A(i,k) /= A(k,k) ) ;
+                for (int j = k+1; j < N; j++){
+                    //a(ik)*a(kj) subtracted from lower right submatrix elements
+                    A(i, j) -= (tmp * A(k, j));
                 }
             }
             //END DECOMPOSE
-- 
2.43.0


From d363a65554b56aac8909e6f9257341f7484f43e4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 48/81] fix: fullPivLU_inverse without Eigen destroyed the
 matrix before reading it when the result is stored in its place

---
 anifem++/fem/geometry.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 014a4b9..34b1a70 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -394,10 +394,16 @@ namespace Ani{
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
         Invm = Am.fullPivLu().inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
+        Scalar* Am = mem;
+        int *p = imem, *q = imem + N;
+        Scalar* Bm = mem + N*N;
+        std::copy(A, A + N*N, Am);
+        std::fill(Bm, Bm + N*N, 0);
         for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+            Bm[i+i*N] = 1;
+        for (int i = 0; i < N; ++i) p[i] = q[i] = i;
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From 95de6762a2f711a9f06028a2adfce251a1816b3a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 49/81] fix: householderQR without Eigen dropped columns of
 small matrices

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 34b1a70..7b3f93c 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -437,7 +437,7 @@ namespace Ani{
             for (int i = k; i < N; ++i)
                 norm += W(i, k) * W(i, k);
             norm = std::sqrt(norm);
-            if (norm <= std::numeric_limits<Scalar>::epsilon()){
+            if (norm == 0){
                 tau[k] = 0;
                 v[k] = 1;
                 for (int i = k + 1; i < N; ++i)
-- 
2.43.0


From cfc37a109aaca6c0283dc89871104a80db88d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 50/81] fix: eigenvalue tolerance of jacobiSVD did not follow
 the scale of the matrix

---
 anifem++/fem/geometry.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 7b3f93c..1e28795 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -504,14 +504,17 @@ namespace Ani{
                 for (int i = 0; i < n; ++i)
                     evecs[i + j*n] = (i == j) ? 1 : 0;
 
-            const Scalar tol = Scalar(10) * n * n * std::numeric_limits<Scalar>::epsilon();
+            Scalar scale = 0;
+            for (int i = 0; i < n*n; ++i)
+                scale = std::max(scale, std::fabs(sym[i]));
+            const Scalar tol = n * std::numeric_limits<Scalar>::epsilon() * scale;
             int err = 1;
             for (int sweep = 0; sweep < ANIFEM_JACOBI_MAX_SWEEPS; ++sweep){
                 Scalar off = 0;
                 for (int p = 0; p < n; ++p)
                     for (int q = p + 1; q < n; ++q)
                         off += sym[p + q*n] * sym[p + q*n];
-                if (off <= tol * tol){
+                if (std::sqrt(off) <= tol){
                     err = 0;
                     break;
                 }
@@ -519,7 +522,7 @@ namespace Ani{
                 for (int p = 0; p < n; ++p){
                     for (int q = p + 1; q < n; ++q){
                         Scalar apq = sym[p + q*n];
-                        if (std::fabs(apq) <= tol)
+                        if (n * std::fabs(apq) <= tol)
                             continue;
                         Scalar app = sym[p + p*n];
                         Scalar aqq = sym[q + q*n];
-- 
2.43.0


From 3a349b3ec72db5a9b61959cce4602af1326377a8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 51/81] fix: jacobiSVD without Eigen gave matrices that are not
 orthogonal for matrices of deficient rank or with more rows than columns

---
 anifem++/fem/geometry.h | 113 +++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 58 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 1e28795..6430803 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -575,12 +575,11 @@ namespace Ani{
             }
         }
 
+        /// Subtract from column j of q its components along the columns 0, ..., j-1
+        /// @return norm of the rest
         template<typename Scalar>
-        inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
-            const Scalar eps = std::numeric_limits<Scalar>::epsilon();
-            for (int j = n_done; j < n; ++j){
-                for (int i = 0; i < n; ++i)
-                    q[i + j*n] = (i == (j - n_done) % n) ? 1 : 0;
+        inline Scalar orthogonalize_col(Scalar* q, int n, int j){
+            for (int pass = 0; pass < 2; ++pass)
                 for (int c = 0; c < j; ++c){
                     Scalar dot = 0;
                     for (int i = 0; i < n; ++i)
@@ -588,31 +587,58 @@ namespace Ani{
                     for (int i = 0; i < n; ++i)
                         q[i + j*n] -= dot * q[i + c*n];
                 }
-                Scalar norm = 0;
-                for (int i = 0; i < n; ++i)
-                    norm += q[i + j*n] * q[i + j*n];
-                norm = std::sqrt(norm);
-                if (norm <= eps){
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] = (i == (j + 1) % n) ? 1 : 0;
-                    for (int c = 0; c < j; ++c){
-                        Scalar dot = 0;
-                        for (int i = 0; i < n; ++i)
-                            dot += q[i + c*n] * q[i + j*n];
-                        for (int i = 0; i < n; ++i)
-                            q[i + j*n] -= dot * q[i + c*n];
+            Scalar norm = 0;
+            for (int i = 0; i < n; ++i)
+                norm += q[i + j*n] * q[i + j*n];
+            return std::sqrt(norm);
+        }
+
+        /// Complete n_done orthonormal columns up to orthonormal basis
+        template<typename Scalar>
+        inline void complete_orthonormal_cols(Scalar* q, int n, int n_done){
+            for (int j = n_done; j < n; ++j){
+                // take the unit vector that is farthest from the span of the previous columns
+                int best = 0;
+                Scalar best_part = 2;
+                for (int i = 0; i < n; ++i){
+                    Scalar part = 0;
+                    for (int c = 0; c < j; ++c)
+                        part += q[i + c*n] * q[i + c*n];
+                    if (part < best_part){
+                        best_part = part;
+                        best = i;
                     }
-                    norm = 0;
-                    for (int i = 0; i < n; ++i)
-                        norm += q[i + j*n] * q[i + j*n];
-                    norm = std::sqrt(norm);
                 }
-                if (norm > eps)
-                    for (int i = 0; i < n; ++i)
-                        q[i + j*n] /= norm;
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] = (i == best) ? 1 : 0;
+                Scalar norm = orthogonalize_col(q, n, j);
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] /= norm;
             }
         }
 
+        /// Set orthonormal n x n matrix q which j-th column is directed as B * vecs_j if this vector is not negligible
+        /// for n x m matrix B(i, t) = a[i*si + t*st], where columns vecs_j correspond to decreasing norms of B * vecs_j
+        template<typename Scalar>
+        inline void orthonormal_images(const Scalar* a, int si, int st, int n, int m, const Scalar* vecs, Scalar largest, Scalar* q){
+            int rank = 0;
+            for (int j = 0; j < m; ++j){
+                for (int i = 0; i < n; ++i){
+                    Scalar sum = 0;
+                    for (int t = 0; t < m; ++t)
+                        sum += a[i*si + t*st] * vecs[t + j*m];
+                    q[i + j*n] = sum;
+                }
+                Scalar norm = orthogonalize_col(q, n, j);
+                if (!(norm > n * std::numeric_limits<Scalar>::epsilon() * largest))
+                    break;
+                for (int i = 0; i < n; ++i)
+                    q[i + j*n] /= norm;
+                ++rank;
+            }
+            complete_orthonormal_cols(q, n, rank);
+        }
+
         template<typename Scalar>
         inline void gram_ata(const Scalar* a, int n, int m, Scalar* g){
             for (int j = 0; j < m; ++j){
@@ -673,7 +699,6 @@ namespace Ani{
         }
         return 0;
 #else
-        const Scalar eps = std::numeric_limits<Scalar>::epsilon();
         Scalar* gram = mem;
         Scalar* evecs_buf = mem + K*K;
         Scalar* eval = mem + 2*K*K;
@@ -687,22 +712,8 @@ namespace Ani{
             for (int i = 0; i < K; ++i)
                 S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
 
-            if (U != nullptr){
-                for (int j = 0; j < M; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < N; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < M; ++t)
-                                sum += A[i + t*N] * evecs[t + j*M];
-                            U[i + j*N] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < N; ++i)
-                            U[i + j*N] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(U, N, M);
-            }
+            if (U != nullptr)
+                detail::orthonormal_images(A, 1, N, N, M, evecs, S[0], U);
         } else {
             detail::gram_aat(A, N, M, gram);
             Scalar* evecs = (U != nullptr) ? U : evecs_buf;
@@ -712,22 +723,8 @@ namespace Ani{
             for (int i = 0; i < K; ++i)
                 S[i] = std::sqrt(std::max(Scalar(0), eval[i]));
 
-            if (V != nullptr){
-                for (int j = 0; j < N; ++j){
-                    if (S[j] > eps){
-                        for (int i = 0; i < M; ++i){
-                            Scalar sum = 0;
-                            for (int t = 0; t < N; ++t)
-                                sum += A[t + i*N] * evecs[t + j*N];
-                            V[i + j*M] = sum / S[j];
-                        }
-                    } else {
-                        for (int i = 0; i < M; ++i)
-                            V[i + j*M] = 0;
-                    }
-                }
-                detail::complete_orthonormal_cols(V, M, N);
-            }
+            if (V != nullptr)
+                detail::orthonormal_images(A, N, 1, M, N, evecs, S[0], V);
         }
         return 0;
 #endif
-- 
2.43.0


From 03e719978fb8661be5317e1b3afe10f1d0e21724 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 52/81] fix: BiSymTensor4Rank of dimension other than 3 did not
 compile

---
 anifem++/autodiff/physical_tensors.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..c26463b 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -430,9 +430,9 @@ struct BiSymTensor4Rank{
         return Index(ti.i, ti.j, tj.i, tj.i); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
-- 
2.43.0


From 901a7e875300e4d1094a9543c1829b91d4b6999d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 53/81] fix: BiSymTensor4Rank::index lost the last index in
 dimensions other than 3

---
 anifem++/autodiff/physical_tensors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index c26463b..bfaa5f3 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,7 +427,7 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
         auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
-- 
2.43.0


From 4e01954ef9341adeda29d86f43ee7b58f5d041ba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 54/81] fix: power of a number by a parameter did not compile

---
 anifem++/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..f9758c8 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -212,7 +212,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec);
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 FuncVal<EX1> hypot(::std::initializer_list<EX1> vec){ return hypot(vec.begin(), vec.size()); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
-FuncVal<EX1> pow(typename EX1::Storage::ValueType a, EX1 q) { return pow(_EXParam<EX1>(a), q); }
+auto pow(typename EX1::Storage::ValueType a, EX1 q) { return pow(_EXParam<EX1>(a), q); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 FuncVal<EX1> sq(EX1 a);
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-- 
2.43.0


From cd031a1e4f7b18df7f18fec0fc56261eaeea5824 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 55/81] fix: Hessian of a quotient lost the square of the
 gradient of the denominator when it is a variable

---
 anifem++/autodiff/autodiff.h   | 11 +++++++++--
 anifem++/autodiff/autodiff.inl | 15 +++++----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index f9758c8..ed281d3 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,13 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;  
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +183,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +202,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+DivVal<_EXParam<EX1>, EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..2a1196b 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -154,17 +154,12 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
         }
     }
     HT r;
-    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
-        (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
-        && dif >= 2){
-        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
+    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv) && dif >= 2){
+        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
-            auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
-        }
+        CONSTIF (EX2::State::NotTrivialDeriv ) r += (2 * av / (bv * bv * bv)) * HT::TensorSquare(bm);
+        CONSTIF (EX2::State::NotTrivialSecondDeriv ) r -= (av / (bv * bv)) * b.DD();
     }
     return {dif, v, m, r};
 }
-- 
2.43.0


From 8d46030373da0fa25f0522184e38fb459f6a30cf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 56/81] fix: derivatives of a real power were not numbers at
 zero

---
 anifem++/autodiff/autodiff.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 2a1196b..d51605a 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -173,17 +173,20 @@ FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q){
     auto v = EX1::Storage::MathOps::pow(av, q);
     CONSTIF (!EX1::State::NotTrivialDeriv)
         return {dif, v, GT(), HT()};
+    VT vm1 = VT(0);
     GT am, m;
     CONSTIF (EX1::State::NotTrivialDeriv)
         if (dif >= 1){
             am = a.D();
-            m = (q * v / av) * am;
+            vm1 = (q == 1) ? VT(1) : ((av != VT(0)) ? q * v / av : q * EX1::Storage::MathOps::pow(av, q - 1));
+            m = vm1 * am;
         }    
     HT r;
     if (dif >= 2){
-        r += (av != VT(0) ? q * (q - 1) * v / (av*av) : VT(0)) * HT::TensorSquare(am);
+        if (q != 1)
+            r += ((av != VT(0)) ? q * (q - 1) * v / (av*av) : q * (q - 1) * EX1::Storage::MathOps::pow(av, q - 2)) * HT::TensorSquare(am);
         CONSTIF (EX1::State::NotTrivialSecondDeriv )
-            r += (av != VT(0) ? q * v / av : VT(0)) * a.DD();    
+            r += vm1 * a.DD();    
     } 
     return {dif, v, m, r};
 }
-- 
2.43.0


From 42c1510dec76475d8dd07b081c50202c592d8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:30:22 +0000
Subject: [PATCH 57/81] fix: hypot kept the sign of a single argument and took
 the order of differentiation from the first one

---
 anifem++/autodiff/autodiff.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index d51605a..ab6d9c0 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -340,14 +340,17 @@ template<typename EX1, typename ADCheck1<EX1>::type* Dummy>
 FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     using VT = typename EX1::Storage::ValueType; using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     if (nvec == 0) return FuncVal<EX1>();
-    if (nvec == 1) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+    if (nvec == 1) {
+        if (vec[0]() >= VT(0)) return FuncVal<EX1>(vec[0].m_dif, vec[0](), vec[0].D(), vec[0].DD());
+        return FuncVal<EX1>(vec[0].m_dif, -vec[0](), -vec[0].D(), -vec[0].DD());
+    }
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
         v2 = std::accumulate(vec, vec+nvec, 0.0, [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
         v = EX1::Storage::MathOps::sqrt(v2);
     }
-    unsigned char dif = vec[0].m_dif;
+    unsigned char dif = std::max_element(vec, vec+nvec, [](const EX1& a, const EX1& b) { return a.m_dif < b.m_dif; })->m_dif;
     GT m;
     HT r;
     CONSTIF (EX1::State::NotTrivialDeriv){
-- 
2.43.0


From 869f761b9c83e39630ce69e51f0501c51d4f2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 58/81] fix: determinants of large, small or symmetric matrices
 lost the elimination of off-diagonal elements

---
 anifem++/autodiff/physical_tensors.inl | 62 ++++++--------------------
 1 file changed, 14 insertions(+), 48 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 38d09ed..3844295 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -329,66 +329,32 @@ namespace Ani{
     template<std::size_t N, typename FT>
     FT PhysMtx<N, FT>::Det() const {
         using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
         PhysMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
+        std::array<bool, N> row_visited;
+        std::fill(row_visited.begin(), row_visited.end(), false);
         FT ret(1);
         for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
+            // find unvisited row with largest value in column d
+            std::size_t r = N;
+            for (std::size_t i = 0; i < N; ++i)
+                if (!row_visited[i] && (r == N || abs(A(i, d)) > abs(A(r, d)))) r = i;
+            if (A(r, d) == FT()) return FT();
             int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
+            for (std::size_t i = 0; i < r; ++i)
+                if (!row_visited[i]) sign *= -1;
+            row_visited[r] = true;
             ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
+            for (std::size_t i = 0; i < N; ++i) if(!row_visited[i]) {
                 FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = 0; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
+                for (std::size_t j = d; j < N; ++j)
+                    A(i, j) = A(i, j) - coef * A(r, j);
             }
         }
         return ret;
     }
 
     template<std::size_t N, typename FT>
-    FT SymMtx<N, FT>::Det() const {
-        using std::abs;
-        FT max_val = abs(*std::max_element(cbegin(), cend(), [](const auto& a, const auto& b){ return abs(a) < abs(b); }));
-        const FT eps = 100 * max_val * std::numeric_limits<FT>::epsilon();
-
-        SymMtx<N, FT> A(*this);
-        std::array<std::size_t, N> row_visited;
-        const auto NOT_VISITED = std::numeric_limits<std::size_t>::max();
-        std::fill(row_visited.begin(), row_visited.end(), NOT_VISITED);
-        FT ret(1);
-        for (std::size_t d = 0; d < N; ++d) {
-            std::size_t r = 0;
-            int sign = 1;
-            // find unvisited row with non-zero value in column d
-            while(row_visited[r] != NOT_VISITED || abs(A(r, d)) < eps){
-                if (r == N-1) return FT();
-                if (row_visited[r] == NOT_VISITED) sign *= -1;
-                ++r;
-            }
-            row_visited[r] = d;
-            ret *= sign * A(r, d);
-            for (std::size_t i = 0; i < N; ++i) if(row_visited[i] == NOT_VISITED) {
-                FT coef = A(i, d) / A(r, d);
-                if(abs(coef) > eps)
-                    for (std::size_t j = i; j < N; ++j)
-                        A(i, j) = A(i, j) - coef * A(r, j);
-            }
-        }
-        return ret;
-    }
+    FT SymMtx<N, FT>::Det() const { return PhysMtx<N, FT>(*this).Det(); }
     template<std::size_t N, typename FT>
     inline PhysMtx<N, FT> PhysMtx<N, FT>::TensorSymMul2(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s){
         PhysMtx<N, FT> r;
-- 
2.43.0


From c8128aba677e1df5231807747c0e9a82c75f98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 59/81] fix: tensor iterators wrapped around after 127 elements

---
 anifem++/autodiff/physical_tensors.h      | 12 ++++++------
 anifem++/autodiff/physical_tensors_3d.inl |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index bfaa5f3..326e48f 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -107,8 +107,8 @@ struct SymMtx{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -335,8 +335,8 @@ struct SymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -471,8 +471,8 @@ struct BiSymTensor4Rank{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 860e0df..8424d95 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -68,8 +68,8 @@ struct SymMtx<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
@@ -491,8 +491,8 @@ struct BiSymTensor4Rank<3, FT>{
         bool operator !=(const  mtx_iterator & other) const { return !operator==(other); }
         reference operator*() const { return val[contiguous_index]; }
         pointer operator ->() const { return val + contiguous_index; }
-        reference operator[](difference_type n) const { return val[static_cast<char>(contiguous_index) + n]; }
-        difference_type operator-(const mtx_iterator & other) const { return static_cast<char>(contiguous_index) - static_cast<char>(other.contiguous_index); }
+        reference operator[](difference_type n) const { return val[static_cast<difference_type>(contiguous_index) + n]; }
+        difference_type operator-(const mtx_iterator & other) const { return static_cast<difference_type>(contiguous_index) - static_cast<difference_type>(other.contiguous_index); }
         mtx_iterator& operator+=(difference_type n) { contiguous_index += n; return *this; } 
         mtx_iterator& operator-=(difference_type n) { contiguous_index -= n; return *this; }
         mtx_iterator  operator+ (difference_type n) const { mtx_iterator other = *this; other += n; return other; }
-- 
2.43.0


From e3343b92b603f1931d6f910c640a7ec6ab25ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 60/81] fix: product of constant matrices did not compile

---
 anifem++/autodiff/physical_tensors.h      | 4 ++--
 anifem++/autodiff/physical_tensors.inl    | 4 ++--
 anifem++/autodiff/physical_tensors_3d.inl | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 326e48f..9463285 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -157,7 +157,7 @@ struct SymMtx{
     static SymMtx<N, FT> Identity(FT val = FT(1)) { SymMtx<N, FT> r; for (std::size_t i = 0; i < N; ++i) r(i, i) = val; return r;}
     /// @brief Matrix product
     /// @return m = this * a
-    inline SymMtx<N, FT> operator*(const SymMtx<N, FT>& a);
+    inline SymMtx<N, FT> operator*(const SymMtx<N, FT>& a) const;
     SymMtx<N, FT> Transpose() const { return *this; }
     
     inline SymMtx<N, FT>& operator+=(const SymMtx<N, FT>& a){ for (std::size_t i = 0; i < continuous_size(); ++i) m_dat[i] += a[i]; return *this; }
@@ -217,7 +217,7 @@ struct PhysMtx{
     inline PhysArr<N, FT> Mul(const PhysArr<N, FT>& v) const;
     inline FT Dot(const PhysMtx<N, FT>& b) const;
     inline FT Dot(const PhysArr<N, FT>& f, const PhysArr<N, FT>& s) const;
-    inline PhysMtx<N, FT> operator*(const PhysMtx<N, FT>& a);
+    inline PhysMtx<N, FT> operator*(const PhysMtx<N, FT>& a) const;
     static PhysMtx<N, FT> Identity(FT val = FT(1)) { PhysMtx<N, FT> r; for (std::size_t i = 0; i < N; ++i) r(i, i) = val; return r;}
     PhysMtx<N, FT> Transpose() const { return PhysMtx<N, FT>(m_dat.data(), false); }
     
diff --git a/anifem++/autodiff/physical_tensors.inl b/anifem++/autodiff/physical_tensors.inl
index 3844295..688bdbf 100644
--- a/anifem++/autodiff/physical_tensors.inl
+++ b/anifem++/autodiff/physical_tensors.inl
@@ -297,7 +297,7 @@ namespace Ani{
         return r;    
     }
     template<std::size_t N, typename FT>
-    PhysMtx<N, FT> PhysMtx<N, FT>::operator*(const PhysMtx<N, FT>& a){
+    PhysMtx<N, FT> PhysMtx<N, FT>::operator*(const PhysMtx<N, FT>& a) const {
         PhysMtx<N, FT> r{};
         for (std::size_t i = 0; i < N; ++i)
         for (std::size_t j = 0; j < N; ++j)
@@ -306,7 +306,7 @@ namespace Ani{
         return r;    
     }
     template<std::size_t N, typename FT>
-    SymMtx<N, FT> SymMtx<N, FT>::operator*(const SymMtx<N, FT>& a){
+    SymMtx<N, FT> SymMtx<N, FT>::operator*(const SymMtx<N, FT>& a) const {
         SymMtx<N, FT> r{};
         for (std::size_t i = 0; i < N; ++i)
         for (std::size_t j = i; j < N; ++j)
diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 8424d95..1935d34 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -119,7 +119,7 @@ struct SymMtx<3, FT>{
     static SymMtx<3, FT> Identity(FT val = FT(1)) { SymMtx<3, FT> r; r[0] = r[3] = r[5] = val; return r; }
     /// @brief Matrix product
     /// @return m = this * a
-    inline SymMtx<3, FT> operator*(const SymMtx<3, FT>& a);
+    inline SymMtx<3, FT> operator*(const SymMtx<3, FT>& a) const;
     SymMtx<3, FT> Transpose() const { return *this; }
     
     inline SymMtx<3, FT>& operator+=(const SymMtx<3, FT>& a){ for (std::size_t i = 0; i < continuous_size(); ++i) m_dat[i] += a[i]; return *this; }
@@ -201,7 +201,7 @@ inline FT SymMtx<3, FT>::Dot(const PhysArr<3, FT>& f, const PhysArr<3, FT>& s) c
             + a[1]*(f[1]*s[0] + f[0]*s[1]) + a[2]*(f[2]*s[0] + f[0]*s[2]) + a[4]*(f[2]*s[1] + f[1]*s[2]);
 }
 template<typename FT>
-inline SymMtx<3, FT> SymMtx<3, FT>::operator*(const SymMtx<3, FT>& a){
+inline SymMtx<3, FT> SymMtx<3, FT>::operator*(const SymMtx<3, FT>& a) const {
     auto& b = *this;
     SymMtx<3, FT> r;
     r(0,0) = b(0,0)*a(0,0) + b(0,1)*a(1,0) + b(0,2)*a(2,0);
@@ -272,7 +272,7 @@ struct PhysMtx<3, FT>{
     inline PhysArr<3, FT> Mul(const PhysArr<3, FT>& v) const;
     inline FT Dot(const PhysMtx<3, FT>& b) const;
     inline FT Dot(const PhysArr<3, FT>& f, const PhysArr<3, FT>& s) const;
-    inline PhysMtx<3, FT> operator*(const PhysMtx<3, FT>& a);
+    inline PhysMtx<3, FT> operator*(const PhysMtx<3, FT>& a) const;
     static PhysMtx<3, FT> Identity(FT val = FT(1)) { PhysMtx<3, FT> r; for (std::size_t i = 0; i < 3; ++i) r(i, i) = val; return r;}
     PhysMtx<3, FT> Transpose() const { return PhysMtx<3, FT>(m_dat.data(), false); }
     
@@ -394,7 +394,7 @@ inline FT PhysMtx<3, FT>::Dot(const PhysArr<3, FT>& f, const PhysArr<3, FT>& s)
     return r;    
 }
 template<typename FT>
-inline PhysMtx<3, FT> PhysMtx<3, FT>::operator*(const PhysMtx<3, FT>& a){
+inline PhysMtx<3, FT> PhysMtx<3, FT>::operator*(const PhysMtx<3, FT>& a) const {
     const auto& m = *this;
     PhysMtx<3, FT> r;
     for(int i = 0; i < 3; ++i)
-- 
2.43.0


From 4b1211e84dffe0898f7c8557e313dd465f460cab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 61/81] fix: second derivatives of strain invariants did not
 compile for other types than double

---
 anifem++/autodiff/cauchy_strain_invariants.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 34c7483..1bfb0aa 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -51,7 +51,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I1_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I1_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I1_ddE<FT>(); }
 
         /// @return I2(C) = (tr(C)^2 - tr(C^2)) / 2
         template<typename FT = double>
@@ -63,7 +63,7 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I2_ddE();
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I2_ddE(const SymMtx3D<FT>& E) { (void) E; return C_I2_ddE<FT>(); }
 
         /// @return I3(C) = det(C)
         template<typename FT = double>
@@ -97,9 +97,9 @@ namespace Ani{
         template<typename FT = double>
         inline BiSym4Tensor3D<FT> C_I4fs_ddE() { return BiSym4Tensor3D<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(std::array<FT, 3> f, std::array<FT, 3> s) { (void) f, (void) s; return C_I4fs_ddE<FT>(); }
         template<typename FT = double>
-        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE(); }
+        inline BiSym4Tensor3D<FT> C_I4fs_ddE(const SymMtx3D<FT>& E, std::array<FT, 3> f, std::array<FT, 3> s) { (void) E, (void) f, (void) s; return C_I4fs_ddE<FT>(); }
     
         /// @return I5fs(C) = f^T*C^2*s
         template<typename FT = double>
-- 
2.43.0


From b5e6fcb2707a5d4d6334bde58f0e2be8ef025de4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 62/81] fix: J(C) used the double precision root and did not
 compile after autodiff.h

---
 anifem++/autodiff/cauchy_strain_invariants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/cauchy_strain_invariants.h b/anifem++/autodiff/cauchy_strain_invariants.h
index 1bfb0aa..9610e1f 100644
--- a/anifem++/autodiff/cauchy_strain_invariants.h
+++ b/anifem++/autodiff/cauchy_strain_invariants.h
@@ -77,7 +77,7 @@ namespace Ani{
 
         /// @return J(C) = sqrt(det(C)) = det(F)
         template<typename FT = double>
-        inline FT C_J(const SymMtx3D<FT>& E) { return sqrt(C_I3(E)); }
+        inline FT C_J(const SymMtx3D<FT>& E) { using std::sqrt; return sqrt(C_I3(E)); }
         /// @return S_J = d (J(C)) / d E_{ij}
         template<typename FT = double>
         inline SymMtx3D<FT> C_J_dE(const SymMtx3D<FT>& E) { return (SymMtx3D<FT>::Identity()+2*E).Adj() / C_J(E); }
-- 
2.43.0


From eafd75f36d11d27588e56757253f0036f67a3427 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 63/81] fix: Dot of 3x3 matrices accumulated in double

---
 anifem++/autodiff/physical_tensors_3d.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index 1935d34..bd2791f 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -380,14 +380,14 @@ inline PhysArr<3, FT> PhysMtx<3, FT>::Mul(const PhysArr<3, FT>& v) const {
 }
 template<typename FT>
 inline FT PhysMtx<3, FT>::Dot(const PhysMtx<3, FT>& b) const {
-    double r = 0;
+    FT r = FT(0);
     for(unsigned i = 0; i < 9; ++i)
         r += m_dat[i] * b.m_dat[i];
     return r;    
 }
 template<typename FT>
 inline FT PhysMtx<3, FT>::Dot(const PhysArr<3, FT>& f, const PhysArr<3, FT>& s) const {
-    double r = 0;
+    FT r = FT(0);
     for(int i = 0; i < 3; ++i)
     for(int j = 0; j < 3; ++j)
         r += f[i]*s[j] * operator()(i,j);
-- 
2.43.0


From a3c85f82f56c62f4fa0320d33d0a6ce148ee2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 64/81] fix: symmetric 3x3 matrices lacked the constructor from
 a lower triangle

---
 anifem++/autodiff/physical_tensors_3d.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/autodiff/physical_tensors_3d.inl b/anifem++/autodiff/physical_tensors_3d.inl
index bd2791f..130e826 100644
--- a/anifem++/autodiff/physical_tensors_3d.inl
+++ b/anifem++/autodiff/physical_tensors_3d.inl
@@ -45,6 +45,7 @@ struct SymMtx<3, FT>{
 
     SymMtx() = default;
     explicit SymMtx(std::array<FT, 3*(3+1)/2> arr): m_dat{std::move(arr)} {}
+    SymMtx(std::array<FT, 3*(3+1)/2> arr, bool row_major_upper_triag_mtx): m_dat{std::move(arr)} { if (!row_major_upper_triag_mtx) std::swap(m_dat[2], m_dat[3]); }
 
     template <typename DataType = FT>
     struct mtx_iterator{
-- 
2.43.0


From f5e60842ad876e57cf403d1210484739ae29ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:47:44 +0000
Subject: [PATCH 65/81] fix: norms of bisymmetric tensors of size 2 did not
 compile

---
 anifem++/autodiff/physical_tensors.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 9463285..cd5269e 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -443,10 +443,12 @@ struct BiSymTensor4Rank{
     constexpr std::size_t rank() const { return 4U; }
     constexpr std::size_t continuous_size() const { return N*(N+1)/2 * (N*(N+1)/2 + 1) / 2; }
     constexpr std::size_t index_duplication(std::size_t continuous_index) const { 
-        constexpr typename SymMtx<N*(N+1)/2, FT>::IndexMap a{}; 
-        constexpr typename SymMtx<N, FT>::IndexMap b{};
-        auto q = typename SymMtx<N*(N+1)/2, FT>::Index{a.imap[continuous_index], a.jmap[continuous_index]};
-        return (a.imap[continuous_index] != a.jmap[continuous_index] ? 2 : 1) * (b.imap[q.i] != b.jmap[q.i] ? 2 : 1) * (b.imap[q.j] != b.jmap[q.j] ? 2 : 1);
+        const std::size_t M = N*(N+1)/2;
+        std::size_t I = 0, J = continuous_index;
+        for (; J >= M - I; ++I) J -= M - I;
+        J += I;
+        const SymMtx<N, FT> m;
+        return (I != J ? 2 : 1) * m.index_duplication(I) * m.index_duplication(J);
     }
 
     template <typename DataType = FT>
-- 
2.43.0


From 043c03876d7425af883f36769578ffe121cea9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:31:05 +0000
Subject: [PATCH 66/81] fix: printing a matrix without columns read past its
 data

---
 anifem++/fem/fem_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 10c7e63..9110539 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -124,7 +124,7 @@ namespace Ani{
         oss << std::setprecision(std::numeric_limits<ScalarType>::digits10) << std::scientific;
         auto sign_shift = [](auto x) { return (x >= 0) ? " " : ""; };
         for (std::size_t i = 0; i < nRow; ++i){
-            for (std::size_t j = 0; j < nCol-1; ++j){
+            for (std::size_t j = 0; j + 1 < nCol; ++j){
                 const auto& val = (*this)(i, j);
                 oss << sign_shift(val) << val << val_sep;
             }
-- 
2.43.0


From d647ac95c70310f9f4101373704a42c7e8cb2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 67/81] fix: hypot of three and more values was accumulated in
 double

---
 anifem++/autodiff/autodiff.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index ab6d9c0..a873583 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -347,7 +347,7 @@ FuncVal<EX1> hypot(const EX1* vec, ::std::size_t nvec){
     VT v = VT(0), v2 = VT(0);
     if (nvec == 2) v = EX1::Storage::MathOps::hypot(vec[0](), vec[1]()), v2 = vec[0]()*vec[0]() + vec[1]()*vec[1]();
     else {
-        v2 = std::accumulate(vec, vec+nvec, 0.0, [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
+        v2 = std::accumulate(vec, vec+nvec, VT(0), [](VT sum, const EX1& ex) { return sum + ex()*ex(); });
         v = EX1::Storage::MathOps::sqrt(v2);
     }
     unsigned char dif = std::max_element(vec, vec+nvec, [](const EX1& a, const EX1& b) { return a.m_dif < b.m_dif; })->m_dif;
-- 
2.43.0


From ef2607317faf3507f9adb04e083f6c980f6cee14 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 68/81] fix: plain iteration over a nested dof map mixed
 indices of the part with numbers of the enclosing map

---
 anifem++/fem/tetdofmap.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 0e593bb..7544ae9 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -377,8 +377,9 @@ namespace Ani{
         protected: 
             mutable LocalOrder ord;
             const BaseDofMap* map = nullptr;
+            uint pos = 0; ///< index in the map, for nested maps it differs from the reported index ord.gid
             DofIterator() = default;
-            DofIterator(const BaseDofMap* map, LocalOrder ord): ord{ord}, map{map} {} 
+            DofIterator(const BaseDofMap* map, LocalOrder ord): ord{ord}, map{map}, pos{ord.gid} {} 
         public: 
             typedef std::random_access_iterator_tag  iterator_category;
             typedef LocalOrder value_type;
@@ -386,31 +387,31 @@ namespace Ani{
             typedef const LocalOrder* pointer;
             typedef LocalOrder reference;
 
-            DofIterator& operator ++() { ++ord.gid; BrokeGeomOrd(); return *this; }
+            DofIterator& operator ++() { ++pos; BrokeGeomOrd(); return *this; }
             DofIterator  operator ++(int) {DofIterator ret(*this); operator++(); return ret;}
-            DofIterator& operator --() { --ord.gid; BrokeGeomOrd(); return *this; }
+            DofIterator& operator --() { --pos; BrokeGeomOrd(); return *this; }
             DofIterator  operator --(int) {DofIterator ret(*this); operator--(); return ret;}
-            bool operator ==(const DofIterator & b) const { return ord.gid == b.ord.gid; }
+            bool operator ==(const DofIterator & b) const { return pos == b.pos; }
             bool operator !=(const  DofIterator & other) const { return !operator==(other); }
             reference operator*() const { if (!isOrdValid()) RepairGeomOrd(); return ord; }
             pointer operator ->() const { if (!isOrdValid()) RepairGeomOrd(); return &ord; }
             reference operator[](difference_type n) const { return *(*this + n); }
-            difference_type operator-(const  DofIterator & other) const { return ord.gid - other.ord.gid; }
-            DofIterator& operator+=(difference_type n) { ord.gid += n; BrokeGeomOrd(); return *this; } 
-            DofIterator& operator-=(difference_type n) { ord.gid -= n; BrokeGeomOrd(); return *this; }
+            difference_type operator-(const  DofIterator & other) const { return pos - other.pos; }
+            DofIterator& operator+=(difference_type n) { pos += n; BrokeGeomOrd(); return *this; } 
+            DofIterator& operator-=(difference_type n) { pos -= n; BrokeGeomOrd(); return *this; }
             DofIterator  operator+ (difference_type n) const { DofIterator other = *this; other += n; return other; }
             DofIterator  operator- (difference_type n) const { DofIterator other = *this; other -= n; return other; }
             friend DofIterator  operator+(difference_type n, const DofIterator& a) { return a+n; }
-            bool operator< (const  DofIterator & other) const { return ord.gid <  other.ord.gid; }
-            bool operator> (const  DofIterator & other) const { return ord.gid >  other.ord.gid; }
-            bool operator<=(const  DofIterator & other) const { return ord.gid <= other.ord.gid; }
-            bool operator>=(const  DofIterator & other) const { return ord.gid >= other.ord.gid; }
+            bool operator< (const  DofIterator & other) const { return pos <  other.pos; }
+            bool operator> (const  DofIterator & other) const { return pos >  other.pos; }
+            bool operator<=(const  DofIterator & other) const { return pos <= other.pos; }
+            bool operator>=(const  DofIterator & other) const { return pos >= other.pos; }
             const BaseDofMap* MapLink() const { return map; }
             friend class BaseDofMap; 
         private:
             void BrokeGeomOrd(){ ord.etype = UNDEF; }
             bool isOrdValid() const { return ord.etype != UNDEF; }
-            void RepairGeomOrd() const { assert(map->isValidIndex(ord.getTetOrder()) && "Tet index is not valid"); auto tgid = ord.gid; ord = map->LocalOrderOnTet(ord.getTetOrder()); ord.gid = tgid; }
+            void RepairGeomOrd() const { assert(map->isValidIndex(TetOrder(pos)) && "Tet index is not valid"); ord = map->LocalOrderOnTet(TetOrder(pos)); }
         };
 
         struct NestedDofMapBase: public BaseDofMap{
-- 
2.43.0


From 9a48382546e1ad19ed89d3d188863116505217cb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 69/81] fix: position of the degree of freedom of FEM_P0 was
 added to what the output held

---
 anifem++/fem/operators.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index cab077d..00724d9 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -732,6 +732,7 @@ namespace Ani{
         static inline void at(int odf, const ScalarType *nodes, ScalarType *coord){
             assert(odf == 0 && "FEM_P0 have only 1 odf");
             (void) odf;
+            std::fill(coord, coord + 3, ScalarType(0));
             for (int i = 0; i < 4; ++i)
                 for (int k = 0; k < 3; ++k)
                     coord[k] += nodes[3 * i + k];
-- 
2.43.0


From 2149386a0328c396158e15454bf1e70dcbf43dfd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 70/81] fix: positions of the face degrees of freedom of FEM_P3
 came in the order of other faces

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 00724d9..9294fe0 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -774,8 +774,8 @@ namespace Ani{
             if (odf < 4)
                 std::copy(nodes + 3 * odf, nodes + 3 * odf + 3, coord);
             else if (odf >= 16) {
-                odf -= 15;
-                int i1 = (odf == 4), i2 = 1 + (odf > 2), i3 = 3 - (odf == 1);
+                odf -= 16;
+                int i1 = odf, i2 = (odf + 1) % 4, i3 = (odf + 2) % 4;
                 for (int i = 0; i < 3; ++i)
                     coord[i] = (nodes[3 * i1 + i] + nodes[3 * i2 + i] + nodes[3 * i3 + i]) / 3;
             } else {
-- 
2.43.0


From 0cc0e6e33a4216b71b6966aa8627965a2a12ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 71/81] fix: positions of the degrees of freedom of FEM_CR1
 were the ones of the next faces

---
 anifem++/fem/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 9294fe0..1ba2925 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -798,7 +798,7 @@ namespace Ani{
         template<typename ScalarType = double>
         static inline void at(int odf, const ScalarType  *nodes, ScalarType  *coord){
             for (int i = 0; i < 3; ++i)
-                coord[i] = (nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)] + nodes[i + 3*((odf + 3) % 4)]) / 3;
+                coord[i] = (nodes[i + 3*odf] + nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)]) / 3;
         }
     };
 
-- 
2.43.0


From 44d024ab35ae31ceade0b51704d68b073af43531 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 72/81] fix: positions of degrees of freedom of composite and
 union types did not compile

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 1ba2925..dc2a946 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -844,7 +844,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
@@ -874,7 +874,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
-- 
2.43.0


From 148cdc48ecf0ec6b0c4905f3f9c020aa8ec94fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:54:13 +0000
Subject: [PATCH 73/81] fix: a sparse pattern view announced as many entries as
 the full matrix has

---
 anifem++/inmost_interface/func_wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 8d46bee..3260572 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -45,7 +45,7 @@ namespace Ani{
         template<typename RandAccBoolIter, typename TVal = bool>
         void fillTemplate(RandAccBoolIter beg) const;
         static MatSparsityView<Int> make_as_dense(Int sz1, Int sz2) { return MatSparsityView<Int>(DENSE, sz1*sz2, sz1, sz2, nullptr, nullptr); }
-        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, sz1*sz2, sz1, sz2, colind, row); }
+        static MatSparsityView<Int> make_as_sparse(Int nnz, Int sz1, Int sz2, const Int* colind, const Int* row) { return MatSparsityView<Int>(SPARSE_CSC, nnz, sz1, sz2, colind, row); }
     };
 
     template <typename TInt = long>
-- 
2.43.0


From de173e2d4dd7f578f56d08d369401caa4b65efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:54:14 +0000
Subject: [PATCH 74/81] fix: assigning an elemental function mixed up the sizes
 of its work memory

---
 anifem++/inmost_interface/func_wrap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6b6a076..6dad0bf 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -118,7 +118,7 @@ namespace Ani{
         if (this == &a) return *this;
         m_sp_in = a.m_sp_in, m_sp_out = a.m_sp_out;
         m_f = a.m_f; 
-        m_sz_w = a.m_sz_w, m_sz_w = a.m_sz_iw; 
+        m_sz_w = a.m_sz_w, m_sz_iw = a.m_sz_iw; 
         m_user_data_required = a.m_user_data_required, m_dyn_mem_required = a.m_dyn_mem_required;
         return *this;
     }
-- 
2.43.0


From c96c1ac179dc79afe6f5c9d6a974337ab88b780b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:54:14 +0000
Subject: [PATCH 75/81] fix: in-place packing of a matrix by its pattern did
 not compile

---
 anifem++/inmost_interface/func_wrap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 3260572..511ac91 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -38,7 +38,7 @@ namespace Ani{
         template<typename Real>
         void sparsify(const Real* from, Real* to) const;
         template<typename Real>
-        void sparsify(const Real* inplace) const { sparsify<Real>(inplace, inplace); }
+        void sparsify(Real* inplace) const { sparsify<Real>(inplace, inplace); }
         //Copy colind and row arrays of CSC format
         template<typename IntTo>
         void copyCSC(IntTo* colind, IntTo* row) const;
@@ -68,7 +68,7 @@ namespace Ani{
             { return getView().template densify<Real>(inplace); }
         template<typename Real> void sparsify(const Real* from, Real* to) const 
             { return getView().template sparsify<Real>(from, to); }
-        template<typename Real> void sparsify(const Real* inplace) const 
+        template<typename Real> void sparsify(Real* inplace) const 
             { return getView().template sparsify<Real>(inplace); }
         template<typename IntTo> void copyCSC(IntTo* colind, IntTo* row) const 
             { return getView().template copyCSC<IntTo>(colind, row); }
-- 
2.43.0


From da13fe673906870c25f7e36f763a0105d85f6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:54:14 +0000
Subject: [PATCH 76/81] fix: four of the generators of elemental functions did
 not compile

---
 anifem++/inmost_interface/func_wrap.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.inl b/anifem++/inmost_interface/func_wrap.inl
index 6dad0bf..5097ff6 100644
--- a/anifem++/inmost_interface/func_wrap.inl
+++ b/anifem++/inmost_interface/func_wrap.inl
@@ -125,7 +125,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMatRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol)), MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -157,7 +157,7 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemMat(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nCol, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), Int(nCol))},
                 nw, niw, with_user_data, use_dyn_mem};
     }
@@ -189,14 +189,14 @@ namespace Ani{
 
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData)> f, size_t nRow, size_t nw, size_t niw, bool with_user_data, bool use_dyn_mem){
-        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(MatFuncWrapDynamic<ParType, Real, Int>::IOData(args, res, w, iw, user_data, dyn_mem)), 0; },
+        return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ return f(typename MatFuncWrapDynamic<ParType, Real, Int>::IOData{args, res, w, iw, user_data, dyn_mem}), 0; },
                 std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)},
                 nw, niw, with_user_data, use_dyn_mem};
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F)> f, size_t nRow){
         return {[f](const Real** args, Real** res, Real* w, Int* iw, void* user_data, Ani::DynMem<Real, Int>* dyn_mem)->int{ (void) w; (void) iw; (void) user_data; (void) dyn_mem; return f(args, res[0]), 0; },
-                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow))}, 0, 0, false, false };
+                std::vector<MatSparsity<Int>>(4, MatSparsity<Int>::make_as_dense(3, 1)), {MatSparsity<Int>::make_as_dense(Int(nRow), 1)}, 0, 0, false, false };
     }
     template<ThreadPar::Type ParType, typename Real, typename Int>
     MatFuncWrapDynamic<ParType, Real, Int> GenerateElemRhs(std::function<void(const Real** XY/*[4]*/, Real* F, void* user_data)> f, size_t nRow){
-- 
2.43.0


From 367068c16a98fcec53953c623a973d775a9ec573 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 77/81] fix: assigning an elemental function to a holder did
 not compile

---
 anifem++/inmost_interface/func_wrap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/func_wrap.h b/anifem++/inmost_interface/func_wrap.h
index 511ac91..1461b67 100644
--- a/anifem++/inmost_interface/func_wrap.h
+++ b/anifem++/inmost_interface/func_wrap.h
@@ -231,9 +231,9 @@ namespace Ani{
         MatFuncWrapHolder(std::shared_ptr<Base> f): m_invoker(std::move(f)) {}
         
         MatFuncWrapHolder& operator=(std::shared_ptr<Base> f){ return m_invoker = std::move(f), *this; }
-        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = 0>
+        template<typename T, typename = typename std::enable_if<std::is_base_of<Base, T>::value>::type>
         MatFuncWrapHolder& operator=(T&& f){ return m_invoker = std::make_shared<T>(std::move(f)), *this; }
-        template<typename T, typename std::enable_if<std::is_base_of<Base, T>::value>::type* U = 0>
+        template<typename T, typename = typename std::enable_if<std::is_base_of<Base, T>::value>::type>
         MatFuncWrapHolder& operator=(const T& f){ return m_invoker = std::make_shared<T>(f), *this; }
         MatFuncWrapHolder& operator=(const MatFuncWrapHolder&) = default;
         MatFuncWrapHolder& operator=(MatFuncWrapHolder&&) = default;
-- 
2.43.0


From 8be236f61b4a67452024f9b5c46786238b1b0439 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:24:17 +0000
Subject: [PATCH 78/81] fix: two of the six edges of a cell were not returned
 as Edge objects

collectConnectivityInfo(cell, Node*, Edge*, Face*) converted four handles of edges only.
---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 8b4f432..0fc6425 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -123,7 +123,7 @@ namespace Ani{
         INMOST::Mesh * m = cell.GetMeshLink();
         std::transform(hnodes, hnodes + 4, nodes, [m](INMOST::HandleType h)->INMOST::Node{ return INMOST::Node(m, h); });
         if (prepare_edges_and_faces){
-            std::transform(hedges, hedges + 4, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
+            std::transform(hedges, hedges + 6, edges, [m](INMOST::HandleType h)->INMOST::Edge{ return INMOST::Edge(m, h); });
             std::transform(hfaces, hfaces + 4, faces, [m](INMOST::HandleType h)->INMOST::Face{ return INMOST::Face(m, h); });
         }
     }
-- 
2.43.0


From df295e60a1af1ce0626843dfd0a1273314192152 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:24:17 +0000
Subject: [PATCH 79/81] fix: orientation of a face depended on the opposite
 vertex

The third edge of the face was taken to the opposite vertex, and outer normals of faces 1 and 3 go
against the order of their nodes; two cells could see the same normal of their common face.
---
 anifem++/inmost_interface/ordering.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 0fc6425..e06e541 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -157,8 +157,8 @@ namespace Ani{
         } else if (etype & DofT::FACE){
             char change = 0;
             for (int k = 0; k < 3; ++k)
-                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+k+1) % 4]) ++change;
-            return change == 1;    
+                if (node_permutation[(elid+k) % 4] > node_permutation[(elid+(k+1)%3) % 4]) ++change;
+            return (change == 1) == (elid % 2 == 0); //< faces 1 and 3 are turned the other way than 0 and 2
         } else if (etype & DofT::NODE)
             return true;
         else if (etype & DofT::CELL){
-- 
2.43.0


From 2e9e13ec90a8d2dfc1d282398ad377dd1e3805d1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:24:17 +0000
Subject: [PATCH 80/81] fix: renumbering of nodes did not change signs of
 oriented values

std::for_each dropped the results of std::negate.
---
 anifem++/inmost_interface/ordering.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index e06e541..90f928f 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -394,7 +394,7 @@ namespace Ani{
                 auto st_data = tv.data() + elem_data_shift[ielem_type_num];
                 for (std::size_t i = 0; i < inum_dofs[ielem_type_num]; ++i){
                     std::copy(st_data + block_sz*(abs(reord[i])-1), st_data + block_sz*abs(reord[i]), r.data() + block_sz*i);
-                    if (reord[i] < 0) std::for_each(r.data() + block_sz*i, r.data() + block_sz*(i+1), std::negate<double>());
+                    if (reord[i] < 0) std::transform(r.data() + block_sz*i, r.data() + block_sz*(i+1), r.data() + block_sz*i, std::negate<double>());
                 }
                 std::copy(r.data(), r.data() + block_sz*inum_dofs[ielem_type_num], st_data);
             }
-- 
2.43.0


From 75b4664d33a37e0c0349bb6fcec73f1ee0f5178f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:24:17 +0000
Subject: [PATCH 81/81] fix: renumbering of nodes skipped oriented values
 without symmetry groups

Signs of degrees of freedom like those of RT0 and ND0 depend on the numbers of nodes as well.
---
 anifem++/inmost_interface/ordering.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/inmost_interface/ordering.inl b/anifem++/inmost_interface/ordering.inl
index 90f928f..49ce1a8 100644
--- a/anifem++/inmost_interface/ordering.inl
+++ b/anifem++/inmost_interface/ordering.inl
@@ -357,7 +357,8 @@ namespace Ani{
         Mesh* m = ts[0].GetMeshLink();
         uint nontrivial_symmetry_geom_mask = DofT::UNDEF;
         for (uint geom_num = 0; geom_num < DofT::NGEOM_TYPES; ++geom_num)
-            if (dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+            if ((dmap.SymComponents(DofT::NumToGeomType(geom_num)) & (~uint(1<<0)) )
+                || ((DofT::NumToGeomType(geom_num) & (DofT::EDGE_ORIENT | DofT::FACE_ORIENT)) && dmap.NumDof(DofT::NumToGeomType(geom_num)) > 0)) //< signs of oriented d.o.f.'s depend on the numeration too
                 nontrivial_symmetry_geom_mask |= DofT::NumToGeomType(geom_num);
         if (nontrivial_symmetry_geom_mask == DofT::UNDEF) return; 
         auto gmask = GeomMaskToInmostElementType(nontrivial_symmetry_geom_mask);
-- 
2.43.0

