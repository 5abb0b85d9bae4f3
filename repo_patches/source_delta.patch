From dc09d01bdb3b4c41dfd570876293b5d90b9f3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 01/40] fix: SharedArray destructor decrements the count, not
 the pointer to it, and frees the count

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..c7989a6 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From 7abe2fe9c640546bc90a5aeaf6f05474e2194b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 02/40] fix: Array move assignment releases the elements and
 buffer it replaces

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index c7989a6..15ad321 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        Array<T> tmp(std::move(a)); this->swap(tmp); return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From ef18e92a9ce4d181c53287eb31487bfd7a8a0576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 03/40] fix: Array copy assignment and reallocate build the new
 elements before releasing the old ones, so a throwing element leaves the
 array valid

---
 include/array.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 15ad321..152e612 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -128,7 +128,7 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> tmp(a); this->swap(tmp); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -154,8 +154,7 @@ public:
             for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> tmp(n); this->swap(tmp); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
-- 
2.43.0


From fa0201c862e58e96e09bd76fce1e2e568606c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 04/40] fix: Array constructors and resize release what they
 built when an element throws

---
 include/array.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 152e612..1de150b 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -78,7 +78,7 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { this->_uninitialized_fill(); }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -144,15 +144,15 @@ public:
     void resize(size_t n) {
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> tmp; tmp._ptr=uninitialized_new(n);
+            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (tmp._ptr+i) T(_ptr[i]); } else { new (tmp._ptr+i) T(); } ++tmp._size; }
+            this->swap(tmp); } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> tmp; tmp._ptr=uninitialized_new(n);
+            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (tmp._ptr+i) T(_ptr[i]); } else { new (tmp._ptr+i) T(t); } ++tmp._size; }
+            this->swap(tmp); } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
     void reallocate(size_t n) { if(size()!=n) { Array<T> tmp(n); this->swap(tmp); } }
     //! \brief Efficiently swap two arrays.
@@ -204,16 +204,23 @@ public:
         resize(std::distance(first,last)); fill(first); }
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
+    // Destroys the elements before curr and frees the buffer, after construction of element curr failed.
+    void _abandon(pointer curr) { while(curr!=_ptr) { --curr; curr->~T(); } uninitialized_delete(_ptr); }
+    void _uninitialized_fill() {
+        pointer curr=_ptr; pointer end=_ptr+_size;
+        try { while(curr!=end) { new (curr) T(); ++curr; } } catch(...) { _abandon(curr); throw; } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        pointer curr=_ptr; pointer end=_ptr+_size;
+        try { while(curr!=end) { new (curr) T(x); ++curr; } } catch(...) { _abandon(curr); throw; } }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
         pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        try { while(curr!=end) { new (curr) T(*first); ++curr; ++first; } } catch(...) { _abandon(curr); throw; } }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
         pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        try { while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } } catch(...) { _abandon(curr); throw; } }
     template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        pointer curr=_ptr;
+        try { for(size_t i=0u; i!=this->size(); ++i) { new (curr) T(g(i)); ++curr; } } catch(...) { _abandon(curr); throw; } }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From 46d74b3d912be4b1508bd166ffae00491ff1a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 05/40] fix: Array refuses a size whose buffer size in bytes
 would overflow

---
 include/array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 1de150b..63e4a2c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -36,6 +36,7 @@
 #define HELPER_ARRAY_HPP
 
 #include <initializer_list>
+#include <new>
 #include <iterator>
 #include <stdexcept>
 #include <cassert>
@@ -52,7 +53,9 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) {
+        if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From 4447e25d7f687806cb0155173aed2971c1deb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 06/40] fix: appending or concatenating a List to itself
 terminates

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..720d959 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From 62c0b6621dfe4ee82517a59762038a9a2ce07b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 07/40] fix: LinkedList count constructor, append and
 concatenate can be instantiated

---
 include/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 720d959..b86a5a6 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,15 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { this->insert(this->end(),t.begin(),t.end()); }
+    void concatenate(const LinkedList<T>& t) { this->insert(this->end(),t.begin(),t.end()); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From b2317cc313ef1654a29e7fb5f05bef198dbc5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 08/40] fix: Set::restrict keeps the elements of the given set
 instead of removing them

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index b86a5a6..83b5c9c 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From 051710dd47c518adc05a07e4f53b5561652af3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 09/40] fix: apply over a Set inserts each result and can be
 instantiated

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 83b5c9c..6cdff21 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From a1e8d27f3d1c08c06ec9f3fa15e6a81bb7876924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 10/40] fix: make_list of an Array can be instantiated

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 6cdff21..b2ec606 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -321,7 +321,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From 3257a3ca40a4151b5616bd413ff6cd693deadbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 11/40] fix: elementwise rejects lists of different lengths
 also in release builds

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index b2ec606..162c778 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -118,7 +118,7 @@ template<class F, class T> List<ResultOf<F(T)>> elementwise(F const& f, List<T>
 
 template<class F, class T1, class T2> List<ResultOf<F(T1,T2)>> elementwise(F const& f, List<T1> const& l1, List<T2> const& l2) {
     typedef ResultOf<F(T1,T2)> R;
-    assert(l1.size()==l2.size());
+    HELPER_ASSERT(l1.size()==l2.size());
     List<R> r; r.reserve(l1.size());
     for(size_t i=0; i!=l1.size(); ++i) { r.append(f(l1[i],l2[i])); }
     return r;
-- 
2.43.0


From e48692dfdda1600300fe477e972214d7154da940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 12/40] fix: printing a tuple of types outside Helper compiles

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..a7412a3 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -219,7 +219,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From b99e9a85a3d9fa8baf81a3bc4184716f65fba99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 13/40] fix: LinkedList append and concatenate accept the list
 itself

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 162c778..b72b1ec 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -149,8 +149,8 @@ template<class T> class LinkedList
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { this->insert(this->end(),t.begin(),t.end()); }
-    void concatenate(const LinkedList<T>& t) { this->insert(this->end(),t.begin(),t.end()); }
+    void append(const LinkedList<T>& t) { std::list<T> tmp(t); this->splice(this->end(),tmp); }
+    void concatenate(const LinkedList<T>& t) { std::list<T> tmp(t); this->splice(this->end(),tmp); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From 58906dc3e9a497e1e2de72fea5fb4ea85d4ad644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 14/40] fix: read_sequence does not inspect a character it
 could not read

---
 include/stlio.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index a7412a3..f7106f8 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -154,14 +154,12 @@ read_sequence(istream& is, Container& v,
     v.clear();
 
     try {
-        is >> c;
-        if(c != opening) {
+        if(!(is >> c) || c != opening) {
             throw std::ios_base::failure(std::string("Helper::Base::read_vector: Input must begin with ")+opening);
         }
 
         /* Handle case of empty list */
-        is >> c;
-        if(c != closing) {
+        if(!(is >> c) || c != closing) {
             is.putback(c);
             c=separator;
         }
-- 
2.43.0


From fc954ee8b8a4a0a8589500071399e2415d4167fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 15/40] fix: StringType and StringStream are defined, so
 binary_word.hpp and HELPER_NOT_IMPLEMENTED compile

---
 include/binary_word.hpp |   1 +
 include/macros.hpp      | 378 ++++++++++++++++++++--------------------
 include/string.hpp      |   3 +
 3 files changed, 193 insertions(+), 189 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..0402885 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -81,6 +81,7 @@
 
 #include "macros.hpp"
 #include "stlio.hpp"
+#include "string.hpp"
 
 namespace Helper {
 
diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..4d62b81 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -1,189 +1,189 @@
-/***************************************************************************
- *            macros.hpp
- *
- *  Copyright  2023  Luca Geretti
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-
-/*! \file macros.hpp
- *  \brief
- */
-
-
-
-#ifndef HELPER_MACROS_HPP
-#define HELPER_MACROS_HPP
-
-#include <sstream>
-#include <stdexcept>
-
-#define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-    Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
-    explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
-
-#define HELPER_THROW(except,func,msg)          \
-    { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
-    } \
-
-#define HELPER_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { }
-#endif
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT(expression) \
-    { }
-#endif
-
-
-#define HELPER_PRECONDITION_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_PRECONDITION(expression)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { }
-#endif
-
-#define HELPER_FAIL_MSG(error)             \
-    { \
-        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
-    } \
-
-#define HELPER_ASSERT_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
-    { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
-        } \
-    } \
-
-#define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
-
-#define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
-    } \
-
-#define HELPER_NOTIFY(msg)          \
-    {                                                                \
-        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN(msg)          \
-    {                                                                \
-        std::cerr << "WARNING: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
-    } \
-
-#define HELPER_ERROR(msg)          \
-    {                                                                \
-        std::cerr << "ERROR: " << msg << "" << std::endl;                \
-    }
-                                                                  \
-#if defined(linux) || defined(__linux) || defined(__linux__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
-#define HELPER_PRETTY_FUNCTION __FUNCTION__
-#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#else
-#define HELPER_PRETTY_FUNCTION ""
-#endif
-
-
-#endif // HELPER_MACROS_HPP
+/***************************************************************************
+ *            macros.hpp
+ *
+ *  Copyright  2023  Luca Geretti
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+
+/*! \file macros.hpp
+ *  \brief
+ */
+
+
+
+#ifndef HELPER_MACROS_HPP
+#define HELPER_MACROS_HPP
+
+#include <sstream>
+#include <stdexcept>
+
+#define HELPER_USING_CONSTRUCTORS(Class,Base) \
+    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    Class(const T& t) : Base(t) { } \
+    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    explicit Class(const T& t) : Base(t) { } \
+    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+
+#define HELPER_THROW(except,func,msg)          \
+    { \
+        std::ostringstream ss; \
+        ss << #except " in " << func << ": " << msg;    \
+        throw except(ss.str()); \
+    } \
+
+#define HELPER_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { }
+#endif
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT(expression) \
+    { }
+#endif
+
+
+#define HELPER_PRECONDITION_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_PRECONDITION(expression)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { \
+        bool result = static_cast<bool>(expression); \
+        if(!result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { }
+#endif
+
+#define HELPER_FAIL_MSG(error)             \
+    { \
+        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
+    } \
+
+#define HELPER_ASSERT_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
+    { \
+        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+        } \
+    } \
+
+#define HELPER_NOT_IMPLEMENTED                 \
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+
+#define HELPER_DEPRECATED(fn,msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    } \
+
+#define HELPER_NOTIFY(msg)          \
+    {                                                                \
+        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN(msg)          \
+    {                                                                \
+        std::cerr << "WARNING: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN_ONCE(msg)          \
+    static bool first_time=true; \
+    if(first_time) { \
+        first_time=false; \
+        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    } \
+
+#define HELPER_ERROR(msg)          \
+    {                                                                \
+        std::cerr << "ERROR: " << msg << "" << std::endl;                \
+    }
+                                                                  \
+#if defined(linux) || defined(__linux) || defined(__linux__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+#define HELPER_PRETTY_FUNCTION __FUNCTION__
+#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#else
+#define HELPER_PRETTY_FUNCTION ""
+#endif
+
+
+#endif // HELPER_MACROS_HPP
diff --git a/include/string.hpp b/include/string.hpp
index 9f1467d..918d4e5 100644
--- a/include/string.hpp
+++ b/include/string.hpp
@@ -38,6 +38,9 @@
 
 namespace Helper {
 
+using StringType = std::string;
+using StringStream = std::stringstream;
+
 //! \brief A wrapper for the standard string class.
 class String : public std::string {
   public:
-- 
2.43.0


From 8182f74a1e0210d0b99c903c0453cbed689f2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 16/40] fix: appending a BinaryWord to itself terminates

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 0402885..ae0afe3 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -178,7 +178,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t n = binaryWord.size();
+    for( size_t i = 0; i < n ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From 81363df76ec5c5b2c89e69a46591e20afa3c85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 17/40] fix: reading a BinaryWord does not inspect an unread
 character and succeeds at the end of the input

---
 include/binary_word.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index ae0afe3..a9ca9f9 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -192,7 +192,7 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     //new data and the old one is not needed.
     binary_word.clear();
     //Read the first stream symbol to check the input format
-    char symbol;
+    char symbol = 0;
     input_stream >> symbol;
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
@@ -206,7 +206,12 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
             input_stream.get( symbol );
         }
-        input_stream.putback( symbol );
+        if( input_stream ) {
+            input_stream.putback( symbol );
+        } else if( input_stream.eof() && !binary_word.empty() ) {
+            //The word was ended by the end of the input, so reading it has not failed.
+            input_stream.clear( std::ios_base::eofbit );
+        }
     }
     return input_stream;
 }
-- 
2.43.0


From 58a81eb4beab5d95e21e3987d65ab9f8ea5f363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 18/40] fix: printing a BinaryWord restores the format flags of
 the stream

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index a9ca9f9..addd42b 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -236,11 +236,12 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
+    const std::ios_base::fmtflags flags = os.flags();
     os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
         os << bw[i];
     }
-    os << std::boolalpha;
+    os.flags( flags );
     return os;
 }
 
-- 
2.43.0


From 7d70cc19d3b1a7a9809ac006932c381d3655d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 19/40] fix: LRUCache::put copies the new value before
 evicting, so it may refer to the cache and a throwing copy changes nothing

---
 include/lru_cache.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..9c6e516 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,17 +79,16 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
-        if (_elements.size() < _maximum_size) {
-            for (auto& other : _elements) other.second.age++;
-        } else {
-            auto to_remove = _elements.end();
-            for (auto it = _elements.begin(); it != _elements.end(); ++it) {
-                if (it->second.age == _maximum_size-1) to_remove = it;
-                it->second.age++;
-            }
-            _elements.erase(to_remove);
+        bool full = (_elements.size() == _maximum_size);
+        // Insert before ageing and evicting, since val may refer to the evicted element, and copying may throw
+        auto inserted = _elements.insert({label,AgeValuePair(0,val)}).first;
+        auto to_remove = _elements.end();
+        for (auto it = _elements.begin(); it != _elements.end(); ++it) {
+            if (it == inserted) continue;
+            if (full and it->second.age == _maximum_size-1) to_remove = it;
+            it->second.age++;
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        if (full) _elements.erase(to_remove);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From 230244914464dd50508b584877e757eb6d3d52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 20/40] fix: randomisers can be deleted through their interface

---
 include/randomiser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/randomiser.hpp b/include/randomiser.hpp
index 97f230b..26c8171 100644
--- a/include/randomiser.hpp
+++ b/include/randomiser.hpp
@@ -60,6 +60,7 @@ static RandomGenerator RANDOM_GENERATOR;
 
 template<class T> class RandomiserInterface {
   public:
+    virtual ~RandomiserInterface() = default;
     virtual T get() = 0;
 };
 
-- 
2.43.0


From fa61d168e1862008d2382d63d561db7bcb899b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 21/40] fix: Stopwatch uses a clock that is never adjusted

---
 include/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stopwatch.hpp b/include/stopwatch.hpp
index 3686c76..70932d7 100644
--- a/include/stopwatch.hpp
+++ b/include/stopwatch.hpp
@@ -43,7 +43,7 @@ using Microseconds = std::chrono::microseconds;
 
 template<class D> class Stopwatch {
 public:
-    using ResolutionType = std::chrono::high_resolution_clock;
+    using ResolutionType = std::chrono::steady_clock;
     using TimePointType = std::chrono::time_point<ResolutionType>;
 
     Stopwatch() { restart(); }
-- 
2.43.0


From 2235b0b6c4afcddb34156472270de04683cb0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 22/40] fix: Stopwatch::elapsed_seconds does not round to the
 resolution of the duration type

---
 include/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stopwatch.hpp b/include/stopwatch.hpp
index 70932d7..336e515 100644
--- a/include/stopwatch.hpp
+++ b/include/stopwatch.hpp
@@ -51,7 +51,7 @@ public:
     //! \brief Get the duration in the given type
     D duration() const { return std::chrono::duration_cast<D>(_clicked-_initial); }
     //! \brief Get the duration in seconds, in double precision
-    double elapsed_seconds() const { return std::chrono::duration_cast<std::chrono::duration<double>>(duration()).count(); }
+    double elapsed_seconds() const { return std::chrono::duration_cast<std::chrono::duration<double>>(_clicked-_initial).count(); }
 
     //! \brief Restart the watch time to zero
     Stopwatch& restart() { _initial = ResolutionType::now(); _clicked = _initial; return *this; }
-- 
2.43.0


From 95cf7e32a537739a34a86dbc9079d1951796ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 23/40] fix: stack_trace does not insert a null name into the
 error stream

---
 src/stack_trace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..bcb79ba 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -54,7 +54,8 @@ void stack_trace() {
             size_t length;
             int status;
             char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
-            std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
+            const char* name = (status == 0 ? demangled : info.dli_sname);
+            std::cerr << (name != nullptr ? name : symbols[i]) << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
-- 
2.43.0


From fcc37ffd74588e7c7bb7cb8aac50b8e9686b191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 24/40] fix: HELPER_TEST_WITHIN compares its arguments as
 written

---
 include/test.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..f3c2198 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -306,8 +306,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        auto error=abs((expression)-(expected)); \
+        bool ok = (error <= (tolerance));                     \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From f8ce0c03cc7f10dca4b70d9ec57d9cd61afca7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 25/40] fix: IsInvocableReturning accepts builtin result types

---
 include/metaprogramming.hpp | 380 ++++++++++++++++++------------------
 1 file changed, 190 insertions(+), 190 deletions(-)

diff --git a/include/metaprogramming.hpp b/include/metaprogramming.hpp
index f34db64..2c15658 100644
--- a/include/metaprogramming.hpp
+++ b/include/metaprogramming.hpp
@@ -1,190 +1,190 @@
-/***************************************************************************
- *            metaprogramming.hpp
- *
- *  Copyright  2023  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-/*! \file metaprogramming.hpp
- *  \brief Classes for template metaprogramming.
- */
-
-#ifndef HELPER_METAPROGRAMMING_HPP
-#define HELPER_METAPROGRAMMING_HPP
-
-#include <type_traits>
-#include <concepts>
-
-namespace Helper {
-
-using std::declval;
-using std::size_t;
-
-using True = std::true_type;
-using False = std::false_type;
-
-template<class T, T V> using IntegralConstant = std::integral_constant<T,V>;
-
-template<class T1, class... TS> struct First { typedef T1 Type; };
-template<class... TS> using FirstType = typename First<TS...>::Type;
-template<class T1, class T2, class... TS> struct Second { typedef T2 Type; };
-template<class... TS> using SecondType = typename Second<TS...>::Type;
-
-template<class T> struct Self { typedef T Type; };
-template<class T> using SelfType = typename Self<T>::Type;
-
-template<class... TS> struct AreAllSame;
-template<> struct AreAllSame<> : True { };
-template<class T> struct AreAllSame<T> : True { };
-template<class T, class... TS> struct AreAllSame<T,T,TS...> : AreAllSame<T,TS...> { };
-template<class T0, class T1, class... TS> struct AreAllSame<T0,T1,TS...> : False { };
-
-template<class T, class... US> struct IsOneOf;
-template<class T> struct IsOneOf<T> : False { };
-template<class T, class... US> struct IsOneOf<T,T,US...> : True { };
-template<class T, class U0, class... US> struct IsOneOf<T,U0,US...> : IsOneOf<T,US...> { };
-
-template<class T, class... TS> struct IndexOf;
-template<class T, class... TS> struct IndexOf<T,T,TS...> { static const size_t N=0; };
-template<class T, class T0, class... TS> struct IndexOf<T,T0,TS...> { static const size_t N=IndexOf<T,TS...>::N+1u; };
-template<class T> struct IndexOf<T> { };
-
-
-template<class F, class... AS> using InvokeResult = typename std::invoke_result<F,AS...>::type;
-template<class SIG> struct ResultOfTrait;
-template<class F, class... AS> struct ResultOfTrait<F(AS...)> { typedef typename std::invoke_result<F,AS...>::type Type; };
-template<class SIG> using ResultOf = typename ResultOfTrait<SIG>::Type;
-
-
-struct Fallback { };
-struct DontCare { template<class T> DontCare(T); };
-
-template<class R> struct Return { typedef R ReturnType; };
-template<class RET> using ReturnType = typename RET::ReturnType;
-
-template<class X> using RemoveConst = typename std::remove_const<X>::type;
-template<class X> using RemoveReference = typename std::remove_reference<X>::type;
-
-template<class L> using LogicalNegationType = decltype(!declval<L>());
-template<class L1, class L2=L1> using LogicalConjunctionType = decltype(declval<L1>() && declval<L2>());
-template<class L1, class L2=L1> using LogicalDisjunctionType = decltype(declval<L1>() || declval<L2>());
-
-template<class X> using NegationType = decltype(-declval<X>());
-template<class X1, class X2=X1> using SumType = decltype(declval<X1>()+declval<X2>());
-template<class X1, class X2=X1> using DifferenceType = decltype(declval<X1>()-declval<X2>());
-template<class X1, class X2=X1> using ProductType = decltype(declval<X1>()*declval<X2>());
-template<class X1, class X2=X1> using QuotientType = decltype(declval<X1>()/declval<X2>());
-template<class X1, class X2=X1> using ArithmeticType = SumType<ProductType<X1,X2>>;
-template<class X1, class X2=X1> using EqualsType = decltype(declval<X1>()==declval<X2>());
-template<class X1, class X2=X1> using LessType = decltype(declval<X1>()< declval<X2>());
-template<class X1, class X2=X1> using ComparisonType = LessType<X1,X2>;
-
-template<class X> using MagType = decltype(mag(declval<X>()));
-
-template<class X1, class X2=X1> using EqualityType = decltype(declval<X1>()==declval<X2>());
-template<class X1, class X2=X1> using InequalityType = decltype(declval<X1>()!=declval<X2>());
-
-template<class X1, class X2=X1> using InplaceSumType = RemoveReference<decltype(declval<X1&>()+=declval<X2>())>;
-template<class X1, class X2=X1> using InplaceDifferenceType = RemoveReference<decltype(declval<X1&>()-=declval<X2>())>;
-template<class X1, class X2=X1> using InplaceProductType = RemoveReference<decltype(declval<X1&>()*=declval<X2>())>;
-template<class X1, class X2=X1> using InplaceQuotientType = RemoveReference<decltype(declval<X1&>()/=declval<X2>())>;
-
-
-template<class F, class... AS> struct IsInvocable;
-template<class R, class F, class... AS> struct IsInvocableReturning;
-
-template<class F, class A> struct IsInvocable<F,A> {
-    template<class FF, class AA, class=decltype(std::declval<FF>()(std::declval<AA>()))>
-        static std::true_type test(int);
-    template<class FF, class AA>
-        static std::false_type test(...);
-    static const bool value = decltype(test<F,A>(1))::value;
-};
-
-template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
-    template<class RR, class FF, class AA, class=decltype(std::declval<RR>()=std::declval<FF>()(std::declval<AA>()))>
-        static std::true_type test(int);
-    template<class RR, class FF, class AA>
-        static std::false_type test(...);
-    static const bool value = decltype(test<R,F,A>(1))::value;
-};
-
-
-template<class T> concept BuiltinArithmetic = std::is_arithmetic<T>::value;
-template<class T> concept BuiltinIntegral = std::integral<T>;
-template<class T> concept BuiltinFloatingPoint = std::floating_point<T>;
-template<class T> concept BuiltinUnsignedIntegral = std::unsigned_integral<T>;
-template<class T> concept BuiltinSignedIntegral = std::signed_integral<T>;
-
-//template<class T1, class T2> concept SameAs = std::same_as<T1,T2>;
-//template<class T1, class T2> concept Same = std::same_as<T1,T2>;
-template<class T1, class T2> concept SameAs = std::is_same<T1,T2>::value;
-template<class T1, class T2> concept Same = std::is_same<T1,T2>::value;
-//template<class F, class T> concept ConvertibleTo = std::convertible_to<F,T>;
-//template<class F, class T> concept Convertible = std::convertible_to<F,T>;
-template<class F, class T> concept Convertible = std::is_convertible<F,T>::value;
-template<class F, class T> concept ConvertibleTo = std::is_convertible<F,T>::value;
-//template<class T, class... US> concept ConstructibleFrom = std::constructible_from<T,US...>;
-//template<class T, class... US> concept Constructible = std::constructible_from<T,US...>;
-template<class T, class... US> concept ConstructibleFrom = std::is_constructible<T,US...>::value;
-template<class T, class... US> concept Constructible = std::is_constructible<T,US...>::value;
-//template<class T> concept DefaultInitializable = std::default_initializable<T>;
-//template<class T> concept DefaultConstructible = std::default_initializable<T>;
-//template<class T> concept CopyConstructible = std::copy_constructible<T>;
-template<class T> concept DefaultInitializable = std::is_default_constructible<T>::value;
-template<class T> concept DefaultConstructible = std::is_default_constructible<T>::value;
-template<class T> concept CopyConstructible = std::is_copy_constructible<T>::value;
-//template<class F, class T> concept ExplicitlyConvertibleTo = std::constructible_from<T,F> and not std::convertible_to<F,T>;
-//template<class F, class T> concept ExplicitlyConvertible = std::constructible_from<T,F> and not std::convertible_to<F,T>;
-template<class F, class T> concept ExplicitlyConvertibleTo = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
-template<class F, class T> concept ExplicitlyConvertible = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
-//template<class T, class F> concept AssignableFrom = std::assignable_from<T,F>;
-//template<class F, class T> concept AssignableTo = std::assignable_from<T,F>;
-//template<class T, class F> concept Assignable = std::assignable_from<T,F>;
-template<class T, class F> concept Assignable = std::is_assignable<T,F>::value;
-template<class T, class F> concept AssignableFrom = std::is_assignable<T,F>::value;
-template<class F, class T> concept AssignableTo = std::is_assignable<T,F>::value;
-
-template<class D, class B> concept DerivedFrom = std::derived_from<D,B>;
-template<class B, class D> concept BaseOf = std::derived_from<D,B>;
-
-template<class F, class... AS> concept Invocable = std::invocable<F,AS...>;
-template<class R, class F, class... AS> concept InvocableReturning = Invocable<F,AS...> and Convertible<InvokeResult<F,AS...>,R>;
-
-template<class F, class T> concept SameAsOrConvertibleTo = SameAs<F,T> or Convertible<F,T>;
-
-template<class T, class... US> concept OneOf = IsOneOf<T,US...>::value;
-template<class... TS> concept AllSame = AreAllSame<TS...>::value;
-
-
-template<class A1, class A2> concept HasEquality = requires(A1 a1, A2 a2) { { a1==a2 }; };
-template<class A1, class A2> concept CanAdd = requires(A1 a1, A2 a2) { { a1+a2 }; };
-template<class A1, class A2> concept CanSubtract = requires(A1 a1, A2 a2) { { a1-a2 }; };
-template<class A1, class A2> concept CanMultiply = requires(A1 a1, A2 a2) { { a1*a2 }; };
-template<class A1, class A2> concept CanDivide = requires(A1 a1, A2 a2) { { a1/a2 }; };
-
-
-} // namespace Helper
-
-#endif
+/***************************************************************************
+ *            metaprogramming.hpp
+ *
+ *  Copyright  2023  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+/*! \file metaprogramming.hpp
+ *  \brief Classes for template metaprogramming.
+ */
+
+#ifndef HELPER_METAPROGRAMMING_HPP
+#define HELPER_METAPROGRAMMING_HPP
+
+#include <type_traits>
+#include <concepts>
+
+namespace Helper {
+
+using std::declval;
+using std::size_t;
+
+using True = std::true_type;
+using False = std::false_type;
+
+template<class T, T V> using IntegralConstant = std::integral_constant<T,V>;
+
+template<class T1, class... TS> struct First { typedef T1 Type; };
+template<class... TS> using FirstType = typename First<TS...>::Type;
+template<class T1, class T2, class... TS> struct Second { typedef T2 Type; };
+template<class... TS> using SecondType = typename Second<TS...>::Type;
+
+template<class T> struct Self { typedef T Type; };
+template<class T> using SelfType = typename Self<T>::Type;
+
+template<class... TS> struct AreAllSame;
+template<> struct AreAllSame<> : True { };
+template<class T> struct AreAllSame<T> : True { };
+template<class T, class... TS> struct AreAllSame<T,T,TS...> : AreAllSame<T,TS...> { };
+template<class T0, class T1, class... TS> struct AreAllSame<T0,T1,TS...> : False { };
+
+template<class T, class... US> struct IsOneOf;
+template<class T> struct IsOneOf<T> : False { };
+template<class T, class... US> struct IsOneOf<T,T,US...> : True { };
+template<class T, class U0, class... US> struct IsOneOf<T,U0,US...> : IsOneOf<T,US...> { };
+
+template<class T, class... TS> struct IndexOf;
+template<class T, class... TS> struct IndexOf<T,T,TS...> { static const size_t N=0; };
+template<class T, class T0, class... TS> struct IndexOf<T,T0,TS...> { static const size_t N=IndexOf<T,TS...>::N+1u; };
+template<class T> struct IndexOf<T> { };
+
+
+template<class F, class... AS> using InvokeResult = typename std::invoke_result<F,AS...>::type;
+template<class SIG> struct ResultOfTrait;
+template<class F, class... AS> struct ResultOfTrait<F(AS...)> { typedef typename std::invoke_result<F,AS...>::type Type; };
+template<class SIG> using ResultOf = typename ResultOfTrait<SIG>::Type;
+
+
+struct Fallback { };
+struct DontCare { template<class T> DontCare(T); };
+
+template<class R> struct Return { typedef R ReturnType; };
+template<class RET> using ReturnType = typename RET::ReturnType;
+
+template<class X> using RemoveConst = typename std::remove_const<X>::type;
+template<class X> using RemoveReference = typename std::remove_reference<X>::type;
+
+template<class L> using LogicalNegationType = decltype(!declval<L>());
+template<class L1, class L2=L1> using LogicalConjunctionType = decltype(declval<L1>() && declval<L2>());
+template<class L1, class L2=L1> using LogicalDisjunctionType = decltype(declval<L1>() || declval<L2>());
+
+template<class X> using NegationType = decltype(-declval<X>());
+template<class X1, class X2=X1> using SumType = decltype(declval<X1>()+declval<X2>());
+template<class X1, class X2=X1> using DifferenceType = decltype(declval<X1>()-declval<X2>());
+template<class X1, class X2=X1> using ProductType = decltype(declval<X1>()*declval<X2>());
+template<class X1, class X2=X1> using QuotientType = decltype(declval<X1>()/declval<X2>());
+template<class X1, class X2=X1> using ArithmeticType = SumType<ProductType<X1,X2>>;
+template<class X1, class X2=X1> using EqualsType = decltype(declval<X1>()==declval<X2>());
+template<class X1, class X2=X1> using LessType = decltype(declval<X1>()< declval<X2>());
+template<class X1, class X2=X1> using ComparisonType = LessType<X1,X2>;
+
+template<class X> using MagType = decltype(mag(declval<X>()));
+
+template<class X1, class X2=X1> using EqualityType = decltype(declval<X1>()==declval<X2>());
+template<class X1, class X2=X1> using InequalityType = decltype(declval<X1>()!=declval<X2>());
+
+template<class X1, class X2=X1> using InplaceSumType = RemoveReference<decltype(declval<X1&>()+=declval<X2>())>;
+template<class X1, class X2=X1> using InplaceDifferenceType = RemoveReference<decltype(declval<X1&>()-=declval<X2>())>;
+template<class X1, class X2=X1> using InplaceProductType = RemoveReference<decltype(declval<X1&>()*=declval<X2>())>;
+template<class X1, class X2=X1> using InplaceQuotientType = RemoveReference<decltype(declval<X1&>()/=declval<X2>())>;
+
+
+template<class F, class... AS> struct IsInvocable;
+template<class R, class F, class... AS> struct IsInvocableReturning;
+
+template<class F, class A> struct IsInvocable<F,A> {
+    template<class FF, class AA, class=decltype(std::declval<FF>()(std::declval<AA>()))>
+        static std::true_type test(int);
+    template<class FF, class AA>
+        static std::false_type test(...);
+    static const bool value = decltype(test<F,A>(1))::value;
+};
+
+template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
+    template<class RR, class FF, class AA, class=decltype(std::declval<RR&>()=std::declval<FF>()(std::declval<AA>()))>
+        static std::true_type test(int);
+    template<class RR, class FF, class AA>
+        static std::false_type test(...);
+    static const bool value = decltype(test<R,F,A>(1))::value;
+};
+
+
+template<class T> concept BuiltinArithmetic = std::is_arithmetic<T>::value;
+template<class T> concept BuiltinIntegral = std::integral<T>;
+template<class T> concept BuiltinFloatingPoint = std::floating_point<T>;
+template<class T> concept BuiltinUnsignedIntegral = std::unsigned_integral<T>;
+template<class T> concept BuiltinSignedIntegral = std::signed_integral<T>;
+
+//template<class T1, class T2> concept SameAs = std::same_as<T1,T2>;
+//template<class T1, class T2> concept Same = std::same_as<T1,T2>;
+template<class T1, class T2> concept SameAs = std::is_same<T1,T2>::value;
+template<class T1, class T2> concept Same = std::is_same<T1,T2>::value;
+//template<class F, class T> concept ConvertibleTo = std::convertible_to<F,T>;
+//template<class F, class T> concept Convertible = std::convertible_to<F,T>;
+template<class F, class T> concept Convertible = std::is_convertible<F,T>::value;
+template<class F, class T> concept ConvertibleTo = std::is_convertible<F,T>::value;
+//template<class T, class... US> concept ConstructibleFrom = std::constructible_from<T,US...>;
+//template<class T, class... US> concept Constructible = std::constructible_from<T,US...>;
+template<class T, class... US> concept ConstructibleFrom = std::is_constructible<T,US...>::value;
+template<class T, class... US> concept Constructible = std::is_constructible<T,US...>::value;
+//template<class T> concept DefaultInitializable = std::default_initializable<T>;
+//template<class T> concept DefaultConstructible = std::default_initializable<T>;
+//template<class T> concept CopyConstructible = std::copy_constructible<T>;
+template<class T> concept DefaultInitializable = std::is_default_constructible<T>::value;
+template<class T> concept DefaultConstructible = std::is_default_constructible<T>::value;
+template<class T> concept CopyConstructible = std::is_copy_constructible<T>::value;
+//template<class F, class T> concept ExplicitlyConvertibleTo = std::constructible_from<T,F> and not std::convertible_to<F,T>;
+//template<class F, class T> concept ExplicitlyConvertible = std::constructible_from<T,F> and not std::convertible_to<F,T>;
+template<class F, class T> concept ExplicitlyConvertibleTo = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
+template<class F, class T> concept ExplicitlyConvertible = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
+//template<class T, class F> concept AssignableFrom = std::assignable_from<T,F>;
+//template<class F, class T> concept AssignableTo = std::assignable_from<T,F>;
+//template<class T, class F> concept Assignable = std::assignable_from<T,F>;
+template<class T, class F> concept Assignable = std::is_assignable<T,F>::value;
+template<class T, class F> concept AssignableFrom = std::is_assignable<T,F>::value;
+template<class F, class T> concept AssignableTo = std::is_assignable<T,F>::value;
+
+template<class D, class B> concept DerivedFrom = std::derived_from<D,B>;
+template<class B, class D> concept BaseOf = std::derived_from<D,B>;
+
+template<class F, class... AS> concept Invocable = std::invocable<F,AS...>;
+template<class R, class F, class... AS> concept InvocableReturning = Invocable<F,AS...> and Convertible<InvokeResult<F,AS...>,R>;
+
+template<class F, class T> concept SameAsOrConvertibleTo = SameAs<F,T> or Convertible<F,T>;
+
+template<class T, class... US> concept OneOf = IsOneOf<T,US...>::value;
+template<class... TS> concept AllSame = AreAllSame<TS...>::value;
+
+
+template<class A1, class A2> concept HasEquality = requires(A1 a1, A2 a2) { { a1==a2 }; };
+template<class A1, class A2> concept CanAdd = requires(A1 a1, A2 a2) { { a1+a2 }; };
+template<class A1, class A2> concept CanSubtract = requires(A1 a1, A2 a2) { { a1-a2 }; };
+template<class A1, class A2> concept CanMultiply = requires(A1 a1, A2 a2) { { a1*a2 }; };
+template<class A1, class A2> concept CanDivide = requires(A1 a1, A2 a2) { { a1/a2 }; };
+
+
+} // namespace Helper
+
+#endif
-- 
2.43.0


From 7132b7603fd55a90460ae45200a969148d35fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:29 +0000
Subject: [PATCH 26/40] fix: IsWritable detects a const write operation taking
 a stream by reference

---
 include/writable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/writable.hpp b/include/writable.hpp
index 9a0708e..732520f 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -53,7 +53,7 @@ class WritableInterface {
 };
 inline ostream& operator<<(ostream& os, const WritableInterface& w) { w._write(os); return os; }
 
-template<class T, class = decltype(declval<T>()._write(declval<ostream>()))> True has_write(int);
+template<class T, class = decltype(declval<T const&>()._write(declval<ostream&>()))> True has_write(int);
 template<class T> False has_write(...);
 template<class T, class = Fallback> struct IsWritable : decltype(has_write<T>(1)) { };
 
-- 
2.43.0


From 000470e765cb4488fa687ce34eea0f3ddf2be0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 27/40] fix: writable.hpp, iterator.hpp and variant.inl.hpp
 include what they use

---
 include/iterator.hpp    | 2 ++
 include/variant.inl.hpp | 2 ++
 include/writable.hpp    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/iterator.hpp b/include/iterator.hpp
index 08ee013..3ded2fd 100644
--- a/include/iterator.hpp
+++ b/include/iterator.hpp
@@ -34,6 +34,8 @@
 #define HELPER_ITERATOR_HPP
 
 #include <iterator>
+#include <ostream>
+#include <utility>
 
 namespace Helper {
 
diff --git a/include/variant.inl.hpp b/include/variant.inl.hpp
index 79bced5..bc1778c 100644
--- a/include/variant.inl.hpp
+++ b/include/variant.inl.hpp
@@ -30,6 +30,8 @@
 #ifndef HELPER_VARIANT_INL_HPP
 #define HELPER_VARIANT_INL_HPP
 
+#include <cstdlib>
+
 #include "variant.hpp"
 
 namespace Helper {
diff --git a/include/writable.hpp b/include/writable.hpp
index 732520f..beb5108 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -33,6 +33,8 @@
 #ifndef HELPER_WRITABLE_HPP
 #define HELPER_WRITABLE_HPP
 
+#include <ostream>
+
 #include "metaprogramming.hpp"
 
 namespace Helper {
-- 
2.43.0


From 6331e1e2a675afc167c43d7455a3873e9d9e5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 28/40] fix: PairIterator dereference and distance can be
 instantiated

---
 include/iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/iterator.hpp b/include/iterator.hpp
index 3ded2fd..0d10133 100644
--- a/include/iterator.hpp
+++ b/include/iterator.hpp
@@ -118,7 +118,7 @@ template<class I, class Val, class Ref> class IteratorFacade<I,Val,ForwardTraver
 template<class I1, class I2> class PairIterator
 //    : public IteratorFacade<PairIterator<I1,I2>, MultivariateMonomial<X>, RandomAccessTag, MultivariateMonomialReference<X>>
 {
-    typedef std::pair<I1*,I2*> Reference;
+    typedef std::pair<typename std::iterator_traits<I1>::reference,typename std::iterator_traits<I2>::reference> Reference;
   public:
     I1 _iter1;
     I2 _iter2;
@@ -139,10 +139,12 @@ template<class I1, class I2> template<class II1, class II2> inline PairIterator<
     : _iter1(iter._iter1), _iter2(iter._iter2) { }
 template<class I1, class I2> template<class II1, class II2> inline bool PairIterator<I1,I2>::equal(const PairIterator<II1,II2>& other) const {
     return this->_iter1 == other._iter1 && this->_iter2 == other._iter2; }
+template<class I1, class I2> template<class II1, class II2> inline auto PairIterator<I1,I2>::distance_to(const PairIterator<II1,II2>& other) const -> DifferenceType {
+    return other._iter1 - this->_iter1; }
 template<class I1, class I2> inline void PairIterator<I1,I2>::advance(DifferenceType k) {
     _iter1+=(k), _iter2+=(k); }
 template<class I1, class I2> inline auto PairIterator<I1,I2>::dereference() -> Reference {
-    return std::make_pair(*this->_iter1,*this->_iter2); }
+    return Reference(*this->_iter1,*this->_iter2); }
 template<class I1, class I2> ostream& operator<<(ostream& os, const PairIterator<I1,I2>& e) {
     return os << "{" << e._iter1 << "," << e._iter2 << "}"; }
 
-- 
2.43.0


From 6a2ce5b34088e74aa08ea3fe2dcbd8d87a640855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 29/40] fix: dynamic_handle_cast can be called on a Handle, and
 keeps a mutable interface mutable

---
 include/handle.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..0408192 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -48,8 +48,6 @@ using std::shared_ptr;
 template<class T> struct HandleObject { };
 
 template<class I> class Handle;
-template<class T, class I> const T& dynamic_handle_cast(const Handle<I>& h);
-template<class T, class I> T& dynamic_handle_cast(Handle<I>& h);
 
 template<class T, class I> class Wrapper
     : public virtual I, public T
@@ -112,8 +110,6 @@ template<class I> class Handle {
   private:
     template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
-    template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
-    template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
@@ -129,7 +125,7 @@ inline void write_error(ostream& os, const char* f, const WritableInterface* w,
 template<class D, class B> D dynamic_handle_cast(B const& h) {
     typedef typename B::Interface BI;
     typedef typename D::Interface DI;
-    if constexpr (Same<decltype(h.managed_pointer()),shared_ptr<BI>>) {
+    if constexpr (Same<decltype(h.managed_pointer()),const shared_ptr<BI>>) {
         shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());
         if(p) { return D(Handle<DI>(p)); }
     } else {
-- 
2.43.0


From be8e620a541fff6e8bd92399f8530f9c7f76621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:05 +0000
Subject: [PATCH 30/40] fix: mutable extraction from a Handle makes the object
 unique first, and is not offered for a const interface

---
 include/handle.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index 0408192..5390424 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -107,9 +107,6 @@ template<class I> class Handle {
         ptr=shared_ptr<I>(ptr->clone()); }
     template<class II> static void _make_unique(shared_ptr<const II>&) { }
     void make_unique() { _make_unique(_ptr); }
-  private:
-    template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
-    template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
@@ -153,8 +150,8 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
     return dynamic_handle_extract<T>(Handle<const I>(h));
 }
 
-template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
-    const I* i=h.raw_const_pointer();
+template<class T, class I> requires (not std::is_const<I>::value) T& dynamic_handle_extract(Handle<I>& h) {
+    const I* i=h.raw_pointer();
     const T* p=dynamic_cast<const T*>(i);
     if(p) { return const_cast<T&>(*p); }
     p=dynamic_cast<const Wrapper<T,I>*>(i);
-- 
2.43.0


From b4a83941604353b01605cc0172661bf03519a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:55 +0000
Subject: [PATCH 31/40] fix: a BinaryWord prints as 0/1 digits whatever the
 format flags of the stream

---
 include/binary_word.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index addd42b..b09550c 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -236,12 +236,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    const std::ios_base::fmtflags flags = os.flags();
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << (bw[i] ? '1' : '0');
     }
-    os.flags( flags );
     return os;
 }
 
-- 
2.43.0


From 75dce05c94939630c5d32ff6338ecc2891d5b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:29:44 +0000
Subject: [PATCH 32/40] fix: an Array is constructed from a size and a value,
 or filled with a value, also when the arguments are numbers of another type
 than its iterators

---
 include/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 63e4a2c..60bf055 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -100,7 +100,7 @@ public:
         this->_uninitialized_generate(g); }
 
     //! \brief Constructs an Array from the range \a first to \a last.
-    template<class ForwardIterator>
+    template<class ForwardIterator> requires (not std::is_arithmetic_v<ForwardIterator>)
     Array(ForwardIterator first, ForwardIterator last)
             : _size(static_cast<size_t>(std::distance(first,last))), _ptr(uninitialized_new(_size)) {
         assert(std::distance(first,last) >= 0);
@@ -200,7 +200,7 @@ public:
     void fill(const ValueType& x) {
         ValueType* curr=begin(); ValueType* end=this->end(); while(curr!=end) { *curr=x; ++curr; } }
     //! \brief Fills the Array from the sequence starting at \a first.
-    template<class InputIterator> void fill(InputIterator first) {
+    template<class InputIterator> requires (not std::is_arithmetic_v<InputIterator>) void fill(InputIterator first) {
         ValueType* curr=begin(); ValueType* end=this->end(); while(curr!=end) { *curr=*first; ++curr; ++first; } }
     //! \brief Assigns the sequence from \a first to \a last.
     template<class ForwardIterator> void assign(ForwardIterator first, ForwardIterator last) {
-- 
2.43.0


From 3452c8b948fce187572bdcb32308353246e35db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:55 +0000
Subject: [PATCH 33/40] fix: elementwise accepts plain functions

---
 include/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index b72b1ec..1638315 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -109,15 +109,15 @@ List<InvokeResult<F,T>> apply(F&& f, List<T> const& lst) {
     for (auto itm : lst) { res.append(f(itm)); } return res;
 }
 
-template<class F, class T> List<ResultOf<F(T)>> elementwise(F const& f, List<T> const& l) {
-    typedef ResultOf<F(T)> R;
+template<class F, class T> List<InvokeResult<F const&,T const&>> elementwise(F const& f, List<T> const& l) {
+    typedef InvokeResult<F const&,T const&> R;
     List<R> r; r.reserve(l.size());
     for(size_t i=0; i!=l.size(); ++i) { r.append(f(l[i])); }
     return r;
 }
 
-template<class F, class T1, class T2> List<ResultOf<F(T1,T2)>> elementwise(F const& f, List<T1> const& l1, List<T2> const& l2) {
-    typedef ResultOf<F(T1,T2)> R;
+template<class F, class T1, class T2> List<InvokeResult<F const&,T1 const&,T2 const&>> elementwise(F const& f, List<T1> const& l1, List<T2> const& l2) {
+    typedef InvokeResult<F const&,T1 const&,T2 const&> R;
     HELPER_ASSERT(l1.size()==l2.size());
     List<R> r; r.reserve(l1.size());
     for(size_t i=0; i!=l1.size(); ++i) { r.append(f(l1[i],l2[i])); }
-- 
2.43.0


From 36a7ac3191181ffe73a3c4acc8cd4a363075b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:57 +0000
Subject: [PATCH 34/40] fix: HELPER_TEST_WITHIN does not truncate
 floating-point differences to integers

---
 include/test.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index f3c2198..84bd930 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -34,6 +34,7 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <cmath>
 #include <iostream>
 #include <exception>
 #include "macros.hpp"
@@ -306,6 +307,7 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
+        using std::abs; \
         auto error=abs((expression)-(expected)); \
         bool ok = (error <= (tolerance));                     \
         if(ok) {                                                        \
-- 
2.43.0


From c2f48c942d6c5e464a2667fa7442c38a7e16c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:57 +0000
Subject: [PATCH 35/40] fix: HELPER_TEST_THROWS and HELPER_TEST_CALL count
 exceptions that are not derived from std::exception

---
 include/test.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index 84bd930..b9ddcf2 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -126,6 +126,12 @@ int test_case_counter = 0;
             std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": calling " \
                       << #function << ": " << except.what() << std::endl; \
             std::cout << std::endl;                                     \
+        } catch(...) {                                                  \
+            ++HELPER_TEST_FAILURES;                                    \
+            std::cout << "ERROR: unknown exception in " << #function << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": calling " \
+                      << #function << ": unknown exception" << std::endl; \
+            std::cout << std::endl;                                     \
         }                                                               \
     }                                                                   \
 
@@ -493,6 +499,11 @@ int test_case_counter = 0;
             std::cout << "\nERROR: caught exception " << except.what() << "; expected " << #error << "\n"; \
             std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught exception " << except.what() << "; expected " << #error << std::endl; \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                    \
+            std::cout << "\nERROR: caught unknown exception; expected " << #error << "\n"; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught unknown exception; expected " << #error << std::endl; \
+        }                                                               \
     }                                                                   \
 
 
-- 
2.43.0


From 4d11a48e78d469f39eaab26d27565b395ba4a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:57 +0000
Subject: [PATCH 36/40] fix: HELPER_ASSERT_EQUAL prints its arguments as
 written

---
 include/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 4d62b81..7df2098 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -139,7 +139,7 @@
     { \
         bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
         if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
         } \
     } \
 
-- 
2.43.0


From 80059c51f3af6873cc3e0352f6dcb82555aa809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:57 +0000
Subject: [PATCH 37/40] fix: HELPER_WARN_ONCE and HELPER_DEPRECATED are one
 statement, so they can be conditional and repeated in one scope

---
 include/macros.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 7df2098..c5ff092 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -147,10 +147,12 @@
     throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    { \
+        static bool first_time=true; \
+        if(first_time) { \
+            first_time=false; \
+            std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+        } \
     } \
 
 #define HELPER_NOTIFY(msg)          \
@@ -164,10 +166,12 @@
     }
 
 #define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    { \
+        static bool first_time=true; \
+        if(first_time) { \
+            first_time=false; \
+            std::cerr << "WARNING: " << msg << "" << std::endl; \
+        } \
     } \
 
 #define HELPER_ERROR(msg)          \
-- 
2.43.0


From f7e4b9f312e07676bf604034d290ec9aaa9dc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:57 +0000
Subject: [PATCH 38/40] fix: macros.hpp includes what its macros use

---
 include/macros.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/macros.hpp b/include/macros.hpp
index c5ff092..2f21cf9 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -36,6 +36,7 @@
 #ifndef HELPER_MACROS_HPP
 #define HELPER_MACROS_HPP
 
+#include <iostream>
 #include <sstream>
 #include <stdexcept>
 
-- 
2.43.0


From fcc1ab483786ccf57aa02d37dbda1e522c62c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:11 +0000
Subject: [PATCH 39/40] fix: test.hpp can be included in several source files
 of one program

---
 include/test.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index b9ddcf2..74e8e0e 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -39,9 +39,9 @@
 #include <exception>
 #include "macros.hpp"
 
-int HELPER_TEST_FAILURES = 0;
-int HELPER_TEST_SKIPPED = 0;
-std::string HELPER_CURRENT_TESTING_CLASS = "???";
+inline int HELPER_TEST_FAILURES = 0;
+inline int HELPER_TEST_SKIPPED = 0;
+inline std::string HELPER_CURRENT_TESTING_CLASS = "???";
 
 // This needs to be a function since we do not want to evaluate the result twice,
 // and can't store it in a variable since we don't know it's type.
@@ -54,7 +54,7 @@ testing_check(std::ostream& os, const R& r, const ER& er) {
 
 //This is the variable that stores counter for the number of test cases
 //The value is used and updated in the next two macro definitions
-int test_case_counter = 0;
+inline int test_case_counter = 0;
 
 /*! \brief Tests a class function */
 #define HELPER_TEST_CLASS(classname,testclassconstruct)                       \
-- 
2.43.0


From 108f82b8f0b987f2866877e5f366a314b0c4b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:06:09 +0000
Subject: [PATCH 40/40] fix: macros.hpp and metaprogramming.hpp keep their
 original line endings

---
 include/macros.hpp          | 388 ++++++++++++++++++------------------
 include/metaprogramming.hpp | 380 +++++++++++++++++------------------
 2 files changed, 384 insertions(+), 384 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 2f21cf9..be383fd 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -1,194 +1,194 @@
-/***************************************************************************
- *            macros.hpp
- *
- *  Copyright  2023  Luca Geretti
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-
-/*! \file macros.hpp
- *  \brief
- */
-
-
-
-#ifndef HELPER_MACROS_HPP
-#define HELPER_MACROS_HPP
-
-#include <iostream>
-#include <sstream>
-#include <stdexcept>
-
-#define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-    Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
-    explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
-
-#define HELPER_THROW(except,func,msg)          \
-    { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
-    } \
-
-#define HELPER_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
-    { }
-#endif
-
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_ASSERT(expression) \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_ASSERT(expression) \
-    { }
-#endif
-
-
-#define HELPER_PRECONDITION_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_PRECONDITION(expression)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#ifndef NDEBUG
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
-        } \
-    } \
-
-#else
-#define HELPER_DEBUG_PRECONDITION(expression) \
-    { }
-#endif
-
-#define HELPER_FAIL_MSG(error)             \
-    { \
-        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
-    } \
-
-#define HELPER_ASSERT_MSG(expression,error)             \
-    { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
-        } \
-    } \
-
-#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
-    { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
-        } \
-    } \
-
-#define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
-
-#define HELPER_DEPRECATED(fn,msg)          \
-    { \
-        static bool first_time=true; \
-        if(first_time) { \
-            first_time=false; \
-            std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
-        } \
-    } \
-
-#define HELPER_NOTIFY(msg)          \
-    {                                                                \
-        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN(msg)          \
-    {                                                                \
-        std::cerr << "WARNING: " << msg << "" << std::endl;                \
-    }
-
-#define HELPER_WARN_ONCE(msg)          \
-    { \
-        static bool first_time=true; \
-        if(first_time) { \
-            first_time=false; \
-            std::cerr << "WARNING: " << msg << "" << std::endl; \
-        } \
-    } \
-
-#define HELPER_ERROR(msg)          \
-    {                                                                \
-        std::cerr << "ERROR: " << msg << "" << std::endl;                \
-    }
-                                                                  \
-#if defined(linux) || defined(__linux) || defined(__linux__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
-#define HELPER_PRETTY_FUNCTION __FUNCTION__
-#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
-#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
-#else
-#define HELPER_PRETTY_FUNCTION ""
-#endif
-
-
-#endif // HELPER_MACROS_HPP
+/***************************************************************************
+ *            macros.hpp
+ *
+ *  Copyright  2023  Luca Geretti
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+
+/*! \file macros.hpp
+ *  \brief
+ */
+
+
+
+#ifndef HELPER_MACROS_HPP
+#define HELPER_MACROS_HPP
+
+#include <iostream>
+#include <sstream>
+#include <stdexcept>
+
+#define HELPER_USING_CONSTRUCTORS(Class,Base) \
+    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    Class(const T& t) : Base(t) { } \
+    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    explicit Class(const T& t) : Base(t) { } \
+    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+
+#define HELPER_THROW(except,func,msg)          \
+    { \
+        std::ostringstream ss; \
+        ss << #except " in " << func << ": " << msg;    \
+        throw except(ss.str()); \
+    } \
+
+#define HELPER_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT_MSG(expression,error) \
+    { }
+#endif
+
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_ASSERT(expression) \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_ASSERT(expression) \
+    { }
+#endif
+
+
+#define HELPER_PRECONDITION_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_PRECONDITION(expression)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#ifndef NDEBUG
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { \
+        bool result = static_cast<bool>(expression); \
+        if(!result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
+        } \
+    } \
+
+#else
+#define HELPER_DEBUG_PRECONDITION(expression) \
+    { }
+#endif
+
+#define HELPER_FAIL_MSG(error)             \
+    { \
+        HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"ErrorTag "<<error); \
+    } \
+
+#define HELPER_ASSERT_MSG(expression,error)             \
+    { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
+        } \
+    } \
+
+#define HELPER_ASSERT_EQUAL(expression1,expression2)    \
+    { \
+        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!assertion_result) { \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
+        } \
+    } \
+
+#define HELPER_NOT_IMPLEMENTED                 \
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+
+#define HELPER_DEPRECATED(fn,msg)          \
+    { \
+        static bool first_time=true; \
+        if(first_time) { \
+            first_time=false; \
+            std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+        } \
+    } \
+
+#define HELPER_NOTIFY(msg)          \
+    {                                                                \
+        std::cerr << "NOTIFICATION: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN(msg)          \
+    {                                                                \
+        std::cerr << "WARNING: " << msg << "" << std::endl;                \
+    }
+
+#define HELPER_WARN_ONCE(msg)          \
+    { \
+        static bool first_time=true; \
+        if(first_time) { \
+            first_time=false; \
+            std::cerr << "WARNING: " << msg << "" << std::endl; \
+        } \
+    } \
+
+#define HELPER_ERROR(msg)          \
+    {                                                                \
+        std::cerr << "ERROR: " << msg << "" << std::endl;                \
+    }
+                                                                  \
+#if defined(linux) || defined(__linux) || defined(__linux__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#elif defined(_WIN32) || defined(__WIN32__) || defined(WIN32)
+#define HELPER_PRETTY_FUNCTION __FUNCTION__
+#elif defined(darwin) || defined(__darwin) || defined(__darwin__) || defined(__APPLE__)
+#define HELPER_PRETTY_FUNCTION __PRETTY_FUNCTION__
+#else
+#define HELPER_PRETTY_FUNCTION ""
+#endif
+
+
+#endif // HELPER_MACROS_HPP
diff --git a/include/metaprogramming.hpp b/include/metaprogramming.hpp
index 2c15658..b44f3eb 100644
--- a/include/metaprogramming.hpp
+++ b/include/metaprogramming.hpp
@@ -1,190 +1,190 @@
-/***************************************************************************
- *            metaprogramming.hpp
- *
- *  Copyright  2023  Pieter Collins
- *
- ****************************************************************************/
-
-/*
- * This file is part of Helper, under the MIT license.
- *
- * Permission is hereby granted, free of charge, to any person obtaining a copy
- * of this software and associated documentation files (the "Software"), to deal
- * in the Software without restriction, including without limitation the rights
- * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- * copies of the Software, and to permit persons to whom the Software is furnished
- * to do so, subject to the following conditions:
- *
- * The above copyright notice and this permission notice shall be included in all
- * copies or substantial portions of the Software.
- *
- * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
- * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
- * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
- * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
- * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
- */
-
-/*! \file metaprogramming.hpp
- *  \brief Classes for template metaprogramming.
- */
-
-#ifndef HELPER_METAPROGRAMMING_HPP
-#define HELPER_METAPROGRAMMING_HPP
-
-#include <type_traits>
-#include <concepts>
-
-namespace Helper {
-
-using std::declval;
-using std::size_t;
-
-using True = std::true_type;
-using False = std::false_type;
-
-template<class T, T V> using IntegralConstant = std::integral_constant<T,V>;
-
-template<class T1, class... TS> struct First { typedef T1 Type; };
-template<class... TS> using FirstType = typename First<TS...>::Type;
-template<class T1, class T2, class... TS> struct Second { typedef T2 Type; };
-template<class... TS> using SecondType = typename Second<TS...>::Type;
-
-template<class T> struct Self { typedef T Type; };
-template<class T> using SelfType = typename Self<T>::Type;
-
-template<class... TS> struct AreAllSame;
-template<> struct AreAllSame<> : True { };
-template<class T> struct AreAllSame<T> : True { };
-template<class T, class... TS> struct AreAllSame<T,T,TS...> : AreAllSame<T,TS...> { };
-template<class T0, class T1, class... TS> struct AreAllSame<T0,T1,TS...> : False { };
-
-template<class T, class... US> struct IsOneOf;
-template<class T> struct IsOneOf<T> : False { };
-template<class T, class... US> struct IsOneOf<T,T,US...> : True { };
-template<class T, class U0, class... US> struct IsOneOf<T,U0,US...> : IsOneOf<T,US...> { };
-
-template<class T, class... TS> struct IndexOf;
-template<class T, class... TS> struct IndexOf<T,T,TS...> { static const size_t N=0; };
-template<class T, class T0, class... TS> struct IndexOf<T,T0,TS...> { static const size_t N=IndexOf<T,TS...>::N+1u; };
-template<class T> struct IndexOf<T> { };
-
-
-template<class F, class... AS> using InvokeResult = typename std::invoke_result<F,AS...>::type;
-template<class SIG> struct ResultOfTrait;
-template<class F, class... AS> struct ResultOfTrait<F(AS...)> { typedef typename std::invoke_result<F,AS...>::type Type; };
-template<class SIG> using ResultOf = typename ResultOfTrait<SIG>::Type;
-
-
-struct Fallback { };
-struct DontCare { template<class T> DontCare(T); };
-
-template<class R> struct Return { typedef R ReturnType; };
-template<class RET> using ReturnType = typename RET::ReturnType;
-
-template<class X> using RemoveConst = typename std::remove_const<X>::type;
-template<class X> using RemoveReference = typename std::remove_reference<X>::type;
-
-template<class L> using LogicalNegationType = decltype(!declval<L>());
-template<class L1, class L2=L1> using LogicalConjunctionType = decltype(declval<L1>() && declval<L2>());
-template<class L1, class L2=L1> using LogicalDisjunctionType = decltype(declval<L1>() || declval<L2>());
-
-template<class X> using NegationType = decltype(-declval<X>());
-template<class X1, class X2=X1> using SumType = decltype(declval<X1>()+declval<X2>());
-template<class X1, class X2=X1> using DifferenceType = decltype(declval<X1>()-declval<X2>());
-template<class X1, class X2=X1> using ProductType = decltype(declval<X1>()*declval<X2>());
-template<class X1, class X2=X1> using QuotientType = decltype(declval<X1>()/declval<X2>());
-template<class X1, class X2=X1> using ArithmeticType = SumType<ProductType<X1,X2>>;
-template<class X1, class X2=X1> using EqualsType = decltype(declval<X1>()==declval<X2>());
-template<class X1, class X2=X1> using LessType = decltype(declval<X1>()< declval<X2>());
-template<class X1, class X2=X1> using ComparisonType = LessType<X1,X2>;
-
-template<class X> using MagType = decltype(mag(declval<X>()));
-
-template<class X1, class X2=X1> using EqualityType = decltype(declval<X1>()==declval<X2>());
-template<class X1, class X2=X1> using InequalityType = decltype(declval<X1>()!=declval<X2>());
-
-template<class X1, class X2=X1> using InplaceSumType = RemoveReference<decltype(declval<X1&>()+=declval<X2>())>;
-template<class X1, class X2=X1> using InplaceDifferenceType = RemoveReference<decltype(declval<X1&>()-=declval<X2>())>;
-template<class X1, class X2=X1> using InplaceProductType = RemoveReference<decltype(declval<X1&>()*=declval<X2>())>;
-template<class X1, class X2=X1> using InplaceQuotientType = RemoveReference<decltype(declval<X1&>()/=declval<X2>())>;
-
-
-template<class F, class... AS> struct IsInvocable;
-template<class R, class F, class... AS> struct IsInvocableReturning;
-
-template<class F, class A> struct IsInvocable<F,A> {
-    template<class FF, class AA, class=decltype(std::declval<FF>()(std::declval<AA>()))>
-        static std::true_type test(int);
-    template<class FF, class AA>
-        static std::false_type test(...);
-    static const bool value = decltype(test<F,A>(1))::value;
-};
-
-template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
-    template<class RR, class FF, class AA, class=decltype(std::declval<RR&>()=std::declval<FF>()(std::declval<AA>()))>
-        static std::true_type test(int);
-    template<class RR, class FF, class AA>
-        static std::false_type test(...);
-    static const bool value = decltype(test<R,F,A>(1))::value;
-};
-
-
-template<class T> concept BuiltinArithmetic = std::is_arithmetic<T>::value;
-template<class T> concept BuiltinIntegral = std::integral<T>;
-template<class T> concept BuiltinFloatingPoint = std::floating_point<T>;
-template<class T> concept BuiltinUnsignedIntegral = std::unsigned_integral<T>;
-template<class T> concept BuiltinSignedIntegral = std::signed_integral<T>;
-
-//template<class T1, class T2> concept SameAs = std::same_as<T1,T2>;
-//template<class T1, class T2> concept Same = std::same_as<T1,T2>;
-template<class T1, class T2> concept SameAs = std::is_same<T1,T2>::value;
-template<class T1, class T2> concept Same = std::is_same<T1,T2>::value;
-//template<class F, class T> concept ConvertibleTo = std::convertible_to<F,T>;
-//template<class F, class T> concept Convertible = std::convertible_to<F,T>;
-template<class F, class T> concept Convertible = std::is_convertible<F,T>::value;
-template<class F, class T> concept ConvertibleTo = std::is_convertible<F,T>::value;
-//template<class T, class... US> concept ConstructibleFrom = std::constructible_from<T,US...>;
-//template<class T, class... US> concept Constructible = std::constructible_from<T,US...>;
-template<class T, class... US> concept ConstructibleFrom = std::is_constructible<T,US...>::value;
-template<class T, class... US> concept Constructible = std::is_constructible<T,US...>::value;
-//template<class T> concept DefaultInitializable = std::default_initializable<T>;
-//template<class T> concept DefaultConstructible = std::default_initializable<T>;
-//template<class T> concept CopyConstructible = std::copy_constructible<T>;
-template<class T> concept DefaultInitializable = std::is_default_constructible<T>::value;
-template<class T> concept DefaultConstructible = std::is_default_constructible<T>::value;
-template<class T> concept CopyConstructible = std::is_copy_constructible<T>::value;
-//template<class F, class T> concept ExplicitlyConvertibleTo = std::constructible_from<T,F> and not std::convertible_to<F,T>;
-//template<class F, class T> concept ExplicitlyConvertible = std::constructible_from<T,F> and not std::convertible_to<F,T>;
-template<class F, class T> concept ExplicitlyConvertibleTo = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
-template<class F, class T> concept ExplicitlyConvertible = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
-//template<class T, class F> concept AssignableFrom = std::assignable_from<T,F>;
-//template<class F, class T> concept AssignableTo = std::assignable_from<T,F>;
-//template<class T, class F> concept Assignable = std::assignable_from<T,F>;
-template<class T, class F> concept Assignable = std::is_assignable<T,F>::value;
-template<class T, class F> concept AssignableFrom = std::is_assignable<T,F>::value;
-template<class F, class T> concept AssignableTo = std::is_assignable<T,F>::value;
-
-template<class D, class B> concept DerivedFrom = std::derived_from<D,B>;
-template<class B, class D> concept BaseOf = std::derived_from<D,B>;
-
-template<class F, class... AS> concept Invocable = std::invocable<F,AS...>;
-template<class R, class F, class... AS> concept InvocableReturning = Invocable<F,AS...> and Convertible<InvokeResult<F,AS...>,R>;
-
-template<class F, class T> concept SameAsOrConvertibleTo = SameAs<F,T> or Convertible<F,T>;
-
-template<class T, class... US> concept OneOf = IsOneOf<T,US...>::value;
-template<class... TS> concept AllSame = AreAllSame<TS...>::value;
-
-
-template<class A1, class A2> concept HasEquality = requires(A1 a1, A2 a2) { { a1==a2 }; };
-template<class A1, class A2> concept CanAdd = requires(A1 a1, A2 a2) { { a1+a2 }; };
-template<class A1, class A2> concept CanSubtract = requires(A1 a1, A2 a2) { { a1-a2 }; };
-template<class A1, class A2> concept CanMultiply = requires(A1 a1, A2 a2) { { a1*a2 }; };
-template<class A1, class A2> concept CanDivide = requires(A1 a1, A2 a2) { { a1/a2 }; };
-
-
-} // namespace Helper
-
-#endif
+/***************************************************************************
+ *            metaprogramming.hpp
+ *
+ *  Copyright  2023  Pieter Collins
+ *
+ ****************************************************************************/
+
+/*
+ * This file is part of Helper, under the MIT license.
+ *
+ * Permission is hereby granted, free of charge, to any person obtaining a copy
+ * of this software and associated documentation files (the "Software"), to deal
+ * in the Software without restriction, including without limitation the rights
+ * to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ * copies of the Software, and to permit persons to whom the Software is furnished
+ * to do so, subject to the following conditions:
+ *
+ * The above copyright notice and this permission notice shall be included in all
+ * copies or substantial portions of the Software.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ * IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY, FITNESS
+ * FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR
+ * COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER
+ * IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+ * WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+ */
+
+/*! \file metaprogramming.hpp
+ *  \brief Classes for template metaprogramming.
+ */
+
+#ifndef HELPER_METAPROGRAMMING_HPP
+#define HELPER_METAPROGRAMMING_HPP
+
+#include <type_traits>
+#include <concepts>
+
+namespace Helper {
+
+using std::declval;
+using std::size_t;
+
+using True = std::true_type;
+using False = std::false_type;
+
+template<class T, T V> using IntegralConstant = std::integral_constant<T,V>;
+
+template<class T1, class... TS> struct First { typedef T1 Type; };
+template<class... TS> using FirstType = typename First<TS...>::Type;
+template<class T1, class T2, class... TS> struct Second { typedef T2 Type; };
+template<class... TS> using SecondType = typename Second<TS...>::Type;
+
+template<class T> struct Self { typedef T Type; };
+template<class T> using SelfType = typename Self<T>::Type;
+
+template<class... TS> struct AreAllSame;
+template<> struct AreAllSame<> : True { };
+template<class T> struct AreAllSame<T> : True { };
+template<class T, class... TS> struct AreAllSame<T,T,TS...> : AreAllSame<T,TS...> { };
+template<class T0, class T1, class... TS> struct AreAllSame<T0,T1,TS...> : False { };
+
+template<class T, class... US> struct IsOneOf;
+template<class T> struct IsOneOf<T> : False { };
+template<class T, class... US> struct IsOneOf<T,T,US...> : True { };
+template<class T, class U0, class... US> struct IsOneOf<T,U0,US...> : IsOneOf<T,US...> { };
+
+template<class T, class... TS> struct IndexOf;
+template<class T, class... TS> struct IndexOf<T,T,TS...> { static const size_t N=0; };
+template<class T, class T0, class... TS> struct IndexOf<T,T0,TS...> { static const size_t N=IndexOf<T,TS...>::N+1u; };
+template<class T> struct IndexOf<T> { };
+
+
+template<class F, class... AS> using InvokeResult = typename std::invoke_result<F,AS...>::type;
+template<class SIG> struct ResultOfTrait;
+template<class F, class... AS> struct ResultOfTrait<F(AS...)> { typedef typename std::invoke_result<F,AS...>::type Type; };
+template<class SIG> using ResultOf = typename ResultOfTrait<SIG>::Type;
+
+
+struct Fallback { };
+struct DontCare { template<class T> DontCare(T); };
+
+template<class R> struct Return { typedef R ReturnType; };
+template<class RET> using ReturnType = typename RET::ReturnType;
+
+template<class X> using RemoveConst = typename std::remove_const<X>::type;
+template<class X> using RemoveReference = typename std::remove_reference<X>::type;
+
+template<class L> using LogicalNegationType = decltype(!declval<L>());
+template<class L1, class L2=L1> using LogicalConjunctionType = decltype(declval<L1>() && declval<L2>());
+template<class L1, class L2=L1> using LogicalDisjunctionType = decltype(declval<L1>() || declval<L2>());
+
+template<class X> using NegationType = decltype(-declval<X>());
+template<class X1, class X2=X1> using SumType = decltype(declval<X1>()+declval<X2>());
+template<class X1, class X2=X1> using DifferenceType = decltype(declval<X1>()-declval<X2>());
+template<class X1, class X2=X1> using ProductType = decltype(declval<X1>()*declval<X2>());
+template<class X1, class X2=X1> using QuotientType = decltype(declval<X1>()/declval<X2>());
+template<class X1, class X2=X1> using ArithmeticType = SumType<ProductType<X1,X2>>;
+template<class X1, class X2=X1> using EqualsType = decltype(declval<X1>()==declval<X2>());
+template<class X1, class X2=X1> using LessType = decltype(declval<X1>()< declval<X2>());
+template<class X1, class X2=X1> using ComparisonType = LessType<X1,X2>;
+
+template<class X> using MagType = decltype(mag(declval<X>()));
+
+template<class X1, class X2=X1> using EqualityType = decltype(declval<X1>()==declval<X2>());
+template<class X1, class X2=X1> using InequalityType = decltype(declval<X1>()!=declval<X2>());
+
+template<class X1, class X2=X1> using InplaceSumType = RemoveReference<decltype(declval<X1&>()+=declval<X2>())>;
+template<class X1, class X2=X1> using InplaceDifferenceType = RemoveReference<decltype(declval<X1&>()-=declval<X2>())>;
+template<class X1, class X2=X1> using InplaceProductType = RemoveReference<decltype(declval<X1&>()*=declval<X2>())>;
+template<class X1, class X2=X1> using InplaceQuotientType = RemoveReference<decltype(declval<X1&>()/=declval<X2>())>;
+
+
+template<class F, class... AS> struct IsInvocable;
+template<class R, class F, class... AS> struct IsInvocableReturning;
+
+template<class F, class A> struct IsInvocable<F,A> {
+    template<class FF, class AA, class=decltype(std::declval<FF>()(std::declval<AA>()))>
+        static std::true_type test(int);
+    template<class FF, class AA>
+        static std::false_type test(...);
+    static const bool value = decltype(test<F,A>(1))::value;
+};
+
+template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
+    template<class RR, class FF, class AA, class=decltype(std::declval<RR&>()=std::declval<FF>()(std::declval<AA>()))>
+        static std::true_type test(int);
+    template<class RR, class FF, class AA>
+        static std::false_type test(...);
+    static const bool value = decltype(test<R,F,A>(1))::value;
+};
+
+
+template<class T> concept BuiltinArithmetic = std::is_arithmetic<T>::value;
+template<class T> concept BuiltinIntegral = std::integral<T>;
+template<class T> concept BuiltinFloatingPoint = std::floating_point<T>;
+template<class T> concept BuiltinUnsignedIntegral = std::unsigned_integral<T>;
+template<class T> concept BuiltinSignedIntegral = std::signed_integral<T>;
+
+//template<class T1, class T2> concept SameAs = std::same_as<T1,T2>;
+//template<class T1, class T2> concept Same = std::same_as<T1,T2>;
+template<class T1, class T2> concept SameAs = std::is_same<T1,T2>::value;
+template<class T1, class T2> concept Same = std::is_same<T1,T2>::value;
+//template<class F, class T> concept ConvertibleTo = std::convertible_to<F,T>;
+//template<class F, class T> concept Convertible = std::convertible_to<F,T>;
+template<class F, class T> concept Convertible = std::is_convertible<F,T>::value;
+template<class F, class T> concept ConvertibleTo = std::is_convertible<F,T>::value;
+//template<class T, class... US> concept ConstructibleFrom = std::constructible_from<T,US...>;
+//template<class T, class... US> concept Constructible = std::constructible_from<T,US...>;
+template<class T, class... US> concept ConstructibleFrom = std::is_constructible<T,US...>::value;
+template<class T, class... US> concept Constructible = std::is_constructible<T,US...>::value;
+//template<class T> concept DefaultInitializable = std::default_initializable<T>;
+//template<class T> concept DefaultConstructible = std::default_initializable<T>;
+//template<class T> concept CopyConstructible = std::copy_constructible<T>;
+template<class T> concept DefaultInitializable = std::is_default_constructible<T>::value;
+template<class T> concept DefaultConstructible = std::is_default_constructible<T>::value;
+template<class T> concept CopyConstructible = std::is_copy_constructible<T>::value;
+//template<class F, class T> concept ExplicitlyConvertibleTo = std::constructible_from<T,F> and not std::convertible_to<F,T>;
+//template<class F, class T> concept ExplicitlyConvertible = std::constructible_from<T,F> and not std::convertible_to<F,T>;
+template<class F, class T> concept ExplicitlyConvertibleTo = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
+template<class F, class T> concept ExplicitlyConvertible = std::is_constructible<T,F>::value and not std::is_convertible<F,T>::value;
+//template<class T, class F> concept AssignableFrom = std::assignable_from<T,F>;
+//template<class F, class T> concept AssignableTo = std::assignable_from<T,F>;
+//template<class T, class F> concept Assignable = std::assignable_from<T,F>;
+template<class T, class F> concept Assignable = std::is_assignable<T,F>::value;
+template<class T, class F> concept AssignableFrom = std::is_assignable<T,F>::value;
+template<class F, class T> concept AssignableTo = std::is_assignable<T,F>::value;
+
+template<class D, class B> concept DerivedFrom = std::derived_from<D,B>;
+template<class B, class D> concept BaseOf = std::derived_from<D,B>;
+
+template<class F, class... AS> concept Invocable = std::invocable<F,AS...>;
+template<class R, class F, class... AS> concept InvocableReturning = Invocable<F,AS...> and Convertible<InvokeResult<F,AS...>,R>;
+
+template<class F, class T> concept SameAsOrConvertibleTo = SameAs<F,T> or Convertible<F,T>;
+
+template<class T, class... US> concept OneOf = IsOneOf<T,US...>::value;
+template<class... TS> concept AllSame = AreAllSame<TS...>::value;
+
+
+template<class A1, class A2> concept HasEquality = requires(A1 a1, A2 a2) { { a1==a2 }; };
+template<class A1, class A2> concept CanAdd = requires(A1 a1, A2 a2) { { a1+a2 }; };
+template<class A1, class A2> concept CanSubtract = requires(A1 a1, A2 a2) { { a1-a2 }; };
+template<class A1, class A2> concept CanMultiply = requires(A1 a1, A2 a2) { { a1*a2 }; };
+template<class A1, class A2> concept CanDivide = requires(A1 a1, A2 a2) { { a1/a2 }; };
+
+
+} // namespace Helper
+
+#endif
-- 
2.43.0

