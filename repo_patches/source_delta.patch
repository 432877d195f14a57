From 05ae25005885f983a2192e08c011ca8f1c818218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:18 +0000
Subject: [PATCH 01/57] fix: release the old elements and storage in Array move
 assignment

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..4445719 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 9e1f8765d5ab84181cde5d9121fef7a280cbafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:18 +0000
Subject: [PATCH 02/57] fix: decrement the count, not the pointer to it, when a
 SharedArray is destroyed

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 4445719..89f8b6c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From 5d103f53cee4bf8e511617ab0cced054235a57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:18 +0000
Subject: [PATCH 03/57] fix: reject an Array size whose storage size in bytes
 overflows size_t

---
 include/array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 89f8b6c..1798f9d 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -37,6 +37,7 @@
 
 #include <initializer_list>
 #include <iterator>
+#include <new>
 #include <stdexcept>
 #include <cassert>
 #include "metaprogramming.hpp"
@@ -52,7 +53,9 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) {
+        if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From 63ea4b6d4e53f116ece7be27b2743e28073400a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:50 +0000
Subject: [PATCH 04/57] fix: respect the alignment of over-aligned element
 types in Array storage

---
 include/array.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 1798f9d..5dfef34 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -55,8 +55,12 @@ class Array {
 private:
     static T* uninitialized_new(size_t n) {
         if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
-        return static_cast<T*>(::operator new(n*sizeof(T))); }
-    static void uninitialized_delete(T* p) { ::operator delete(p); }
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(n*sizeof(T),std::align_val_t(alignof(T)))); }
+        else { return static_cast<T*>(::operator new(n*sizeof(T))); } }
+    static void uninitialized_delete(T* p) {
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { ::operator delete(p,std::align_val_t(alignof(T))); }
+        else { ::operator delete(p); } }
 public:
     typedef T ValueType;
     typedef size_t IndexType;
-- 
2.43.0


From cde01c3b1699edd1dabf39530aa79010ade4666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:50 +0000
Subject: [PATCH 05/57] fix: do not leak the count when a SharedArray's
 elements cannot be allocated

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 5dfef34..52bd5d3 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -236,7 +236,8 @@ public:
     size_t* _count; size_t _size; T* _ptr;
 public:
     ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
-    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
+    SharedArray(size_t n) : _count(nullptr), _size(n), _ptr(new T[n]) {
+        try { _count=new size_t(1u); } catch(...) { delete[] _ptr; throw; } }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
-- 
2.43.0


From aa6ad95f701eab1a0d1d1dc1e281af981edfafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:50 +0000
Subject: [PATCH 06/57] fix: keep the Array intact when copy assignment or
 reallocate throws

---
 include/array.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 52bd5d3..430db2a 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -135,7 +135,7 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> r(a); this->swap(r); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -161,8 +161,7 @@ public:
             for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> r(n); this->swap(r); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
-- 
2.43.0


From b056e2710e67a8c7cd202588bde79a71b7c7c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:50 +0000
Subject: [PATCH 07/57] fix: release the constructed elements and storage when
 an Array element's constructor throws

---
 include/array.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 430db2a..52e628f 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -85,7 +85,8 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) {
+        _uninitialized_construct(_ptr,n,[](pointer p, size_t) { new (p) T(); }); }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -152,13 +153,13 @@ public:
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
             pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
+            _uninitialized_construct(_new_ptr,n,[this](pointer p, size_t i) { if(i<_size) { new (p) T(_ptr[i]); } else { new (p) T(); } });
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
             pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
+            _uninitialized_construct(_new_ptr,n,[this,&t](pointer p, size_t i) { if(i<_size) { new (p) T(_ptr[i]); } else { new (p) T(t); } });
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
     void reallocate(size_t n) { if(size()!=n) { Array<T> r(n); this->swap(r); } }
@@ -211,16 +212,19 @@ public:
         resize(std::distance(first,last)); fill(first); }
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
+    // Construct the n elements at p; if this fails, then destroy those already constructed and release the storage.
+    template<class C> static void _uninitialized_construct(pointer p, size_t n, C construct) {
+        size_t i=0u;
+        try { for( ; i!=n; ++i) { construct(p+i,i); } }
+        catch(...) { while(i!=0u) { --i; (p+i)->~T(); } uninitialized_delete(p); throw; } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        _uninitialized_construct(_ptr,_size,[&x](pointer p, size_t) { new (p) T(x); }); }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        _uninitialized_construct(_ptr,_size,[&first](pointer p, size_t) { new (p) T(*first); ++first; }); }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
-        pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        _uninitialized_construct(_ptr,_size,[&first,&parameters](pointer p, size_t) { new (p) T(*first,parameters); ++first; }); }
     template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        _uninitialized_construct(_ptr,_size,[&g](pointer p, size_t i) { new (p) T(g(i)); }); }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From 3be10e7a5d7e8444bd2f8ec7578b82575a73c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:18 +0000
Subject: [PATCH 08/57] fix: Set::restrict removed the elements it should keep

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..74bc38d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From b7553b93f29f4b27d08982e2c38f7583ab4c4dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:18 +0000
Subject: [PATCH 09/57] fix: apply on a Set did not compile

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 74bc38d..c43e5f8 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From 8d422e6fd112a9f0415d2b01d3273f1c1950e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:18 +0000
Subject: [PATCH 10/57] fix: filled construction, append and concatenate of
 LinkedList did not compile

---
 include/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index c43e5f8..f22267d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,15 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { LinkedList<T> r(t); this->splice(this->end(),r); }
+    void concatenate(const LinkedList<T>& t) { LinkedList<T> r(t); this->splice(this->end(),r); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From 611b18abb5aa1b26b40b48fac7304251e86dcaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:19 +0000
Subject: [PATCH 11/57] fix: appending a List to itself did not terminate

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index f22267d..5d9c0d0 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From 0184f11f3f398204e6f4cf1e229eaf58da8967ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:19 +0000
Subject: [PATCH 12/57] fix: make_list of an Array did not compile

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 5d9c0d0..2bf2c57 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -321,7 +321,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From 4fc4e78f93457fc1b43ef736bedbb00679513c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:19 +0000
Subject: [PATCH 13/57] fix: writing a tuple did not compile

---
 include/stlio.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..1be4fff 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -191,11 +191,13 @@ read_sequence(istream& is, Container& v,
 
 
 template<class TUP, std::size_t N> void write_tuple(std::ostream& os, TUP const& tup, std::integral_constant<std::size_t,N>) {
-    if constexpr (N!=1) {
+    if constexpr (N>1) {
         write_tuple(os,tup,std::integral_constant<std::size_t,N-1>());
         os << ',';
     }
-    os << std::get<N-1>(tup);
+    if constexpr (N>0) {
+        os << std::get<N-1>(tup);
+    }
 }
 
 } // namespace Helper
@@ -219,7 +221,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From 8be01468ab094dc520dadd55f372264cc184c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:19 +0000
Subject: [PATCH 14/57] fix: do not use an uninitialised character when reading
 a sequence from an empty stream

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 1be4fff..7b38df0 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -149,7 +149,7 @@ read_sequence(istream& is, Container& v,
     typedef typename Container::value_type T;
 
     T x;
-    char c;
+    char c='\0';
 
     v.clear();
 
-- 
2.43.0


From a5137d87afc398d050d1efdcaa728ac916e1c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 15/57] fix: binary_word.hpp did not compile, as it used
 undefined string types

---
 include/binary_word.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..b84d022 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -77,6 +77,8 @@
 #include <limits>
 #include <vector>
 #include <iosfwd>
+#include <sstream>
+#include <string>
 #include <stdexcept>
 
 #include "macros.hpp"
@@ -101,7 +103,7 @@ class BinaryWord : public std::vector<bool> {
     BinaryWord() : std::vector<bool>() { }
 
     //! \brief Construct from a string literal consisting of zeros and ones.
-    explicit BinaryWord(const StringType& str);
+    explicit BinaryWord(const std::string& str);
 
     //! Comparison operator.
     bool operator<(const BinaryWord& w) const;
@@ -212,14 +214,14 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
 /*! \brief allocates a new binary word created from a string.
  *  The data format is either "[0,1,0,1,1]" or equivalently "01011".
  */
-inline BinaryWord make_binary_word(const StringType& string_data) {
+inline BinaryWord make_binary_word(const std::string& string_data) {
     BinaryWord binary_word;
-    StringStream string_input_stream( string_data );
+    std::stringstream string_input_stream( string_data );
     string_input_stream >> binary_word;
     return binary_word;
 }
 
-inline BinaryWord::BinaryWord(const StringType& str) {
+inline BinaryWord::BinaryWord(const std::string& str) {
     *this=make_binary_word(str); }
 
 /*! \brief Serializes data into a stream.
-- 
2.43.0


From b8704ca281065fe3bfab2adc58cb7a8733a40f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 16/57] fix: appending a BinaryWord to itself did not terminate

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index b84d022..7be3eb1 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -179,7 +179,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t binaryWordSize = binaryWord.size();
+    for( size_t i = 0; i < binaryWordSize ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From 7e7223afc5c4b571035e8fe74fab77efc2f04cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:53 +0000
Subject: [PATCH 17/57] fix: writing a BinaryWord left the stream with the
 boolalpha flag set

---
 include/binary_word.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 7be3eb1..4f95993 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -232,11 +232,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << ( bw[i] ? '1' : '0' );
     }
-    os << std::boolalpha;
     return os;
 }
 
-- 
2.43.0


From 3992e793d06d85896dc2f635ea87d1bb3b1e2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 18/57] fix: do not use an uninitialised symbol when reading a
 BinaryWord from an empty stream

---
 include/binary_word.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 4f95993..78c9ccd 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -194,7 +194,9 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     binary_word.clear();
     //Read the first stream symbol to check the input format
     char symbol;
-    input_stream >> symbol;
+    if( !( input_stream >> symbol ) ) {
+        return input_stream;
+    }
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
         //the symbol back and use it's input operator
-- 
2.43.0


From 249ffb1ac349d9b92ce52a77fc199d8ad9343195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 19/57] fix: reading a BinaryWord which ends the input put the
 stream in a failed state

---
 include/binary_word.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 78c9ccd..0195e60 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -205,8 +205,12 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
         input_stream >> bool_vector;
     } else {
         //Otherwise read a sequence of 0 and 1.
-        while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
+        while( symbol =='0' || symbol =='1' ) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
+            //Stop at the end of the input, which is not a failure to read the word
+            if( input_stream.peek() == std::istream::traits_type::eof() ) {
+                return input_stream;
+            }
             input_stream.get( symbol );
         }
         input_stream.putback( symbol );
-- 
2.43.0


From ce0604d1a9082a27a8c4027ca8313a3fe5f584c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 20/57] fix: read back the symbol 'e' which is written for an
 empty BinaryWord

---
 include/binary_word.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 0195e60..983da34 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -203,8 +203,8 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
         std::vector<bool> & bool_vector = binary_word;
         input_stream.putback( symbol );
         input_stream >> bool_vector;
-    } else {
-        //Otherwise read a sequence of 0 and 1.
+    } else if( symbol != 'e' ) {
+        //Otherwise, unless it is the symbol 'e' for an empty word, read a sequence of 0 and 1.
         while( symbol =='0' || symbol =='1' ) {
             binary_word.push_back( symbol == '0' ? 0 : 1);
             //Stop at the end of the input, which is not a failure to read the word
-- 
2.43.0


From 7793422e5bfcd09fb5cc81af0e0f4b78dfa149fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 21/57] fix: HELPER_NOT_IMPLEMENTED did not compile, as it used
 an undefined string type

---
 include/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..dff4445 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -144,7 +144,7 @@
     } \
 
 #define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
     static bool first_time=true; \
-- 
2.43.0


From 0e7c89466d9b87884ef23e773191b7312957733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 22/57] fix: HELPER_TEST_WITHIN gave the wrong verdict for
 compound arguments

---
 include/test.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..cc9ced0 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -306,8 +306,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        auto error=abs((expression)-(expected)); \
+        bool ok = (error <= (tolerance));                       \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From f6129f0fd2ef250ba4136d2b4b902b06fd61da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 23/57] fix: measure durations by a clock which cannot be set
 back

---
 include/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stopwatch.hpp b/include/stopwatch.hpp
index 3686c76..70932d7 100644
--- a/include/stopwatch.hpp
+++ b/include/stopwatch.hpp
@@ -43,7 +43,7 @@ using Microseconds = std::chrono::microseconds;
 
 template<class D> class Stopwatch {
 public:
-    using ResolutionType = std::chrono::high_resolution_clock;
+    using ResolutionType = std::chrono::steady_clock;
     using TimePointType = std::chrono::time_point<ResolutionType>;
 
     Stopwatch() { restart(); }
-- 
2.43.0


From c842337b9f8e0e54e8caee9f9e76836bd8135fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:54 +0000
Subject: [PATCH 24/57] fix: make a randomiser deletable by its interface

---
 include/randomiser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/randomiser.hpp b/include/randomiser.hpp
index 97f230b..d9d43b6 100644
--- a/include/randomiser.hpp
+++ b/include/randomiser.hpp
@@ -61,6 +61,7 @@ static RandomGenerator RANDOM_GENERATOR;
 template<class T> class RandomiserInterface {
   public:
     virtual T get() = 0;
+    virtual ~RandomiserInterface() = default;
 };
 
 template<class T,class D> class RandomiserBase : public RandomiserInterface<T> {
-- 
2.43.0


From 7d403e76c353f403d9daed83907b54891ea5ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 25/57] fix: insert into an LRUCache before evicting, so that
 put can fail or use a cached value safely

---
 include/lru_cache.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..249ea10 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,17 +79,14 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
-        if (_elements.size() < _maximum_size) {
-            for (auto& other : _elements) other.second.age++;
-        } else {
-            auto to_remove = _elements.end();
-            for (auto it = _elements.begin(); it != _elements.end(); ++it) {
-                if (it->second.age == _maximum_size-1) to_remove = it;
-                it->second.age++;
-            }
-            _elements.erase(to_remove);
+        auto inserted = _elements.insert({label,AgeValuePair(0,val)}).first;
+        auto to_remove = _elements.end();
+        for (auto it = _elements.begin(); it != _elements.end(); ++it) {
+            if (it == inserted) continue;
+            if (it->second.age == _maximum_size-1) to_remove = it;
+            it->second.age++;
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        if (to_remove != _elements.end()) _elements.erase(to_remove);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From ef91b5cce90db3f6fd0ed92abcb3cd2bd08c28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 26/57] fix: a frame without a symbol name put std::cerr in a
 failed state in stack_trace

---
 src/stack_trace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..ba3d877 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -49,7 +49,7 @@ void stack_trace() {
     assert (symbols != nullptr);
     for (int i = skip; i < nFrames; i++) {
         Dl_info info;
-        if (dladdr(callstack[i], &info)) {
+        if (dladdr(callstack[i], &info) && info.dli_sname != nullptr) {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-- 
2.43.0


From c62bbeb57d6bd47d6d950e3568bb87ee662c81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 27/57] fix: demangle the symbol name, not the whole frame
 description, in stack_trace

---
 src/stack_trace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index ba3d877..a677d23 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -53,7 +53,7 @@ void stack_trace() {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-            char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
+            char* demangled = abi::__cxa_demangle(info.dli_sname, no_output_buffer, &length, &status);
             std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
             free(demangled);
         } else {
-- 
2.43.0


From 290d39d4cadcf18f8851f194655edee2e1ca551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 28/57] fix: dynamic_handle_cast of a handle to a mutable
 interface did not compile

---
 include/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..d764113 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -129,7 +129,7 @@ inline void write_error(ostream& os, const char* f, const WritableInterface* w,
 template<class D, class B> D dynamic_handle_cast(B const& h) {
     typedef typename B::Interface BI;
     typedef typename D::Interface DI;
-    if constexpr (Same<decltype(h.managed_pointer()),shared_ptr<BI>>) {
+    if constexpr (Same<decltype(h.managed_pointer()),const shared_ptr<BI>>) {
         shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());
         if(p) { return D(Handle<DI>(p)); }
     } else {
-- 
2.43.0


From 4eb6e715a5f838b4ebb17d522f9d465419b19788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 29/57] fix: dynamic_handle_cast of a Handle was ambiguous with
 functions which are never defined

---
 include/handle.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index d764113..0408192 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -48,8 +48,6 @@ using std::shared_ptr;
 template<class T> struct HandleObject { };
 
 template<class I> class Handle;
-template<class T, class I> const T& dynamic_handle_cast(const Handle<I>& h);
-template<class T, class I> T& dynamic_handle_cast(Handle<I>& h);
 
 template<class T, class I> class Wrapper
     : public virtual I, public T
@@ -112,8 +110,6 @@ template<class I> class Handle {
   private:
     template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
-    template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
-    template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
-- 
2.43.0


From 290ae5b94865af6a18b677bf578c57992ae92536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 30/57] fix: the check for a write method used a stream no
 write method can accept

---
 include/writable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/writable.hpp b/include/writable.hpp
index 9a0708e..9a0f22c 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -53,7 +53,7 @@ class WritableInterface {
 };
 inline ostream& operator<<(ostream& os, const WritableInterface& w) { w._write(os); return os; }
 
-template<class T, class = decltype(declval<T>()._write(declval<ostream>()))> True has_write(int);
+template<class T, class = decltype(declval<T>()._write(declval<ostream&>()))> True has_write(int);
 template<class T> False has_write(...);
 template<class T, class = Fallback> struct IsWritable : decltype(has_write<T>(1)) { };
 
-- 
2.43.0


From e95db1fd18c781eb2ed06d4b65f592b7eb9b5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:24 +0000
Subject: [PATCH 31/57] fix: dereferencing or taking the distance between
 PairIterators did not compile or link

---
 include/iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/iterator.hpp b/include/iterator.hpp
index 08ee013..de62aad 100644
--- a/include/iterator.hpp
+++ b/include/iterator.hpp
@@ -116,7 +116,7 @@ template<class I, class Val, class Ref> class IteratorFacade<I,Val,ForwardTraver
 template<class I1, class I2> class PairIterator
 //    : public IteratorFacade<PairIterator<I1,I2>, MultivariateMonomial<X>, RandomAccessTag, MultivariateMonomialReference<X>>
 {
-    typedef std::pair<I1*,I2*> Reference;
+    typedef std::pair<std::iter_reference_t<I1>,std::iter_reference_t<I2>> Reference;
   public:
     I1 _iter1;
     I2 _iter2;
@@ -137,10 +137,12 @@ template<class I1, class I2> template<class II1, class II2> inline PairIterator<
     : _iter1(iter._iter1), _iter2(iter._iter2) { }
 template<class I1, class I2> template<class II1, class II2> inline bool PairIterator<I1,I2>::equal(const PairIterator<II1,II2>& other) const {
     return this->_iter1 == other._iter1 && this->_iter2 == other._iter2; }
+template<class I1, class I2> template<class II1, class II2> inline auto PairIterator<I1,I2>::distance_to(const PairIterator<II1,II2>& other) const -> DifferenceType {
+    return other._iter1 - this->_iter1; }
 template<class I1, class I2> inline void PairIterator<I1,I2>::advance(DifferenceType k) {
     _iter1+=(k), _iter2+=(k); }
 template<class I1, class I2> inline auto PairIterator<I1,I2>::dereference() -> Reference {
-    return std::make_pair(*this->_iter1,*this->_iter2); }
+    return Reference(*this->_iter1,*this->_iter2); }
 template<class I1, class I2> ostream& operator<<(ostream& os, const PairIterator<I1,I2>& e) {
     return os << "{" << e._iter1 << "," << e._iter2 << "}"; }
 
-- 
2.43.0


From 9181a0ffcfa9fb5d0bfe816bd46d633948dd652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:38 +0000
Subject: [PATCH 32/57] fix: Set::subset tested for the reverse inclusion,
 unlike the function subset

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 2bf2c57..5043eee 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -176,8 +176,8 @@ template<class T> class Set : public std::set<T> {
     bool contains(const T& t) const {
         return this->find(t)!=this->end(); }
     bool subset(const std::set<T>& s) const {
-        for(auto iter=s.begin(); iter!=s.end(); ++iter) {
-            if(!this->contains(*iter)) { return false; } } return true; }
+        for(auto iter=this->begin(); iter!=this->end(); ++iter) {
+            if(s.find(*iter)==s.end()) { return false; } } return true; }
     bool disjoint(const std::set<T>& s) const {
         for(auto iter=s.begin(); iter!=s.end(); ++iter) {
             if(this->contains(*iter)) { return false; } } return true; }
-- 
2.43.0


From 9bd57ad0d04ce53929db8a1297d8354c06a95b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:26 +0000
Subject: [PATCH 33/57] fix: reading a sequence accepted a truncated text if
 its brackets are the same character

---
 include/stlio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 7b38df0..64d65ea 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -161,6 +161,9 @@ read_sequence(istream& is, Container& v,
 
         /* Handle case of empty list */
         is >> c;
+        if(is.fail()) {
+            throw std::ios_base::failure("Helper::Base::read_vector: End-of-file reached");
+        }
         if(c != closing) {
             is.putback(c);
             c=separator;
-- 
2.43.0


From 0b4b0fa145f6931bef635c619cd48b035fbd9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:49 +0000
Subject: [PATCH 34/57] fix: containers of elements which cannot be copied
 could not be written

---
 include/container.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 5043eee..4aa6513 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -50,7 +50,7 @@ using std::size_t;
 
 template<class T> ostream& operator<<(ostream& os, const Array<T>& a) {
     bool first=true;
-    for(auto x : a) {
+    for(auto const& x : a) {
         os << (first ? "[" : ",") << x;
         first = false;
     }
@@ -60,7 +60,7 @@ template<class T> ostream& operator<<(ostream& os, const Array<T>& a) {
 
 template<class T> ostream& operator<<(ostream& os, const SharedArray<T>& a) {
     bool first=true;
-    for(auto x : a) {
+    for(auto const& x : a) {
         os << (first ? "[" : ",") << x;
         first = false;
     }
@@ -126,7 +126,7 @@ template<class F, class T1, class T2> List<ResultOf<F(T1,T2)>> elementwise(F con
 
 template<class T> ostream& operator<<(ostream& os, const std::vector<T>& v) {
     bool first=true;
-    for(auto x : v) {
+    for(auto const& x : v) {
         os << (first ? "[" : ",") << x;
         first = false;
     }
@@ -237,7 +237,7 @@ template<class T> inline std::set<T>& restrict(std::set<T>& r, const std::set<T>
 
 template<class T> ostream& operator<<(ostream& os, const std::set<T>& v) {
     bool first=true;
-    for(auto x : v) {
+    for(auto const& x : v) {
         os << (first ? "{" : ",") << x;
         first = false;
     }
@@ -291,7 +291,7 @@ template<class K, class T> Map<K,T> restrict_keys(const std::map<K,T>& m, const
         if(keys.contains(item_iter->first)) { result.insert(*item_iter); } } return result; }
 template<class K, class T> ostream& operator<<(ostream& os, const std::map<K,T>& m) {
     bool first=true;
-    for(auto x : m) {
+    for(auto const& x : m) {
         os << (first ? "{ " : ", ") << x.first << ":" << x.second;
         first = false;
     }
-- 
2.43.0


From 8ea3133d3ae9542f41509154b1bbc9f6da4eb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:45 +0000
Subject: [PATCH 35/57] fix: extracting from a handle to a constant object gave
 write access to the object

---
 include/handle.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/handle.hpp b/include/handle.hpp
index 0408192..36d645e 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -153,6 +153,10 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
     return dynamic_handle_extract<T>(Handle<const I>(h));
 }
 
+template<class T, class I> const T& dynamic_handle_extract(Handle<const I>& h) {
+    return dynamic_handle_extract<T>(const_cast<const Handle<const I>&>(h));
+}
+
 template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
     const I* i=h.raw_const_pointer();
     const T* p=dynamic_cast<const T*>(i);
-- 
2.43.0


From fa696b9e6c550c16d6d659cc3508f07135800d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:02 +0000
Subject: [PATCH 36/57] fix: a C function whose name is also an encoded type
 appeared as that type in stack_trace

---
 src/stack_trace.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index a677d23..659e668 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -53,8 +53,9 @@ void stack_trace() {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-            char* demangled = abi::__cxa_demangle(info.dli_sname, no_output_buffer, &length, &status);
-            std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
+            bool is_mangled = info.dli_sname[0] == '_' && info.dli_sname[1] == 'Z';
+            char* demangled = is_mangled ? abi::__cxa_demangle(info.dli_sname, no_output_buffer, &length, &status) : nullptr;
+            std::cerr << (demangled != nullptr ? demangled : info.dli_sname) << "\n";
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
-- 
2.43.0


From 9dbd74e390b4581f563c1665b2c0ad27a080d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:49 +0000
Subject: [PATCH 37/57] fix: assertions used their own variables instead of
 those of the same name in the condition or message

---
 include/macros.hpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index dff4445..645ea82 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -48,15 +48,15 @@
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
+        std::ostringstream helper_throw_stream; \
+        helper_throw_stream << #except " in " << func << ": " << msg;    \
+        throw except(helper_throw_stream.str()); \
     } \
 
 #define HELPER_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -65,8 +65,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT_MSG(expression,error) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
@@ -80,8 +80,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -94,16 +94,16 @@
 
 #define HELPER_PRECONDITION_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_PRECONDITION(expression)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -129,16 +129,16 @@
 
 #define HELPER_ASSERT_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_ASSERT_EQUAL(expression1,expression2)    \
     { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
         } \
     } \
-- 
2.43.0


From f3534516f8ab034e3313cc4e1ea7126090c3aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:49 +0000
Subject: [PATCH 38/57] fix: HELPER_ASSERT_EQUAL did not compile, or gave a
 wrong message, for compound operands

---
 include/macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 645ea82..9478b81 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -139,7 +139,7 @@
     { \
         bool helper_assertion_result = static_cast<bool>((expression1) == (expression2));       \
         if(!helper_assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<(expression1)<<" != "<<(expression2)); \
         } \
     } \
 
-- 
2.43.0


From 82c63ecee80157865c13b97a1b7f5aaac8799f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:49 +0000
Subject: [PATCH 39/57] fix: two warnings given once, or one in an unbraced
 statement, did not compile

---
 include/macros.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 9478b81..15460fe 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -147,10 +147,12 @@
     throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    { \
+        static bool helper_first_time=true; \
+        if(helper_first_time) { \
+            helper_first_time=false; \
+            std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+        } \
     } \
 
 #define HELPER_NOTIFY(msg)          \
@@ -164,10 +166,12 @@
     }
 
 #define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    { \
+        static bool helper_first_time=true; \
+        if(helper_first_time) { \
+            helper_first_time=false; \
+            std::cerr << "WARNING: " << msg << "" << std::endl; \
+        } \
     } \
 
 #define HELPER_ERROR(msg)          \
-- 
2.43.0


From b8ed2b772148155d82c55c38c721ef2bf7f9ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:19 +0000
Subject: [PATCH 40/57] fix: test macros judged their own variables instead of
 those of the same name in the tested expression

---
 include/test.hpp | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index cc9ced0..71c9426 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -184,8 +184,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_ASSERT(expression)                                 \
     {                                                                   \
         std::cout << #expression << ": " << std::flush;                 \
-        auto result = (expression);                                     \
-        if(result) {                                                    \
+        bool helper_test_result = static_cast<bool>(expression);                                     \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -199,8 +199,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK_WARN(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             std::cout << "\nWARNING: expected " << #expression << " = " << #expected << " == " << (expected) << " \n" << std::endl; \
@@ -213,8 +213,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -228,8 +228,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME(expression1,expression2)                         \
     {                                                                   \
         std::cout << "same(" << #expression1 << "," << #expression2 << "): " << std::flush; \
-        bool ok = same((expression1), (expression2));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression1), (expression2));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -243,8 +243,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_AS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = same((expression), (expected));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression), (expected));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -260,8 +260,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUAL(expression1,expression2)                         \
     {                                                                   \
         std::cout << #expression1 << " == " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -275,8 +275,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_NOT_EQUAL(expression1,expression2)                 \
     {                                                                   \
         std::cout << #expression1 << " != " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);               \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);               \
+        if(helper_test_ok) {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression1 << ":\n           " << (expression1) \
                       << "\n     : " << #expression2 << ":\n           " << (expression2) << std::endl; \
@@ -290,8 +290,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUALS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = (expression) == (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) == (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -306,17 +306,17 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs((expression)-(expected)); \
-        bool ok = (error <= (tolerance));                       \
-        if(ok) {                                                        \
+        auto helper_test_error=abs((expression)-(expected)); \
+        bool helper_test_ok = (helper_test_error <= (tolerance));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression << ":\n           " << (expression) \
                       << "\n     : " << #expected << ":\n           " << (expected) \
-                      << "\n     : error: " << (error) \
+                      << "\n     : error: " << (helper_test_error) \
                       << "\n     : tolerance " << (tolerance) << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (error) << "; tolerance=" << (tolerance) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (helper_test_error) << "; tolerance=" << (tolerance) << std::endl; \
         }                                                               \
     }                                                                   \
                                                                    \
@@ -326,8 +326,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_LESS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " < " << #expected << ": " << std::flush; \
-        bool ok = (expression) < (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) < (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -341,8 +341,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_UNARY_PREDICATE(predicate,argument)    \
     {                                                                   \
         std::cout << #predicate << "(" << #argument << ") with " << #argument << "=" << (argument) << ": " << std::flush; \
-        bool ok = (predicate((argument)));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = (predicate((argument)));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -356,8 +356,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_BINARY_PREDICATE(predicate,argument1,argument2)    \
     {                                                                   \
         std::cout << #predicate << "(" << (#argument1) << "," << (#argument2) << ") with " << #argument1 << "=" << (argument1) << ", " << #argument2 << "=" << (argument2) << ": " << std::flush; \
-        bool ok = predicate((argument1),(argument2));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = predicate((argument1),(argument2));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -371,8 +371,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_COMPARE(expression,comparison,expected)           \
     {                                                                   \
         std::cout << #expression << ": " << (expression) << std::flush; \
-        bool ok = ((expression) comparison (expected));               \
-        if(ok) {                                                        \
+        bool helper_test_ok = ((expression) comparison (expected));               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << ": true\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -385,15 +385,15 @@ int test_case_counter = 0;
 /*! \brief Evaluates \a expression, converts to \a Type, and checks if the result compares correctly with \a expected. */
 #define HELPER_TEST_RESULT_COMPARE(Type,expression,comparison,expected) \
     {                                                                   \
-        Type result=(expression);                                       \
-        std::cout << #expression << ": " << result << std::flush; \
-        bool ok = result comparison (expected);               \
-        if(ok) {                                                        \
+        Type helper_test_result=(expression);                                       \
+        std::cout << #expression << ": " << helper_test_result << std::flush; \
+        bool helper_test_ok = helper_test_result comparison (expected);               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << "\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: expected: " << #expression << #comparison << #expected << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << result << "; " << #expected << "=" << (expected) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << helper_test_result << "; " << #expected << "=" << (expected) << std::endl; \
         }                                                               \
     }                                                                   \
 
@@ -515,8 +515,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_STATIC_ASSERT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -531,8 +531,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CONCEPT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -549,8 +549,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_TYPE(...)                          \
     {                                                                   \
         std::cout << "Same<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((Same<__VA_ARGS__>));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((Same<__VA_ARGS__>));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -566,8 +566,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUIVALENT_TYPE(...)                          \
     {                                                                   \
         std::cout << "IsEquivalent<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
-- 
2.43.0


From d82fe6935ed2b84077b743bfb9fa9a8b889ba35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:19 +0000
Subject: [PATCH 41/57] fix: an exception of a type unknown to the test macros
 ended the tests instead of failing one

---
 include/test.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index 71c9426..c442a1e 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -126,6 +126,13 @@ int test_case_counter = 0;
                       << #function << ": " << except.what() << std::endl; \
             std::cout << std::endl;                                     \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                    \
+            std::cout << "ERROR: unknown exception in " << #function << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": calling " \
+                      << #function << ": unknown exception" << std::endl; \
+            std::cout << std::endl;                                     \
+        }                                                               \
     }                                                                   \
 
 
@@ -491,6 +498,11 @@ int test_case_counter = 0;
             std::cout << "\nERROR: caught exception " << except.what() << "; expected " << #error << "\n"; \
             std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught exception " << except.what() << "; expected " << #error << std::endl; \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                    \
+            std::cout << "\nERROR: caught unknown exception; expected " << #error << "\n"; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught unknown exception; expected " << #error << std::endl; \
+        }                                                               \
     }                                                                   \
 
 
-- 
2.43.0


From f88731afe3ad7939988125652050cd94b74bfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:16 +0000
Subject: [PATCH 42/57] fix: HELPER_TEST_WITHIN truncated real errors to
 integers

---
 include/test.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index c442a1e..c4352f3 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -32,6 +32,7 @@
 #ifndef HELPER_TEST_HPP
 #define HELPER_TEST_HPP
 
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -313,6 +314,7 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
+        using std::abs; \
         auto helper_test_error=abs((expression)-(expected)); \
         bool helper_test_ok = (helper_test_error <= (tolerance));                       \
         if(helper_test_ok) {                                                        \
-- 
2.43.0


From 8b4fd77486d56751fcb693d96561b1dda5e1430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:20 +0000
Subject: [PATCH 43/57] fix: IsInvocable and IsInvocableReturning were
 undefined except for one argument, and false for results of built-in types

---
 include/metaprogramming.hpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/metaprogramming.hpp b/include/metaprogramming.hpp
index f34db64..69da8bc 100644
--- a/include/metaprogramming.hpp
+++ b/include/metaprogramming.hpp
@@ -111,24 +111,8 @@ template<class X1, class X2=X1> using InplaceProductType = RemoveReference<declt
 template<class X1, class X2=X1> using InplaceQuotientType = RemoveReference<decltype(declval<X1&>()/=declval<X2>())>;
 
 
-template<class F, class... AS> struct IsInvocable;
-template<class R, class F, class... AS> struct IsInvocableReturning;
-
-template<class F, class A> struct IsInvocable<F,A> {
-    template<class FF, class AA, class=decltype(std::declval<FF>()(std::declval<AA>()))>
-        static std::true_type test(int);
-    template<class FF, class AA>
-        static std::false_type test(...);
-    static const bool value = decltype(test<F,A>(1))::value;
-};
-
-template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
-    template<class RR, class FF, class AA, class=decltype(std::declval<RR>()=std::declval<FF>()(std::declval<AA>()))>
-        static std::true_type test(int);
-    template<class RR, class FF, class AA>
-        static std::false_type test(...);
-    static const bool value = decltype(test<R,F,A>(1))::value;
-};
+template<class F, class... AS> struct IsInvocable : std::is_invocable<F,AS...> { };
+template<class R, class F, class... AS> struct IsInvocableReturning : std::is_invocable_r<R,F,AS...> { };
 
 
 template<class T> concept BuiltinArithmetic = std::is_arithmetic<T>::value;
-- 
2.43.0


From d8762929c8703b542a9f3f52e00291edb60a3af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:08 +0000
Subject: [PATCH 44/57] fix: types whose write method is not usable for
 constants, or gives no stream, were recognised as writable

---
 include/writable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/writable.hpp b/include/writable.hpp
index 9a0f22c..f76d092 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -53,7 +53,7 @@ class WritableInterface {
 };
 inline ostream& operator<<(ostream& os, const WritableInterface& w) { w._write(os); return os; }
 
-template<class T, class = decltype(declval<T>()._write(declval<ostream&>()))> True has_write(int);
+template<class T> requires Convertible<decltype(declval<const T&>()._write(declval<ostream&>())),ostream&> True has_write(int);
 template<class T> False has_write(...);
 template<class T, class = Fallback> struct IsWritable : decltype(has_write<T>(1)) { };
 
-- 
2.43.0


From ea4bc009c4ba584f92325b814b2814822e5d5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:01 +0000
Subject: [PATCH 45/57] fix: move assignment of an Array from a part of itself

Assigning an array from one which is owned by its own elements, as in
a=std::move(a[0].children), destroyed the source before reading it.
---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 52e628f..051993e 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -140,7 +140,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        Array<T> r(std::move(a)); this->swap(r); return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 3b11bbb26dce6d05274fd7537e5d8d983f7c7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:04 +0000
Subject: [PATCH 46/57] fix: assignment of a SharedArray from a part of itself

Assigning the last copy from one which is owned by its own elements, as in
list=*list[0].next, released the source before reading it.
---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 051993e..1a799bb 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -247,7 +247,7 @@ public:
         auto from=lst.begin(); auto end=lst.end(); auto to=_ptr; while(from!=end) { *to = *from; ++from; ++to; } }
     SharedArray(const SharedArray<T>& ary) : _count(ary._count), _size(ary._size), _ptr(ary._ptr) { ++ *_count; }
     SharedArray<T>& operator=(const SharedArray<T>& ary) {
-        if(this->_ptr!=ary._ptr) { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } { _count=ary._count; _size=ary._size; _ptr=ary._ptr; } ++ *_count; } return *this; }
+        SharedArray<T> r(ary); std::swap(_count,r._count); std::swap(_size,r._size); std::swap(_ptr,r._ptr); return *this; }
     size_t size() const { return _size; }
     T& operator[](size_t i) { return _ptr[i]; }
     const T& operator[](size_t i) const { return _ptr[i]; }
-- 
2.43.0


From 3da4f7c3a436ccd78b5724693c50061024b05569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:17 +0000
Subject: [PATCH 47/57] fix: iterator.hpp could not be included on its own

---
 include/iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/iterator.hpp b/include/iterator.hpp
index de62aad..4497baa 100644
--- a/include/iterator.hpp
+++ b/include/iterator.hpp
@@ -33,7 +33,11 @@
 #ifndef HELPER_ITERATOR_HPP
 #define HELPER_ITERATOR_HPP
 
+#include <cstddef>
 #include <iterator>
+#include <ostream>
+#include <type_traits>
+#include <utility>
 
 namespace Helper {
 
-- 
2.43.0


From f126efcc2ac76fd8ae8911f3b8119ea25d109739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:17 +0000
Subject: [PATCH 48/57] fix: variant.inl.hpp could not be included on its own

---
 include/variant.inl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/variant.inl.hpp b/include/variant.inl.hpp
index 79bced5..bc1778c 100644
--- a/include/variant.inl.hpp
+++ b/include/variant.inl.hpp
@@ -30,6 +30,8 @@
 #ifndef HELPER_VARIANT_INL_HPP
 #define HELPER_VARIANT_INL_HPP
 
+#include <cstdlib>
+
 #include "variant.hpp"
 
 namespace Helper {
-- 
2.43.0


From ea65d51c6327494de79acf4d71c3ca9b611c3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:17 +0000
Subject: [PATCH 49/57] fix: writable.hpp could not be included on its own

---
 include/writable.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/writable.hpp b/include/writable.hpp
index f76d092..15df600 100644
--- a/include/writable.hpp
+++ b/include/writable.hpp
@@ -33,6 +33,8 @@
 #ifndef HELPER_WRITABLE_HPP
 #define HELPER_WRITABLE_HPP
 
+#include <iosfwd>
+
 #include "metaprogramming.hpp"
 
 namespace Helper {
-- 
2.43.0


From 99c89b1e557d9d3fd69f14615a55b1df3fd16f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:17 +0000
Subject: [PATCH 50/57] fix: the notices of macros.hpp could not be used if
 only it was included

---
 include/macros.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/macros.hpp b/include/macros.hpp
index 15460fe..af1b00e 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -36,8 +36,12 @@
 #ifndef HELPER_MACROS_HPP
 #define HELPER_MACROS_HPP
 
+#include <iostream>
 #include <sstream>
 #include <stdexcept>
+#include <string>
+#include <type_traits>
+#include <utility>
 
 #define HELPER_USING_CONSTRUCTORS(Class,Base) \
     template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
-- 
2.43.0


From 42d02a69fe3c6c4f3c642b8f5e2c3845fb427a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:17 +0000
Subject: [PATCH 51/57] fix: a random draw while a shared library is loaded
 used a generator not yet initialised and never returned

---
 include/randomiser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/randomiser.hpp b/include/randomiser.hpp
index d9d43b6..98cb686 100644
--- a/include/randomiser.hpp
+++ b/include/randomiser.hpp
@@ -56,7 +56,7 @@ class RandomGenerator {
     std::mt19937 _engine;
 };
 
-static RandomGenerator RANDOM_GENERATOR;
+inline RandomGenerator RANDOM_GENERATOR;
 
 template<class T> class RandomiserInterface {
   public:
-- 
2.43.0


From 1e7b6b16716460da2714accc812b1f9825a180ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:01:28 +0000
Subject: [PATCH 52/57] fix: test.hpp could be included in only one unit of a
 program

---
 include/test.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c4352f3..bf6934f 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -39,9 +39,9 @@
 #include <exception>
 #include "macros.hpp"
 
-int HELPER_TEST_FAILURES = 0;
-int HELPER_TEST_SKIPPED = 0;
-std::string HELPER_CURRENT_TESTING_CLASS = "???";
+inline int HELPER_TEST_FAILURES = 0;
+inline int HELPER_TEST_SKIPPED = 0;
+inline std::string HELPER_CURRENT_TESTING_CLASS = "???";
 
 // This needs to be a function since we do not want to evaluate the result twice,
 // and can't store it in a variable since we don't know it's type.
@@ -54,7 +54,7 @@ testing_check(std::ostream& os, const R& r, const ER& er) {
 
 //This is the variable that stores counter for the number of test cases
 //The value is used and updated in the next two macro definitions
-int test_case_counter = 0;
+inline int test_case_counter = 0;
 
 /*! \brief Tests a class function */
 #define HELPER_TEST_CLASS(classname,testclassconstruct)                       \
-- 
2.43.0


From e0fd3232f56337e6e7af1e15a30ee023751c70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:23:34 +0000
Subject: [PATCH 53/57] fix: the index of a type among types could not be bound
 to a reference

---
 include/metaprogramming.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/metaprogramming.hpp b/include/metaprogramming.hpp
index 69da8bc..64a83f0 100644
--- a/include/metaprogramming.hpp
+++ b/include/metaprogramming.hpp
@@ -66,8 +66,8 @@ template<class T, class... US> struct IsOneOf<T,T,US...> : True { };
 template<class T, class U0, class... US> struct IsOneOf<T,U0,US...> : IsOneOf<T,US...> { };
 
 template<class T, class... TS> struct IndexOf;
-template<class T, class... TS> struct IndexOf<T,T,TS...> { static const size_t N=0; };
-template<class T, class T0, class... TS> struct IndexOf<T,T0,TS...> { static const size_t N=IndexOf<T,TS...>::N+1u; };
+template<class T, class... TS> struct IndexOf<T,T,TS...> { static constexpr size_t N=0; };
+template<class T, class T0, class... TS> struct IndexOf<T,T0,TS...> { static constexpr size_t N=IndexOf<T,TS...>::N+1u; };
 template<class T> struct IndexOf<T> { };
 
 
-- 
2.43.0


From e5866c3b5f27aef8cf0a20705ceb415e0f9edf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 54/57] fix: stack traces look a function up within its call,
 not behind it

---
 src/stack_trace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 659e668..3f8060e 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -49,7 +49,8 @@ void stack_trace() {
     assert (symbols != nullptr);
     for (int i = skip; i < nFrames; i++) {
         Dl_info info;
-        if (dladdr(callstack[i], &info) && info.dli_sname != nullptr) {
+        // The frame's address is where its call returns to, which lies behind the function if the call never returns
+        if (dladdr(static_cast<char*>(callstack[i])-1, &info) && info.dli_sname != nullptr) {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-- 
2.43.0


From 9f53729348775a12b10f46f16911833e4d5293f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 55/57] fix: make_handle moves the temporaries it is given

---
 include/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index 36d645e..e0bd819 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -113,7 +113,7 @@ template<class I> class Handle {
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
-    return Handle<T>(std::make_shared<T>(as...));
+    return Handle<T>(std::make_shared<T>(std::forward<AS>(as)...));
 }
 
 inline void write_error(ostream& os, const char* f, const WritableInterface* w, const char* i, const char* c, const char* t) {
-- 
2.43.0


From 56e9f0b40ea407d0beb74d9b921b17fd87c900dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 56/57] fix: erasing a prefix did nothing to words of more than
 2^31-1 bits

---
 include/binary_word.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 983da34..d542351 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -130,10 +130,9 @@ class BinaryWord : public std::vector<bool> {
 };
 
 inline void BinaryWord::erase_prefix(const int prefix_size) {
-    const int total_size = size();
-    //Erase prefix elements until the word is empry or we erased prefix_size elements
-    for( int i = 0; ( i < total_size ) && ( i < prefix_size ) ; i++ ) {
-        erase( begin() );
+    //Erase prefix elements until the word is empty or we erased prefix_size elements
+    if( prefix_size > 0 ) {
+        erase( begin(), begin()+static_cast<std::ptrdiff_t>( std::min( this->size(),static_cast<size_t>(prefix_size) ) ) );
     }
 }
 
-- 
2.43.0


From 570c4ee3855efe9224ec23b9b3df5c46f15b6ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:05 +0000
Subject: [PATCH 57/57] fix: classes with the constructors of their base lost
 their own members when copied

---
 include/macros.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index af1b00e..46a4b87 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -44,11 +44,13 @@
 #include <utility>
 
 #define HELPER_USING_CONSTRUCTORS(Class,Base) \
-    template<class T,typename std::enable_if<std::is_convertible<T,Base>::value,int>::type=0> \
+    template<class T,typename std::enable_if<std::is_convertible<const T&,Base>::value and not std::is_base_of<Class,T>::value,int>::type=0> \
     Class(const T& t) : Base(t) { } \
-    template<class T,typename std::enable_if<std::is_constructible<T,Base>::value and not std::is_convertible<T,Base>::value,int>::type=0> \
+    template<class T,typename std::enable_if<std::is_constructible<Base,const T&>::value and not std::is_convertible<const T&,Base>::value,int>::type=0> \
     explicit Class(const T& t) : Base(t) { } \
-    template<class ...Args> Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
+    template<class ...Args> requires (not (sizeof...(Args)==1u and (std::is_base_of<Class,std::remove_cvref_t<Args>>::value and ...))) \
+    explicit(sizeof...(Args)==1u and not (std::is_convertible<Args,Base>::value and ...)) \
+    Class(Args&&... args) : Base(std::forward<Args>(args)...) { } \
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-- 
2.43.0

