From e8ef95708de2523b6ff89260594538efd9b38636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:24 +0000
Subject: [PATCH 01/33] fix: LRUCache::put stores a copy of its arguments
 before it drops an element

---
 include/lru_cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..0570cfd 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,6 +79,9 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
+        // Copy first: the arguments may belong to the element to be removed, and copying may fail
+        std::map<L,AgeValuePair> added;
+        added.insert({label,AgeValuePair(0,val)});
         if (_elements.size() < _maximum_size) {
             for (auto& other : _elements) other.second.age++;
         } else {
@@ -89,7 +92,7 @@ template<class L, class V> class LRUCache {
             }
             _elements.erase(to_remove);
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        _elements.merge(added);
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From 1aaf11bcb28eb7420d14d9bd1ad1a9fde37adffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:49 +0000
Subject: [PATCH 02/33] fix: Array releases its elements and storage on move
 assignment and when copying an element throws

---
 include/array.hpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..a11a849 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -78,7 +78,7 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { this->_uninitialized_default(); }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -128,11 +128,11 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> copy(a); this->swap(copy); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
@@ -144,18 +144,17 @@ public:
     void resize(size_t n) {
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> _new; _new._ptr=uninitialized_new(n);
+            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new._ptr+i) T(_ptr[i]); } else { new (_new._ptr+i) T(); } ++_new._size; }
+            this->swap(_new); } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
-            this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
+            Array<T> _new; _new._ptr=uninitialized_new(n);
+            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new._ptr+i) T(_ptr[i]); } else { new (_new._ptr+i) T(t); } ++_new._size; }
+            this->swap(_new); } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> _new(n); this->swap(_new); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
@@ -205,16 +204,23 @@ public:
         resize(std::distance(first,last)); fill(first); }
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
+    //! Release all storage when constructing the element at \a failed has thrown.
+    void _abandon(pointer failed) {
+        _size=static_cast<size_t>(failed-_ptr); this->_destroy_elements(); uninitialized_delete(_ptr); _size=0u; _ptr=nullptr; }
+    void _uninitialized_default() {
+        pointer curr=_ptr; pointer end=_ptr+_size;
+        try { while(curr!=end) { new (curr) T(); ++curr; } } catch(...) { this->_abandon(curr); throw; } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        pointer curr=_ptr; pointer end=_ptr+_size;
+        try { while(curr!=end) { new (curr) T(x); ++curr; } } catch(...) { this->_abandon(curr); throw; } }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
         pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        try { while(curr!=end) { new (curr) T(*first); ++curr; ++first; } } catch(...) { this->_abandon(curr); throw; } }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
         pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        try { while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } } catch(...) { this->_abandon(curr); throw; } }
     template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        pointer curr=_ptr; try { for(size_t i=0u; i!=this->size(); ++i) { new (curr) T(g(i)); ++curr; } } catch(...) { this->_abandon(curr); throw; } }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From 2e143aea83bcbd1738fb1e346ad7a2feb6af52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:02 +0000
Subject: [PATCH 03/33] fix: SharedArray counts down its owners when destroyed
 and releases the counter

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index a11a849..ea15b17 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -234,7 +234,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From f220dfd7d8aacf59747139a0d624df9b777ae85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:01 +0000
Subject: [PATCH 04/33] fix: appending a List to itself terminates

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..a137815 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        for(size_t i=0, n=t.size(); i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        for(size_t i=0, n=t.size(); i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From ed07924fec3176e77d83dfd5eea6a039d94ea7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:04 +0000
Subject: [PATCH 05/33] fix: LinkedList can be made from a count and a value,
 and be appended to

---
 include/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index a137815..34220a0 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,15 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { LinkedList<T> copy(t); this->splice(this->end(),copy); }
+    void concatenate(const LinkedList<T>& t) { LinkedList<T> copy(t); this->splice(this->end(),copy); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From 8f2c6bd445425374fd91cfa0b6cdfdffb85414c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:12 +0000
Subject: [PATCH 06/33] fix: apply to a Set compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 34220a0..dd89e54 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From cbe33c6167a30b105bef21723be6f34f34d31d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:29 +0000
Subject: [PATCH 07/33] fix: Set::restrict keeps the elements of its argument
 instead of removing them

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index dd89e54..1b2f707 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From 5c3feece37d32fbb9e7c74b5155f726a361decc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:29 +0000
Subject: [PATCH 08/33] fix: make_list of an Array compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 1b2f707..1bab53c 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -321,7 +321,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From eb25a53e969abcf17c2bf61f0e245d88c8fc6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:41 +0000
Subject: [PATCH 09/33] fix: tuples of any types and lengths can be printed

---
 include/stlio.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..1be4fff 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -191,11 +191,13 @@ read_sequence(istream& is, Container& v,
 
 
 template<class TUP, std::size_t N> void write_tuple(std::ostream& os, TUP const& tup, std::integral_constant<std::size_t,N>) {
-    if constexpr (N!=1) {
+    if constexpr (N>1) {
         write_tuple(os,tup,std::integral_constant<std::size_t,N-1>());
         os << ',';
     }
-    os << std::get<N-1>(tup);
+    if constexpr (N>0) {
+        os << std::get<N-1>(tup);
+    }
 }
 
 } // namespace Helper
@@ -219,7 +221,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From 34d518a4182891fa20d464f9127b6e3e1f99c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:17 +0000
Subject: [PATCH 10/33] fix: handles can be cast to handles without ambiguity

---
 include/handle.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..6f3fbd5 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -48,8 +48,7 @@ using std::shared_ptr;
 template<class T> struct HandleObject { };
 
 template<class I> class Handle;
-template<class T, class I> const T& dynamic_handle_cast(const Handle<I>& h);
-template<class T, class I> T& dynamic_handle_cast(Handle<I>& h);
+template<class D, class B> D dynamic_handle_cast(B const& h);
 
 template<class T, class I> class Wrapper
     : public virtual I, public T
@@ -112,8 +111,7 @@ template<class I> class Handle {
   private:
     template<class T, class II> friend T& dynamic_handle_extract(Handle<II>& h);
     template<class T, class II> friend const T& dynamic_handle_extract(const Handle<II>& h);
-    template<class D, class B> friend Handle<D> dynamic_handle_cast(Handle<B>& h);
-    template<class D, class B> friend const Handle<D> dynamic_handle_cast(const Handle<B>& h);
+    template<class D, class B> friend D dynamic_handle_cast(B const& h);
 };
 
 template<class T, class... AS> Handle<T> make_handle(AS&& ... as) {
@@ -129,7 +127,7 @@ inline void write_error(ostream& os, const char* f, const WritableInterface* w,
 template<class D, class B> D dynamic_handle_cast(B const& h) {
     typedef typename B::Interface BI;
     typedef typename D::Interface DI;
-    if constexpr (Same<decltype(h.managed_pointer()),shared_ptr<BI>>) {
+    if constexpr (Same<std::remove_const_t<decltype(h.managed_pointer())>,shared_ptr<BI>>) {
         shared_ptr<DI> p=std::dynamic_pointer_cast<DI>(h.managed_pointer());
         if(p) { return D(Handle<DI>(p)); }
     } else {
-- 
2.43.0


From 56a69639d75813b4854479f436c333ef25ee9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:35 +0000
Subject: [PATCH 11/33] fix: wrapped objects are extracted also from a handle
 of a constant object

---
 include/handle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/handle.hpp b/include/handle.hpp
index 6f3fbd5..c23b340 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -159,7 +159,7 @@ template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
     const I* i=h.raw_const_pointer();
     const T* p=dynamic_cast<const T*>(i);
     if(p) { return const_cast<T&>(*p); }
-    p=dynamic_cast<const Wrapper<T,I>*>(i);
+    p=dynamic_cast<const Wrapper<T,std::remove_const_t<I>>*>(i);
     if(p) { return const_cast<T&>(*p); }
     const WritableInterface* w=dynamic_cast<const WritableInterface*>(i);
     write_error(std::cerr,"dynamic_handle_extract",w,typeid(*i).name(),typeid(i).name(),typeid(T).name());
-- 
2.43.0


From e11f4dc937ddc90a6ba70531173d254585855d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:01 +0000
Subject: [PATCH 12/33] fix: binary words and HELPER_NOT_IMPLEMENTED compile

---
 include/binary_word.hpp | 11 ++++++-----
 include/macros.hpp      |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..ef4b4e1 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -76,8 +76,9 @@
 
 #include <limits>
 #include <vector>
-#include <iosfwd>
+#include <sstream>
 #include <stdexcept>
+#include <string>
 
 #include "macros.hpp"
 #include "stlio.hpp"
@@ -101,7 +102,7 @@ class BinaryWord : public std::vector<bool> {
     BinaryWord() : std::vector<bool>() { }
 
     //! \brief Construct from a string literal consisting of zeros and ones.
-    explicit BinaryWord(const StringType& str);
+    explicit BinaryWord(const std::string& str);
 
     //! Comparison operator.
     bool operator<(const BinaryWord& w) const;
@@ -212,14 +213,14 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
 /*! \brief allocates a new binary word created from a string.
  *  The data format is either "[0,1,0,1,1]" or equivalently "01011".
  */
-inline BinaryWord make_binary_word(const StringType& string_data) {
+inline BinaryWord make_binary_word(const std::string& string_data) {
     BinaryWord binary_word;
-    StringStream string_input_stream( string_data );
+    std::stringstream string_input_stream( string_data );
     string_input_stream >> binary_word;
     return binary_word;
 }
 
-inline BinaryWord::BinaryWord(const StringType& str) {
+inline BinaryWord::BinaryWord(const std::string& str) {
     *this=make_binary_word(str); }
 
 /*! \brief Serializes data into a stream.
diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..dff4445 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -144,7 +144,7 @@
     } \
 
 #define HELPER_NOT_IMPLEMENTED                 \
-    throw std::runtime_error(StringType("Not implemented: ")+HELPER_PRETTY_FUNCTION);
+    throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
     static bool first_time=true; \
-- 
2.43.0


From a98cb8ec982bd7ffb9b3f38be935fd16285cc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:02 +0000
Subject: [PATCH 13/33] fix: appending a binary word to itself terminates

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index ef4b4e1..f30cc41 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -178,7 +178,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t appended_size = binaryWord.size();
+    for( size_t i = 0; i < appended_size ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From 2878875a58e037fb4494110d365940a5c9708b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:03 +0000
Subject: [PATCH 14/33] fix: writing a binary word leaves the formatting of the
 stream alone

---
 include/binary_word.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index f30cc41..ef2c372 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -231,11 +231,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << ( bw[i] ? '1' : '0' );
     }
-    os << std::boolalpha;
     return os;
 }
 
-- 
2.43.0


From cf1cf94aca9bbed200c6a46e22c1dcaf633f2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:04 +0000
Subject: [PATCH 15/33] fix: a binary word at the end of the text, and the
 empty word, read back

---
 include/binary_word.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index ef2c372..38e84f3 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -193,20 +193,22 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     binary_word.clear();
     //Read the first stream symbol to check the input format
     char symbol;
-    input_stream >> symbol;
+    if( not ( input_stream >> symbol ) ) {
+        return input_stream;
+    }
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
         //the symbol back and use it's input operator
         std::vector<bool> & bool_vector = binary_word;
         input_stream.putback( symbol );
         input_stream >> bool_vector;
-    } else {
+    } else if( symbol != 'e' ) { // The letter e is the empty word
         //Otherwise read a sequence of 0 and 1.
-        while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
-            binary_word.push_back( symbol == '0' ? 0 : 1);
+        input_stream.putback( symbol );
+        for( int next = input_stream.peek() ; next == '0' || next == '1' ; next = input_stream.peek() ) {
             input_stream.get( symbol );
+            binary_word.push_back( symbol == '0' ? 0 : 1);
         }
-        input_stream.putback( symbol );
     }
     return input_stream;
 }
-- 
2.43.0


From b8e3373f190e7208a85a813c829c6389fe6dec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:19 +0000
Subject: [PATCH 16/33] fix: a paired iterator can be dereferenced

---
 include/iterator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/iterator.hpp b/include/iterator.hpp
index 08ee013..c4766a3 100644
--- a/include/iterator.hpp
+++ b/include/iterator.hpp
@@ -34,6 +34,8 @@
 #define HELPER_ITERATOR_HPP
 
 #include <iterator>
+#include <ostream>
+#include <utility>
 
 namespace Helper {
 
@@ -116,7 +118,6 @@ template<class I, class Val, class Ref> class IteratorFacade<I,Val,ForwardTraver
 template<class I1, class I2> class PairIterator
 //    : public IteratorFacade<PairIterator<I1,I2>, MultivariateMonomial<X>, RandomAccessTag, MultivariateMonomialReference<X>>
 {
-    typedef std::pair<I1*,I2*> Reference;
   public:
     I1 _iter1;
     I2 _iter2;
@@ -129,7 +130,7 @@ template<class I1, class I2> class PairIterator
     template<class II1, class II2> bool equal(const PairIterator<II1,II2>&) const;
     template<class II1, class II2> DifferenceType distance_to(const PairIterator<II1,II2>&) const;
     void advance(DifferenceType k);
-    Reference dereference();
+    auto dereference();
 };
 template<class I1, class I2> inline PairIterator<I1,I2>::PairIterator(I1 iter1, I2 iter2)
     : _iter1(iter1), _iter2(iter2) { }
@@ -139,8 +140,8 @@ template<class I1, class I2> template<class II1, class II2> inline bool PairIter
     return this->_iter1 == other._iter1 && this->_iter2 == other._iter2; }
 template<class I1, class I2> inline void PairIterator<I1,I2>::advance(DifferenceType k) {
     _iter1+=(k), _iter2+=(k); }
-template<class I1, class I2> inline auto PairIterator<I1,I2>::dereference() -> Reference {
-    return std::make_pair(*this->_iter1,*this->_iter2); }
+template<class I1, class I2> inline auto PairIterator<I1,I2>::dereference() {
+    return std::pair<decltype(*_iter1),decltype(*_iter2)>(*this->_iter1,*this->_iter2); }
 template<class I1, class I2> ostream& operator<<(ostream& os, const PairIterator<I1,I2>& e) {
     return os << "{" << e._iter1 << "," << e._iter2 << "}"; }
 
-- 
2.43.0


From 0498963261e770d57cc2e11e5c37de3adc115b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:44 +0000
Subject: [PATCH 17/33] fix: a real randomiser never returns the upper end of
 its interval

---
 include/randomiser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/randomiser.hpp b/include/randomiser.hpp
index 97f230b..2d0e2b4 100644
--- a/include/randomiser.hpp
+++ b/include/randomiser.hpp
@@ -74,6 +74,12 @@ template<class T,class D> class RandomiserBase : public RandomiserInterface<T> {
 template<class T> struct UniformRealRandomiser : public RandomiserBase<T,std::uniform_real_distribution<T>> {
   public:
     UniformRealRandomiser(T min, T max) : RandomiserBase<T,std::uniform_real_distribution<T>>(min,max) { }
+    T get() override {
+        // The distribution may round up to max, which does not belong to the interval
+        T result;
+        do { result = RandomiserBase<T,std::uniform_real_distribution<T>>::get(); } while (result >= this->_distribution.b() && this->_distribution.a() < this->_distribution.b());
+        return result;
+    }
 };
 
 template<class T> struct UniformIntRandomiser : public RandomiserBase<T,std::uniform_int_distribution<T>> {
-- 
2.43.0


From 99ed4464dd1ed7adf7c2545b0f5ae28b3c207475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:44 +0000
Subject: [PATCH 18/33] fix: a stopwatch is not affected by adjustments of the
 wall clock

---
 include/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stopwatch.hpp b/include/stopwatch.hpp
index 3686c76..70932d7 100644
--- a/include/stopwatch.hpp
+++ b/include/stopwatch.hpp
@@ -43,7 +43,7 @@ using Microseconds = std::chrono::microseconds;
 
 template<class D> class Stopwatch {
 public:
-    using ResolutionType = std::chrono::high_resolution_clock;
+    using ResolutionType = std::chrono::steady_clock;
     using TimePointType = std::chrono::time_point<ResolutionType>;
 
     Stopwatch() { restart(); }
-- 
2.43.0


From 1316aa44d0a2a96dc17bff9446e287149f5193c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:18 +0000
Subject: [PATCH 19/33] fix: assertions do not capture the caller's names

---
 include/macros.hpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index dff4445..84ce491 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -48,15 +48,15 @@
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
+        std::ostringstream helper_message; \
+        helper_message << #except " in " << func << ": " << msg;    \
+        throw except(helper_message.str()); \
     } \
 
 #define HELPER_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -65,8 +65,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT_MSG(expression,error) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
@@ -80,8 +80,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_ASSERT(expression) \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Assertion `" << #expression << "' failed."); \
         } \
     } \
@@ -94,16 +94,16 @@
 
 #define HELPER_PRECONDITION_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_PRECONDITION(expression)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
@@ -129,16 +129,16 @@
 
 #define HELPER_ASSERT_MSG(expression,error)             \
     { \
-        bool assertion_result = static_cast<bool>(expression); \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>(expression); \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression << "' failed.\n"<<"  "<<error); \
         } \
     } \
 
 #define HELPER_ASSERT_EQUAL(expression1,expression2)    \
     { \
-        bool assertion_result = static_cast<bool>((expression1) == (expression2));       \
-        if(!assertion_result) { \
+        bool helper_assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        if(!helper_assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
         } \
     } \
-- 
2.43.0


From 0d80a9fa724a499a245239aba36e997cb6d14778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:24 +0000
Subject: [PATCH 20/33] fix: HELPER_ASSERT_EQUAL evaluates its operands once

---
 include/macros.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 84ce491..fe4da87 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -137,9 +137,11 @@
 
 #define HELPER_ASSERT_EQUAL(expression1,expression2)    \
     { \
-        bool helper_assertion_result = static_cast<bool>((expression1) == (expression2));       \
+        auto&& helper_value1 = (expression1); \
+        auto&& helper_value2 = (expression2); \
+        bool helper_assertion_result = static_cast<bool>(helper_value1 == helper_value2);       \
         if(!helper_assertion_result) { \
-            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<expression1<<" != "<<expression2); \
+            HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<HELPER_PRETTY_FUNCTION,"Assertion `" << #expression1 << "==" << #expression2 << "' failed.\n"<<"  "<<helper_value1<<" != "<<helper_value2); \
         } \
     } \
 
-- 
2.43.0


From 5b2c4cfba6471170fe1808eb7491331480cdf898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:48:28 +0000
Subject: [PATCH 21/33] fix: once-only warnings are one statement

---
 include/macros.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index fe4da87..c9338a9 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -149,10 +149,12 @@
     throw std::runtime_error(std::string("Not implemented: ")+HELPER_PRETTY_FUNCTION);
 
 #define HELPER_DEPRECATED(fn,msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+    { \
+        static bool helper_first_time=true; \
+        if(helper_first_time) { \
+            helper_first_time=false; \
+            std::cerr << "DEPRECATED: Function " << #fn << " is deprecated. " << #msg << std::endl; \
+        } \
     } \
 
 #define HELPER_NOTIFY(msg)          \
@@ -166,10 +168,12 @@
     }
 
 #define HELPER_WARN_ONCE(msg)          \
-    static bool first_time=true; \
-    if(first_time) { \
-        first_time=false; \
-        std::cerr << "WARNING: " << msg << "" << std::endl; \
+    { \
+        static bool helper_first_time=true; \
+        if(helper_first_time) { \
+            helper_first_time=false; \
+            std::cerr << "WARNING: " << msg << "" << std::endl; \
+        } \
     } \
 
 #define HELPER_ERROR(msg)          \
-- 
2.43.0


From 57ae8a14406d3474d19a99e65ff3472977b09109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:35 +0000
Subject: [PATCH 22/33] fix: test macros do not capture the caller's names

---
 include/test.hpp | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..f202c6e 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -184,8 +184,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_ASSERT(expression)                                 \
     {                                                                   \
         std::cout << #expression << ": " << std::flush;                 \
-        auto result = (expression);                                     \
-        if(result) {                                                    \
+        auto helper_test_result = (expression);                                     \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -199,8 +199,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK_WARN(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             std::cout << "\nWARNING: expected " << #expression << " = " << #expected << " == " << (expected) << " \n" << std::endl; \
@@ -213,8 +213,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                                        \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -228,8 +228,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME(expression1,expression2)                         \
     {                                                                   \
         std::cout << "same(" << #expression1 << "," << #expression2 << "): " << std::flush; \
-        bool ok = same((expression1), (expression2));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression1), (expression2));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -243,8 +243,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_AS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = same((expression), (expected));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression), (expected));                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -260,8 +260,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUAL(expression1,expression2)                         \
     {                                                                   \
         std::cout << #expression1 << " == " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -275,8 +275,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_NOT_EQUAL(expression1,expression2)                 \
     {                                                                   \
         std::cout << #expression1 << " != " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);               \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);               \
+        if(helper_test_ok) {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression1 << ":\n           " << (expression1) \
                       << "\n     : " << #expression2 << ":\n           " << (expression2) << std::endl; \
@@ -290,8 +290,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUALS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = (expression) == (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) == (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -306,17 +306,17 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
-        if(ok) {                                                        \
+        auto helper_test_error=abs(expression-expected); \
+        bool helper_test_ok = (helper_test_error <= tolerance);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression << ":\n           " << (expression) \
                       << "\n     : " << #expected << ":\n           " << (expected) \
-                      << "\n     : error: " << (error) \
+                      << "\n     : error: " << (helper_test_error) \
                       << "\n     : tolerance " << (tolerance) << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (error) << "; tolerance=" << (tolerance) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (helper_test_error) << "; tolerance=" << (tolerance) << std::endl; \
         }                                                               \
     }                                                                   \
                                                                    \
@@ -326,8 +326,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_LESS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " < " << #expected << ": " << std::flush; \
-        bool ok = (expression) < (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) < (expected);                       \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -341,8 +341,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_UNARY_PREDICATE(predicate,argument)    \
     {                                                                   \
         std::cout << #predicate << "(" << #argument << ") with " << #argument << "=" << (argument) << ": " << std::flush; \
-        bool ok = (predicate((argument)));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = (predicate((argument)));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -356,8 +356,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_BINARY_PREDICATE(predicate,argument1,argument2)    \
     {                                                                   \
         std::cout << #predicate << "(" << (#argument1) << "," << (#argument2) << ") with " << #argument1 << "=" << (argument1) << ", " << #argument2 << "=" << (argument2) << ": " << std::flush; \
-        bool ok = predicate((argument1),(argument2));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = predicate((argument1),(argument2));                  \
+        if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -371,8 +371,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_COMPARE(expression,comparison,expected)           \
     {                                                                   \
         std::cout << #expression << ": " << (expression) << std::flush; \
-        bool ok = ((expression) comparison (expected));               \
-        if(ok) {                                                        \
+        bool helper_test_ok = ((expression) comparison (expected));               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << ": true\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -385,15 +385,15 @@ int test_case_counter = 0;
 /*! \brief Evaluates \a expression, converts to \a Type, and checks if the result compares correctly with \a expected. */
 #define HELPER_TEST_RESULT_COMPARE(Type,expression,comparison,expected) \
     {                                                                   \
-        Type result=(expression);                                       \
-        std::cout << #expression << ": " << result << std::flush; \
-        bool ok = result comparison (expected);               \
-        if(ok) {                                                        \
+        Type helper_test_result=(expression);                                       \
+        std::cout << #expression << ": " << helper_test_result << std::flush; \
+        bool helper_test_ok = helper_test_result comparison (expected);               \
+        if(helper_test_ok) {                                                        \
             std::cout << " " << #comparison << " " << (expected) << "\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: expected: " << #expression << #comparison << #expected << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << result << "; " << #expected << "=" << (expected) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << helper_test_result << "; " << #expected << "=" << (expected) << std::endl; \
         }                                                               \
     }                                                                   \
 
@@ -515,8 +515,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_STATIC_ASSERT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -531,8 +531,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CONCEPT(...)                          \
     {                                                                   \
         std::cout << #__VA_ARGS__ << ": " << std::flush;                 \
-        bool result = ((__VA_ARGS__));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((__VA_ARGS__));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -549,8 +549,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_TYPE(...)                          \
     {                                                                   \
         std::cout << "Same<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((Same<__VA_ARGS__>));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((Same<__VA_ARGS__>));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -566,8 +566,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUIVALENT_TYPE(...)                          \
     {                                                                   \
         std::cout << "IsEquivalent<" << #__VA_ARGS__ << ">: " << std::flush;                 \
-        bool result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
-        if(result) {                                                    \
+        bool helper_test_result = ((IsEquivalent<__VA_ARGS__>::value));                                   \
+        if(helper_test_result) {                                                    \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
-- 
2.43.0


From 42b1645ebb59355dd9de2c0ced30432ff29b8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:39 +0000
Subject: [PATCH 23/33] fix: HELPER_TEST_WITHIN compares real numbers and whole
 expressions

---
 include/test.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index f202c6e..b497506 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -33,6 +33,7 @@
 #define HELPER_TEST_HPP
 
 #include <cstdlib>
+#include <cmath>
 #include <cstring>
 #include <iostream>
 #include <exception>
@@ -306,8 +307,9 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto helper_test_error=abs(expression-expected); \
-        bool helper_test_ok = (helper_test_error <= tolerance);                       \
+        using std::abs; \
+        auto helper_test_error=abs((expression)-(expected)); \
+        bool helper_test_ok = (helper_test_error <= (tolerance));                       \
         if(helper_test_ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From 139ed936eed1f09cf814dbde6528a26ba873be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:43 +0000
Subject: [PATCH 24/33] fix: HELPER_TEST_THROWS counts an exception of unknown
 type

---
 include/test.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/test.hpp b/include/test.hpp
index b497506..1da1731 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -493,6 +493,11 @@ int test_case_counter = 0;
             std::cout << "\nERROR: caught exception " << except.what() << "; expected " << #error << "\n"; \
             std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught exception " << except.what() << "; expected " << #error << std::endl; \
         }                                                               \
+        catch(...) {                                                    \
+            ++HELPER_TEST_FAILURES;                                    \
+            std::cout << "\nERROR: caught unknown exception; expected " << #error << "\n"; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": caught unknown exception; expected " << #error << std::endl; \
+        }                                                               \
     }                                                                   \
 
 
-- 
2.43.0


From 2c0ba2ba760f7b79d70aa993c327ec5f45dd6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:20 +0000
Subject: [PATCH 25/33] fix: a stack trace names C++ functions and survives
 unnamed ones

---
 src/stack_trace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..a677d23 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -49,11 +49,11 @@ void stack_trace() {
     assert (symbols != nullptr);
     for (int i = skip; i < nFrames; i++) {
         Dl_info info;
-        if (dladdr(callstack[i], &info)) {
+        if (dladdr(callstack[i], &info) && info.dli_sname != nullptr) {
             char* no_output_buffer = nullptr;
             size_t length;
             int status;
-            char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
+            char* demangled = abi::__cxa_demangle(info.dli_sname, no_output_buffer, &length, &status);
             std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
             free(demangled);
         } else {
-- 
2.43.0


From 1f9a5aa071a956a1c22935be2a101b2e92dbdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:10 +0000
Subject: [PATCH 26/33] fix: IsInvocableReturning holds for results of built-in
 type

---
 include/metaprogramming.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/metaprogramming.hpp b/include/metaprogramming.hpp
index f34db64..b44f3eb 100644
--- a/include/metaprogramming.hpp
+++ b/include/metaprogramming.hpp
@@ -123,7 +123,7 @@ template<class F, class A> struct IsInvocable<F,A> {
 };
 
 template<class R, class F, class A> struct IsInvocableReturning<R,F,A> {
-    template<class RR, class FF, class AA, class=decltype(std::declval<RR>()=std::declval<FF>()(std::declval<AA>()))>
+    template<class RR, class FF, class AA, class=decltype(std::declval<RR&>()=std::declval<FF>()(std::declval<AA>()))>
         static std::true_type test(int);
     template<class RR, class FF, class AA>
         static std::false_type test(...);
-- 
2.43.0


From 37c3ae7a7abc473993f1fba813c1c715fd6115b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 27/33] fix: an array asked for more elements than there can be
 got too little storage

---
 include/array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index ea15b17..b8a588e 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -38,6 +38,7 @@
 #include <initializer_list>
 #include <iterator>
 #include <stdexcept>
+#include <new>
 #include <cassert>
 #include "metaprogramming.hpp"
 
@@ -52,7 +53,9 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) {
+        if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From a0fab76f04d1ca044ab971eddc9eebc9c3fde358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 28/33] fix: a shared array whose elements could not be created
 leaked its counter

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index b8a588e..e53610f 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -238,7 +238,8 @@ public:
     size_t* _count; size_t _size; T* _ptr;
 public:
     ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
-    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
+    SharedArray(size_t n) : _count(nullptr), _size(n), _ptr(new T[n]) {
+        try { _count=new size_t(1u); } catch(...) { delete[] _ptr; throw; } }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
-- 
2.43.0


From e07d837132cdd575b53ab577e6100240daa0cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 29/33] fix: assigning to a shared array from one held by its
 own elements read released memory

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index e53610f..72d78fe 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -245,7 +245,8 @@ public:
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
         auto from=lst.begin(); auto end=lst.end(); auto to=_ptr; while(from!=end) { *to = *from; ++from; ++to; } }
     SharedArray(const SharedArray<T>& ary) : _count(ary._count), _size(ary._size), _ptr(ary._ptr) { ++ *_count; }
-    SharedArray<T>& operator=(const SharedArray<T>& ary) {
+    // The argument is a copy, as releasing the old elements may destroy the array assigned from
+    SharedArray<T>& operator=(SharedArray<T> ary) {
         if(this->_ptr!=ary._ptr) { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } { _count=ary._count; _size=ary._size; _ptr=ary._ptr; } ++ *_count; } return *this; }
     size_t size() const { return _size; }
     T& operator[](size_t i) { return _ptr[i]; }
-- 
2.43.0


From cd96c0263113b4490b4747ad65dac6323e14b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 30/33] fix: move-assigning to an array from one held by its
 own elements read released memory

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 72d78fe..e04a9f6 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -135,7 +135,8 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        // Take first: destroying the old elements may destroy the array moved from
+        if(this!=&a) { Array<T> taken(std::move(a)); this->swap(taken); } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From 32669acf29250c572ee4a9698b6e166e15987182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 31/33] fix: copy-assigning to an array from one of the same
 size held by its own elements read released memory

---
 include/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index e04a9f6..047e3e7 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -130,8 +130,8 @@ public:
         a._size=0u; a._ptr=nullptr; }
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
-        if(this->size()==a.size()) { fill(a.begin()); }
-        else { Array<T> copy(a); this->swap(copy); }
+        // Copy first: overwriting the old elements may change or destroy the array assigned from
+        if(this!=&a) { Array<T> copy(a); this->swap(copy); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-- 
2.43.0


From 32b23ba2873957fcb6bad7883a925dba39f01b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 32/33] fix: appending to a list a sequence held by its own
 elements read released memory

---
 include/container.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 1bab53c..4a5c2ed 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -86,9 +86,10 @@ template<class T> class List : public std::vector<T> {
     template<ExplicitlyConvertibleTo<T> TT>
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
-    void append(const std::vector<T>& t) {
+    // The argument is a copy, as growing the list may move the elements, one of which may hold the sequence given
+    void append(std::vector<T> t) {
         for(size_t i=0, n=t.size(); i!=n; ++i) { this->push_back(t[i]); } }
-    void concatenate(const std::vector<T>& t) {
+    void concatenate(std::vector<T> t) {
         for(size_t i=0, n=t.size(); i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
-- 
2.43.0


From a9014d5ed58e9bc3eb8f99c992c2e380d9742374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:28 +0000
Subject: [PATCH 33/33] fix: removing from a set or map what one of its own
 entries holds read released memory

---
 include/container.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 4a5c2ed..e4dcc25 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -199,7 +199,8 @@ template<class T> class Set : public std::set<T> {
         auto iter=this->begin();
         while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
-    template<class TT> Set<T>& remove(const std::vector<TT>& l) {
+    // The argument is a copy, as one of the elements removed may hold the sequence given
+    template<class TT> Set<T>& remove(std::vector<TT> l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
             this->std::set<T>::erase(static_cast<const T&>(*iter)); }
         return *this; }
@@ -273,7 +274,8 @@ template<class K, class T> class Map : public std::map<K,T> {
         this->std::map<K,T>::insert(std::make_pair(k,v)); }
     void adjoin(const std::map<K,T>& m) {
         for(auto i=m.begin(); i!=m.end(); ++i) { this->insert(*i); } }
-    void remove_keys(const Set<K>& s) {
+    // The argument is a copy, as one of the entries removed may hold the set given
+    void remove_keys(Set<K> s) {
         for(auto iter=s.begin(); iter!=s.end(); ++iter) { this->erase(*iter); } }
     Set<K> keys() const {
         Set<K> res; for(auto iter=this->begin(); iter!=this->end(); ++iter) {
-- 
2.43.0

