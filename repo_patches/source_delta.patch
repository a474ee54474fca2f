From 809977253e59050591ceada882a065f95319e39a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 001/143] fix: FiFo::resize resets its write position and
 leaves the buffer intact when it refuses a size

---
 ecl_containers/include/ecl/containers/fifo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..9af57ec 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -165,9 +165,10 @@ public:
 	 * @exception StandardException : throws if a zero sized storage is specified.
 	 */
 	void resize( unsigned int length ) {
+		ecl_assert_throw( (length>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+		data.resize( length );
 		size_fifo = length;
-		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
-		data.resize( size_fifo );
+		running_index = 0;
 	}
 
 private:
-- 
2.43.0


From c2e8f7351fca4a9405fd6153f42badf103b2585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 002/143] fix: PushAndPop::resize discards the indices of the
 discarded storage

---
 .../include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..cdcc31f 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -251,6 +251,7 @@ public:
     size_fifo = length+1;
     ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
     data.resize( size_fifo );
+    clear();
   }
 
   /**
-- 
2.43.0


From a388230a1e0f5bef1e93f5fe3c953c4e0ed059dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 003/143] fix: assigning a dynamic array to itself keeps its
 contents

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp   | 3 +++
 .../ecl/containers/array/array_dynamic_no_mem_check.hpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..1aefc2c 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) {
+        		return;
+        	}
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..98a2f85 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( this == &array ) {
+        		return;
+        	}
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-- 
2.43.0


From c5414b1f1a0d41bd003759a959bd86b6e46dd044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 004/143] fix: a dynamic array whose resize fails keeps its old
 storage instead of a dangling pointer

---
 .../ecl/containers/array/array_dynamic_no_mem_check.hpp        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 98a2f85..8abc890 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -484,10 +484,11 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n ) {
+            Type *new_buffer = new Type[n];
             if ( buffer != NULL ) {
                 delete[] buffer;
             }
-            buffer = new Type[n];
+            buffer = new_buffer;
             buffer_size = n;
         }
         /**
-- 
2.43.0


From 2da94f3a07123815eb1a11da4c881858a99846ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 005/143] fix: a constant array blueprint stores its value
 instead of a reference to a temporary

---
 ecl_containers/include/ecl/containers/array/array_mem_check.hpp | 2 +-
 .../include/ecl/containers/array/array_no_mem_check.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
index d9c53ee..e4da0f0 100644
--- a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
@@ -592,7 +592,7 @@ class ConstantArray : public ArrayBluePrint< ConstantArray<Type, Size> > {
         }
 
     private:
-        const Type& val;
+        const Type val;
 };
 
 /**
diff --git a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
index 9f3562f..9d6b070 100644
--- a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
@@ -498,7 +498,7 @@ class ConstantArray : public ArrayBluePrint< ConstantArray<Type, Size> > {
         }
 
     private:
-        const Type& val;
+        const Type val;
 };
 
 /**
-- 
2.43.0


From 5833c3751864fd0da87c0933f616cfa07b6674a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 006/143] fix: stencil element access is checked against the
 window

---
 .../containers/stencil/specialisations.hpp    | 24 +++++++++----------
 .../ecl/containers/stencil/stencil.hpp        | 12 +++++-----
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..63d7bbc 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -329,8 +329,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( ( i < size() ) && ( b_iter+i >= array ), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -346,8 +346,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( ( i < size() ) && ( b_iter+i >= array ), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -362,7 +362,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( ( i >= size() ) || ( b_iter+i < array ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,7 +386,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( ( i >= size() ) || ( b_iter+i < array ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -722,8 +722,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( ( i < size() ) && ( b_iter+i >= array ), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -739,8 +739,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( ( i < size() ) && ( b_iter+i >= array ), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array+length, StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -755,7 +755,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( ( i >= size() ) || ( b_iter+i < array ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,7 +779,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( ( i >= size() ) || ( b_iter+i < array ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..080b6f3 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -397,8 +397,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( ( i < size() ) && ( b_iter+i >= array.begin() ), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -414,8 +414,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( ( i < size() ) && ( b_iter+i >= array.begin() ), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( b_iter+i < array.end(), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -430,7 +430,7 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( ( i >= size() ) || ( b_iter+i < array.begin() ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,7 +454,7 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( ( i >= size() ) || ( b_iter+i < array.begin() ) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From 248aba11a034a52ada68eaa72db7f3230bbb2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 007/143] fix: list initialisation of a generic stencil
 compiles

---
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 080b6f3..c2ebb71 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -203,9 +203,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
-- 
2.43.0


From 6cae18aa40fb233165e21aa43103ffacc7857d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 008/143] fix: Array::stencil refuses a window whose end wraps
 around

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp    | 2 +-
 .../include/ecl/containers/array/array_dynamic_no_mem_check.hpp | 2 +-
 ecl_containers/include/ecl/containers/array/array_mem_check.hpp | 2 +-
 .../include/ecl/containers/array/array_no_mem_check.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 1aefc2c..7ed2e2f 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -410,7 +410,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         Stencil< Array<Type,DynamicStorage> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < size(), StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= size(), StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= size()-start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,DynamicStorage> >(*this, begin()+start_index, begin()+start_index+n);
         }
         /**
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 8abc890..dd11e99 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -397,7 +397,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         Stencil< Array<Type,DynamicStorage> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < size(), StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= size(), StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= size()-start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,DynamicStorage> >(*this, begin()+start_index, begin()+start_index+n);
         }
         /**
diff --git a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
index e4da0f0..ed1da0f 100644
--- a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
@@ -263,7 +263,7 @@ class ECL_PUBLIC Array : public blueprints::ArrayFactory<Type,Size> {
          */
         Stencil< Array<Type,Size> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < Size, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= Size, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= Size-start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,Size> >(*this, begin()+start_index, begin()+start_index+n);
         }
         /**
diff --git a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
index 9d6b070..5adacfe 100644
--- a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
@@ -262,7 +262,7 @@ class ECL_PUBLIC Array : public blueprints::ArrayFactory<Type,Size> {
          */
         Stencil< Array<Type,Size> > stencil(const unsigned int& start_index, const unsigned int& n) {
         	ecl_assert_throw(start_index < Size, StandardException(LOC, OutOfRangeError, "Start index provided is larger than the underlying array size."));
-        	ecl_assert_throw(start_index+n <= Size, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
+        	ecl_assert_throw(n <= Size-start_index, StandardException(LOC, OutOfRangeError, "Finish index provided is larger than the underlying array size."));
         	return Stencil< Array<Type,Size> >(*this, begin()+start_index, begin()+start_index+n);
         }
 
-- 
2.43.0


From 86cbf6f9eec8fe2f8c459d06acea088af0e322a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 009/143] fix: a stencil refuses inverted windows and keeps its
 window when a resettle is refused

---
 .../containers/stencil/specialisations.hpp    | 26 +++++++------------
 .../ecl/containers/stencil/stencil.hpp        |  9 +++----
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 63d7bbc..bf22909 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -75,8 +75,8 @@ public:
   b_iter(begin_iter),
   e_iter(end_iter)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -98,8 +98,8 @@ public:
   b_iter(array+start_index),
   e_iter(array+start_index+n)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -139,10 +139,7 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
-    b_iter = array+start_index;
-    e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    *this = Stencil<unsigned char*>(array, length, start_index, n); // throws before this window is changed
   }
 
   /*********************
@@ -489,8 +486,8 @@ public:
   b_iter(begin_iter),
   e_iter(end_iter)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -512,8 +509,8 @@ public:
   b_iter(array+start_index),
   e_iter(array+start_index+n)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -553,10 +550,7 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
-    b_iter = array+start_index;
-    e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    *this = Stencil<const unsigned char*>(array, length, start_index, n); // throws before this window is changed
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c2ebb71..8171922 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -117,7 +117,7 @@ public:
   {
     ecl_compile_time_concept_check(ContainerConcept<Array>);
     ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -142,7 +142,7 @@ public:
   {
     ecl_compile_time_concept_check(ContainerConcept<Array>);
     ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -181,10 +181,7 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
-    b_iter = array.begin()+start_index;
-    e_iter = array.begin()+start_index+n;
-    ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    *this = Stencil<Array>(array, start_index, n); // throws before this window is changed
   }
 
   /*********************
-- 
2.43.0


From 15f700f701e9454bbd9e49bb481b2d3f5800a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 010/143] fix: converting the most negative integer to text no
 longer overflows

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..6087d25 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -146,7 +146,7 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(UnsignedNumber(0)-static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
-- 
2.43.0


From 3ba43c62447524032d6992118f0f8eb2cfe43933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 011/143] fix: negative characters convert to their decimal
 value

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 6087d25..6225570 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -211,7 +211,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(static_cast<int>(input),this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
-- 
2.43.0


From cfa727664f1d81098eb887daf103e8680c060928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 012/143] fix: a failed allocation of a conversion buffer is
 reported instead of dereferenced

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 6225570..a8c141e 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -76,12 +76,14 @@ class CharStringBuffer : public ConverterBase {
          **/
         CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
            	buffer_begin = new (std::nothrow) char[buffer_size];
-            *(buffer_begin + buffer_size - 1) = '\0';
-            buffer_end = buffer_begin + buffer_size - 1;
            	if ( buffer_begin == NULL ) {
            		ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
            		error_handler = ecl::MemoryError;
+           		buffer_end = NULL;
+           		return;
            	}
+            *(buffer_begin + buffer_size - 1) = '\0';
+            buffer_end = buffer_begin + buffer_size - 1;
         }
         /**
          * Default destructor. If a buffer was initialised by this object, it is deleted.
-- 
2.43.0


From 98f402751304ba9ddffb700148fb5c5e5484bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 013/143] fix: converting a bool respects the size of the
 supplied buffer

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index a8c141e..62b8054 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -837,6 +837,7 @@ class Converter<char*,bool> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const bool &input){
+            if ( buffer_end - buffer_begin < ( input ? 4 : 5 ) ) { return NULL; }
             *buffer_begin = '\0';
             input ? strcat(buffer_begin,"true") : strcat (buffer_begin,"false");
             return buffer_begin;
-- 
2.43.0


From f9b05814834e9d60daa8bc48dc5787f45ca41199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 014/143] fix: the most negative int converts to a string

---
 ecl_converters/include/ecl/converters/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..3531b4e 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = static_cast<unsigned int>(input);
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0u - remaining;
 		}
 		do
 		{
-- 
2.43.0


From a4e4e4945da25e508d40eef054fb6edb604e8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 015/143] fix: bytes are widened before they are shifted into
 an integer

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..a2cab18 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -92,7 +92,7 @@ public:
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i;
     }
     if (ecl::is_signed<Integral>::value)
     {
-- 
2.43.0


From d563fb87ba3577c45b1b578b0464fc3bdf721844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 016/143] fix: an incomplete hexadecimal byte at the end of the
 text is an error

---
 ecl_converters/include/ecl/converters/to_byte_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..dbb9adb 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -385,6 +385,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero)
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 9f424289b4e794195b60dff9afcef24dbf8841bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 017/143] fix: a one-off integer format without alignment takes
 the permanent alignment

---
 ecl_formatters/include/ecl/formatters/number.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..ae4229c 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -330,6 +330,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    align(prm_alignment);
     base(b);
     width(w);
     value_ = n;
-- 
2.43.0


From 089ceb1226e5ffd5e42953a1e8006d5f33c95939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 018/143] fix: a one-off float format keeps its width and does
 not touch the permanent alignment

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..949ab28 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -320,14 +320,13 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
     width_ = &tmp_width;
+    alignment_ = &tmp_alignment;
+    align(prm_alignment);
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
     base_ = &tmp_base;
     base(prm_base);
 
@@ -340,14 +339,13 @@ template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
     width_ = &tmp_width;
+    alignment_ = &tmp_alignment;
     width(w);
+    align(a);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(a);
-
     base_ = &tmp_base;
     base(b);
 
-- 
2.43.0


From f0dfb465bc9066dfb49e932f8f82b4ce4f4619ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 019/143] fix: large floats are formatted completely

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 949ab28..fb2d40d 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -376,7 +376,7 @@ void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
         format_specifier[3] = '0';
         format_specifier[4] = 'f';
     }
-    static const int buffer_size = 30;
+    static const int buffer_size = 350; // the longest double has 309 digits before the point
     static char buffer[buffer_size];
 
     snprintf(buffer, buffer_size, format_specifier, value_);
-- 
2.43.0


From 968c9081acd99a681eb612bb914bece34b09a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 020/143] fix: copies of number formatters are independent

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 13 +++++++++++++
 ecl_formatters/include/ecl/formatters/number.hpp | 12 ++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index fb2d40d..4023236 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -81,6 +81,19 @@ public:
 		base_(&prm_base),
 		ready_to_format(false) {}
 
+	FormatFloat(const FormatFloat<Number> &other) { *this = other; }
+	FormatFloat<Number>& operator=(const FormatFloat<Number> &other) {
+		prm_width = other.prm_width; prm_precision = other.prm_precision; prm_alignment = other.prm_alignment; prm_base = other.prm_base;
+		tmp_width = *other.width_; tmp_precision = *other.precision_; tmp_alignment = *other.alignment_; tmp_base = *other.base_;
+		bool permanent = ( other.width_ == &other.prm_width );
+		width_ = permanent ? &prm_width : &tmp_width;
+		precision_ = permanent ? &prm_precision : &tmp_precision;
+		alignment_ = permanent ? &prm_alignment : &tmp_alignment;
+		base_ = permanent ? &prm_base : &tmp_base;
+		ready_to_format = other.ready_to_format;
+		if ( ready_to_format ) { value_ = other.value_; }
+		return *this;
+	}
 	virtual ~FormatFloat() {}
 
 	/******************************************
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index ae4229c..0175075 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -67,6 +67,18 @@ class FormatNumber {
          **/
         FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
 
+        FormatNumber(const FormatNumber<Number> &other) { *this = other; }
+        FormatNumber<Number>& operator=(const FormatNumber<Number> &other) {
+            prm_width = other.prm_width; prm_alignment = other.prm_alignment; prm_base = other.prm_base;
+            tmp_width = *other.width_; tmp_alignment = *other.alignment_; tmp_base = *other.base_;
+            bool permanent = ( other.width_ == &other.prm_width );
+            width_ = permanent ? &prm_width : &tmp_width;
+            alignment_ = permanent ? &prm_alignment : &tmp_alignment;
+            base_ = permanent ? &prm_base : &tmp_base;
+            ready_to_format = other.ready_to_format;
+            if ( ready_to_format ) { value_ = other.value_; }
+            return *this;
+        }
         virtual ~FormatNumber() {}
 
         /******************************************
-- 
2.43.0


From fb6dd4cc7fc289802bd2f91fe2fc530d10d16f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 021/143] fix: a string formatter without a value is recognised
 as such

---
 ecl_formatters/include/ecl/formatters/strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..304f84e 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
-- 
2.43.0


From 3e62c54a5856922852f392a38e096b15c52863f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 022/143] fix: a one-off string format leaves the permanent
 format in force

---
 ecl_formatters/include/ecl/formatters/strings.hpp | 11 ++++++-----
 ecl_formatters/src/lib/strings.cpp                | 10 +++++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index 304f84e..7a98a4e 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),ready_to_format(false) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),temporary_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -129,8 +129,9 @@ class ecl_formatters_PUBLIC Format<std::string> {
         /******************************************
         ** Parameters
         *******************************************/
-        int width_;
-        Alignment alignment_;
+        int width_, tmp_width_;
+        Alignment alignment_, tmp_alignment_;
+        bool temporary_; // the pending value is to be printed with the temporary parameters
         bool ready_to_format;
         std::string s;
 
@@ -184,7 +185,7 @@ template <typename OutputStream>
 void Format<std::string>::prePad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { break; }
@@ -197,7 +198,7 @@ template <typename OutputStream>
 void Format<std::string>::postPad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { pad(n,ostream); break; }
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..dad035d 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -37,6 +37,7 @@ Format<std::string>& Format<std::string>::operator () (int w, Alignment a)
 
 Format<std::string>& Format<std::string>::operator()(const std::string &input_string)
 {
+    temporary_ = false;
     s =  input_string;
     ready_to_format = true;
     return *this;
@@ -47,15 +48,18 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
-    width(w);
+    tmp_width_ = w;
+    tmp_alignment_ = alignment_;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
-    width(w);
-    align(a);
+    tmp_width_ = w;
+    tmp_alignment_ = a;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
-- 
2.43.0


From 76813ae00f35d65360b683d8348b09eb6691ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 023/143] fix: initialise the one-off alignment of integer
 formatters

---
 ecl_formatters/include/ecl/formatters/number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 0175075..00430a2 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -65,7 +65,7 @@ class FormatNumber {
          * @param a : the textual alignment (default - no alignment constraints)
          * @param b : the base format for the integral representation (default - decimal)
          **/
-        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
+        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),tmp_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
 
         FormatNumber(const FormatNumber<Number> &other) { *this = other; }
         FormatNumber<Number>& operator=(const FormatNumber<Number> &other) {
-- 
2.43.0


From 746b10eb64b7b5cdc7160d4f101b961e385422fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 024/143] fix: a one-off string format uses its own width

---
 ecl_formatters/include/ecl/formatters/strings.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index 7a98a4e..2682b48 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -176,9 +176,10 @@ void Format<std::string>::format(OutputStream &ostream) const
 {
     int size = s.size();
 
-    prePad(width_ - (size),ostream); // previously had (size+2) here...why?
+    int width = temporary_ ? tmp_width_ : width_;
+    prePad(width - (size),ostream); // previously had (size+2) here...why?
     ostream << s;
-    postPad(width_ - (size),ostream);
+    postPad(width - (size),ostream);
 }
 
 template <typename OutputStream>
-- 
2.43.0


From ce22cee7f399e255664919e136a95f629433965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 025/143] fix: initialise the one-off format of string
 formatters

---
 ecl_formatters/include/ecl/formatters/strings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index 2682b48..8b50cbf 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),temporary_(false),ready_to_format(false) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),tmp_width_(w),alignment_(a),tmp_alignment_(a),temporary_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
-- 
2.43.0


From e87bfdb1f5cb5cc81094b0686ec40c3a274f15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 026/143] fix: copies of float container formatters do not
 point into the original

---
 .../include/ecl/containers/common/formatters.hpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..c3588b7 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -81,7 +81,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision(-1),
             tmp_width(-1),
             prm_width(w),
-            width_ptr(&prm_width),
+            use_tmp_width(false),
             format(w,p,ecl::RightAlign,ecl::Fixed),
             container(NULL),
             ready_to_format(false)
@@ -154,7 +154,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision = format.precision();
             format.precision(p);
             tmp_width = w;
-            width_ptr = &tmp_width;
+            use_tmp_width = true;
             return *this;
         } //temporary
 
@@ -175,7 +175,7 @@ class ECL_LOCAL FloatContainerFormatter {
 
         int old_precision;
         int tmp_width, prm_width;
-        int* width_ptr;
+        bool use_tmp_width;
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
@@ -220,7 +220,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
-    if ( *(formatter.width_ptr) == -1 ) {
+    const int width = formatter.use_tmp_width ? formatter.tmp_width : formatter.prm_width;
+    if ( width == -1 ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -240,7 +241,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         **********************/
         formatter.format.width(formatter.digits(min_coeff,max_coeff));
     } else {
-        formatter.format.width(*(formatter.width_ptr));
+        formatter.format.width(width);
     }
 
     /*********************
@@ -261,7 +262,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         formatter.old_precision = -1;
 
     }
-    formatter.width_ptr = &(formatter.prm_width);
+    formatter.use_tmp_width = false;
     formatter.ready_to_format = false;
 
     ostream.flush();
-- 
2.43.0


From 39861f33ca04af136b2e80ff8001272fe4c7576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 027/143] fix: formatting an empty float container reads no
 element

---
 ecl_containers/include/ecl/containers/common/formatters.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index c3588b7..15e552a 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -221,7 +221,9 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "in the same stream sequence, so this is not permitted here.") );
 
     const int width = formatter.use_tmp_width ? formatter.tmp_width : formatter.prm_width;
-    if ( width == -1 ) {
+    if ( formatter.container->size() == 0 ) {
+        // nothing to scan or display
+    } else if ( width == -1 ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
-- 
2.43.0


From 4d2769f0630e47c798787418d799a397d2fc9a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 028/143] fix: the generic push and pop formatter compiles

---
 .../include/ecl/containers/push_and_pop/formatters.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp b/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
index 0796050..3d1a7fb 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/formatters.hpp
@@ -74,7 +74,7 @@ public:
    * @param array : the array to be formatted.
    * @return PushAndPop<Type,N> : just returns the input array.
    */
-  ecl::PushAndPop<Type,N>& operator()(const ecl::PushAndPop<Type,N> &container) {
+  const ecl::PushAndPop<Type,N>& operator()(const ecl::PushAndPop<Type,N> &container) {
     return container;
   }
 };
-- 
2.43.0


From 8c9a9cc0fc4f5d45204820577803a318cf7a568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 029/143] fix: FloatContainerFormatter::precision() compiles

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 4023236..b670af9 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -143,7 +143,7 @@ public:
 	 * @brief Returns the current precision setting.
 	 * @return int : the precision value.
 	 */
-	int precision() { return *precision_; }
+	int precision() const { return *precision_; }
 
 	/**
 	 * @brief Returns the current precision setting.
-- 
2.43.0


From 92251dcccd2cbb6357675f3a698f4498de394827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:11 +0000
Subject: [PATCH 030/143] fix: a grown string device knows its new capacity

---
 ecl_devices/src/lib/string.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..af8a0dd 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -49,10 +49,12 @@ void String::grow(int no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    unsigned long new_length = size()+no_bytes+1;
+    new_buffer = new char[new_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
+    buffer_length = new_length;
     buffer_cur_read = buffer+cur_pos;
     buffer_cur_write = buffer+cur_end;
 }
-- 
2.43.0


From 4784f6e259b95df123e60c7f83c269be629b03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:11 +0000
Subject: [PATCH 031/143] fix: a cleared string device knows its capacity

---
 ecl_devices/src/lib/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index af8a0dd..a1691a1 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -111,7 +111,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1;
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From 2eca815942ec5e057d1d8423845d75b16854ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:34 +0000
Subject: [PATCH 032/143] fix: large floating point numbers are streamed
 completely

---
 .../include/ecl/streams/text_streams/output_text_stream.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..7eb8409 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(350) // large enough for any number, e.g. the largest double in fixed notation // character buffer size
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
-- 
2.43.0


From 73be1e151d34d54ce776413b667372aff388c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:16 +0000
Subject: [PATCH 033/143] fix: hexadecimal input covers the full range of the
 type

---
 .../text_streams/input_text_stream.hpp        | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..2163ef5 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -520,12 +520,11 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
-
-    i = 0;
+    int digit = 0;
+    Number number = 0;
+    bool out_of_range = false;
     int j = 0;
-    while ( j < 25 ) {
+    while ( true ) {
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
@@ -534,30 +533,30 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 			break; // nothing more to read.
 		}
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
         } else {
             break; // No more valid characters to read.
         }
-        ++j;
+        if ( number > ( std::numeric_limits<Number>::max() - digit )/16 ) {
+            out_of_range = true;
+        } else {
+            number = 16*number + digit;
+        }
+        j = 1;
     }
     if ( j == 0 ) {
     	this->error = ReadError;
     	return false;
 	}
 
-    short number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
-    }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+    	return false;
+	}
     i = number;
     return true;
 }
-- 
2.43.0


From 9277aaa9e1d4f2077cf54dd2c785b1891eae56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:16 +0000
Subject: [PATCH 034/143] fix: integer input covers the full range of the type

---
 .../text_streams/input_text_stream.hpp        | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 2163ef5..72f1c85 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -570,17 +570,16 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
     char c = ' ';
-    Number sign_multiplier = 1;
-    Number number;
+    bool negative = false;
+    bool out_of_range = false;
+    Number number = 0;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
     if ( c == '-' ) { // Negative
 		if ( std::numeric_limits<Number>::min() != 0 ) {
-            sign_multiplier = -1;
+            negative = true;
             if ( this->io_device.read(c) < 1 ) {
             	this->error = ReadError;
             	return false;
@@ -612,9 +611,20 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     ** Parse reg. integer
     **********************/
     int j = 0;
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
-        j++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        const int digit = c - '0';
+        if ( negative ) { // accumulate below zero so that the minimum is reachable
+            if ( number < ( std::numeric_limits<Number>::min() + digit )/10 ) {
+                out_of_range = true;
+            } else {
+                number = 10*number - digit;
+            }
+        } else if ( number > ( std::numeric_limits<Number>::max() - digit )/10 ) {
+            out_of_range = true;
+        } else {
+            number = 10*number + digit;
+        }
+        j = 1;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError;
@@ -628,18 +638,11 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    for ( int k = 0; k < j; ++k )
-    {
-        if ( number < ceiling )
-        {
-            number = 10*number + (digits[k] - '0');
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
-    }
-    i = sign_multiplier*number;
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+    	return false;
+	}
+    i = number;
 
     return true;
 }
-- 
2.43.0


From 8fd869ca6fe5af464c5e55ed3b4913580750cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:49 +0000
Subject: [PATCH 035/143] fix: float input keeps its last digit and its
 precision

---
 .../text_streams/input_text_stream.hpp        | 55 +++++++++----------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 72f1c85..12cffbb 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -650,70 +650,65 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
-    int integral_length = 0;
-    int decimal_length = 0;
-    Number sign_multiplier = 1;
-    Number number;
+    bool digits_found = false;
+    bool negative = false;
+    double number = 0;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
     if ( c == '-' ) {
-        sign_multiplier = -1;
+        negative = true;
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
     } else if ( c == '+' ) {
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
     }
-    number = 0;
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        number = 10*number + (c - '0');
+        digits_found = true;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
 		} else if ( n == 0 ) {
-			break;
-		} else { // n > 1
-			integral_length++;
-        }
-    }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
+			c = ' '; // the number ends with the input
+		}
     }
 
     if ( c == '.' ) {
-        float frac_multiplier = 1;
-        if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
         /******************************************
         ** Decimal part
         *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
+        double fraction = 0, scale = 1;
+        while ( true ) {
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
-    		} else if ( n == 0 ) {
+    		} else if ( ( n == 0 ) || ( c < '0' ) || ( c > '9' ) ) {
     			break;
-    		} else { // n > 1
-                decimal_length++;
+    		}
+            digits_found = true;
+            if ( scale < 1e300 ) { // digits beyond this are not representable anyway
+                fraction = 10*fraction + (c - '0');
+                scale *= 10;
             }
         }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
-            number = number + frac_multiplier*(digits[k] - '0');
-        }
+        number += fraction/scale;
     }
 
-    if ( (integral_length+decimal_length) == 0 ) {
+    if ( !digits_found ) {
     	this->error = ConversionError;
     	return false;
 	}
 
-    f = sign_multiplier*number;
+    const Number value = static_cast<Number>(number);
+    if ( value > std::numeric_limits<Number>::max() ) {
+    	this->error = OutOfRangeError;
+    	return false;
+	}
+    f = negative ? -value : value;
 
     return true;
 }
-- 
2.43.0


From 3c56863ba2c0cc05e8b16bd26736df75412a9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:23 +0000
Subject: [PATCH 036/143] fix: a read error inside a word is reported

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 12cffbb..4506a00 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -204,9 +204,12 @@ InputTextStream<Device>& InputTextStream<Device,true>::operator >> ( std::string
 	    s.clear();
 	    do {
 	        s.push_back(c);
-	        if( this->io_device.read(c) < 1 ) {
+	        long n = this->io_device.read(c);
+	        if ( n < 0 ) {
 	        	this->error = ReadError;
-	        	break;
+	        	return *this;
+			} else if ( n == 0 ) {
+				break; // the word ends with the input
 			}
 	    } while ( ( c != ' ' ) && ( c != '\n' ) );
 	    this->error = NoError;
-- 
2.43.0


From cf9c36e0e83ea21f956847222126ef3853f2e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 037/143] fix: opening a file in New mode starts from an empty
 file

---
 ecl_devices/src/lib/ofile_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..c207bed 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -66,7 +66,7 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
+        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
                 ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
-- 
2.43.0


From 1987cc8b572fe0d1ef24dc30b566e6eb2dddc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 038/143] fix: reopening an open file closes the first one

---
 ecl_devices/src/lib/ofile_pos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c207bed..eaf18ec 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -63,6 +63,9 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	if ( open() && !close() ) {
+		return false;
+	}
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-- 
2.43.0


From d7fb7e54c56a645133bd4ae13e53e7dc76dbf012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 039/143] fix: a failed fdopen does not leak the descriptor

---
 ecl_devices/src/lib/ofile_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index eaf18ec..ee69522 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -19,6 +19,7 @@
 
 #include "../../include/ecl/devices/ofile_pos.hpp"
 #include "../../include/ecl/devices/detail/error_handler.hpp"
+#include <cerrno>
 #include <iostream>
 #include <ecl/exceptions/macros.hpp>
 
@@ -91,8 +92,11 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         default : break;
     }
     if ( file == NULL ) {
-        ecl_throw(devices::open_exception(LOC,file_name));
         error_handler = devices::open_error();
+        int error_number = errno;
+        ::close(file_descriptor);
+        errno = error_number; // open_exception reports errno
+        ecl_throw(devices::open_exception(LOC,file_name));
         return false;
     }
 	error_handler = NoError;
-- 
2.43.0


From 8c5c6e0a9f6b1be92f4f95ed1db0863ce78b1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 040/143] fix: a failed close leaves the file closed

---
 ecl_devices/src/lib/ofile_pos.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index ee69522..70507fe 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -72,8 +72,8 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         case(New) : {
         	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
-                ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
+                ecl_throw(devices::open_exception(LOC,file_name));
                 return false;
             }
             file = fdopen(file_descriptor,"w");
@@ -82,8 +82,8 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         case(Append) : {
         	file_descriptor = ::open(name.c_str(),O_WRONLY|O_APPEND|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
-                ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
+                ecl_throw(devices::open_exception(LOC,file_name));
                 return false;
             }
             file = fdopen(file_descriptor,"a");
@@ -106,12 +106,14 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 bool OFile::close() {
 	if ( open() ) {
 		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
-			ecl_throw(devices::close_exception(LOC,name));
+		// Whatever it returns, the file may not be used (or closed) again.
+		int result = fclose(file);
+		file = NULL;
+		if ( result != 0 ) {
 			error_handler = devices::close_error();
+			ecl_throw(devices::close_exception(LOC,name));
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
-- 
2.43.0


From 14ef10e95ae907bff882e4dca2e6b6e4c783f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 041/143] fix: error() of an output file reports the failure
 that was thrown

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp |  4 ++--
 ecl_devices/src/lib/ofile_pos.cpp             | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..47c87c0 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -309,14 +309,14 @@ long OFile::write(const ByteArray&byte_array) {
 
     ecl_compile_time_concept_check(ecl::ByteContainerConcept<ByteArray>);
     if ( !open() ) {
-    	ecl_debug_throw(ecl::StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
     	error_handler = OpenError;
+    	ecl_debug_throw(ecl::StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
     	return -1;
     }
     size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
     if ( written == 0) {
-    	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
+    	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	return -1;
     }
     error_handler = NoError;
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 70507fe..8a896dd 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -125,14 +125,14 @@ bool OFile::close() {
 long OFile::write(const char &c)
 {
 	if ( !open() ) {
-		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
 		error_handler = OpenError;
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
     	return -1;
 	}
     size_t written = fwrite(&c,1,1,file);
     if ( written <= 0 ) {
-    	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
+    	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	return -1;
     }
 	error_handler = NoError;
@@ -143,14 +143,14 @@ long OFile::write(const char &c)
 long OFile::write(const char* s, unsigned long n)
 {
 	if ( !open() ) {
-		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
 		error_handler = OpenError;
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
     	return -1;
 	}
 	size_t written = fwrite(s,n,1,file);
     if ( written <= 0 ) {
-    	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	error_handler = WriteError;
+    	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
     	return -1;
     }
 	error_handler = NoError;
@@ -164,8 +164,8 @@ bool OFile::flush() {
 	// thus better than a more expensive fsync here.
 	int result = fflush(file);
 	if ( result != 0 ) {
-		ecl_debug_throw ( StandardException(LOC, UnknownError, std::string("Could not fflush ") + name + std::string(".")));
 		error_handler = UnknownError;
+		ecl_debug_throw ( StandardException(LOC, UnknownError, std::string("Could not fflush ") + name + std::string(".")));
 		return false;
 	}
 	error_handler = NoError;
-- 
2.43.0


From b8d9e4f9b77cabeb1a51cfe5157d98e2a41bcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 042/143] fix: flushing a closed file is an error

---
 ecl_devices/src/lib/ofile_pos.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 8a896dd..3f47e26 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -162,6 +162,11 @@ bool OFile::flush() {
 	// This flushes userland buffers to the kernel buffers...not sure why,
 	// but you can still read the file in real time, so its good enough and
 	// thus better than a more expensive fsync here.
+	if ( !open() ) {
+		error_handler = OpenError;
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
+		return false;
+	}
 	int result = fflush(file);
 	if ( result != 0 ) {
 		error_handler = UnknownError;
-- 
2.43.0


From 84301916e8a2e9a24d02e0fa424df8d3906e7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 043/143] fix: writing nothing to a file is not an error

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp | 4 ++++
 ecl_devices/src/lib/ofile_pos.cpp             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index 47c87c0..010d575 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -313,6 +313,10 @@ long OFile::write(const ByteArray&byte_array) {
     	ecl_debug_throw(ecl::StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
     	return -1;
     }
+    if ( byte_array.size() == 0 ) {
+    	error_handler = NoError;
+    	return 0;
+    }
     size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
     if ( written == 0) {
     	error_handler = WriteError;
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 3f47e26..94e1d61 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -147,6 +147,10 @@ long OFile::write(const char* s, unsigned long n)
 		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
     	return -1;
 	}
+	if ( n == 0 ) {
+		error_handler = NoError;
+		return 0;
+	}
 	size_t written = fwrite(s,n,1,file);
     if ( written <= 0 ) {
     	error_handler = WriteError;
-- 
2.43.0


From f58ce39a6c40c3593fe796653ddef4c1347b47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 044/143] fix: an unknown write mode does not close an
 unrelated descriptor

---
 ecl_devices/src/lib/ofile_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 94e1d61..2fedbab 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -89,7 +89,7 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
             file = fdopen(file_descriptor,"a");
             break;
         }
-        default : break;
+        default : file_descriptor = -1; break;
     }
     if ( file == NULL ) {
         error_handler = devices::open_error();
-- 
2.43.0


From bc4d6f657845b36dd6910234a1f70af761f2f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 045/143] fix: a shared file that was never opened can be
 queried and destroyed

---
 ecl_devices/include/ecl/devices/shared_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..ee2b260 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -63,7 +63,7 @@ namespace devices {
  */
 class SharedFileCommon {
 public:
-    SharedFileCommon() : error_handler(NoError) {};
+    SharedFileCommon() : count(0), error_handler(NoError) {};
 	/**
 	 * @brief Automatically opens a file and initialises the count.
 	 *
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(new devices::SharedFileCommon()) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
-- 
2.43.0


From df6c0d80079eafb22d4494cd17c729d93acefd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 046/143] fix: a failed open of a shared file does not block
 all later opens

---
 ecl_devices/src/lib/shared_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..565f18a 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -90,6 +90,7 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
@@ -107,6 +108,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
-- 
2.43.0


From 9eb83ae752b8cd08cd73ef80ae2bff8de81bbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 047/143] fix: closing a shared file after a failed flush
 releases its registration

---
 ecl_devices/src/lib/shared_file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 565f18a..ef6fda2 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -140,13 +140,14 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 	ecl_try {
 		open(name,mode);
 	} ecl_catch( StandardException &e ) {
+		delete shared_instance; // the destructor is not called for a failed construction
 		ecl_throw(StandardException(LOC,e));
 	}
 }
 
 SharedFile::~SharedFile() {
 	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
+	        if (shared_instance->count > 0) { // registered with the manager
 	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
 	        } else {
 	            delete shared_instance;
-- 
2.43.0


From 7867a86559e7e5e8f031bd1264e02cfe8436bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 048/143] fix: reopening a shared file handle releases its
 previous file

---
 ecl_devices/src/lib/shared_file.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index ef6fda2..75c0ca9 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -160,6 +160,16 @@ SharedFile::~SharedFile() {
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	if ( shared_instance != NULL ) {
+		// let go of the file this handle was connected to
+		devices::SharedFileCommon *previous = shared_instance;
+		shared_instance = NULL;
+		if ( previous->count > 0 ) {
+			devices::SharedFileManager::DeRegisterSharedFile( previous->file.filename() );
+		} else {
+			delete previous;
+		}
+	}
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
-- 
2.43.0


From 9b1a6090bfda0997190b3704c75e0dfaafceb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 049/143] fix: flushes of a shared file exclude one another

---
 ecl_devices/src/lib/shared_file.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 75c0ca9..a1896f4 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -211,16 +211,19 @@ long SharedFile::write(const char* s, unsigned long n) {
 }
 
 bool SharedFile::flush() {
-	long written;
+	long written = -1;
+	shared_instance->mutex.lock();
 	ecl_debug_try {
 		written = shared_instance->file.write(buffer.c_ptr(), buffer.size() );
 	} ecl_debug_catch(const StandardException &e) {
 		shared_instance->error_handler = shared_instance->file.error();
+		shared_instance->mutex.unlock();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
 	buffer.clear();
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
+	shared_instance->mutex.unlock();
 	if ( written > 0 ) {
 		return true;
 	} else {
-- 
2.43.0


From f8f8da36bfe4ecc65149ad2c0c683bc9421aa42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 050/143] fix: flushing nothing to a shared file succeeds

---
 ecl_devices/src/lib/shared_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a1896f4..ff91a67 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -224,7 +224,7 @@ bool SharedFile::flush() {
 	// fallback for no exceptions
 	shared_instance->error_handler = shared_instance->file.error();
 	shared_instance->mutex.unlock();
-	if ( written > 0 ) {
+	if ( written >= 0 ) {
 		return true;
 	} else {
 		return false;
-- 
2.43.0


From 6270188967b6a24c5d424b50e62f8b61196cca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 051/143] fix: console devices write zero bytes too

---
 ecl_devices/src/lib/console.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..30e0543 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -47,7 +47,7 @@ long OConsole::write(const char* s, unsigned long n)
 }
 
 void OConsole::flush() {
-    fputs(buffer.c_str(),stdout);
+    fwrite(buffer.c_str(),1,buffer.buffer_size-buffer.remaining(),stdout);
     buffer.clear();
 	int result = fflush(stdout);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
@@ -79,7 +79,7 @@ long EConsole::write(const char* s, unsigned long n)
 }
 
 void EConsole::flush() {
-    fputs(buffer.c_str(),stderr);
+    fwrite(buffer.c_str(),1,buffer.buffer_size-buffer.remaining(),stderr);
     buffer.clear();
 	int result = fflush(stderr);
 	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
-- 
2.43.0


From ff2e335eeb9bcc953dccc031a417387884bcb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 052/143] fix: console devices report a failed write

---
 ecl_devices/src/lib/console.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index 30e0543..a74f328 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -47,10 +47,11 @@ long OConsole::write(const char* s, unsigned long n)
 }
 
 void OConsole::flush() {
-    fwrite(buffer.c_str(),1,buffer.buffer_size-buffer.remaining(),stdout);
-    buffer.clear();
+	size_t size = buffer.buffer_size - buffer.remaining();
+	size_t written = fwrite(buffer.c_str(),1,size,stdout);
+	buffer.clear();
 	int result = fflush(stdout);
-	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
+	ecl_assert_throw ( written == size && result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
 }
 
 /*****************************************************************************
@@ -79,10 +80,11 @@ long EConsole::write(const char* s, unsigned long n)
 }
 
 void EConsole::flush() {
-    fwrite(buffer.c_str(),1,buffer.buffer_size-buffer.remaining(),stderr);
-    buffer.clear();
+	size_t size = buffer.buffer_size - buffer.remaining();
+	size_t written = fwrite(buffer.c_str(),1,size,stderr);
+	buffer.clear();
 	int result = fflush(stderr);
-	ecl_assert_throw ( result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
+	ecl_assert_throw ( written == size && result == 0, StandardException(LOC, WriteError, std::string("Could not flush to the standard output device.")));
 }
 
 /*****************************************************************************
-- 
2.43.0


From 583c3b0f39847f4752836c283237bca619e84f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 053/143] fix: the input console reads the byte 0xff

---
 ecl_devices/src/lib/console.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index a74f328..7cf9961 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -95,12 +95,13 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+    int result = fgetc(stdin); // does not fit into a char, EOF is not a character
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
 //    	while ( fgetc(stdin) != '\n' ) {}
+    	c = static_cast<char>(result);
     	return 1;
     }
 }
-- 
2.43.0


From 64f714b897a17e801e419a04616ea3a0dbb8fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 054/143] fix: the input console reads lines with zero bytes
 completely

---
 ecl_devices/src/lib/console.cpp | 34 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index 7cf9961..1363aef 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -108,19 +108,27 @@ long IConsole::read(char &c)
 
 long IConsole::read(char* s, const unsigned long &n)
 {
-    char *result = fgets(s,n,stdin);
-    if ( result == NULL ) {
-        ecl_debug_throw( StandardException(LOC, ReadError, "Failed to read from standard input."));
-    	return 0; // Fallover if not in debug mode.
-    } else {
-        // fgets always terminates with a null character, even if it manages
-        // to read n-1 chars. We also need to make sure we drop the newline
-    	// character that was returned to trigger the input.
-    	size_t length = strlen(s); // This doesn't count the \0 character.
-//    	*(s+length-1) = '\0'; // drop the newline
-//    	return length-1;
-    	return length;
-    }
+	// Reads a single line (including its newline) at most and, as fgets, always
+	// terminates it with a null character (i.e. this returns n-1 bytes at most).
+	unsigned long length = 0;
+	int c = 0;
+	while ( length + 1 < n ) {
+		c = fgetc(stdin);
+		if ( c == EOF ) {
+			break;
+		}
+		s[length++] = static_cast<char>(c);
+		if ( c == '\n' ) {
+			break;
+		}
+	}
+	if ( n > 0 ) {
+		s[length] = '\0';
+	}
+	if ( length == 0 && c == EOF ) {
+		ecl_debug_throw( StandardException(LOC, ReadError, "Failed to read from standard input."));
+	}
+	return length;
 }
 
 } // namespace ecl
-- 
2.43.0


From 7a31a9c5fa7345e890483ccd90d9829e7faae93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:18 +0000
Subject: [PATCH 055/143] fix: reopening a shared file handle does not carry
 data into another file

---
 ecl_devices/src/lib/shared_file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index ff91a67..20cc763 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -160,6 +160,7 @@ SharedFile::~SharedFile() {
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	buffer.clear(); // nothing written before belongs into the file opened now
 	if ( shared_instance != NULL ) {
 		// let go of the file this handle was connected to
 		devices::SharedFileCommon *previous = shared_instance;
-- 
2.43.0


From ea613510d6713c73dd5c09108ca21fb7b5e5ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 056/143] fix: a default constructed log stream writes headers
 and time stamps

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..e678425 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,7 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() : write_header(true), write_stamp(true) {};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
-- 
2.43.0


From 1878ac33177ed0c95a5df0d14b9a0e175b176eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 057/143] fix: enabling a log mode again associates the new
 header

---
 ecl_streams/src/lib/log_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From ea1df18161ea60cf5c4e5782df33ed418ad6861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 058/143] fix: bound member functions that return a value
 compile

---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
-- 
2.43.0


From bac87606c870c739511e2afb13e6b84128732dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 059/143] fix: ReferenceWrapper::pointer() compiles

---
 ecl_utilities/include/ecl/utilities/references.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From 13bd67d5b0d022b12990c1ca4af1df2b2740a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 060/143] fix: signed char is an integral, signed type

---
 ecl_mpl/include/ecl/mpl/converters.hpp           |  2 ++
 .../ecl/type_traits/fundamental_types.hpp        | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ecl_mpl/include/ecl/mpl/converters.hpp b/ecl_mpl/include/ecl/mpl/converters.hpp
index 9cf82c9..db3e883 100644
--- a/ecl_mpl/include/ecl/mpl/converters.hpp
+++ b/ecl_mpl/include/ecl/mpl/converters.hpp
@@ -27,6 +27,8 @@ template <typename Signed> struct Unsigned {};
 
 /** @brief Metafunction for char to unsigned char type conversions. **/
 template <> struct Unsigned<char> { typedef unsigned char type; /**< The unsigned equivalent. **/ };
+/** @brief Metafunction for signed char to unsigned char type conversions. **/
+template <> struct Unsigned<signed char> { typedef unsigned char type; /**< The unsigned equivalent. **/ };
 /** @brief Metafunction for short to unsigned short type conversions. **/
 template <> struct Unsigned<short> { typedef unsigned short type; /**< The unsigned equivalent. **/};
 /** @brief Metafunction for int to unsigned int type conversions. **/
diff --git a/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp b/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp
index 699960a..d72b267 100644
--- a/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp
+++ b/ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp
@@ -49,6 +49,14 @@ class is_integral : public False {};
 template <>
 class is_integral<char> : public True {};
 
+/**
+ * @brief Integral trait for signed char types.
+ *
+ * Specialisation for the is_a_integral trait.
+ */
+template <>
+class is_integral<signed char> : public True {};
+
 /**
  * @brief Integral trait for unsigned char types.
  *
@@ -183,7 +191,13 @@ class is_signed : public False {};
  * @brief Unsigned trait for signed char types.
  */
 template <>
-class is_signed<char> : public True {};
+class is_signed<char> : public Bool<std::numeric_limits<char>::is_signed> {};
+
+/**
+ * @brief Signed trait for signed char types.
+ */
+template <>
+class is_signed<signed char> : public True {};
 
 /**
  * @brief Unsigned trait for signed short types.
-- 
2.43.0


From 0b9a5978ae1a43095ba57bca58d3664acef7adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 061/143] fix: numeric_limits members are defined for every
 type

---
 ecl_type_traits/src/lib/numeric_limits.cpp | 82 +++++++++++++---------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/ecl_type_traits/src/lib/numeric_limits.cpp b/ecl_type_traits/src/lib/numeric_limits.cpp
index a65d9a9..bf31f3c 100644
--- a/ecl_type_traits/src/lib/numeric_limits.cpp
+++ b/ecl_type_traits/src/lib/numeric_limits.cpp
@@ -38,41 +38,53 @@ const unsigned char numeric_limits<unsigned char>::minimum;
 const unsigned char numeric_limits<unsigned char>::maximum;
 
 
-const int16 numeric_limits<int16>::one;
-const uint16 numeric_limits<int16>::bits;
-const uint16 numeric_limits<int16>::bytes;
-const int16 numeric_limits<int16>::minimum;
-const int16 numeric_limits<int16>::maximum;
-
-const uint16 numeric_limits<uint16>::one;
-const uint16 numeric_limits<uint16>::bits;
-const uint16 numeric_limits<uint16>::bytes;
-const uint16 numeric_limits<uint16>::minimum;
-const uint16 numeric_limits<uint16>::maximum;
-
-const int32 numeric_limits<int32>::one;
-const uint16 numeric_limits<int32>::bits;
-const uint16 numeric_limits<int32>::bytes;
-const int32 numeric_limits<int32>::minimum;
-const int32 numeric_limits<int32>::maximum;
-
-const uint32 numeric_limits<uint32>::one;
-const uint16 numeric_limits<uint32>::bits;
-const uint16 numeric_limits<uint32>::bytes;
-const uint32 numeric_limits<uint32>::minimum;
-const uint32 numeric_limits<uint32>::maximum;
-
-const int64 numeric_limits<int64>::one;
-const uint16 numeric_limits<int64>::bits;
-const uint16 numeric_limits<int64>::bytes;
-const int64 numeric_limits<int64>::minimum;
-const int64 numeric_limits<int64>::maximum;
-
-const uint64 numeric_limits<uint64>::one;
-const uint16 numeric_limits<uint64>::bits;
-const uint16 numeric_limits<uint64>::bytes;
-const uint64 numeric_limits<uint64>::minimum;
-const uint64 numeric_limits<uint64>::maximum;
+const short numeric_limits<short>::one;
+const uint16 numeric_limits<short>::bits;
+const uint16 numeric_limits<short>::bytes;
+const short numeric_limits<short>::minimum;
+const short numeric_limits<short>::maximum;
+
+const unsigned short numeric_limits<unsigned short>::one;
+const uint16 numeric_limits<unsigned short>::bits;
+const uint16 numeric_limits<unsigned short>::bytes;
+const unsigned short numeric_limits<unsigned short>::minimum;
+const unsigned short numeric_limits<unsigned short>::maximum;
+
+const int numeric_limits<int>::one;
+const uint16 numeric_limits<int>::bits;
+const uint16 numeric_limits<int>::bytes;
+const int numeric_limits<int>::minimum;
+const int numeric_limits<int>::maximum;
+
+const unsigned int numeric_limits<unsigned int>::one;
+const uint16 numeric_limits<unsigned int>::bits;
+const uint16 numeric_limits<unsigned int>::bytes;
+const unsigned int numeric_limits<unsigned int>::minimum;
+const unsigned int numeric_limits<unsigned int>::maximum;
+
+const long numeric_limits<long>::one;
+const uint16 numeric_limits<long>::bits;
+const uint16 numeric_limits<long>::bytes;
+const long numeric_limits<long>::minimum;
+const long numeric_limits<long>::maximum;
+
+const unsigned long numeric_limits<unsigned long>::one;
+const uint16 numeric_limits<unsigned long>::bits;
+const uint16 numeric_limits<unsigned long>::bytes;
+const unsigned long numeric_limits<unsigned long>::minimum;
+const unsigned long numeric_limits<unsigned long>::maximum;
+
+const long long numeric_limits<long long>::one;
+const uint16 numeric_limits<long long>::bits;
+const uint16 numeric_limits<long long>::bytes;
+const long long numeric_limits<long long>::minimum;
+const long long numeric_limits<long long>::maximum;
+
+const unsigned long long numeric_limits<unsigned long long>::one;
+const uint16 numeric_limits<unsigned long long>::bits;
+const uint16 numeric_limits<unsigned long long>::bytes;
+const unsigned long long numeric_limits<unsigned long long>::minimum;
+const unsigned long long numeric_limits<unsigned long long>::maximum;
 
 /* Dummy precision is a useful concept borrowed from eigen. It is used to help define
  * fuzzy operators which is especially handy for comparing floats which are notorious with
-- 
2.43.0


From 3e4d6f36e1f5ff5b899774ae100c663fc50382c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 062/143] fix: socket errors EAGAIN, EACCES and EPERM are
 translated to their own flags

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp  | 5 ++---
 ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..395fce3 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EAGAIN ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +187,7 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES ) : case ( EPERM ) : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..6f782de 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EAGAIN ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +119,6 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +178,7 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES ) : case ( EPERM ) : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-- 
2.43.0


From 9452f86b03280362361c9487e8569c0e71cf6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 063/143] fix: socket, semaphore and shared memory exceptions
 carry the location they are given

---
 .../detail/socket_exception_handler_pos.cpp   | 162 +++++++++---------
 ecl_ipc/src/lib/semaphore_pos.cpp             |  22 +--
 ecl_ipc/src/lib/shared_memory_pos.cpp         |  30 ++--
 3 files changed, 105 insertions(+), 109 deletions(-)

diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 6f782de..8881d86 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -33,14 +33,14 @@ namespace devices {
 
 StandardException socket_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,OpenError,"Unable to open socket. Permission to create is denied.");
-        case ( EAFNOSUPPORT): return StandardException(LOC,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
-        case ( EINVAL )     : return StandardException(LOC,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
-        case ( EMFILE )     : return StandardException(LOC,OutOfRangeError,"Unable to open socket. Process file table overflow.");
-        case ( ENFILE )     : return StandardException(LOC,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
-        case ( ENOBUFS )    : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( EPROTONOSUPPORT )    : return StandardException(LOC,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
+        case ( EACCES )     : return StandardException(loc,OpenError,"Unable to open socket. Permission to create is denied.");
+        case ( EAFNOSUPPORT): return StandardException(loc,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
+        case ( EINVAL )     : return StandardException(loc,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
+        case ( EMFILE )     : return StandardException(loc,OutOfRangeError,"Unable to open socket. Process file table overflow.");
+        case ( ENFILE )     : return StandardException(loc,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
+        case ( ENOBUFS )    : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( EPROTONOSUPPORT )    : return StandardException(loc,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown errno [" << errno << "]";
@@ -51,19 +51,19 @@ StandardException socket_exception(const char* loc) {
 
 StandardException bind_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
-        case ( EADDRINUSE ) : return StandardException(LOC,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
-        case ( EBADF )      : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
-        case ( EINVAL )     : return StandardException(LOC,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
-        case ( ENOTSOCK )   : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
-        case ( EADDRNOTAVAIL ) : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
-        case ( EFAULT )     : return StandardException(LOC,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
-        case ( ELOOP )      : return StandardException(LOC,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
-        case ( ENAMETOOLONG )  : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. Address is too long.");
-        case ( ENOENT )     : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
-        case ( ENOTDIR )    : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
-        case ( EROFS )      : return StandardException(LOC,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
+        case ( EACCES )     : return StandardException(loc,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
+        case ( EADDRINUSE ) : return StandardException(loc,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
+        case ( EBADF )      : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
+        case ( EINVAL )     : return StandardException(loc,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
+        case ( ENOTSOCK )   : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
+        case ( EADDRNOTAVAIL ) : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
+        case ( EFAULT )     : return StandardException(loc,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
+        case ( ELOOP )      : return StandardException(loc,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
+        case ( ENAMETOOLONG )  : return StandardException(loc,InvalidArgError,"Unable to bind the socket. Address is too long.");
+        case ( ENOENT )     : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
+        case ( ENOTDIR )    : return StandardException(loc,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
+        case ( EROFS )      : return StandardException(loc,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -74,20 +74,20 @@ StandardException bind_exception(const char* loc) {
 
 StandardException accept_exception(const char* loc) {
     switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
-		case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
-		case ( ECONNABORTED ): return StandardException(LOC,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
-		case ( EINTR )       : return StandardException(LOC,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
-		case ( EINVAL )      : return StandardException(LOC,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
-		case ( EMFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
-		case ( EOPNOTSUPP )  : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
-		case ( EFAULT )      : return StandardException(LOC,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
-		case ( ENOBUFS )     : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( ENOMEM )      : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( EPROTO )      : return StandardException(LOC,InvalidArgError,"Unable to accept client connection. Protocol error.");
-		case ( EPERM )       : return StandardException(LOC,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
+		case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
+		case ( ECONNABORTED ): return StandardException(loc,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
+		case ( EINTR )       : return StandardException(loc,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
+		case ( EINVAL )      : return StandardException(loc,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
+		case ( EMFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
+		case ( EOPNOTSUPP )  : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
+		case ( EFAULT )      : return StandardException(loc,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
+		case ( ENOBUFS )     : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( ENOMEM )      : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( EPROTO )      : return StandardException(loc,InvalidArgError,"Unable to accept client connection. Protocol error.");
+		case ( EPERM )       : return StandardException(loc,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -99,15 +99,15 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
-		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
+		case ( EAGAIN ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
+		case ( ECONNREFUSED) : return StandardException(loc,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to read the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -119,21 +119,21 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
-		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
-		case ( ECONNRESET  ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
-		case ( EISCONN     ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Connection mismatch???");
-		case ( EMSGSIZE    ) : return StandardException(LOC,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
-		case ( ENOBUFS     ) : return StandardException(LOC,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
-		case ( EOPNOTSUPP  ) : return StandardException(LOC,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
-		case ( EPIPE       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+		case ( EACCES      ) : return StandardException(loc,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
+		case ( ECONNRESET  ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
+		case ( EISCONN     ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Connection mismatch???");
+		case ( EMSGSIZE    ) : return StandardException(loc,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
+		case ( ENOBUFS     ) : return StandardException(loc,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
+		case ( EOPNOTSUPP  ) : return StandardException(loc,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
+		case ( EPIPE       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -145,10 +145,10 @@ StandardException send_exception(const char* loc) {
 StandardException ioctl_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
-		case ( EFAULT      ) : return StandardException(LOC,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
-		case ( ENOTTY      ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
+		case ( EFAULT      ) : return StandardException(loc,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
+		case ( ENOTTY      ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -163,11 +163,11 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 			std::string header;
 			header += "Unable to correctly determine the server hostname: ";
 			header += hostname;
-			return StandardException(LOC,OpenError,header);
+			return StandardException(loc,OpenError,header);
 		}
-		case ( TRY_AGAIN ) : return StandardException(LOC, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
-		case ( NO_ADDRESS )  : return StandardException(LOC,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
-		case ( NO_RECOVERY ) : return StandardException(LOC,UnknownError);
+		case ( TRY_AGAIN ) : return StandardException(loc, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
+		case ( NO_ADDRESS )  : return StandardException(loc,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
+		case ( NO_RECOVERY ) : return StandardException(loc,UnknownError);
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << h_errno << "]";
@@ -178,21 +178,21 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES ) : case ( EPERM ) : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
-        case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
-        case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
-        case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-        case ( EALREADY )    : return StandardException(LOC,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
-        case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Not a valid socket descriptor.");
-        case ( ECONNREFUSED ): return StandardException(LOC,ConnectionRefusedError,"Connection refused (no-one listening).");
-        case ( EFAULT )      : return StandardException(LOC,OutOfRangeError,"Socket specification is outside the user address space.");
-        case ( EINPROGRESS ) : return StandardException(LOC,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
-        case ( EINTR )       : return StandardException(LOC,InterruptedError,"Connection interrupted by a system signal.");
-        case ( EISCONN )     : return StandardException(LOC,ConnectionError,"This socket is already connected.");
+        case ( EACCES ) : case ( EPERM ) : return StandardException(loc,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EADDRINUSE )  : return StandardException(loc,BusyError,"Address already in use.");
+        case ( EAFNOSUPPORT ): return StandardException(loc,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
+        case ( EAGAIN )      : return StandardException(loc,OutOfResourcesError,"No free local ports remaining.");
+        case ( EALREADY )    : return StandardException(loc,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
+        case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Not a valid socket descriptor.");
+        case ( ECONNREFUSED ): return StandardException(loc,ConnectionRefusedError,"Connection refused (no-one listening).");
+        case ( EFAULT )      : return StandardException(loc,OutOfRangeError,"Socket specification is outside the user address space.");
+        case ( EINPROGRESS ) : return StandardException(loc,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
+        case ( EINTR )       : return StandardException(loc,InterruptedError,"Connection interrupted by a system signal.");
+        case ( EISCONN )     : return StandardException(loc,ConnectionError,"This socket is already connected.");
         case ( ENETUNREACH ) :
-        case ( EHOSTUNREACH ): return StandardException(LOC,NotFoundError,"The host is unreachable.");
-        case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"This is not a socket file descriptor.");
-        case ( ETIMEDOUT )   : return StandardException(LOC,TimeOutError,"Timed out.");
+        case ( EHOSTUNREACH ): return StandardException(loc,NotFoundError,"The host is unreachable.");
+        case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"This is not a socket file descriptor.");
+        case ( ETIMEDOUT )   : return StandardException(loc,TimeOutError,"Timed out.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..b1ca485 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -185,28 +185,28 @@ ecl::StandardException openSemaphoreException(const char* loc) {
 	int error_result = errno;
     switch ( error_result ) {
         case ( EACCES ) : {
-            return StandardException(LOC,PermissionsError,"The semaphore exists, but permission to open has been denied.");
+            return StandardException(loc,PermissionsError,"The semaphore exists, but permission to open has been denied.");
         }
         case ( EEXIST ) : {
-            return StandardException(LOC,PermissionsError,"The semaphore already exists, so your request to explicitly create was denied.");
+            return StandardException(loc,PermissionsError,"The semaphore already exists, so your request to explicitly create was denied.");
         }
         case ( ENOENT ) : {
-            return StandardException(LOC,ConfigurationError,"The semaphore requested doesn't already exist (you specifically requested it to just open, not create).");
+            return StandardException(loc,ConfigurationError,"The semaphore requested doesn't already exist (you specifically requested it to just open, not create).");
         }
         case ( ENOMEM ) : {
-            return StandardException(LOC,MemoryError,"Insufficient memory.");
+            return StandardException(loc,MemoryError,"Insufficient memory.");
         }
         case ( EINVAL ) : {
-            return StandardException(LOC,InvalidArgError,"Name was empty (i.e. '/'). Can also be the maximum number of semaphores has already been exceeded.");
+            return StandardException(loc,InvalidArgError,"Name was empty (i.e. '/'). Can also be the maximum number of semaphores has already been exceeded.");
         }
         case ( EMFILE ) : {
-        	return StandardException(LOC,OutOfResourcesError,"This process has already exceeded the number of files/pseudofiles it is permitted to open.");
+        	return StandardException(loc,OutOfResourcesError,"This process has already exceeded the number of files/pseudofiles it is permitted to open.");
 		}
         case ( ENFILE ) : {
-        	return StandardException(LOC,OutOfResourcesError,"This system has already exceeded the number of files/pseudofiles it is permitted to open.");
+        	return StandardException(loc,OutOfResourcesError,"This system has already exceeded the number of files/pseudofiles it is permitted to open.");
 		}
         case ( ENAMETOOLONG ) : {
-        	return StandardException(LOC,InvalidArgError,"The semaphore name was too long.");
+        	return StandardException(loc,InvalidArgError,"The semaphore name was too long.");
 		}
 		default         :
 		{
@@ -221,13 +221,13 @@ ecl::StandardException tryLockSemaphoreException(const char* loc) {
 	int error_result = errno;
     switch ( error_result ) {
         case ( EINTR ) : {
-            return StandardException(LOC,InterruptedError,"Waiting for the semaphore lock was interrupted by a system signal.");
+            return StandardException(loc,InterruptedError,"Waiting for the semaphore lock was interrupted by a system signal.");
         }
         case ( EINVAL ) : {
-            return StandardException(LOC,InvalidArgError,"The semaphore was invalid or the timeout structure specified was invalid.");
+            return StandardException(loc,InvalidArgError,"The semaphore was invalid or the timeout structure specified was invalid.");
         }
         case ( EAGAIN ) : {
-            return StandardException(LOC,BlockingError,"The waiting operation could not be performed without blocking???");
+            return StandardException(loc,BlockingError,"The waiting operation could not be performed without blocking???");
         }
 		default         :
 		{
diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7430e0b..6767353 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -110,24 +110,20 @@ ecl::StandardException openSharedSectionException(const char* loc) {
 	int error_result = errno;
 	switch (error_result) {
 		case ( EACCES ) : {
-			throw StandardException(LOC,PermissionsError,"Opening shared memory failed - permission denied.");
-			break;
+			return StandardException(loc,PermissionsError,"Opening shared memory failed - permission denied.");
 		}
 	//            case ( EEXIST ) : { // If using O_EXCL, need this, otherwise no.
 	//                // pathname exists, assume its a fifo and continue
 	//                break;
 	//            }
 		case ( EMFILE ) : case ( ENFILE ) : {
-			throw StandardException(LOC,OutOfResourcesError,"Opening shared memory failed - too many file connections already open.");
-			break;
+			return StandardException(loc,OutOfResourcesError,"Opening shared memory failed - too many file connections already open.");
 		}
 		case ( ENOENT ) : case ( ENAMETOOLONG ) : case ( EINVAL ) : {
-			throw StandardException(LOC,InvalidArgError,"Opening shared memory failed - pathname problem.");
-			break;
+			return StandardException(loc,InvalidArgError,"Opening shared memory failed - pathname problem.");
 		}
 		case ( ENOSYS ) : {
-			throw StandardException(LOC,NotSupportedError,"Opening shared memory failed - kernel system functions are not available (remake the kernel).");
-			break;
+			return StandardException(loc,NotSupportedError,"Opening shared memory failed - kernel system functions are not available (remake the kernel).");
 		}
 		default         :
 		{
@@ -142,31 +138,31 @@ ecl::StandardException memoryMapException(const char* loc) {
 	int error_result = errno;
 	switch (error_result) {
 		case ( EACCES ) : {
-			return StandardException(LOC,PermissionsError,"Shared mapping failed - permission problems (see man mmap).");
+			return StandardException(loc,PermissionsError,"Shared mapping failed - permission problems (see man mmap).");
 		}
 		case ( EAGAIN ) : {
-			return StandardException(LOC,MemoryError,"Shared mapping failed - file locked or too much memory has been locked.");
+			return StandardException(loc,MemoryError,"Shared mapping failed - file locked or too much memory has been locked.");
 		}
 		case ( EBADF  ) : {
-			return StandardException(LOC,InvalidArgError,"Shared mapping failed - not a valid file descriptor (see man mmap).");
+			return StandardException(loc,InvalidArgError,"Shared mapping failed - not a valid file descriptor (see man mmap).");
 		}
 		case ( EINVAL ) : {
-			return StandardException(LOC,InvalidArgError,"Shared mapping failed - start, length or offset were invalid or MAP_PRIVLOCE and MAP_SHARED were either both present or both obso (see man mmap).");
+			return StandardException(loc,InvalidArgError,"Shared mapping failed - start, length or offset were invalid or MAP_PRIVLOCE and MAP_SHARED were either both present or both obso (see man mmap).");
 		}
 		case ( ENFILE ) : {
-			return StandardException(LOC,OutOfResourcesError,"Shared mapping failed - system limit on the total number of open files has been reached (see man mmap).");
+			return StandardException(loc,OutOfResourcesError,"Shared mapping failed - system limit on the total number of open files has been reached (see man mmap).");
 		}
 		case ( ENODEV ) : {
-			return StandardException(LOC,NotSupportedError,"Shared mapping failed - underlying filesystem of the specified file doesn't support memory mapping (see man mmap).");
+			return StandardException(loc,NotSupportedError,"Shared mapping failed - underlying filesystem of the specified file doesn't support memory mapping (see man mmap).");
 		}
 		case ( ENOMEM ) : {
-			return StandardException(LOC,MemoryError,"Shared mapping failed - no mem available, or max mappings exceeded (see man mmap).");
+			return StandardException(loc,MemoryError,"Shared mapping failed - no mem available, or max mappings exceeded (see man mmap).");
 		}
 		case ( EPERM ) : {
-			return StandardException(LOC,PermissionsError,"Shared mapping failed - EPERM (see man mmap).");
+			return StandardException(loc,PermissionsError,"Shared mapping failed - EPERM (see man mmap).");
 		}
 //		case ( ETXBSY ) : {
-//			return StandardException(LOC,"Shared mapping failed.","ETXBSY (see man mmap).");
+//			return StandardException(loc,"Shared mapping failed.","ETXBSY (see man mmap).");
 //			break;
 //		}
 		default         :
-- 
2.43.0


From acc671bf9097f03cd3eb8fef755f4e02d2194f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:23 +0000
Subject: [PATCH 064/143] fix: opening a file that does not exist gives
 NotFoundError without exceptions too

---
 ecl_devices/src/lib/detail/error_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/detail/error_handler.cpp b/ecl_devices/src/lib/detail/error_handler.cpp
index 8d0dd3a..756b2b1 100644
--- a/ecl_devices/src/lib/detail/error_handler.cpp
+++ b/ecl_devices/src/lib/detail/error_handler.cpp
@@ -34,6 +34,7 @@ namespace devices {
 ecl::Error open_error() {
 	int error_result = errno;
 	switch (error_result) {
+		case ( ENOENT ) : return ecl::Error(ecl::NotFoundError);
 		case ( EINVAL ) : return ecl::Error(ecl::InvalidArgError);
 		case ( EACCES ) : return ecl::Error(ecl::PermissionsError);
 		case ( EFBIG )  : case (EOVERFLOW)  :
-- 
2.43.0


From fdeab1ef643c82684859ac6eb6bf2da08e638b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:04 +0000
Subject: [PATCH 065/143] fix: isApprox with an unsigned second operand did not
 compile (ambiguous std::abs in the float branch)

---
 ecl_math/include/ecl/math/fuzzy.hpp | 34 ++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/ecl_math/include/ecl/math/fuzzy.hpp b/ecl_math/include/ecl/math/fuzzy.hpp
index 0cdbd32..38113c7 100644
--- a/ecl_math/include/ecl/math/fuzzy.hpp
+++ b/ecl_math/include/ecl/math/fuzzy.hpp
@@ -82,24 +82,32 @@ struct scalar_fuzzy_default_impl<Scalar, true> {
 
 	template<typename OtherScalar>
 	static inline bool isApprox(const Scalar& x, const OtherScalar& y, const Precision& prec) {
-		// this will trigger if default argument is used (dummy precision for integers == 0)
-		if ( ecl::numeric_limits<OtherScalar>::is_integer ) {
-			return x == y;
-		} else {
-			// only get here if its not complex, so OtherScalar has to be a floating type
-			typename ecl::numeric_limits<OtherScalar>::Precision precision;
-			if ( prec == 0.0 ) {
-				precision = ecl::numeric_limits<OtherScalar>::dummy_precision;
-			} else {
-				precision = static_cast<OtherScalar>(prec);
-			}
-			return std::abs(static_cast<OtherScalar>(x) - y) <= std::min( std::abs(static_cast<OtherScalar>(x)),  std::abs(y)) * precision;
-		}
+		return isApproxTo(x, y, prec, BoolType<ecl::numeric_limits<OtherScalar>::is_integer>());
 	}
 	template<typename OtherScalar>
 	static inline bool isApproxOrLessThan(const Scalar& x, const OtherScalar& y, const Precision&) {
 		return x <= y;
 	}
+
+private:
+	template <bool B> struct BoolType {};
+
+	template<typename OtherScalar>
+	static inline bool isApproxTo(const Scalar& x, const OtherScalar& y, const Precision&, const BoolType<true>&) {
+		return x == y;
+	}
+	template<typename OtherScalar>
+	static inline bool isApproxTo(const Scalar& x, const OtherScalar& y, const Precision& prec, const BoolType<false>&) {
+		// only get here if its not complex, so OtherScalar has to be a floating type
+		typename ecl::numeric_limits<OtherScalar>::Precision precision;
+		// this will trigger if default argument is used (dummy precision for integers == 0)
+		if ( prec == 0.0 ) {
+			precision = ecl::numeric_limits<OtherScalar>::dummy_precision;
+		} else {
+			precision = static_cast<OtherScalar>(prec);
+		}
+		return std::abs(static_cast<OtherScalar>(x) - y) <= std::min( std::abs(static_cast<OtherScalar>(x)),  std::abs(y)) * precision;
+	}
 };
 
 ///**
-- 
2.43.0


From 979009974cab389bb550b336ee5023c74b404141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 066/143] fix: roots of a cubic whose leading coefficient is
 zero are those of the quadratic, not NaN

---
 ecl_geometry/src/lib/polynomial.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..b65c89e 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,12 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) { // not a true cubic
+		QuadraticPolynomial quadratic;
+		quadratic.coefficients() << d, c, b;
+		return Roots<QuadraticPolynomial>()(quadratic);
+	}
+
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
-- 
2.43.0


From b42f05c97e009dfadd0806fc67505cd3398be5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 067/143] fix: cubic with one real root at its inflection point
 returned two NaN roots

---
 ecl_geometry/src/lib/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index b65c89e..00ae206 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -128,7 +128,7 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
-	} else if ( q == 0 ) {
+	} else if ( ( q == 0 ) && ( p < 0 ) ) { // if p > 0 there is only the one real root, treated below
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
 		intercepts.resize(3);
-- 
2.43.0


From 04d5bc57dabbb0b638642bd6ac9db6a91e417d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 068/143] fix: Intersection::fail() stayed set after a later
 successful operation

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 00ae206..bc7568d 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -163,6 +163,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 	double b_0 = f.coefficients()[1];
 	double a_1 = g.coefficients()[0];
 	double b_1 = g.coefficients()[1];
+	last_operation_failed = false;
 	if ( isApprox(b_0, b_1) ) { // should use some epsilon distance here.
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
-- 
2.43.0


From 5543869829ed622785ee6f9088f31d8c646b8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 069/143] fix: decide repeated roots of a cubic from its exact
 discriminant instead of the rounded one

---
 ecl_geometry/src/lib/polynomial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc7568d..bb2d149 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -113,7 +113,8 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	// Monic Trinomial coefficients
 	double p = (3*a*c - b*b)/(3*a*a);
 	double q = (2*b*b*b - 9*a*b*c + 27*a*a*d)/(27*a*a*a);
-	double discriminant = p*p*p/27 + q*q/4;
+	// p^3/27 + q^2/4, but from the original coefficients so that repeated roots are not lost to the rounding of p and q
+	double discriminant = (4*a*c*c*c - b*b*c*c + 4*b*b*b*d + 27*a*a*d*d - 18*a*b*c*d)/(108*a*a*a*a);
 //	std::cout << "p: " << p << std::endl;
 //	std::cout << "q: " << q << std::endl;
 	// using transform x = t - b/3a, we can solve t^3+pt+q=0
-- 
2.43.0


From 2e3563cf9f706d8465e842890fe8be6b07c75e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 070/143] fix: a tension spline on two points wrote past the
 end of its work arrays

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..ec0ccba 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -79,8 +79,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // otherwise there are only the two end points and nothing to solve for
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From c6625d0b707b21e59f650d87e79daec603905763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:10 +0000
Subject: [PATCH 071/143] fix: splines on fewer than two points are refused
 like the C2 cubic spline does, instead of writing out of bounds

---
 ecl_geometry/src/lib/cubic_spline_blueprints.cpp   | 3 +++
 ecl_geometry/src/lib/smooth_linear_spline.cpp      | 3 +++
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ecl_geometry/src/lib/cubic_spline_blueprints.cpp b/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
index 19c6b04..157708f 100644
--- a/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
@@ -143,6 +143,9 @@ DerivativeHeuristicCubicSpline::DerivativeHeuristicCubicSpline(const ecl::Array<
         x_data(x_set),
         y_data(y_set)
 {
+    if ( x_data.size() < 2 || y_data.size() < 2 ) {
+      ecl_throw(StandardException(LOC,OutOfRangeError) );
+    }
     ecl_assert_throw( x_data.size() == y_data.size(), StandardException(LOC,OutOfRangeError) );
     /*********************
     ** Via Velocities
diff --git a/ecl_geometry/src/lib/smooth_linear_spline.cpp b/ecl_geometry/src/lib/smooth_linear_spline.cpp
index fec1839..673e2db 100644
--- a/ecl_geometry/src/lib/smooth_linear_spline.cpp
+++ b/ecl_geometry/src/lib/smooth_linear_spline.cpp
@@ -32,6 +32,9 @@ SmoothLinearSpline::SmoothLinearSpline(const Array<double>& x_data, const Array<
 	if ( x_data.size() != y_data.size() ) {
 		throw DataException<int>(LOC,OutOfRangeError,"Input domain and range sets were not the same size.", 0);
 	}
+	if ( x_data.size() < 2 ) {
+		throw DataException<int>(LOC,OutOfRangeError,"At least two data points are required.", 0);
+	}
 
     /*********************
     ** Basic Parameters
diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ec0ccba..6063fd5 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -43,6 +43,9 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
     x_data(x_set),
     y_data(y_set)
 {
+    if ( x_data.size() < 2 || y_data.size() < 2 ) {
+      ecl_throw(StandardException(LOC,OutOfRangeError) );
+    }
     ecl_assert_throw( x_data.size() == y_data.size(), StandardException(LOC,OutOfRangeError) );
 
     /*********************
-- 
2.43.0


From 4089dd162a14ea51f7001f76078987fa041734dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 072/143] fix: extend_pose gave a wrong pose when extending a
 pose with itself

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..560364c 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -82,10 +82,11 @@ void extend_pose(
   (void) dummy;
   Float c = std::cos(pose[2]);
   Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  // compute everything before storing, extending_pose may be the pose itself
+  Float x = pose[0] + c*extending_pose[0] - s*extending_pose[1];
+  Float y = pose[1] + s*extending_pose[0] + c*extending_pose[1];
+  Float h = wrap_angle(pose[2] + extending_pose[2]);
+  pose << x, y, h;
 }
 
 /*****************************************************************************
-- 
2.43.0


From fa26bbc3066d13c2e4d783db12f8c5f85cd2918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 073/143] fix: Pose2D: default construction and operator* did
 not compile, accessors returned dangling references, double poses were
 truncated to float

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 560364c..d926469 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -121,7 +121,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -130,7 +130,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
@@ -153,7 +153,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
@@ -176,11 +176,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From b39b7f4614f6b517a0ced00c63531512a41e2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 074/143] fix: LegacyPose3D ignored the angle axis and
 translation it was constructed from

---
 ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
index 6a1851f..bc9670d 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
@@ -121,13 +121,9 @@ public:
          */
         template<typename Trans>
         LegacyPose3D(const ecl::linear_algebra::AngleAxis<Float>& angle_axis, const ecl::linear_algebra::MatrixBase<Trans>& translation) :
-            rot(RotationMatrix::Identity()),
-            trans(Translation::Zero())
-        {
-                (void) angle_axis;
-                (void) translation;
-                /* TODO */
-        }
+            rot(angle_axis.toRotationMatrix()),
+            trans(translation)
+        {}
         /**
          * @brief Initialise from an eigen Quaternion and a translation.
          *
-- 
2.43.0


From 5f7c60bd40f1f3e6df7a481cbd967aa252e7abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 075/143] fix: poses with angle storage can be composed in
 place and with poses of the other storage

---
 ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
index eb93e3b..73d5589 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
@@ -137,7 +137,7 @@ public:
         static Angle<Float> Rotation(const RotationMatrixType &rotation) { return Pose2DMath<Float,RotationMatrixStorage>::Heading(rotation); } /**< @brief Arbitrary rotation converter. **/
         static Angle<Float> Heading(const Angle<Float> &angle) { return angle; }  /**< @brief Arbitrary heading angle converter. **/
         static Angle<Float> Product(const Angle<Float> &angle1, const Angle<Float> &angle2) { return angle1+angle2; } /**< @brief Overloaded product calculater for poses. **/
-        static Angle<Float> Product(const Angle<Float> &angle, RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
+        static Angle<Float> Product(const Angle<Float> &angle, const RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
         static Angle<Float> Inverse(const Angle<Float> &angle) { return Angle<Float>(-1*angle); } /**< @brief Pose inverse, angle format. **/
 };
 
@@ -412,14 +412,15 @@ public:
      */
         template <enum Pose2DStorageType Storage_>
     LegacyPose2D<Float,Storage> operator*(const LegacyPose2D<Float,Storage_> &pose) const {
-                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rot),trans + rotationMatrix()*pose.trans);
+                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rotation()),trans + rotationMatrix()*pose.translation());
     }
     /**
      * @brief Transform this pose by the specified input pose.
      * @param pose : a pose differential (wrt this pose's frame).
      * @return Pose2D<Float>& : handle to the updated pose (wrt common/global frame).
      */
-    LegacyPose2D<Float>& operator*=(const LegacyPose2D<Float> &pose) {
+        template <enum Pose2DStorageType Storage_>
+    LegacyPose2D<Float,Storage>& operator*=(const LegacyPose2D<Float,Storage_> &pose) {
         // This probably needs checking...could also be (marginally) sped up.
         *this = (*this)*pose;
         return (*this);
-- 
2.43.0


From 791e316ac03f0a5b3a74052f70c5d21a6b997ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 076/143] fix: addAtEnd overwrote or asserted instead of
 appending to a non-empty trajectory

---
 ecl_geometry/src/lib/odometry_helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index 25e39c4..ed31399 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -108,7 +108,10 @@ void addAtEnd(Trajectory2D& target, const Trajectory2D& addition)
     return;
   }
 
-  target << addition;
+  Trajectory2D joined(target.rows(), target.cols() + addition.cols());
+  joined.leftCols(target.cols()) = target;
+  joined.rightCols(addition.cols()) = addition;
+  target.swap(joined);
 }
 
 void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
@@ -119,7 +122,10 @@ void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
     return;
   }
 
-  target << addition;
+  Odom2DTrajectory joined(target.rows(), target.cols() + addition.cols());
+  joined.leftCols(target.cols()) = target;
+  joined.rightCols(addition.cols()) = addition;
+  target.swap(joined);
 }
 
 Trajectory2D vectorToTrajectory(const std::vector<Pose2D>& vec)
-- 
2.43.0


From 412b4adbcdcd9b668f5c0b68b059c4dfd984af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 077/143] fix: differences of time stamps of opposite sign were
 not carried into the seconds

---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..3731765 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +194,13 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From 51182fd1bc92d6904778e99913cbc475386e6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 078/143] fix: constant time stamps were compared and combined
 through lossy doubles

---
 ecl_time/include/ecl/time/timestamp_base.hpp | 16 ++++++++--------
 ecl_time/src/lib/timestamp_base.cpp          | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ecl_time/include/ecl/time/timestamp_base.hpp b/ecl_time/include/ecl/time/timestamp_base.hpp
index e16299b..2869505 100644
--- a/ecl_time/include/ecl/time/timestamp_base.hpp
+++ b/ecl_time/include/ecl/time/timestamp_base.hpp
@@ -141,37 +141,37 @@ public:
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator==(const TimeStampBase& time_stamp);
+	bool operator==(const TimeStampBase& time_stamp) const;
 	/**
 	 * Inequality operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator!=(const TimeStampBase& time_stamp);
+	bool operator!=(const TimeStampBase& time_stamp) const;
 	/**
 	 * Less than or equal to operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator<=(const TimeStampBase& time_stamp);
+	bool operator<=(const TimeStampBase& time_stamp) const;
 	/**
 	 * Greater than or equal to operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator>=(const TimeStampBase& time_stamp);
+	bool operator>=(const TimeStampBase& time_stamp) const;
 	/**
 	 * Less than operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator<(const TimeStampBase& time_stamp);
+	bool operator<(const TimeStampBase& time_stamp) const;
 	/**
 	 * Greater than or equal to operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator>(const TimeStampBase& time_stamp);
+	bool operator>(const TimeStampBase& time_stamp) const;
 
 	/******************************************
 	** Mathematical Operators
@@ -181,7 +181,7 @@ public:
 	 * @param time_stamp : the rhv (timestamp to be added to this instance).
 	 * @return TimeStamp : the sum of the two timestamps.
 	 */
-	TimeStampBase operator+(const TimeStampBase& time_stamp );
+	TimeStampBase operator+(const TimeStampBase& time_stamp ) const;
 	/**
 	 * Sum operator that modifies this instance with the result.
 	 * @param time_stamp : the rhv (timestamp to be added to this instance).
@@ -196,7 +196,7 @@ public:
 	 * @return TimeStamp : the difference of the two timestamps.
 	 * @exception StandardException : throws if difference would create a negative timestamp [debug mode only].
 	 */
-	TimeStampBase operator-(const TimeStampBase& time_stamp );
+	TimeStampBase operator-(const TimeStampBase& time_stamp ) const;
 	/**
 	 * Difference operator that modifies this instance with the result.
 	 * Note that a difference that would result in a negative timestamp is not
diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index 3731765..26d4ad9 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -63,7 +63,7 @@ const TimeStampBase& TimeStampBase::stamp (const time_t& seconds, const long& na
 ** Implementation [Comparison Operators]
 *****************************************************************************/
 
-bool TimeStampBase::operator==(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator==(const TimeStampBase& time_stamp ) const {
     if( ( time_stamp.time.tv_sec == time.tv_sec ) && ( time_stamp.time.tv_nsec == time.tv_nsec ) ) {
         return true;
     } else {
@@ -71,7 +71,7 @@ bool TimeStampBase::operator==(const TimeStampBase& time_stamp ) {
     }
 }
 
-bool TimeStampBase::operator!=(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator!=(const TimeStampBase& time_stamp ) const {
     if( ( time_stamp.time.tv_sec == time.tv_sec ) && ( time_stamp.time.tv_nsec == time.tv_nsec ) ) {
         return false;
     } else {
@@ -79,7 +79,7 @@ bool TimeStampBase::operator!=(const TimeStampBase& time_stamp ) {
     }
 }
 
-bool TimeStampBase::operator<=(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator<=(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec > time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -90,7 +90,7 @@ bool TimeStampBase::operator<=(const TimeStampBase& time_stamp ) {
     return true;
 }
 
-bool TimeStampBase::operator>=(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator>=(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec < time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -101,7 +101,7 @@ bool TimeStampBase::operator>=(const TimeStampBase& time_stamp ) {
     return true;
 }
 
-bool TimeStampBase::operator<(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator<(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec > time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -112,7 +112,7 @@ bool TimeStampBase::operator<(const TimeStampBase& time_stamp ) {
     return true;
 }
 
-bool TimeStampBase::operator>(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator>(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec < time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -147,7 +147,7 @@ void TimeStampBase::operator+=(const TimeStampBase& time_stamp ) {
     time.tv_nsec = nsec;
 }
 
-TimeStampBase TimeStampBase::operator+(const TimeStampBase& time_stamp ) {
+TimeStampBase TimeStampBase::operator+(const TimeStampBase& time_stamp ) const {
     long sec = time.tv_sec + time_stamp.time.tv_sec;
     int64 nsec = time.tv_nsec + time_stamp.time.tv_nsec;
     if ( nsec >= 1000000000L ) {
@@ -190,7 +190,7 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time.tv_nsec = nsec;
 }
 
-TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
+TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) const {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
-- 
2.43.0


From 4a7e34d944d0dad5be3a2b5b055244d5ff410d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 079/143] fix: the first split of a new stop watch started
 later than its total

---
 ecl_time/src/lib/stopwatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/stopwatch.cpp b/ecl_time/src/lib/stopwatch.cpp
index 7866c55..8a8a1e7 100644
--- a/ecl_time/src/lib/stopwatch.cpp
+++ b/ecl_time/src/lib/stopwatch.cpp
@@ -23,7 +23,7 @@ namespace ecl {
 /*****************************************************************************
 ** Implementation [StopWatch]
 *****************************************************************************/
-StopWatch::StopWatch() {
+StopWatch::StopWatch() : split_time(start_time) {
     // The variable start_time will automatically initialise with the current
     // system time.
 }
-- 
2.43.0


From ab38122c67a2da8c032b58569a385883f6781fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 080/143] fix: the frequency monitor mixed the real-time and
 the monotonic clock in its window

---
 ecl_time/src/lib/frequency.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..176864b 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -34,6 +34,7 @@ FrequencyMonitor::FrequencyMonitor(
 , last_incoming(ecl::TimeStamp())
 #endif
 {
+  last_anyalsed = last_incoming;
 }
 
 void FrequencyMonitor::update() {
@@ -56,7 +57,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From 0f3cd32e604d7432078c10d82034e2730584c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 081/143] fix: micro and nanosecond sleepers kept the seconds
 of their previous setting

---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..f39bb90 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000;
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000;
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
-- 
2.43.0


From 2ddb0bf4ebb45b19df86d0b9c2f34d7d3b407fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 082/143] fix: a snooze ending on a full second asked for an
 invalid wake-up time

---
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From fc932eb72e3a76d1936b7af4840fd52fb13fe2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 083/143] fix: the y intercept of a covariance ellipse used the
 sine of its angle for the cosine

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 81fdf9d..b820eb0 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -123,7 +123,7 @@ Vector2f CovarianceEllipsoid<float,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2f( (ellipse_lengths(0)/ellipse_lengths(1)), tanf(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*sinf(angle));
+	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*cosf(angle));
 
 	return intercept_magnitudes;
 }
@@ -219,7 +219,7 @@ Vector2d CovarianceEllipsoid<double,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2( (ellipse_lengths(0)/ellipse_lengths(1)), tan(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*sin(angle));
+	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*cos(angle));
 
 	return intercept_magnitudes;
 }
-- 
2.43.0


From cf92aabe633bb64155291ccf2594900f6e9d51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 084/143] fix: planar covariance ellipses lost their axes and
 lengths to cancellation

---
 .../src/lib/covariance_ellipsoid.cpp          | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index b820eb0..4afbd24 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -55,7 +55,7 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	float c = M(1,0);
 	float d = M(1,1);
 
-	float tmp = sqrtf((a+d)*(a+d)/4 - a*d + b*c);
+	float tmp = sqrtf((a-d)*(a-d)/4 + b*c);
     ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf((a+d)/2 - tmp);
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
@@ -65,10 +65,16 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
-        ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
-        ellipse_axes(1,1) = c;
+        // take whichever row of (M - lambda*I) does not cancel
+        if ( a >= d ) {
+            ellipse_axes(0,0) = (a-d)/2 + tmp;
+            ellipse_axes(1,0) = c;
+        } else {
+            ellipse_axes(0,0) = fabsf(c);
+            ellipse_axes(1,0) = ( c > 0 ) ? (d-a)/2 + tmp : (a-d)/2 - tmp;
+        }
+        ellipse_axes(0,1) = -ellipse_axes(1,0);
+        ellipse_axes(1,1) = ellipse_axes(0,0);
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
     	ellipse_axes(1,0) = ellipse_lengths(0)*ellipse_lengths(0)-a;
@@ -151,7 +157,7 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	double c = M(1,0);
 	double d = M(1,1);
 
-    double tmp = sqrt((a+d)*(a+d)/4 - a*d + b*c);
+    double tmp = sqrt((a-d)*(a-d)/4 + b*c);
     ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt((a+d)/2 - tmp);
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
@@ -161,10 +167,16 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
-        ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
-        ellipse_axes(1,1) = c;
+        // take whichever row of (M - lambda*I) does not cancel
+        if ( a >= d ) {
+            ellipse_axes(0,0) = (a-d)/2 + tmp;
+            ellipse_axes(1,0) = c;
+        } else {
+            ellipse_axes(0,0) = fabs(c);
+            ellipse_axes(1,0) = ( c > 0 ) ? (d-a)/2 + tmp : (a-d)/2 - tmp;
+        }
+        ellipse_axes(0,1) = -ellipse_axes(1,0);
+        ellipse_axes(1,1) = ellipse_axes(0,0);
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
     	ellipse_axes(1,0) = ellipse_lengths(0)*ellipse_lengths(0)-a;
-- 
2.43.0


From a7064620b294ed787b42ea25a14a762373328335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:46 +0000
Subject: [PATCH 085/143] fix: covariance ellipsoids with coinciding
 eigenvalues had axes that were not orthogonal

---
 .../src/lib/covariance_ellipsoid.cpp          | 51 +++++++++++++++----
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 4afbd24..619b4c7 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -18,6 +18,37 @@
 
 namespace ecl {
 
+/*****************************************************************************
+** Helpers
+*****************************************************************************/
+
+namespace {
+
+/**
+ * Jacobi diagonalisation of a symmetric matrix, i.e. M = axes * diagonal * axes^T.
+ * The axes stay orthogonal also when eigenvalues coincide and correlate with the
+ * indices of (nearly) diagonal matrices.
+ */
+template <typename Matrix>
+void diagonalise(const Matrix &M, Matrix &diagonal, Matrix &axes) {
+	diagonal = M;
+	axes.setIdentity();
+	for ( int sweep = 0; sweep < 16; ++sweep ) {
+		for ( int q = 1; q < M.cols(); ++q ) {
+			for ( int p = 0; p < q; ++p ) {
+				Eigen::JacobiRotation<typename Matrix::Scalar> rotation;
+				if ( rotation.makeJacobi(diagonal, p, q) ) {
+					diagonal.applyOnTheLeft(p, q, rotation.adjoint());
+					diagonal.applyOnTheRight(p, q, rotation);
+					axes.applyOnTheRight(p, q, rotation);
+				}
+			}
+		}
+	}
+}
+
+} // namespace
+
 /*****************************************************************************
 ** Using
 *****************************************************************************/
@@ -251,12 +282,12 @@ CovarianceEllipsoid<float,3>::CovarianceEllipsoid(const ecl::linear_algebra::Mat
 }
 void CovarianceEllipsoid<float,3>::compute(const ecl::linear_algebra::Matrix3f &M, const bool sort) {
 
-	Eigen::EigenSolver<Matrix3f> esolver(M);
+	Matrix3f diagonal;
+	diagonalise(M, diagonal, ellipse_axes);
 
-	ellipse_lengths[0] = sqrtf(esolver.pseudoEigenvalueMatrix()(0,0));
-	ellipse_lengths[1] = sqrtf(esolver.pseudoEigenvalueMatrix()(1,1));
-	ellipse_lengths[2] = sqrtf(esolver.pseudoEigenvalueMatrix()(2,2));
-	ellipse_axes = esolver.pseudoEigenvectors ();
+	ellipse_lengths[0] = sqrtf(diagonal(0,0));
+	ellipse_lengths[1] = sqrtf(diagonal(1,1));
+	ellipse_lengths[2] = sqrtf(diagonal(2,2));
 
 	if ( sort ) {
 		// Note that sorting of eigenvalues may end up with left-hand coordinate system.
@@ -283,12 +314,12 @@ CovarianceEllipsoid<double,3>::CovarianceEllipsoid(const ecl::linear_algebra::Ma
 	compute(M,sort);
 }
 void CovarianceEllipsoid<double,3>::compute(const ecl::linear_algebra::Matrix3d &M, const bool sort) {
-	Eigen::EigenSolver<Matrix3d> esolver(M);
+	Matrix3d diagonal;
+	diagonalise(M, diagonal, ellipse_axes);
 
-	ellipse_lengths[0] = sqrt(esolver.pseudoEigenvalueMatrix()(0,0));
-	ellipse_lengths[1] = sqrt(esolver.pseudoEigenvalueMatrix()(1,1));
-	ellipse_lengths[2] = sqrt(esolver.pseudoEigenvalueMatrix()(2,2));
-	ellipse_axes = esolver.pseudoEigenvectors ();
+	ellipse_lengths[0] = sqrt(diagonal(0,0));
+	ellipse_lengths[1] = sqrt(diagonal(1,1));
+	ellipse_lengths[2] = sqrt(diagonal(2,2));
 
 	if ( sort ) {
 		// Note that sorting of eigenvalues may end up with left-hand coordinate system.
-- 
2.43.0


From 0c5aa080e202bf2e8ca40002e0631672af3550e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:19 +0000
Subject: [PATCH 086/143] fix: waypoints of different dimensions compare as
 different

---
 ecl_manipulators/include/ecl/manipulators/waypoint.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_manipulators/include/ecl/manipulators/waypoint.hpp b/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
index 8fc2a11..cc29584 100644
--- a/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
@@ -306,6 +306,7 @@ class WayPoint<JointAngles>
          * @return bool : true if all angles are equal, false otherwise.
          */
         bool operator==(const WayPoint<JointAngles>& other) const {
+        	if ( dimension() != other.dimension() ) { return false; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( angle_positions[i] != other.angle_positions[i] ) {
         			return false;
@@ -324,6 +325,7 @@ class WayPoint<JointAngles>
          * @return bool : true if not all angles are equal, false otherwise.
          */
         bool operator!=(const WayPoint<JointAngles>& other) const {
+        	if ( dimension() != other.dimension() ) { return true; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( angle_positions[i] != other.angle_positions[i] ) {
         			return true;
@@ -344,6 +346,7 @@ class WayPoint<JointAngles>
          * @return bool : true if all angles are approximately equal, false otherwise.
          */
         bool approx(const WayPoint<JointAngles> &other, const double& epsilon = 0.01) {
+        	if ( dimension() != other.dimension() ) { return false; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( std::fabs(angle_positions[i] - other.angle_positions[i]) > epsilon ) {
         			return false;
-- 
2.43.0


From 785c7089c70d077c0d5bb7c0905c40b12b85ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:19 +0000
Subject: [PATCH 087/143] fix: smoothed linear trajectories end with the
 configured rate

---
 ecl_manipulators/src/lib/trajectory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 93b36b7..ef9a034 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -643,7 +643,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
+    if (acceleration_constraint_broken)
+    { // otherwise keep the value that has just been checked
+      t_pullback = t_pullback * 2; // takes 11 runs to get from 1ms to 1s; adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
@@ -725,7 +728,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    if (acceleration_constraint_broken)
+    { // otherwise keep the value that has just been checked
+      t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
-- 
2.43.0


From c400ddcdd6909bb87809bfb091198bb591a403da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 088/143] fix: extremes of cubics and roots of quadratics with
 a tiny leading coefficient

---
 ecl_geometry/src/lib/polynomial.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bb2d149..460d8b1 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -80,7 +80,14 @@ Array<double> Roots< QuadraticPolynomial >::operator()(const QuadraticPolynomial
 		double discriminant = b*b - 4*a*c;
 		if ( discriminant > 0.0 ) {
 			intercepts.resize(2);
-			intercepts << (-b + sqrt(discriminant))/(2*a), (-b - sqrt(discriminant))/(2*a);
+			// avoid subtracting nearly equal numbers (matters if a is tiny)
+			if ( b < 0 ) {
+				double q = (-b + sqrt(discriminant))/2;
+				intercepts << q/a, c/q;
+			} else {
+				double q = (-b - sqrt(discriminant))/2;
+				intercepts << c/q, q/a;
+			}
 		} else if ( discriminant == 0.0 ) {
 			intercepts.resize(1);
 			intercepts << -b/(2*a);
@@ -208,14 +215,16 @@ double Maximum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			// avoid subtracting nearly equal numbers (matters if a is tiny, e.g. only rounding noise)
+			double q = ( b < 0 ) ? ( -b + sqrt(sqrt_term) )/2 : ( -b - sqrt(sqrt_term) )/2;
+			double root = q/a;
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
 					max = test_max;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = c/q;
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
@@ -260,14 +269,16 @@ double Minimum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			// avoid subtracting nearly equal numbers (matters if a is tiny, e.g. only rounding noise)
+			double q = ( b < 0 ) ? ( -b + sqrt(sqrt_term) )/2 : ( -b - sqrt(sqrt_term) )/2;
+			double root = q/a;
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
 					min = test_min;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = c/q;
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
-- 
2.43.0


From ea202d67d414c07b89ecbafb8d6c9a0b39596d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 089/143] fix: a lead-out that breaks the limits stretches the
 last segment, not the first

---
 ecl_manipulators/src/lib/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index ef9a034..51708f5 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -735,7 +735,7 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
   }
   if (acceleration_constraint_broken)
   {
-    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by pre pseudo point.", 0);
+    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by post pseudo point.", n + 2);
   }
   post_pseudo_waypoint.duration(t_pullforward - t_post_intersect_duration);
   for (unsigned int j = 0; j < dimension(); ++j)
-- 
2.43.0


From c1690a2ba4bbc79e38b74982bee9ed46ba195bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 090/143] fix: generate a tension trajectory again after a
 segment has been stretched

---
 ecl_manipulators/src/lib/trajectory.cpp | 304 ++++++++++++------------
 1 file changed, 158 insertions(+), 146 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 51708f5..c60c258 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -63,96 +63,105 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   Array<TensionSpline> tension_splines(dimension());
   Array<QuinticPolynomial> leading_quintics(dimension()), trailing_quintics(dimension());
 
-  /******************************************
-   ** Roughly Generate Tension Spline
-   *******************************************/
-  bool splines_constrained = false;
-  while (!splines_constrained)
+  double leading_quintic_time = 0.0;
+  double trailing_quintic_time_0 = 0.0;
+  double trailing_quintic_time_f = 0.0;
+  // Stretching a segment for one of the quintics changes the whole tension spline,
+  // in that case everything has to be generated (and checked) again.
+  bool stretched = true;
+  while (stretched)
   {
-    tension_splines = generateTensionSplines(tension, 0.0);
-    /*********************
-     ** Check Max Accel
-     **********************/
-    Array<double> domain = tension_splines[0].domain();
-    splines_constrained = true; // This changes to false if we break the max accel constraint
-    // - tension splines have high accelerations at the joins.
-    // - inbetween the joins, the acceleration goes towards zero.
-    // - so we just check the size of the acceleration at the joins to find trouble spots.
-    for (unsigned int i = 1; i < domain.size() - 1; ++i)
-    { // Natural spline, first and last accelerations are always zero, so dont worry about them
-      for (unsigned int j = 0; j < dimension(); ++j)
-      {
-        double accel = fabs(tension_splines[j].dderivative(domain[i]));
-        /*********************
-         ** Debugging
-         **********************/
+    stretched = false;
+    /******************************************
+     ** Roughly Generate Tension Spline
+     *******************************************/
+    bool splines_constrained = false;
+    while (!splines_constrained)
+    {
+      tension_splines = generateTensionSplines(tension, 0.0);
+      /*********************
+       ** Check Max Accel
+       **********************/
+      Array<double> domain = tension_splines[0].domain();
+      splines_constrained = true; // This changes to false if we break the max accel constraint
+      // - tension splines have high accelerations at the joins.
+      // - inbetween the joins, the acceleration goes towards zero.
+      // - so we just check the size of the acceleration at the joins to find trouble spots.
+      for (unsigned int i = 1; i < domain.size() - 1; ++i)
+      { // Natural spline, first and last accelerations are always zero, so dont worry about them
+        for (unsigned int j = 0; j < dimension(); ++j)
+        {
+          double accel = fabs(tension_splines[j].dderivative(domain[i]));
+          /*********************
+           ** Debugging
+           **********************/
 //                std::cout << "Accel checking" << std::endl;
 //                std::cout << "  Domain: " << domain << std::endl;
 //                std::cout << "  Accel[" << i << "," << j << "]: " << accel << std::endl;
 //                sleep(1);
-        if (accel > max_accelerations[j])
-        {
-          splines_constrained = false;
-          double slope_before = fabs(
-              (waypoints[i].angles()[j] - waypoints[i - 1].angles()[j]) / waypoints[i - 1].duration());
-          double slope_after = fabs(
-              (waypoints[i + 1].angles()[j] - waypoints[i].angles()[j]) / waypoints[i].duration());
+          if (accel > max_accelerations[j])
+          {
+            splines_constrained = false;
+            double slope_before = fabs(
+                (waypoints[i].angles()[j] - waypoints[i - 1].angles()[j]) / waypoints[i - 1].duration());
+            double slope_after = fabs(
+                (waypoints[i + 1].angles()[j] - waypoints[i].angles()[j]) / waypoints[i].duration());
 //                    std::cout << "  Slope_Before[" << i << "," << j << "]: " << slope_before << std::endl;
 //                    std::cout << "  Slope_After [" << i << "," << j << "]: " << slope_after << std::endl;
-          if (slope_before > slope_after)
-          {
-            waypoints[i - 1].duration(waypoints[i - 1].duration() * 1.1); // 10% increase
-          }
-          else
-          {
-            waypoints[i].duration(waypoints[i].duration() * 1.1); // 10% increase
-          }
+            if (slope_before > slope_after)
+            {
+              waypoints[i - 1].duration(waypoints[i - 1].duration() * 1.1); // 10% increase
+            }
+            else
+            {
+              waypoints[i].duration(waypoints[i].duration() * 1.1); // 10% increase
+            }
 //                    i = domain.size(); // Force it to restart <-- This doesn't actually work so well - dampen the whole curve at once instead of gradually from one end!
-          break;
+            break;
+          }
         }
       }
     }
-  }
-  /******************************************
-   ** Check rates are set for head/tail
-   *******************************************/
-  // Note that we may yet change values[1] and values[n+1] when fixing the pseudo points below
-  // Set them all to zero (default option, i.e. starting at rest).
-  if (!waypoints[0].rates_configured())
-  {
-    waypoints[0].rates() = WayPoint<JointAngles>::JointDataArray::Constant(waypoints[0].dimension(), 0.0);
-  }
-  if (!waypoints[n].rates_configured())
-  {
-    waypoints[n].rates() = WayPoint<JointAngles>::JointDataArray::Constant(waypoints[n].dimension(), 0.0);
-  }
+    /******************************************
+     ** Check rates are set for head/tail
+     *******************************************/
+    // Note that we may yet change values[1] and values[n+1] when fixing the pseudo points below
+    // Set them all to zero (default option, i.e. starting at rest).
+    if (!waypoints[0].rates_configured())
+    {
+      waypoints[0].rates() = WayPoint<JointAngles>::JointDataArray::Constant(waypoints[0].dimension(), 0.0);
+    }
+    if (!waypoints[n].rates_configured())
+    {
+      waypoints[n].rates() = WayPoint<JointAngles>::JointDataArray::Constant(waypoints[n].dimension(), 0.0);
+    }
 
-  /******************************************
-   ** Make the pre pseudo point.
-   *******************************************/
-  double leading_quintic_time = 0.0;
-  bool quintic_constrained = false;
-  while (!quintic_constrained)
-  {
-    quintic_constrained = true;
-    for (unsigned int i = 1; i <= 5; ++i)
+    /******************************************
+     ** Make the pre pseudo point.
+     *******************************************/
+    leading_quintic_time = 0.0;
+    bool quintic_constrained = false;
+    while (!quintic_constrained)
     {
-      double t = i * waypoints[0].duration() / 10;
-      // move the tension spline to the right, i.e. give us some space to insert a quintic
-      tension_splines = generateTensionSplines(tension, t); // t <-- is the initial time to start the tension spline
-      for (unsigned int j = 0; j < dimension(); ++j)
+      quintic_constrained = true;
+      for (unsigned int i = 1; i <= 5; ++i)
       {
-        // find the right side boundary conditions for the quintic we want to insert
-        double y_dot = tension_splines[j].derivative(2 * t);
-        double y = tension_splines[j](2 * t);
-        // the left side boundary conditions for the quintic
-        double y_0 = waypoints[0].angles()[j];
-        double y_0_dot = waypoints[0].rates()[j];
-        leading_quintics[j] = QuinticPolynomial::Interpolation(0.0, y_0, y_0_dot, 0.0, 2 * t, y, y_dot, 0.0);
-
-        /*********************
-         ** Debugging
-         **********************/
+        double t = i * waypoints[0].duration() / 10;
+        // move the tension spline to the right, i.e. give us some space to insert a quintic
+        tension_splines = generateTensionSplines(tension, t); // t <-- is the initial time to start the tension spline
+        for (unsigned int j = 0; j < dimension(); ++j)
+        {
+          // find the right side boundary conditions for the quintic we want to insert
+          double y_dot = tension_splines[j].derivative(2 * t);
+          double y = tension_splines[j](2 * t);
+          // the left side boundary conditions for the quintic
+          double y_0 = waypoints[0].angles()[j];
+          double y_0_dot = waypoints[0].rates()[j];
+          leading_quintics[j] = QuinticPolynomial::Interpolation(0.0, y_0, y_0_dot, 0.0, 2 * t, y, y_dot, 0.0);
+
+          /*********************
+           ** Debugging
+           **********************/
 //			    std::cout << "Pre Pseudo Point" << std::endl;
 //				std::cout << "  Domain: " << tension_splines[0].domain() << std::endl;
 //				std::cout << "    y[" << i << "," << j << "]     : " << y << std::endl;
@@ -163,62 +172,63 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
 //				}
 //				std::cout << "    accel[" << i << "," << j << "] : " << accel_max << std::endl;
 //				sleep(1);
-        if ((fabs(ecl::Maximum<CubicPolynomial>()(0.0, 2 * t, leading_quintics[j].derivative().derivative()))
-            < fabs(max_accelerations[j]))
-            && (fabs(ecl::Minimum<CubicPolynomial>()(0.0, 2 * t, leading_quintics[j].derivative().derivative()))
-                < fabs(max_accelerations[j])))
-        {
-          if (j == dimension() - 1)
-          { // all joints are constrained, great!
-            leading_quintic_time = 2 * t;
-            // Everything done, force it to completely bail out of these loops.
-            quintic_constrained = true;
-            i = 5;
+          if ((fabs(ecl::Maximum<CubicPolynomial>()(0.0, 2 * t, leading_quintics[j].derivative().derivative()))
+              < fabs(max_accelerations[j]))
+              && (fabs(ecl::Minimum<CubicPolynomial>()(0.0, 2 * t, leading_quintics[j].derivative().derivative()))
+                  < fabs(max_accelerations[j])))
+          {
+            if (j == dimension() - 1)
+            { // all joints are constrained, great!
+              leading_quintic_time = 2 * t;
+              // Everything done, force it to completely bail out of these loops.
+              quintic_constrained = true;
+              i = 5;
+            }
           }
-        }
-        else
-        { // failed to constrain for this i value.
-          if (i == 5)
-          { // If we get here, even up to half the length of the segment has failed.
-            quintic_constrained = false;
+          else
+          { // failed to constrain for this i value.
+            if (i == 5)
+            { // If we get here, even up to half the length of the segment has failed.
+              quintic_constrained = false;
+            }
+            break;
           }
-          break;
         }
-      }
-      if (!quintic_constrained)
-      { // give up, go back to start of while loop with increased duration
+        if (!quintic_constrained)
+        { // give up, go back to start of while loop with increased duration
 //				std::cout << "Quintic unconstrained, increasing the first duration : " << waypoints[0].duration() << std::endl;
-        waypoints[0].duration(waypoints[0].duration() * 1.1); // 10% increase
-        break; // from the for loop
+          waypoints[0].duration(waypoints[0].duration() * 1.1); // 10% increase
+          stretched = true;
+          break; // from the for loop
+        }
       }
     }
-  }
 
-  /******************************************
-   ** Make the post pseudo point.
-   *******************************************/
-  double trailing_quintic_time_0 = 0.0;
-  double trailing_quintic_time_f = 0.0;
-  quintic_constrained = false;
-  while (!quintic_constrained)
-  {
-    quintic_constrained = true;
-    tension_splines = generateTensionSplines(tension, leading_quintic_time / 2);
-    for (unsigned int i = 1; i <= 5; ++i)
+    /******************************************
+     ** Make the post pseudo point.
+     *******************************************/
+    trailing_quintic_time_0 = 0.0;
+    trailing_quintic_time_f = 0.0;
+    quintic_constrained = false;
+    while (!quintic_constrained)
     {
-      double t = i * waypoints[n - 1].duration() / 10;
-      double t_f = tension_splines[0].domain().back();
-      for (unsigned int j = 0; j < dimension(); ++j)
+      quintic_constrained = true;
+      tension_splines = generateTensionSplines(tension, leading_quintic_time / 2);
+      for (unsigned int i = 1; i <= 5; ++i)
       {
-        double y_dot = tension_splines[j].derivative(t_f - t);
-        double y = tension_splines[j](t_f - t);
-        double y_f = waypoints[n].angles()[j];
-        double y_f_dot = waypoints[n].rates()[j];
-        trailing_quintics[j] = QuinticPolynomial::Interpolation(t_f - t, y, y_dot, 0.0, t_f + t, y_f, y_f_dot, 0.0);
-
-        /*********************
-         ** Debugging
-         **********************/
+        double t = i * waypoints[n - 1].duration() / 10;
+        double t_f = tension_splines[0].domain().back();
+        for (unsigned int j = 0; j < dimension(); ++j)
+        {
+          double y_dot = tension_splines[j].derivative(t_f - t);
+          double y = tension_splines[j](t_f - t);
+          double y_f = waypoints[n].angles()[j];
+          double y_f_dot = waypoints[n].rates()[j];
+          trailing_quintics[j] = QuinticPolynomial::Interpolation(t_f - t, y, y_dot, 0.0, t_f + t, y_f, y_f_dot, 0.0);
+
+          /*********************
+           ** Debugging
+           **********************/
 //			    std::cout << "Post Pseudo Point" << std::endl;
 //				std::cout << "  Domain: " << tension_splines[0].domain() << std::endl;
 //				std::cout << "    y[" << i << "," << j << "]     : " << y << std::endl;
@@ -229,34 +239,36 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
 //				}
 //				std::cout << "    accel[" << i << "," << j << "] : " << accel_max << std::endl;
 //				sleep(1);
-        if ((fabs(Maximum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
-            < fabs(max_accelerations[j]))
-            && (fabs(Minimum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
-                < fabs(max_accelerations[j])))
-        {
-          if (j == dimension() - 1)
-          { // all joints are constrained, great!
-            trailing_quintic_time_0 = tension_splines[j].domain().back() - t;
-            trailing_quintic_time_f = tension_splines[j].domain().back() + t;
-            // Everything done, force it to completely bail out of these loops.
-            quintic_constrained = true;
-            i = 5;
+          if ((fabs(Maximum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
+              < fabs(max_accelerations[j]))
+              && (fabs(Minimum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
+                  < fabs(max_accelerations[j])))
+          {
+            if (j == dimension() - 1)
+            { // all joints are constrained, great!
+              trailing_quintic_time_0 = tension_splines[j].domain().back() - t;
+              trailing_quintic_time_f = tension_splines[j].domain().back() + t;
+              // Everything done, force it to completely bail out of these loops.
+              quintic_constrained = true;
+              i = 5;
+            }
           }
-        }
-        else
-        { // failed to constrain for this i value.
-          if (i == 5)
-          { // If we get here, even up to half the length of the segment has failed.
-            quintic_constrained = false;
+          else
+          { // failed to constrain for this i value.
+            if (i == 5)
+            { // If we get here, even up to half the length of the segment has failed.
+              quintic_constrained = false;
+            }
+            break;
           }
+        }
+        if (!quintic_constrained)
+        { // give up, go back to start of while loop with increased duration
+          waypoints[n - 1].duration(waypoints[n - 1].duration() * 1.1); // 10% increase
+          stretched = true;
           break;
         }
       }
-      if (!quintic_constrained)
-      { // give up, go back to start of while loop with increased duration
-        waypoints[n - 1].duration(waypoints[n - 1].duration() * 1.1); // 10% increase
-        break;
-      }
     }
   }
 
-- 
2.43.0


From cf0673d5238036bd8110a9348701cefa6ffaaeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:55 +0000
Subject: [PATCH 091/143] fix: copies of trajectories share the generated
 splines

---
 .../include/ecl/manipulators/trajectory.hpp   |  9 ++++---
 ecl_manipulators/src/lib/trajectory.cpp       | 24 +++++++------------
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index a1814aa..c07c8b1 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <iostream>
+#include <memory>
 #include <cmath>
 #include <sstream>
 #include <string>
@@ -91,7 +92,8 @@ class Trajectory<JointAngles> {
          * @param name_identifier : string identifier for the trajectory name.
          */
         Trajectory(const char* name_identifier = "") :
-            name(name_identifier)
+            name(name_identifier),
+            trajectory_duration(0.0)
         {}
         /**
          * @brief Configures the joint dimension, and also (optionally) the trajectory name.
@@ -102,7 +104,8 @@ class Trajectory<JointAngles> {
         Trajectory(const unsigned int& dimension, const char* name_identifier = "") :
             name(name_identifier),
             spline_functions(dimension),
-            max_accelerations(Array<double>::Constant(dimension,0.0))
+            max_accelerations(Array<double>::Constant(dimension,0.0)),
+            trajectory_duration(0.0)
         {}
 
         /**
@@ -336,7 +339,7 @@ class Trajectory<JointAngles> {
 
     private:
         std::vector< WayPoint<JointAngles> > waypoints;
-        Array< std::vector<GenericSplineFunction*> > spline_functions;
+        Array< std::vector< std::shared_ptr<GenericSplineFunction> > > spline_functions; // never modified once generated, so copies can share them
         Array< double> max_accelerations;
         double trajectory_duration;
 
diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index c60c258..e5b5c57 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -58,7 +58,7 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   clearSplines(); // Clean up any pre-existing definition.
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j].resize(3, NULL);
+    spline_functions[j].resize(3);
   }
   Array<TensionSpline> tension_splines(dimension());
   Array<QuinticPolynomial> leading_quintics(dimension()), trailing_quintics(dimension());
@@ -283,11 +283,11 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   trajectory_duration = trailing_quintic_time_f;
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j][0] = new SplineFunction<QuinticPolynomial>(0.0, leading_quintic_time, leading_quintics[j]);
-    spline_functions[j][1] = new SplineFunction<TensionSpline>(leading_quintic_time, trailing_quintic_time_0,
-                                                               tension_splines[j]);
-    spline_functions[j][2] = new SplineFunction<QuinticPolynomial>(trailing_quintic_time_0, trailing_quintic_time_f,
-                                                                   trailing_quintics[j]);
+    spline_functions[j][0].reset(new SplineFunction<QuinticPolynomial>(0.0, leading_quintic_time, leading_quintics[j]));
+    spline_functions[j][1].reset(new SplineFunction<TensionSpline>(leading_quintic_time, trailing_quintic_time_0,
+                                                               tension_splines[j]));
+    spline_functions[j][2].reset(new SplineFunction<QuinticPolynomial>(trailing_quintic_time_0, trailing_quintic_time_f,
+                                                                   trailing_quintics[j]));
   }
   (void) result; // for unused variable warnings, in case the asserts weren't triggered
 }
@@ -310,7 +310,7 @@ void Trajectory<JointAngles>::linearSplineInterpolation()
   clearSplines(); // Clean up any pre-existing definition.
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j].resize(1, NULL);
+    spline_functions[j].resize(1);
   }
   Array<SmoothLinearSpline> splines(dimension());
 
@@ -380,7 +380,7 @@ void Trajectory<JointAngles>::linearSplineInterpolation()
   trajectory_duration = splines[0].domain().back() - splines[0].domain().front();
   for (unsigned int j = 0; j < dimension(); ++j)
   {
-    spline_functions[j][0] = new SplineFunction<SmoothLinearSpline>(0.0, splines[j].domain().back(), splines[j]);
+    spline_functions[j][0].reset(new SplineFunction<SmoothLinearSpline>(0.0, splines[j].domain().back(), splines[j]));
   }
 }
 
@@ -511,14 +511,6 @@ void Trajectory<JointAngles>::clearSplines()
 {
   for (unsigned int joint = 0; joint < dimension(); ++joint)
   {
-    for (unsigned int function = 0; function < spline_functions[joint].size(); ++function)
-    {
-      if (spline_functions[joint][function] != NULL)
-      {
-        delete spline_functions[joint][function];
-        spline_functions[joint][function] = NULL;
-      }
-    }
     spline_functions[joint].clear();
   }
 }
-- 
2.43.0


From 51b9f43c5ce3a8505963d524327fa1d3db39849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:55 +0000
Subject: [PATCH 092/143] fix: interpolating without acceleration limits is
 reported

---
 ecl_manipulators/src/lib/trajectory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index e5b5c57..f25b4a3 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -52,6 +52,14 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
   ecl_assert_throw( result,
                    StandardException(LOC,ConfigurationError,"A waypoint was configured with a zero duration."));
 
+  for (unsigned int j = 0; j < dimension(); ++j)
+  {
+    if (!(max_accelerations[j] > 0.0))
+    { // no trajectory, however slow, could satisfy this
+      throw StandardException(LOC, ConfigurationError, "Not all the maximum accelerations have been specified correctly (must be > 0.0).");
+    }
+  }
+
   /******************************************
    ** Reserve Spline Storage Space
    *******************************************/
@@ -304,6 +312,14 @@ void Trajectory<JointAngles>::linearSplineInterpolation()
     throw StandardException(LOC, ConfigurationError, "A waypoint was configured with a zero duration.");
   }
 
+  for (unsigned int j = 0; j < dimension(); ++j)
+  {
+    if (!(max_accelerations[j] > 0.0))
+    { // no trajectory, however slow, could satisfy this
+      throw StandardException(LOC, ConfigurationError, "Not all the maximum accelerations have been specified correctly (must be > 0.0).");
+    }
+  }
+
   /******************************************
    ** Reserve Spline Storage Space
    *******************************************/
-- 
2.43.0


From 531aedb26bf493524fcc9cd5bc9d7199677e880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 093/143] fix: realpath does not read or leak its buffer on
 failures

---
 ecl_filesystem/src/lib/realpath.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_filesystem/src/lib/realpath.cpp b/ecl_filesystem/src/lib/realpath.cpp
index 4bc7922..77929b3 100644
--- a/ecl_filesystem/src/lib/realpath.cpp
+++ b/ecl_filesystem/src/lib/realpath.cpp
@@ -45,11 +45,13 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
 
   char *buffer = new char[path_max];
   char *result = ::realpath(path.c_str(), buffer);
-  absolute_path = buffer;
+  int error = errno;
   if ( result != NULL ) {
     absolute_path = buffer;
-  } else {
-    switch(errno) {
+  }
+  delete[] buffer;
+  if ( result == NULL ) {
+    switch(error) {
       case(EACCES)       : { return Error(PermissionsError); }   // Read or search permission was denied for a component of the path prefix.
       case(EINVAL)       : { return Error(InvalidArgError); }    // path is NULL
       case(EIO)          : { return Error(ReadError); }          // An I/O error occurred while reading from the filesystem.
@@ -60,7 +62,6 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
       default            : { return Error(UnknownError); }
     }
   }
-  delete[] buffer;
   return Error(NoError);
 }
 
-- 
2.43.0


From ca626531ef39ceae339a6ac4430fc54f545e24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:52 +0000
Subject: [PATCH 094/143] fix: a command line releases its default output
 handler when it is replaced

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 67ae615..e051e58 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -441,6 +441,8 @@ inline CmdLineOutput* CmdLine::getOutput()
 
 inline void CmdLine::setOutput(CmdLineOutput* co)
 {
+	if ( !_userSetOutput )
+		delete _output;
 	_userSetOutput = true;
 	_output = co;
 }
-- 
2.43.0


From aecd6e66a089133a7df6bc1849e8e7887de7f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 095/143] fix: a lone dash on the command line is not an empty
 group of switches

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index e051e58..ef527fe 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -414,7 +414,7 @@ inline void CmdLine::parse(int argc, char** argv)
 
 inline bool CmdLine::_emptyCombined(const std::string& s)
 {
-	if ( s[0] != Arg::flagStartChar() )
+	if ( s.length() < 2 || s[0] != Arg::flagStartChar() )
 		return false;
 
 	for ( int i = 1; static_cast<unsigned int>(i) < s.length(); i++ )
-- 
2.43.0


From 81154f653ea316587cdc50dea85aca580833f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:23 +0000
Subject: [PATCH 096/143] fix: an empty token is not a value for a command line
 argument that needs one

---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From 9f8ffcbe0ff051fa5345d89b8236460ad7cf0f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:41 +0000
Subject: [PATCH 097/143] fix: switches are not looked for inside a value
 attached to another argument

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index 5fd6f99..ce86254 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -139,6 +139,10 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 		 Arg::nameStartString() )
 		return false;
 
+	// make sure this isn't an argument with its value attached
+	if ( combinedSwitches.find( Arg::delimiter() ) != std::string::npos )
+		return false;
+
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-- 
2.43.0


From 7d09e6c06c7e4145bf3fb141fb7fe677fc45851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 098/143] fix: an optional positional argument only restricts
 its own command line

---
 .../include/ecl/command_line/cmd_line.hpp         | 12 ++++++++++++
 .../command_line/optional_unlabeled_tracker.hpp   | 15 ++++++++-------
 .../ecl/command_line/unlabeled_multi_arg.hpp      |  5 -----
 .../ecl/command_line/unlabeled_value_arg.hpp      |  7 -------
 4 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index ef527fe..1bb05e5 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -19,6 +19,7 @@
 #include "multi_switch_arg.hpp"
 #include "unlabeled_value_arg.hpp"
 #include "unlabeled_multi_arg.hpp"
+#include "optional_unlabeled_tracker.hpp"
 
 #include "xor_handler.hpp"
 #include "help_visitor.hpp"
@@ -145,6 +146,11 @@ class CmdLine : public CmdLineInterface
 		 */
 		bool _helpAndVersion;
 
+		/**
+		 * Refuses unlabeled arguments that follow an optional one.
+		 */
+		OptionalUnlabeledTracker _unlabeledTracker;
+
 	public:
 
 		/**
@@ -359,6 +365,12 @@ inline void CmdLine::add( Arg* a )
 			       	"Argument with same flag/name already exists!",
 					a->longID() ) );
 
+	// labeled arguments go to the front, unlabeled ones to the back
+	std::list<Arg*> position( 1, static_cast<Arg*>(NULL) );
+	a->addToList( position );
+	if ( position.back() == a )
+		_unlabeledTracker.check( a->isRequired() || a->acceptsMultipleValues(), a->toString() );
+
 	a->addToList( _argList );
 
 	if ( a->isRequired() )
diff --git a/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp b/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp
index 7c41215..577f68b 100644
--- a/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp
+++ b/ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp
@@ -19,32 +19,33 @@
 
 namespace ecl {
 
+/**
+ * Watches the order in which unlabeled arguments are added to one command line.
+ */
 class OptionalUnlabeledTracker
 {
 
 	public:
 
-		static void check( bool req, const std::string& argName );
-
-		static void gotOptional() { alreadyOptionalRef() = true; }
+		OptionalUnlabeledTracker() : _alreadyOptional(false) {}
 
-		static bool& alreadyOptional() { return alreadyOptionalRef(); }
+		void check( bool req, const std::string& argName );
 
 	private:
 
-		static bool& alreadyOptionalRef() { static bool ct = false; return ct; }
+		bool _alreadyOptional;
 };
 
 
 inline void OptionalUnlabeledTracker::check( bool req, const std::string& argName )
 {
-    if ( OptionalUnlabeledTracker::alreadyOptional() )
+    if ( _alreadyOptional )
         throw( SpecificationException(
 	"You can't specify ANY Unlabeled Arg following an optional Unlabeled Arg",
 	                argName ) );
 
     if ( !req )
-        OptionalUnlabeledTracker::gotOptional();
+        _alreadyOptional = true;
 }
 
 } // namespace ecl
diff --git a/ecl_command_line/include/ecl/command_line/unlabeled_multi_arg.hpp b/ecl_command_line/include/ecl/command_line/unlabeled_multi_arg.hpp
index 74c351a..958de5b 100644
--- a/ecl_command_line/include/ecl/command_line/unlabeled_multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/unlabeled_multi_arg.hpp
@@ -19,7 +19,6 @@
 #include <vector>
 
 #include "multi_arg.hpp"
-#include "optional_unlabeled_tracker.hpp"
 
 namespace ecl {
 
@@ -185,7 +184,6 @@ UnlabeledMultiArg<T>::UnlabeledMultiArg(const std::string& name,
 : MultiArg<T>("", name, desc,  req, typeDesc, v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(true, toString());
 }
 
 template<class T>
@@ -199,7 +197,6 @@ UnlabeledMultiArg<T>::UnlabeledMultiArg(const std::string& name,
 : MultiArg<T>("", name, desc,  req, typeDesc, v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(true, toString());
 	parser.add( this );
 }
 
@@ -214,7 +211,6 @@ UnlabeledMultiArg<T>::UnlabeledMultiArg(const std::string& name,
 : MultiArg<T>("", name, desc,  req, constraint, v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(true, toString());
 }
 
 template<class T>
@@ -228,7 +224,6 @@ UnlabeledMultiArg<T>::UnlabeledMultiArg(const std::string& name,
 : MultiArg<T>("", name, desc,  req, constraint, v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(true, toString());
 	parser.add( this );
 }
 
diff --git a/ecl_command_line/include/ecl/command_line/unlabeled_value_arg.hpp b/ecl_command_line/include/ecl/command_line/unlabeled_value_arg.hpp
index 2970f62..eb723ee 100644
--- a/ecl_command_line/include/ecl/command_line/unlabeled_value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/unlabeled_value_arg.hpp
@@ -19,7 +19,6 @@
 #include <vector>
 
 #include "value_arg.hpp"
-#include "optional_unlabeled_tracker.hpp"
 
 
 namespace ecl {
@@ -211,9 +210,6 @@ UnlabeledValueArg<T>::UnlabeledValueArg(const std::string& name,
 : ValueArg<T>("", name, desc, req, value, typeDesc, v)
 {
 	_ignoreable = ignoreable;
-
-	OptionalUnlabeledTracker::check(req, toString());
-
 }
 
 template<class T>
@@ -228,7 +224,6 @@ UnlabeledValueArg<T>::UnlabeledValueArg(const std::string& name,
 : ValueArg<T>("", name, desc, req, value, typeDesc, v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(req, toString());
 	parser.add( this );
 }
 
@@ -246,7 +241,6 @@ UnlabeledValueArg<T>::UnlabeledValueArg(const std::string& name,
 : ValueArg<T>("", name, desc, req, value, constraint, v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(req, toString());
 }
 
 template<class T>
@@ -261,7 +255,6 @@ UnlabeledValueArg<T>::UnlabeledValueArg(const std::string& name,
 : ValueArg<T>("", name, desc, req, value, constraint,  v)
 {
 	_ignoreable = ignoreable;
-	OptionalUnlabeledTracker::check(req, toString());
 	parser.add( this );
 }
 
-- 
2.43.0


From a1d14350134297199b551cdf608b614d53b40b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 099/143] fix: parsing starts from its own delimiter and with
 nothing ignored

---
 ecl_command_line/include/ecl/command_line/arg.hpp      | 5 +++++
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index b401093..0c7f86c 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -163,6 +163,11 @@ class Arg
 		 */
 		static void beginIgnoring() { ignoreRestRef() = true; }
 
+		/**
+		 * Stop ignoring arguments, a new command line is about to be parsed.
+		 */
+		static void endIgnoring() { ignoreRestRef() = false; }
+
 		/**
 		 * Whether to ignore the rest.
 		 */
diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 1bb05e5..c0429d8 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -381,6 +381,10 @@ inline void CmdLine::parse(int argc, char** argv)
 {
 	try {
 
+	// these are shared by all command lines, an earlier one may have changed them
+	Arg::setDelimiter( _delimiter );
+	Arg::endIgnoring();
+
 	_progName = argv[0];
 
 	// this step is necessary so that we have easy access to mutable strings.
-- 
2.43.0


From 7d6d5b3ba912b4b792b219ec11fbc596f246c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 100/143] fix: values containing an asterisk are accepted

---
 ecl_command_line/include/ecl/command_line/arg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index 0c7f86c..6306623 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -184,7 +184,7 @@ class Arg
 		 * Currently set to '*', which shouldn't cause many problems since
 		 * *'s are expanded by most shells on the command line.
 		 */
-		static char blankChar() { return '*'; }
+		static char blankChar() { return (char)7; }
 
 		/**
 		 * The char that indicates the beginning of a flag.  Currently '-'.
-- 
2.43.0


From ead71919a94ccf21d675b432a5cbd4a1796336dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:54 +0000
Subject: [PATCH 101/143] fix: usage text does not look before the start of a
 long word

---
 ecl_command_line/include/ecl/command_line/std_output.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/std_output.hpp b/ecl_command_line/include/ecl/command_line/std_output.hpp
index 9a5710b..f12b444 100644
--- a/ecl_command_line/include/ecl/command_line/std_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/std_output.hpp
@@ -238,10 +238,10 @@ inline void StdOutput::spacePrint( std::ostream& os,
 
 			// trim the length so it doesn't end in middle of a word
 			if ( stringLen == allowedLen )
-				while ( s[stringLen+start] != ' ' &&
+				while ( stringLen >= 0 &&
+			   	        s[stringLen+start] != ' ' &&
 			   	        s[stringLen+start] != ',' &&
-			   	        s[stringLen+start] != '|' &&
-						stringLen >= 0 )
+						s[stringLen+start] != '|' )
 					stringLen--;
 
 			// ok, the word is longer than the line, so just split
-- 
2.43.0


From b0fbc2ce56e55d7be8c92e51a009b9f071593a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 102/143] fix: two different arguments of an exclusive group
 are always refused

---
 ecl_command_line/include/ecl/command_line/xor_handler.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/xor_handler.hpp b/ecl_command_line/include/ecl/command_line/xor_handler.hpp
index 8ab3e0a..c3ea6f9 100644
--- a/ecl_command_line/include/ecl/command_line/xor_handler.hpp
+++ b/ecl_command_line/include/ecl/command_line/xor_handler.hpp
@@ -106,7 +106,12 @@ inline int XorHandler::check( const Arg* a )
 				  it != _orList[i].end();
 				  it++ )
 				if ( a != (*it) )
+				{
+					if ( (*it)->isSet() )
+						throw( CmdLineParseException( "Mutually exclusive argument already set!",
+						                              a->toString() ) );
 					(*it)->xorSet();
+				}
 
 			// return the number of required args that have now been set
 			if ( (*ait)->allowMore() )
-- 
2.43.0


From 3df22501745909da55175bbdbfd53d14f414dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 103/143] fix: switches of an exclusive group may be given
 combined

---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index c0429d8..2d65fdc 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -399,12 +399,18 @@ inline void CmdLine::parse(int argc, char** argv)
 		bool matched = false;
 		for (ArgListIterator it = _argList.begin(); it != _argList.end(); it++)
         {
+			const std::string token = args[i];
+
 			if ( (*it)->processArg( &i, args ) )
 			{
 				requiredCount += _xorHandler.check( *it );
 				matched = true;
 				break;
 			}
+
+			// a switch that found its flag amongst combined ones blanked it
+			if ( args[i] != token )
+				requiredCount += _xorHandler.check( *it );
         }
 
 		// checks to see if the argument is an empty combined switch ...
-- 
2.43.0


From 02bed75f7ecb8df1f1d9ce9b0ee0ff39cc9f5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 104/143] fix: a repeatable switch of an exclusive group may be
 repeated

---
 .../ecl/command_line/multi_switch_arg.hpp     | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 327a291..bd9906b 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -104,6 +104,16 @@ class MultiSwitchArg : public SwitchArg
 		 * Returns the longID for this Arg.
 		 */
 		std::string longID(const std::string& val) const;
+
+		/**
+		 * Whether this argument was counted already as a member of an
+		 * exclusive group.
+		 */
+		virtual bool allowMore();
+
+	private:
+
+		bool _allowMore;
 };
 
 //////////////////////////////////////////////////////////////////////
@@ -115,7 +125,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 { }
 
 inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
@@ -125,13 +136,21 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 {
 	parser.add( this );
 }
 
 inline int MultiSwitchArg::getValue() { return _value; }
 
+inline bool MultiSwitchArg::allowMore()
+{
+	bool am = _allowMore;
+	_allowMore = true;
+	return am;
+}
+
 inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 {
 	if ( _ignoreable && Arg::ignoreRest() )
-- 
2.43.0


From d235f4010e67313191986f5978a4aeeb7dfedfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 105/143] fix: disconnecting from a topic that does not exist
 is harmless

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..45a1506 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -119,9 +119,10 @@ private:
 	 */
 	static void disconnect(const std::string& topic, SigSlot<Data>* sigslot) {
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
-		if ( iter != topics().end() ) {
-			iter->second.disconnect(sigslot);
+		if ( iter == topics().end() ) {
+			return;
 		}
+		iter->second.disconnect(sigslot);
 		if ( iter->second.empty() ) {
 			topics().erase(iter);
 		}
-- 
2.43.0


From 4c9ba0dda4abf4ff96495b0515fec15a5106d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 106/143] fix: disconnecting from one topic works for every
 data type and allows to reconnect

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..bcc5805 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -165,9 +165,9 @@ public:
 	 * @brief Disconnect the sigslot from the specified topic.
 	 */
 	void disconnect(const std::string &topic) {
-		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
+		SigSlotsManager<Data>::disconnect(topic,this);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -329,6 +329,7 @@ public:
 	 */
 	void disconnect(const std::string &topic) {
 		publications.erase(topic); // Doesn't matter if it finds it or not.
+		subscriptions.erase(topic);
 		SigSlotsManager<Void>::disconnect(topic,this);
 	}
 	/**
-- 
2.43.0


From 221951331a13a71bcf534eb79720aaf2314ac44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:25 +0000
Subject: [PATCH 107/143] fix: assigning signals and slots keeps the count of
 their handles

---
 ecl_sigslots/include/ecl/sigslots/signal.hpp | 16 ++++++++++++----
 ecl_sigslots/include/ecl/sigslots/slot.hpp   | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..2c269f5 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -74,8 +74,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Data>& signal) {
-		*this = signal;
+	Signal(const Signal<Data>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -97,6 +96,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		signal.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -182,8 +186,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Void>& signal) {
-		*this = signal;
+	Signal(const Signal<Void>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -191,6 +194,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		signal.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..9e07146 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -116,8 +116,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Data>& slot) {
-		*this = slot;
+	Slot(const Slot<Data>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -138,6 +137,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		slot.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
@@ -245,8 +249,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Void>& slot) {
-		*this = slot;
+	Slot(const Slot<Void>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 	/**
@@ -266,6 +269,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		slot.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
-- 
2.43.0


From ece242243bc817326d4ebea16c88c1abc6dafa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 108/143] fix: callbacks and other threads may change the
 connections during an emission

An emission walked over the live containers of subscribers, which a callback (or
another thread) connecting or disconnecting invalidates, and the barrier of the
destructor was a mutex that a throwing callback never released and that the
emitting threads locked and unlocked on behalf of each other.
---
 ecl_sigslots/include/ecl/sigslots/manager.hpp |  25 +++
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 159 ++++++++++++++----
 2 files changed, 155 insertions(+), 29 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index 45a1506..b955969 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/config/macros.hpp>
@@ -57,6 +58,7 @@ public:
 	 * Only here for debugging purposes only.
 	 */
 	static void printStatistics() {
+		std::lock_guard<std::mutex> lock(mutex());
 		std::cout << "Topics" << std::endl;
 		typename std::map< std::string, Topic<Data> >::iterator iter;
 		for ( iter = topics().begin(); iter != topics().end(); ++iter ) {
@@ -138,6 +140,29 @@ private:
 		return !( topics().find(topic) == topics().end() );
 	}
 
+	/**
+	 * @brief Check to see if the sigslot is (still) listening to the specified topic.
+	 *
+	 * @param topic : topic to check.
+	 * @param sigslot : the sigslot to look for (it is not dereferenced).
+	 * @return bool : true if it is subscribed to that topic.
+	 */
+	static bool isSubscribed(const std::string& topic, SigSlot<Data>* sigslot) {
+		typename std::map<std::string, Topic<Data> >::const_iterator iter = topics().find(topic);
+		return ( iter != topics().end() ) && ( iter->second.subscribers()->count(sigslot) != 0 );
+	}
+
+	/**
+	 * @brief Protects the connections of all sigslots of this type.
+	 *
+	 * It is held (by the sigslots) while connections are looked up or changed, but
+	 * never while a callback is running.
+	 */
+	static std::mutex& mutex() {
+		static std::mutex connections_mutex;
+		return connections_mutex;
+	}
+
 	/**
 	 * @brief Hack to create a static variable internally without.
 	 *
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index bcc5805..3310534 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -18,11 +18,14 @@
 ** Includes
 *****************************************************************************/
 
+#include <condition_variable>
 #include <map>
+#include <mutex>
 #include <set>
 #include <string>
+#include <utility>
+#include <vector>
 #include <ecl/config/macros.hpp>
-#include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/function_objects.hpp>
 #include <ecl/utilities/void.hpp>
 #include "manager.hpp"
@@ -59,6 +62,7 @@ public:
 	 * defaults to the emit() function.
 	 */
 	SigSlot() : processing_count(0), number_of_handles(1) {
+		SigSlotsManager<Data>::topics(); // must outlive this (endpoints may be static)
 		function = new PartiallyBoundUnaryMemberFunction< SigSlot<Data> ,Data,void >( &SigSlot<Data>::emit, *this);
 	}
 	/**
@@ -67,6 +71,7 @@ public:
 	 * @param f : the global/static function.
 	 */
 	SigSlot(void (*f)(Data)) : processing_count(0), number_of_handles(1) {
+		SigSlotsManager<Data>::topics(); // must outlive this (endpoints may be static)
 		function = new UnaryFreeFunction<Data>(f);
 	}
 	/**
@@ -78,6 +83,7 @@ public:
 	 */
 	template<typename C>
 	SigSlot(void (C::*f)(Data), C &c) : processing_count(0), number_of_handles(1) {
+		SigSlotsManager<Data>::topics(); // must outlive this (endpoints may be static)
 		function = new PartiallyBoundUnaryMemberFunction<C,Data,void>(f,c);
 	}
 
@@ -90,7 +96,13 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		{
+			// acts like a barrier - holds up here if function still processing stuff.
+			std::unique_lock<std::mutex> lock(SigSlotsManager<Data>::mutex());
+			while ( processing_count != 0 ) {
+				idle.wait(lock);
+			}
+		}
 		delete function;
 	}
 
@@ -104,13 +116,12 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit(Data data) {
-		typename PublicationMap::const_iterator topic_iter;
-		typename Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot<Data> *sigslot = *slots_iter;
-				sigslot->process(data);
+		// The callbacks may change the connections (even destroy this sigslot).
+		const std::vector<Target> targets = this->targets();
+		for ( typename std::vector<Target>::const_iterator iter = targets.begin(); iter != targets.end(); ++iter ) {
+			Processing processing(*iter);
+			if ( processing.sigslot ) {
+				(*processing.sigslot->function)(data);
 			}
 		}
 	}
@@ -121,12 +132,8 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		Processing processing(this);
 		(*function)(data);
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -144,6 +151,7 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Data>::connectSignal(topic,this)) );
 	}
 	/**
@@ -154,6 +162,7 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void connectSlot(const std::string& topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		std::pair< std::set<std::string>::iterator,bool > ret;
 	//	std::cout << "Topic: " << topic << std::endl;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
@@ -165,6 +174,7 @@ public:
 	 * @brief Disconnect the sigslot from the specified topic.
 	 */
 	void disconnect(const std::string &topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		subscriptions.erase(topic);
 		SigSlotsManager<Data>::disconnect(topic,this);
@@ -175,6 +185,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Data>::disconnect(*iter, this);
@@ -190,7 +201,48 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
-	Mutex mutex;
+	typedef std::pair<std::string, SigSlot<Data>*> Target; // a topic and somebody listening to it
+
+	/*
+	 * Keeps a sigslot from being destroyed while its function is running. Those
+	 * that stopped listening in the meantime (and may be gone) are left alone.
+	 */
+	struct Processing {
+		Processing(SigSlot<Data>* s) : sigslot(s) {
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+			++sigslot->processing_count;
+		}
+		Processing(const Target& target) : sigslot(NULL) {
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+			if ( SigSlotsManager<Data>::isSubscribed(target.first, target.second) ) {
+				sigslot = target.second;
+				++sigslot->processing_count;
+			}
+		}
+		~Processing() {
+			if ( sigslot ) {
+				std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+				if ( --sigslot->processing_count == 0 ) {
+					sigslot->idle.notify_all();
+				}
+			}
+		}
+		SigSlot<Data>* sigslot;
+	};
+
+	std::vector<Target> targets() const {
+		std::vector<Target> result;
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Data>::mutex());
+		for ( typename PublicationMap::const_iterator topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
+			const Subscribers* subscribers = topic_iter->second;
+			for ( typename Subscribers::const_iterator slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
+				result.push_back(Target(topic_iter->first, *slots_iter));
+			}
+		}
+		return result;
+	}
+
+	std::condition_variable idle; // signalled when processing_count returns to zero
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
@@ -222,6 +274,7 @@ public:
 	 * defaults to the emit() function.
 	 */
 	SigSlot() : processing_count(0), number_of_handles(1) {
+		SigSlotsManager<Void>::topics(); // must outlive this (endpoints may be static)
 		function = new BoundNullaryMemberFunction<SigSlot,void>(&SigSlot::emit,*this);
 	}
 	/**
@@ -230,6 +283,7 @@ public:
 	 * @param f : the global/static function.
 	 */
 	SigSlot(VoidFunction f) : processing_count(0), number_of_handles(1) {
+		SigSlotsManager<Void>::topics(); // must outlive this (endpoints may be static)
 		function = new NullaryFreeFunction<void>(f);
 	}
 	/**
@@ -241,6 +295,7 @@ public:
 	 */
 	template<typename C>
 	SigSlot(void (C::*f)(void), C &c) : processing_count(0), number_of_handles(1) {
+		SigSlotsManager<Void>::topics(); // must outlive this (endpoints may be static)
 		function = new BoundNullaryMemberFunction<C,void>(f,c);
 	}
 
@@ -253,7 +308,13 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		{
+			// acts like a barrier - holds up here if function still processing stuff.
+			std::unique_lock<std::mutex> lock(SigSlotsManager<Void>::mutex());
+			while ( processing_count != 0 ) {
+				idle.wait(lock);
+			}
+		}
 		delete function;
 	}
 
@@ -267,13 +328,12 @@ public:
 	 * This is used by signals when emitting to slots.
 	 */
 	void emit() {
-		PublicationMap::const_iterator topic_iter;
-		Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
-				SigSlot *sigslot = *slots_iter;
-				sigslot->process();
+		// The callbacks may change the connections (even destroy this sigslot).
+		const std::vector<Target> targets = this->targets();
+		for ( std::vector<Target>::const_iterator iter = targets.begin(); iter != targets.end(); ++iter ) {
+			Processing processing(*iter);
+			if ( processing.sigslot ) {
+				(*processing.sigslot->function)();
 			}
 		}
 	}
@@ -285,12 +345,8 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		Processing processing(this);
 		(*function)();
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -308,12 +364,14 @@ public:
 		//       - Manager will automatically create a new topic
 		//     - Manager returns the subscribers handle
 		//     - Topic name and subscribers handle are stored locally here in publications
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		publications.insert( std::pair<std::string, const Subscribers*>(topic, SigSlotsManager<Void>::connectSignal(topic,this)) );
 	}
 	/**
 	 * @brief Connect a slot to the specified topic.
 	 */
 	void connectSlot(const std::string& topic){
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		std::pair< std::set<std::string>::iterator,bool > ret;
 		ret = subscriptions.insert(topic); // Doesn't matter if it already exists.
 		if ( ret.second ) {
@@ -328,6 +386,7 @@ public:
 	 * details to any signals also connected to the topic.
 	 */
 	void disconnect(const std::string &topic) {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		publications.erase(topic); // Doesn't matter if it finds it or not.
 		subscriptions.erase(topic);
 		SigSlotsManager<Void>::disconnect(topic,this);
@@ -338,6 +397,7 @@ public:
 	 * This completely disconnects the sigslot.
 	 */
 	void disconnect() {
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
 		std::set<std::string>::iterator iter;
 		for ( iter = subscriptions.begin(); iter != subscriptions.end(); ++iter ) {
 			SigSlotsManager<Void>::disconnect(*iter, this);
@@ -351,7 +411,48 @@ public:
 	}
 
 private:
-	Mutex mutex;
+	typedef std::pair<std::string, SigSlot<Void>*> Target; // a topic and somebody listening to it
+
+	/*
+	 * Keeps a sigslot from being destroyed while its function is running. Those
+	 * that stopped listening in the meantime (and may be gone) are left alone.
+	 */
+	struct Processing {
+		Processing(SigSlot<Void>* s) : sigslot(s) {
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+			++sigslot->processing_count;
+		}
+		Processing(const Target& target) : sigslot(NULL) {
+			std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+			if ( SigSlotsManager<Void>::isSubscribed(target.first, target.second) ) {
+				sigslot = target.second;
+				++sigslot->processing_count;
+			}
+		}
+		~Processing() {
+			if ( sigslot ) {
+				std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+				if ( --sigslot->processing_count == 0 ) {
+					sigslot->idle.notify_all();
+				}
+			}
+		}
+		SigSlot<Void>* sigslot;
+	};
+
+	std::vector<Target> targets() const {
+		std::vector<Target> result;
+		std::lock_guard<std::mutex> lock(SigSlotsManager<Void>::mutex());
+		for ( PublicationMap::const_iterator topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
+			const Subscribers* subscribers = topic_iter->second;
+			for ( Subscribers::const_iterator slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
+				result.push_back(Target(topic_iter->first, *slots_iter));
+			}
+		}
+		return result;
+	}
+
+	std::condition_variable idle; // signalled when processing_count returns to zero
 	unsigned int processing_count; // number of running process()'
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
-- 
2.43.0


From 90699ecb1967a85ca58e206705fe9e33e52cc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 109/143] fix: priorities refused by the system are reported

Only a refused CriticalPriority was noticed, and reading a niceness that cannot be
obtained returned NormalPriority.
---
 ecl_threads/src/lib/priority_pos.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..499938b 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,19 +91,19 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
@@ -171,7 +171,13 @@ Priority get_priority()
     /******************************************
     ** Check traditional priority niceness
     *******************************************/
-    switch ( getpriority(PRIO_PROCESS,0) ) {
+    errno = 0; // -1 is also a niceness
+    int niceness = getpriority(PRIO_PROCESS,0);
+    if ( ( niceness == -1 ) && ( errno != 0 ) ) {
+        ecl_debug_throw(threads::throwPriorityException(LOC));
+        return UnknownPriority;
+    }
+    switch ( niceness ) {
         case (PRIO_MIN) : { return CriticalPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
-- 
2.43.0


From cb83f15900b9d8ca25c26aee0277a1aecddfcdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 110/143] fix: background priority is read back as such

Linux stores niceness PRIO_MAX as PRIO_MAX-1.
---
 ecl_threads/src/lib/priority_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 499938b..25b6ba2 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -182,6 +182,7 @@ Priority get_priority()
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
         case (PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4) : { return LowPriority; }
+        case (PRIO_MAX-1) : // linux clamps the niceness here
         case (PRIO_MAX) : { return BackgroundPriority; }
         default : return NormalPriority;
     }
-- 
2.43.0


From bc31c57964a4130eaff3c3a44a34caae2e160cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 111/143] fix: traditional priorities leave the real time group

Only the niceness was changed, which has no effect on a real time process: it
stayed at its real time priority while success was reported.
---
 ecl_threads/src/lib/priority_pos.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 25b6ba2..5c4582e 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -85,6 +85,24 @@ bool set_priority(Priority priority_level)
     *************************************************************************/
     int return_value = 0;
 
+    #if _POSIX_PRIORITY_SCHEDULING > 0
+        // Niceness has no effect while in the real time group.
+        if ( priority_level >= BackgroundPriority ) {
+            int scheduler = sched_getscheduler(0);
+            if ( ( scheduler == SCHED_RR ) || ( scheduler == SCHED_FIFO ) ) {
+                sched_param schedule_parameters;
+                schedule_parameters.sched_priority = 0;
+                return_value = sched_setscheduler(0, SCHED_OTHER, &schedule_parameters);
+            } else if ( scheduler == -1 ) {
+                return_value = -1;
+            }
+            if ( return_value == -1 ) {
+                ecl_debug_throw(threads::throwPriorityException(LOC));
+                return false;
+            }
+        }
+    #endif
+
     switch (priority_level) {
         case CriticalPriority : {
             return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN);
-- 
2.43.0


From 902d0d4f694147479c025f7c3a5ba57e4914096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 112/143] fix: serial objects start out initialised

The opening constructor closed a garbage descriptor whenever the uninitialised
is_open happened to be true, opening a default constructed port used an
uninitialised read timeout, and changing the read mode of a closed port was applied
to whatever file had its old descriptor by then.
---
 ecl_devices/include/ecl/devices/serial_pos.hpp | 3 ++-
 ecl_devices/src/lib/serial_pos.cpp             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..eb344cf 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -25,6 +25,7 @@
 
 #include <string>
 #include <termios.h>
+#include <unistd.h>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/errors/compile_time_assert.hpp>
 #include <ecl/time/snooze.hpp>
@@ -141,7 +142,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), options(), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..84e996d 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), options(), port(port_name), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
@@ -282,6 +282,7 @@ void Serial::close()
   {
     // should check return values here, it does have some, EBADF/EINTR/EIO
     ::close(file_descriptor);
+    file_descriptor = -1; // it may be somebody else's from now on
     is_open = false;
   }
 }
-- 
2.43.0


From ae126ef4c8f387a8669305a09beb8573cf253fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 113/143] fix: opening a serial port reports every failure and
 releases the descriptor

Failures of resetting the status flags and of configuring the line were ignored, and
all failures after ::open left the descriptor (and its lock) behind.
---
 .../include/ecl/devices/serial_pos.hpp        |  1 +
 ecl_devices/src/lib/serial_pos.cpp            | 61 ++++++++++++++++---
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index eb344cf..32f751c 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -381,6 +381,7 @@ namespace ecl
     enum {
       NonBlocking = -1
     };
+    void configure(); // apply the reading mode
     /*********************
      ** Variables
      **********************/
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 84e996d..d922747 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -94,6 +94,10 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   /*********************
    ** Input Checks
    **********************/
+  if (open())
+  {
+    close();
+  }
   if (stop_bits == StopBits_15)
   {
     ecl_throw(
@@ -103,10 +107,6 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
     return false;
   }
 
-  if (open())
-  {
-    close();
-  }
   port = port_name;
   // One curious thing here is O_NONBLOCK. If you do not specify this, it will try
   // and wait till the line has an 'other' end. Which it can't possibly know, so
@@ -120,6 +120,22 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
     return false;
   }
 
+  // Release the descriptor again if anything below fails.
+  struct Guard
+  {
+    Guard(Serial& s) : serial(s), success(false) {}
+    ~Guard()
+    {
+      if (!success)
+      {
+        ::close(serial.file_descriptor);
+        serial.file_descriptor = -1;
+      }
+    }
+    Serial& serial;
+    bool success;
+  } guard(*this);
+
   static const int baud_rate_flags[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200,
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
@@ -141,7 +157,13 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   // Turn off the O_NONBLOCK we set back when opening (we want by default
   // blocking and timeouts etc to occur).
   // Using 0 as the argument here resets the file status flags to defaults.
-  fcntl(file_descriptor, F_SETFL, 0);
+  if (fcntl(file_descriptor, F_SETFL, 0) == -1)
+  {
+    ecl_throw(StandardException(LOC,ConfigurationError,"Could not reset the file status flags of the device."));
+    error_handler = ConfigurationError;
+    is_open = false;
+    return false;
+  }
   // this came from ros' hokoyu node code for setting a lock on the device file descriptor
   // useful if you want to make sure other devices dont mess with your device!
   struct flock file_lock;
@@ -259,20 +281,31 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    * TCSADRAIN - wait till everything is transmitted, don't do anything with unread data.
    * TCSAFLUSH - wait till everything is transmitted, also clear unread data.
    *******************************************/
-  tcsetattr(file_descriptor, TCSAFLUSH, &options);
+  if (tcsetattr(file_descriptor, TCSAFLUSH, &options) == -1)
+  {
+    ecl_throw(StandardException(LOC,ConfigurationError,"Could not configure the device [tcsetattr]."));
+    error_handler = ConfigurationError;
+    is_open = false;
+    return false;
+  }
 
   /******************************************
   ** Reset Status
   *******************************************/
+  error_handler = NoError;
   if ( read_timeout_ms == NonBlocking ) {
     unblock();
   } else {
     block(read_timeout_ms);
   }
+  if ( error_handler.flag() != NoError ) {
+    is_open = false;
+    return false;
+  }
   clear();
 
+  guard.success = true;
   is_open = true;
-  error_handler = NoError;
   return true;
 }
 
@@ -350,16 +383,26 @@ void Serial::block(const unsigned long &timeout)
     {
       options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
     }
-    tcsetattr(file_descriptor, TCSAFLUSH, &options);
+    configure();
   }
   read_timeout_ms = timeout;
 }
 
+void Serial::configure()
+{
+  // If closed, this happens when opening.
+  if ( ( file_descriptor != -1 ) && ( tcsetattr(file_descriptor, TCSAFLUSH, &options) == -1 ) )
+  {
+    ecl_throw(StandardException(LOC,ConfigurationError,"Could not set the reading mode of the device [tcsetattr]."));
+    error_handler = ConfigurationError;
+  }
+}
+
 void Serial::unblock()
 {
   options.c_cc[VMIN] = 0;
   options.c_cc[VTIME] = 0;
-  tcsetattr(file_descriptor, TCSAFLUSH, &options);
+  configure();
   read_timeout_ms = NonBlocking;
 }
 
-- 
2.43.0


From fe104654a3a18b90022ef55b0c3abdcedfb6cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 114/143] fix: parity checks do not strip the eighth data bit

ISTRIP clears the top bit of what has been received, with eight data bits that is
not the parity bit.
---
 ecl_devices/src/lib/serial_pos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index d922747..768d7dc 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -263,13 +263,13 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   }
   else if (parity == EvenParity)
   {
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check (the parity bit is not part of the data)
     options.c_cflag |= PARENB;
     options.c_cflag &= ~PARODD;
   }
   else
   { // OddParity
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check (the parity bit is not part of the data)
     options.c_cflag |= PARENB;
     options.c_cflag |= PARODD;
   }
-- 
2.43.0


From e2377dc87786caa39f41a9f0bcf7657ec4720068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 115/143] fix: large read timeouts do not wrap around

A timeout of 25600ms did not wait at all, one of 30000ms only 4.4s.
---
 ecl_devices/src/lib/serial_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 768d7dc..3f04aff 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -381,7 +381,8 @@ void Serial::block(const unsigned long &timeout)
     }
     else
     {
-      options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
+      // that's the maximum termios can do
+      options.c_cc[VTIME] = ( timeout / 100 > 255 ) ? 255 : static_cast<unsigned char>(timeout / 100);
     }
     configure();
   }
-- 
2.43.0


From 22c75c8be8f8dd03e30f2a4052b69070d73fd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:14 +0000
Subject: [PATCH 116/143] fix: a read timeout of zero still returns what is
 waiting

It never looked at the device, and reading a single byte returned an uninitialised
number.
---
 ecl_devices/src/lib/serial_pos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 3f04aff..fce40b0 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -340,8 +340,8 @@ void Serial::block(const unsigned long &timeout)
   {
     if (timeout < 5)
     {
-      fake_snooze.period(ecl::Duration(0.001));
-      fake_loop_count = timeout;
+      fake_snooze.period(( timeout == 0 ) ? ecl::Duration(0,0) : ecl::Duration(0.001));
+      fake_loop_count = ( timeout == 0 ) ? 1 : timeout;
     }
     else if (timeout < 20)
     {
-- 
2.43.0


From f7936c0b4333f0a2b562f947a0945dba1a08294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 117/143] fix: sockets close what they opened, once

Closing (or just destroying) a socket that is not open closed whatever file had that
descriptor, and the server never closed the connections to its clients.
---
 .../include/ecl/devices/socket_client_pos.hpp       |  2 +-
 .../include/ecl/devices/socket_server_pos.hpp       | 13 +++++++++++--
 ecl_devices/src/lib/socket_client_pos.cpp           |  2 ++
 ecl_devices/src/lib/socket_server_pos.cpp           |  5 +++++
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index 6e957c4..b218e66 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -66,7 +66,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketClient() : is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
+	SocketClient() : port(0), socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..57c78a5 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -30,6 +30,7 @@
 #include <sys/ioctl.h> // used in remaining()
 #include <errno.h>
 #include <sys/socket.h>
+#include <unistd.h>
 
 #include "detail/socket_error_handler_pos.hpp"
 #include "detail/socket_exception_handler_pos.hpp"
@@ -62,7 +63,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : port(0), socket_fd(-1), client_socket_fd(-1), is_open(false) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +108,15 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close() {
+		if ( !is_open ) { return; }
+		is_open = false;
+		::close(socket_fd);
+		if ( client_socket_fd != -1 ) {
+			::close(client_socket_fd);
+			client_socket_fd = -1;
+		}
+	}
 
 	bool open() const { return is_open; }
 
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..ae1972a 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -46,6 +46,7 @@ using std::string;
 SocketClient::SocketClient(const std::string &host_name, const unsigned int &port_number) :
 		hostname(host_name),
 		port(port_number),
+		socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -57,6 +58,7 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 }
 
 void SocketClient::close() {
+	 if ( !is_open ) { return; }
 	 is_open = false;
 	 ::close(socket_fd); // should have error handling here
 }
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..4a2b143 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -107,6 +109,9 @@ int SocketServer::listen() {
     struct sockaddr_in client;
     int client_length = sizeof(client);
 
+    if ( client_socket_fd != -1 ) { // done with the previous client
+    	::close(client_socket_fd);
+    }
     client_socket_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
     if (client_socket_fd < 0) {
     	ecl_throw(devices::accept_exception(LOC));
-- 
2.43.0


From 8df0d7532a685d37821be71f12c3d84fb54def3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 118/143] fix: a server that could not bind or listen does not
 pretend to be open

After a failing bind it reported itself as open and leaked the socket.
---
 ecl_devices/src/lib/socket_server_pos.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 4a2b143..634a9f6 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -86,9 +86,11 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
-    	ecl_throw(devices::bind_exception(LOC));
+    	int error_number = errno;
     	error_handler = devices::bind_error();
+    	::close(socket_fd);
+    	errno = error_number;
+    	ecl_throw(devices::bind_exception(LOC));
     	return false;
     }
     is_open = true;
@@ -101,7 +103,16 @@ int SocketServer::listen() {
 	/*********************
 	** Params
 	**********************/
-	::listen(socket_fd,1); // Number of clients to allow
+	if ( !open() ) {
+		ecl_throw(StandardException(LOC,UsageError,"The socket is not open."));
+		error_handler = UsageError;
+		return -1;
+	}
+	if ( ::listen(socket_fd,1) == -1 ) { // Number of clients to allow
+		ecl_throw(devices::accept_exception(LOC));
+		error_handler = devices::accept_error();
+		return -1;
+	}
 
 	/*********************
 	** Listen
-- 
2.43.0


From 839f3f10c80608257b079b79129829e1ee20fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 119/143] fix: the number of bytes remaining in a socket is
 what the system says

FIONREAD stores an int, the upper half of the number was not initialised, and a
failure was not reported by the client.
---
 ecl_devices/src/lib/socket_client_pos.cpp | 5 +++--
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index ae1972a..fc6ff6f 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -193,11 +193,12 @@ long SocketClient::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes = 0; // as FIONREAD has it
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
-    	error_handler =  devices::ioctl_error();
+    	error_handler = devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 634a9f6..f7ce010 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -171,7 +171,7 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
-    unsigned long bytes;
+    int bytes = 0; // as FIONREAD has it
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
-- 
2.43.0


From 40815841420cd47a67f610d7aaeea49bf9172756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 120/143] fix: a server without a client is disconnected

Reading, peeking, writing and counting used an uninitialised descriptor before the
first client was accepted, and the one of a closed connection afterwards.
---
 ecl_devices/src/lib/socket_server_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index f7ce010..91d07a8 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -140,7 +140,7 @@ int SocketServer::listen() {
 
 long SocketServer::read(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
@@ -160,6 +160,8 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
+
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -171,6 +173,7 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
     int bytes = 0; // as FIONREAD has it
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
@@ -188,6 +191,7 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+    if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
-- 
2.43.0


From 03b86dc35b316d230f62bc437debd8e2fafd326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 121/143] fix: reading nothing from a socket does not close it

---
 ecl_devices/src/lib/socket_client_pos.cpp | 2 +-
 ecl_devices/src/lib/socket_server_pos.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index fc6ff6f..b41f6c4 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -156,7 +156,7 @@ long SocketClient::read(char *s, const unsigned long &n) {
     /*********************
 	** Error Handling
 	**********************/
-    if ( bytes_read == 0 ) {
+    if ( ( bytes_read == 0 ) && ( n != 0 ) ) {
         // Server has dropped
         close();
         return ConnectionHungUp;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 91d07a8..cc6a9e7 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -149,7 +149,7 @@ long SocketServer::read(char *s, const unsigned long &n) {
     	return ConnectionProblem;
     }
 
-    if ( bytes_read == 0 ) {
+    if ( ( bytes_read == 0 ) && ( n != 0 ) ) {
         // Server has dropped
         close();
         return ConnectionHungUp;
-- 
2.43.0


From 7a40198d464f78481432627bf8493d394fe1c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 122/143] fix: a successful write clears the client's error

---
 ecl_devices/src/lib/socket_client_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index b41f6c4..fe893f1 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -235,6 +235,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
-- 
2.43.0


From 65a689e8acb62216487cf545a4447dd51755c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 123/143] fix: failing to attach to shared memory leaves the
 segment of others alone

When mapping or inflating failed, the name was removed even if somebody else had
created it, and after failing to inflate it stayed mapped.
---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..518637a 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -44,6 +44,7 @@
 
 #include <sstream>
 #include <string>
+#include <cerrno>
 #include <sys/mman.h>        /* For shm_open() */
 #include <fcntl.h>           /* For O_* constants */
 #include <ecl/exceptions/macros.hpp>
@@ -195,9 +196,10 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
+        int error_number = errno;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) { unlink(); }
+        errno = error_number;
         ecl_throw( ipc::memoryMapException(LOC) );
     }
     /*
@@ -206,9 +208,9 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
         close(shm_descriptor);
-        unlink();
+        munmap(shm_address,shared_memory_size);
+        if ( shared_memory_manager ) { unlink(); }
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
     }
 
-- 
2.43.0


From b151ca00cb9c2761b103925afc05f8bbd83c5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 124/143] fix: shared memory removes its name only once

After an explicit unlink() the destructor unlinked again, removing the name of
whatever segment had been created under it in the meantime.
---
 ecl_ipc/src/lib/shared_memory_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 6767353..952ef27 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -38,6 +38,7 @@ namespace ipc {
 
 void SharedMemoryBase::unlink() {
 	shm_unlink(name.c_str());
+	shared_memory_manager = false; // nothing left to remove
 }
 
 int SharedMemoryBase::open() {
-- 
2.43.0


From 7078eacb3401666568c30b46729ba1ed2d13e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 125/143] fix: timed attempts to lock a mutex wait for the
 duration

pthread_mutex_timedlock takes the time of the deadline, with the duration instead it
had always passed and the attempt gave up at once.
---
 ecl_threads/src/lib/mutex_pos.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..cbd6be2 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -17,6 +17,8 @@
  *****************************************************************************/
 
 #include <errno.h>
+#include <time.h>
+#include <unistd.h> // _POSIX_TIMEOUTS
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/threads/mutex.hpp"
 
@@ -77,9 +79,18 @@ void Mutex::lock()
 bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
+    // pthreads wants to know when, not how long
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000) {
+      timeout.tv_sec += 1;
+      timeout.tv_nsec -= 1000000000;
+    } else if (timeout.tv_nsec < 0) {
+      timeout.tv_sec -= 1;
+      timeout.tv_nsec += 1000000000;
+    }
     int result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
-- 
2.43.0


From 9d47b01676fe815268f0725e184cc123339d0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 126/143] fix: the mutex keeps count of its locks

Threads modified the count without synchronisation and lost each other's changes, and
a lock that was refused was counted.
---
 ecl_threads/include/ecl/threads/mutex_pos.hpp | 3 ++-
 ecl_threads/src/lib/mutex_pos.cpp             | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..49ea1b3 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -24,6 +24,7 @@
 *****************************************************************************/
 
 #include <errno.h>
+#include <atomic>
 #include <cstring> // strerror function
 #include <string>
 #include <pthread.h>
@@ -155,7 +156,7 @@ public:
 
 private:
 	RawMutex mutex;
-	unsigned int number_locks;
+	std::atomic<unsigned int> number_locks;
 
 };
 
diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index cbd6be2..abb386d 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -72,6 +72,7 @@ void Mutex::lock()
 {
   ++number_locks;
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) { --number_locks; }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From bf6328db2d10bd12028aecde15d2f938f4da15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:47 +0000
Subject: [PATCH 127/143] fix: cancelling and joining a thread leaves its task
 alone

Cancelling released the task (function object and all) while the thread was still
using it and on its way to release it again. A thread object reported to be running
long after its thread had finished, joined a thread as often as it was told to, and
cancelled whatever garbage was in its handle before it was started.
---
 .../include/ecl/threads/thread_pos.hpp        | 37 +++++++++----------
 ecl_threads/src/lib/thread_pos.cpp            | 20 ++++------
 2 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..2fd22c8 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,6 +23,8 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
+#include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
@@ -50,10 +52,12 @@ namespace threads {
  */
 class ECL_LOCAL ThreadTaskBase {
 public:
-	virtual ~ThreadTaskBase() {};
+	virtual ~ThreadTaskBase() { *running = false; };
+
+	std::shared_ptr< std::atomic<bool> > running; /**< Shared with the thread object, cleared when the task is done. **/
 
 protected:
-	ThreadTaskBase(const Priority& priority) : priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	ThreadTaskBase(const Priority& priority) : running(std::make_shared< std::atomic<bool> >(true)), priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
 	ecl::Priority priority_level;
 };
 /**
@@ -92,12 +96,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
+	    // the task belongs to the thread, it is released on completion as well as on cancellation
+	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -140,12 +143,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
+	    // the task belongs to the thread, it is released on completion as well as on cancellation
+	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -240,7 +242,6 @@ public:
 	 * Use one of the start() functions to kick the thread off.
 	 */
 	Thread() :
-		thread_task(NULL),
 		has_started(false),
 		join_requested(false)
 	{
@@ -381,7 +382,7 @@ public:
 	 *
 	 * @return bool : true if the thread task is still running, false otherwise.
 	 */
-	bool isRunning() const { if ( thread_task == NULL ) { return false; } else { return true; } }
+	bool isRunning() const { return running && *running; }
 
 	/**
 	 * @brief Queue a cancel request for this thread to abort.
@@ -417,7 +418,7 @@ private:
 	pthread_t thread_handle;
     pthread_attr_t attrs;
     sched_param schedule_parameters;
-    threads::ThreadTaskBase *thread_task;
+    std::shared_ptr< std::atomic<bool> > running; // false once the thread's task is done
     bool has_started;
     bool join_requested;
 
@@ -434,7 +435,6 @@ private:
 
 template <typename C>
 Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
 	join_requested(false)
 {
@@ -444,7 +444,6 @@ Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long
 
 template <typename F>
 Thread::Thread(const F &function, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
 	join_requested(false)
 {
@@ -461,12 +460,12 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	threads::ThreadTaskBase *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< BoundNullaryMemberFunction<C,void> >::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -483,12 +482,12 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	threads::ThreadTaskBase *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask<F, is_reference_wrapper<F>::value>::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..796bcd4 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -31,7 +31,6 @@ namespace ecl {
 *****************************************************************************/
 
 Thread::Thread(VoidFunction function, const Priority &priority, const long &stack_size) :
-  thread_task(NULL),
   has_started(false),
   join_requested(false)
 {
@@ -48,12 +47,12 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
-  thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  threads::ThreadTaskBase *thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< NullaryFreeFunction<void> >::EntryPoint, thread_task);
   pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
       delete thread_task;
-      thread_task = NULL;
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -78,23 +77,20 @@ Thread::~Thread() {
   }
 }
 void Thread::cancel() {
+  if ( !has_started || join_requested ) { // nothing there to cancel
+    ecl_debug_throw(StandardException(LOC,UsageError,"The thread is not running."));
+    return;
+  }
   int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
     if ( result != 0 ) {
         ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
     }
 }
 
 void Thread::join() {
-  join_requested = true;
-  if( thread_task != NULL ) {
+  if( has_started && !join_requested ) {
     int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
+      if ( result == 0 ) { join_requested = true; }
       ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
       (void) result; // for unused variable warnings, in case the assert wasn't triggered
   }
-- 
2.43.0


From 59e9ba7125c0b77062d7dae57c1c1d9cdd551dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:47 +0000
Subject: [PATCH 128/143] fix: a thread that could not be created has not been
 started

It was refused as already started when tried again, and its destructor detached a
handle that was never set.
---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 6 ++----
 ecl_threads/src/lib/thread_pos.cpp             | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index 2fd22c8..0368290 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -456,8 +456,6 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	threads::ThreadTaskBase *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
@@ -469,6 +467,7 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
@@ -478,8 +477,6 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
 	threads::ThreadTaskBase *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
@@ -491,6 +488,7 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 796bcd4..398f088 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -42,8 +42,6 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
@@ -56,6 +54,7 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
+    has_started = true;
     return Error(NoError);
 }
 
-- 
2.43.0


From b29f162f35a828847e6b91633c9811fe8642b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:47 +0000
Subject: [PATCH 129/143] fix: a refused priority does not end the program

The exception left the thread's entry point and terminated the program.
---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index 0368290..3002359 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -29,6 +29,7 @@
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
 #include <ecl/concepts/nullary_function.hpp>
+#include <ecl/exceptions/macros.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/utilities/void.hpp>
 #include <ecl/utilities/function_objects.hpp>
@@ -98,7 +99,11 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // the task belongs to the thread, it is released on completion as well as on cancellation
 	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ecl_try {
+	        ecl::set_priority(ptr->priority_level);
+	    } ecl_catch ( const StandardException & ) {
+	        // there is nobody to tell, run with the priority we have
+	    }
 	    (ptr->function)();
 	    return NULL;
 	}
@@ -145,7 +150,11 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // the task belongs to the thread, it is released on completion as well as on cancellation
 	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ecl_try {
+	        ecl::set_priority(ptr->priority_level);
+	    } ecl_catch ( const StandardException & ) {
+	        // there is nobody to tell, run with the priority we have
+	    }
 	    (ptr->function)();
 	    return NULL;
 	}
-- 
2.43.0


From ba09997b38925c3454f829431e254521d2c19c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:05 +0000
Subject: [PATCH 130/143] fix: starting a threadable claims its one run
 atomically

---
 .../include/ecl/threads/threadable.hpp        | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..d6c6512 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -26,7 +26,7 @@
 ** Includes
 *****************************************************************************/
 
-#include <ecl/utilities/parameter.hpp>
+#include <atomic>
 #include <ecl/config/macros.hpp>
 #include "thread.hpp"
 #include "priority.hpp"
@@ -64,6 +64,31 @@ namespace ecl {
  * @sa @ref ecl::Thread "Thread".
  */
 class ECL_PUBLIC Threadable {
+private:
+	/**
+	 * @brief A status that is written by the worker and read by everybody else.
+	 */
+	class RunningStatus {
+	public:
+		RunningStatus() : status(false) {}
+		bool operator ()() const { return status; }
+		operator bool() const { return status; }
+		void operator ()( const bool &value ) { status = value; }
+		void operator =( const bool &value ) { status = value; }
+	private:
+		friend class Threadable;
+		std::atomic<bool> status;
+	};
+	/**
+	 * @brief Takes the claim on the running status back if nothing could be started.
+	 */
+	struct StartAttempt {
+		StartAttempt(RunningStatus &running_status) : running(running_status), succeeded(false) {}
+		~StartAttempt() { if ( !succeeded ) { running(false); } }
+		RunningStatus &running;
+		bool succeeded;
+	};
+
 public:
 	virtual ~Threadable() {}
 
@@ -74,23 +99,25 @@ public:
 	 * Note that it makes a check first to see if a thread is already running and simply
 	 * returns if there is. There can be only one!
 	 *
-	 * @return bool : true if started, false if a worker thread is already running.
+	 * @return bool : true if started, false if a worker thread is already running (or could not be created).
+	 * @exception StandardException : throws if thread creation fails [debug mode only].
 	 */
 	bool start(const Priority &priority = DefaultPriority) {
-		if ( isRunning() ) { return false; }
-		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
-		return true;
+		if ( isRunning.status.exchange(true) ) { return false; }
+		StartAttempt attempt(isRunning);
+		Thread thread;
+		attempt.succeeded = ( thread.start(&Threadable::executeThreadFunction,*this, priority).flag() == NoError );
+		return attempt.succeeded;
 	}
 	/**
 	 * @brief Used to check if a worker thread is already running.
 	 *
 	 * Use this to check if a worker thread is already running.
 	 */
-	Parameter<bool> isRunning;
+	RunningStatus isRunning;
 
 protected:
-	Threadable() : isRunning(false) {}
+	Threadable() {}
 
 	virtual void runnable() = 0;
 
-- 
2.43.0


From 33a439b29e57b9d45f622ff82ee33549e9a35bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 131/143] fix: timed attempts at a semaphore end at the right
 time

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index b1ca485..5c1790c 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -16,9 +16,9 @@
 
 #include <errno.h>
 #include <sstream>
+#include <time.h>
 #include <ecl/errors/handlers.hpp>
 #include <ecl/exceptions/standard_exception.hpp>
-#include <ecl/time_lite/functions.hpp>
 
 /*****************************************************************************
 ** Namespaces
@@ -143,13 +143,14 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		long tnsec;
 		timespec ctime;
 
-		if ( epoch_time(ctime).flag() != NoError ) { return false; }
+		// sem_timedwait measures with the real time clock
+		if ( clock_gettime(CLOCK_REALTIME, &ctime) != 0 ) { return false; }
 
 		ctime.tv_sec += timeout.sec();
 
 		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
-		tnsec %= 1000000000;
+		if(tnsec >= 1000000000 ) { ctime.tv_sec += 1; tnsec -= 1000000000; }
+		else if(tnsec < 0 ) { ctime.tv_sec -= 1; tnsec += 1000000000; }
 		ctime.tv_nsec = tnsec;
 
 		// We already guarantee timeout is the right structure, so no
-- 
2.43.0


From 5bf7dd861871980db4c61ce8970d77338a9e4fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 132/143] fix: an interrupted wait for a semaphore has not
 locked it

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 5c1790c..439f9e9 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -103,7 +103,7 @@ Semaphore::~Semaphore()
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	while ( sem_wait(semaphore) != 0 && errno == EINTR ) {} // interrupted by a signal is not locked
 }
 
 int Semaphore::count()
-- 
2.43.0


From 425a71d2357fe52e3efbcf5fadc72838340586a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 133/143] fix: random number generator declares the process id
 call it uses

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 37c2ed4..75b729b 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -20,6 +20,11 @@
 #include <ctime>
 #include <cstdlib>
 #include <ecl/config.hpp>
+#if defined(ECL_IS_WIN32)
+  #include <windows.h>
+#else
+  #include <unistd.h> // getpid
+#endif
 
 
 /*****************************************************************************
-- 
2.43.0


From 8713b4b32c7a6db4ac3c048f56e2e5b94154a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:43 +0000
Subject: [PATCH 134/143] fix: gaussian random numbers are always finite

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 75b729b..f4bc624 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -80,7 +80,7 @@ public:
           x1 = 2.0 * uniform() - 1.0;
           x2 = 2.0 * uniform() - 1.0;
           w = x1 * x1 + x2 * x2;
-      } while ( w >= 1.0 );
+      } while ( w >= 1.0 || w == 0.0 ); // no logarithm of zero
 
       w = std::sqrt( (-2.0 * std::log( w ) ) / w );
       y1 = x1 * w;
-- 
2.43.0


From 334c2a057656fd8ad55bb30a807181a80c23a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:43 +0000
Subject: [PATCH 135/143] fix: a random number generator does not return a
 gaussian value left over by another

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index f4bc624..98dea59 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -43,12 +43,12 @@ template<typename T>
 class RandomNumberGenerator
 {
 public:
-  RandomNumberGenerator( const unsigned int randSeed )
+  RandomNumberGenerator( const unsigned int randSeed ) : y2(0), use_last(false)
   {
     srand( randSeed );
   }
 
-  RandomNumberGenerator()
+  RandomNumberGenerator() : y2(0), use_last(false)
   {
     RandomNumberGenerator::seed();
   }
@@ -66,9 +66,6 @@ public:
   T gaussian( const T & std, const T & mu = 0 )
   {
     T x1, x2, w, y1;
-    static T y2;
-    static bool use_last = false;
-
     if (use_last)  /* use value from previous call */
     {
       y1 = y2;
@@ -92,6 +89,9 @@ public:
   }
 
 private:
+  T y2;           // second value of the last gaussian pair
+  bool use_last;  // whether it is still to be used
+
   /**
    * @brief Seed the system random number generator.
    *
-- 
2.43.0


From 521d1f603b4979765a7a1407cfd38fd03e680c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:49 +0000
Subject: [PATCH 136/143] fix: text streams send all of a text and report a
 device that refuses it

---
 .../text_streams/output_text_stream.hpp       | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 7eb8409..3263223 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -141,6 +141,8 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          void flush();
 
     private:
+        void write(const char *s, unsigned long n);
+
         ecl::Converter<char*> toCharString;
 };
 
@@ -148,6 +150,28 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 ** Implementation [OutputTextStream]
 *****************************************************************************/
 
+/**
+ * @brief Sends all of the characters to the device.
+ *
+ * A device may take fewer characters than it is given (e.g. a socket or a serial port), so
+ * continue with the remainder. If the device refuses, the stream's error status is set.
+ *
+ * @param s : characters to send.
+ * @param n : the number of characters.
+ **/
+template <typename Device>
+void OutputTextStream<Device,true>::write(const char *s, unsigned long n) {
+	while ( n > 0 ) {
+		const long written = this->io_device.write(s,n);
+		if ( written <= 0 ) {
+			this->error = WriteError;
+			return;
+		}
+		s += written;
+		n -= written;
+	}
+	this->error = NoError;
+}
 /**
  * @brief Sends an unformatted char to the stream.
  * Sends an unformatted char to the stream.
@@ -158,7 +182,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char& c ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-	this->io_device.write(c);
+	write(&c,1);
     return *this;
 }
 /**
@@ -172,7 +196,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator<< ( const char
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const char *s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(s,strlen(s));
+    write(s,strlen(s));
     return *this;
 }
 
@@ -187,7 +211,7 @@ OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const cha
 template <typename Device>
 OutputTextStream<Device>& OutputTextStream<Device,true>::operator << ( const std::string &s ) {
 	ecl_assert_throw(this->io_device.open(),ecl::StandardException(LOC,OpenError,"The underlying stream device is not open."));
-    this->io_device.write(&s[0],s.size());
+    write(s.data(),s.size());
     return *this;
 }
 /**
-- 
2.43.0


From c0d3c23f2868492f2d77994fb60f68883b63cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:11 +0000
Subject: [PATCH 137/143] fix: the DocBook output separates the alternatives of
 every exclusive group

---
 ecl_command_line/include/ecl/command_line/docbook_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/docbook_output.hpp b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
index d49bf05..cdda5e1 100644
--- a/ecl_command_line/include/ecl/command_line/docbook_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
@@ -149,7 +149,7 @@ inline void DocBookOutput::usage(CmdLineInterface& _cmd )
 	for ( int i = 0; (unsigned int)i < xorList.size(); i++ )
 	{
 		std::cout << "<itemizedlist>" << std::endl;
-		size_t xlen = xorList.size() - 1;
+		size_t xlen = xorList[i].size() - 1;
 		size_t xcount = 0;
 		for ( ArgVectorIterator it = xorList[i].begin();
 						it != xorList[i].end(); it++, xcount++ )
-- 
2.43.0


From c13c462b9caa56a642d289fc11e90d852a8a7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:49 +0000
Subject: [PATCH 138/143] fix: the families of converters offer error() (it was
 ambiguous)

---
 ecl_converters/include/ecl/converters/char.hpp          | 4 ++--
 ecl_converters/include/ecl/converters/integers.hpp      | 4 ++--
 ecl_converters/include/ecl/converters/to_byte_array.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char.hpp b/ecl_converters/include/ecl/converters/char.hpp
index 09139f7..c070292 100644
--- a/ecl_converters/include/ecl/converters/char.hpp
+++ b/ecl_converters/include/ecl/converters/char.hpp
@@ -38,7 +38,7 @@ namespace ecl {
  * @sa Converter
  **/
 template <>
-class Converter<char,unsigned int> : public converters::ConverterBase {
+class Converter<char,unsigned int> : public virtual converters::ConverterBase {
 public:
 	virtual ~Converter() {}
 
@@ -68,7 +68,7 @@ public:
  * @sa Converter
  **/
 template <>
-class Converter<char,int> : public converters::ConverterBase {
+class Converter<char,int> : public virtual converters::ConverterBase {
 public:
 	virtual ~Converter() {}
 
diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index f8fc62d..9535e49 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -40,7 +40,7 @@ namespace ecl {
  * stlsoft techniques.
  **/
 template <>
-class Converter<int,std::string> : public converters::ConverterBase {
+class Converter<int,std::string> : public virtual converters::ConverterBase {
 public:
 	virtual ~Converter() {};
 	/**
@@ -73,7 +73,7 @@ public:
  * @exception StandardException : throws if character is outside the range ['0'-'9'].
  **/
 template <>
-class Converter<int,char> : public converters::ConverterBase {
+class Converter<int,char> : public virtual converters::ConverterBase {
 public:
 	/**
 	 * @brief Converts a char to an integer type.
diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index dbb9adb..0bbabf6 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -53,7 +53,7 @@ namespace converters
  * (i.e. see Converter<Integral,vector<char>> etc.)
  */
 template<typename ByteArray, typename Integral>
-class IntegralToByteArray : public ConverterBase
+class IntegralToByteArray : public virtual ConverterBase
 {
 public:
   /**
@@ -260,7 +260,7 @@ class Converter<std::vector<signed char>, long long> : public converters::Integr
  * @sa Converter
  **/
 template<>
-class Converter<std::vector<char>, char*> : public converters::ConverterBase
+class Converter<std::vector<char>, char*> : public virtual converters::ConverterBase
 {
 public:
   /**
-- 
2.43.0


From e8af876a938f33768271949ee792b710c74f94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:49 +0000
Subject: [PATCH 139/143] fix: converters to integers return the documented
 value on failure in release builds

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 1 +
 ecl_converters/include/ecl/converters/integers.hpp        | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index a2cab18..9058ed0 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -85,6 +85,7 @@ public:
       ecl_debug_throw(
           StandardException(LOC,ConversionError,"The byte array is too long for the integral type specified."));
       error_handler = ConversionError;
+      return 0;
     }
     /*********************
      ** Method
diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index 9535e49..8c07c9a 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -18,6 +18,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <climits>
 #include <string>
 #include <sstream>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -61,6 +62,7 @@ public:
 		if ( !( stream >> i ) || (stream.get(c))) { // Second part checks that there isn't leftover characters
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return INT_MIN;
 		}
 		return i;
 	}
@@ -89,6 +91,7 @@ public:
 		if ( ( c < '0' ) || (c > '9') ) {
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return -1;
 		}
 		return static_cast<int>(c - '0');
 	}
-- 
2.43.0


From cc1a64e9b923c7599218a79a44fbc178d6699121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:49 +0000
Subject: [PATCH 140/143] fix: a successful conversion resets the error of the
 converter

---
 ecl_converters/include/ecl/converters/char.hpp            | 4 ++++
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 1 +
 ecl_converters/include/ecl/converters/integers.hpp        | 2 ++
 ecl_converters/include/ecl/converters/to_byte_array.hpp   | 5 +++++
 4 files changed, 12 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/char.hpp b/ecl_converters/include/ecl/converters/char.hpp
index c070292..2ab7ab8 100644
--- a/ecl_converters/include/ecl/converters/char.hpp
+++ b/ecl_converters/include/ecl/converters/char.hpp
@@ -58,6 +58,8 @@ public:
 		if ( input > 9 ) {
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+		} else {
+			error_handler = NoError;
 		}
 		return ('0'+ input%10);    // Copy the char back.
 	}
@@ -88,6 +90,8 @@ public:
 		if ( ( input < 0 ) || (input > 9) ) {
 			ecl_debug_throw(StandardException(LOC,OutOfRangeError));
 			error_handler = OutOfRangeError;
+		} else {
+			error_handler = NoError;
 		}
 		return ('0'+ input%10);    // Copy the char back.
 	}
diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 9058ed0..eb12d8f 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -87,6 +87,7 @@ public:
       error_handler = ConversionError;
       return 0;
     }
+    error_handler = NoError;
     /*********************
      ** Method
      **********************/
diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index 8c07c9a..ca1c96b 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -64,6 +64,7 @@ public:
 			error_handler = ConversionError;
 			return INT_MIN;
 		}
+		error_handler = NoError;
 		return i;
 	}
 };
@@ -93,6 +94,7 @@ public:
 			error_handler = ConversionError;
 			return -1;
 		}
+		error_handler = NoError;
 		return static_cast<int>(c - '0');
 	}
 };
diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 0bbabf6..eac3b19 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -94,6 +94,7 @@ public:
           StandardException(LOC,ConversionError,"The specified byte array size does not match the byte size of the integral type."));
       return byte_array;
     }
+    error_handler = NoError;
 
     /*********************
      ** Method
@@ -391,6 +392,10 @@ public:
       error_handler = ConversionError;
       bytes.clear();
     }
+    else
+    {
+      error_handler = NoError;
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 0ce0cf17771daa47bc17015ae18dd792ccc3fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:35 +0000
Subject: [PATCH 141/143] fix: a misconfigured tension spline interpolation is
 refused in release builds as well

---
 ecl_manipulators/src/lib/trajectory.cpp | 27 ++++++++++++-------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index f25b4a3..67e0c79 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -35,22 +35,22 @@ namespace ecl
 
 void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
 {
-  bool result;
   unsigned int n = waypoints.size() - 1; // n = number of segments
 
   // who the hell made the constraint that this should be 5, shouldn't we only need 3 since we calculate 2 more pseudo points?
-  ecl_assert_throw(
-      n+1 >= 5,
-      StandardException(LOC,ConfigurationError,"Not enough waypoints for a tension spline interpolation (must be >= 5)."));
-
-  result = validateWaypoints(5);
-  ecl_assert_throw(
-      result,
-      StandardException(LOC,ConfigurationError,"Not all the waypoint maximum rates have been specified correctly (must be > 0.0)."));
-
-  result = initialiseWaypointDurations();
-  ecl_assert_throw( result,
-                   StandardException(LOC,ConfigurationError,"A waypoint was configured with a zero duration."));
+  if (n + 1 < 5)
+  {
+    throw StandardException(LOC, ConfigurationError, "Not enough waypoints for a tension spline interpolation (must be >= 5).");
+  }
+  if (!validateWaypoints(5))
+  {
+    throw StandardException(LOC, ConfigurationError,
+                            "Not all the waypoint maximum rates have been specified correctly (must be > 0.0).");
+  }
+  if (!initialiseWaypointDurations())
+  {
+    throw StandardException(LOC, ConfigurationError, "A waypoint was configured with a zero duration.");
+  }
 
   for (unsigned int j = 0; j < dimension(); ++j)
   {
@@ -297,7 +297,6 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
     spline_functions[j][2].reset(new SplineFunction<QuinticPolynomial>(trailing_quintic_time_0, trailing_quintic_time_f,
                                                                    trailing_quintics[j]));
   }
-  (void) result; // for unused variable warnings, in case the asserts weren't triggered
 }
 
 void Trajectory<JointAngles>::linearSplineInterpolation()
-- 
2.43.0


From b27f272b96e0cece04aac9910bb4e4d026929a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:22 +0000
Subject: [PATCH 142/143] fix: a dash inside a token is not taken for the end
 of options switch

---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index ce86254..746ac80 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -146,7 +146,9 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-		if ( combinedSwitches[i] == _flag[0] )
+		// (a dash inside the token, as in -1e-3, isn't the end of options switch)
+		if ( combinedSwitches[i] == _flag[0] &&
+			 _flag[0] != Arg::flagStartString()[0] )
 		{
 			// update the combined switches so this one is no longer present
 			// this is necessary so that no unlabeled args are matched
-- 
2.43.0


From 746ad1b4eaab96224be31db151c1ba3fa3855b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:22 +0000
Subject: [PATCH 143/143] fix: quaternion2yaw aborts for every quaternion with
 non-yaw components

---
 ecl_core_apps/src/utils/quaternion2yaw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_core_apps/src/utils/quaternion2yaw.cpp b/ecl_core_apps/src/utils/quaternion2yaw.cpp
index 89e16c9..3dde2e9 100644
--- a/ecl_core_apps/src/utils/quaternion2yaw.cpp
+++ b/ecl_core_apps/src/utils/quaternion2yaw.cpp
@@ -46,8 +46,9 @@ int main(int argc, char** argv) {
         std::cerr << "error: " << e.error() << " for arg " << e.argId() << std::endl;
         return 1;
     }
-    if ( ( x != 0.0 ) && ( y != 0.0 ) ) {
+    if ( ( x != 0.0 ) || ( y != 0.0 ) ) {
       std::cout << "This quaternion has non-yaw components, aborting." << std::endl;
+      return 1;
     }
     // This is a very naive way of calculating - it is only for the case where it is a
     // rotation around a z-axis.
-- 
2.43.0

