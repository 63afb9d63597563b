From 045bf9d1b9d42f0dbd28c45e93be17004f2e7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 01/46] fix: refuse requests whose rounded size wraps in linear
 and stack allocators

---
 include/ktl/allocators/linear_allocator.h | 5 ++++-
 include/ktl/allocators/stack_allocator.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..0b0e103 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -76,7 +76,10 @@ namespace ktl
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Free - m_Data) + totalSize) > Size)
+			size_t used = size_t(m_Free - m_Data);
+
+			// The rounded size may have wrapped around
+			if (totalSize < n || totalSize > Size - used)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..ea0f2d2 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -64,7 +64,10 @@ namespace ktl
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
 
-			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
+			size_t used = size_t(m_Block->Free - m_Block->Data);
+
+			// The rounded size may have wrapped around
+			if (totalSize < n || totalSize > Size - used)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From a0d9f38b065e9e3198a576767990360d1f359f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 02/46] fix: a full bump allocator no longer returns its end
 pointer for empty requests

---
 include/ktl/allocators/linear_allocator.h | 4 ++--
 include/ktl/allocators/stack_allocator.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 0b0e103..8f8f86c 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -78,8 +78,8 @@ namespace ktl
 
 			size_t used = size_t(m_Free - m_Data);
 
-			// The rounded size may have wrapped around
-			if (totalSize < n || totalSize > Size - used)
+			// The rounded size may have wrapped around, and a full allocator has no address left to give out
+			if (totalSize < n || used == Size || totalSize > Size - used)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index ea0f2d2..24fb70d 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -66,8 +66,8 @@ namespace ktl
 
 			size_t used = size_t(m_Block->Free - m_Block->Data);
 
-			// The rounded size may have wrapped around
-			if (totalSize < n || totalSize > Size - used)
+			// The rounded size may have wrapped around, and a full allocator has no address left to give out
+			if (totalSize < n || used == Size || totalSize > Size - used)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From 648f97ec271ef3127181e82d0e780246c8f3f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 03/46] fix: move assignment of linear_allocator resets its
 object count

---
 include/ktl/allocators/linear_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 8f8f86c..94860b7 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -49,6 +49,7 @@ namespace ktl
 		linear_allocator& operator=(linear_allocator&& rhs) noexcept
 		{
 			m_Free = m_Data;
+			m_ObjectCount = 0;
 
 			// Moving raw allocators in use is undefined
 			KTL_ASSERT(rhs.m_ObjectCount == 0);
-- 
2.43.0


From 54a94683686ebf5a50c063dfc2f3f8c778c8e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 04/46] fix: global allocators never compare unequal

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From fe778dd06fdb0209257ab6e53d1731dd0f8a86bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:30 +0000
Subject: [PATCH 05/46] fix: cascading returns null when a new node cannot be
 allocated

---
 include/ktl/allocators/cascading.h   | 12 +++++++++---
 include/ktl/utility/aligned_malloc.h |  3 ++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..f7b4834 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -99,6 +99,9 @@ namespace ktl
 			if (!m_Node)
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			if (!m_Node)
+				return nullptr;
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -110,10 +113,13 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = m_Node;
+				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
-				m_Node->Next = next;
+				if (!next)
+					return nullptr;
+
+				next->Next = m_Node;
+				m_Node = next;
 
 				p = m_Node->Allocator.allocate(n);
 			}
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..1232ce3 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -91,7 +91,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        ::new(p) T(std::forward<Args>(args)...);
+        if (p != nullptr)
+            ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
 
-- 
2.43.0


From fba75640a93c47c2e573a6e32bd256918f4078bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 06/46] fix: a request that a fresh cascading node cannot serve
 leaves no empty node behind

---
 include/ktl/allocators/cascading.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index f7b4834..1152200 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -92,6 +92,7 @@ namespace ktl
 		*/
 		void* allocate(size_type n) noexcept(
 			std::is_nothrow_default_constructible_v<node> &&
+			std::is_nothrow_destructible_v<node> &&
 			detail::has_nothrow_allocate_v<Alloc> &&
 			(!detail::has_max_size_v<Alloc> || detail::has_nothrow_max_size_v<Alloc>))
 		{
@@ -122,6 +123,14 @@ namespace ktl
 				m_Node = next;
 
 				p = m_Node->Allocator.allocate(n);
+
+				// If even an empty allocator can't serve it, then don't keep it around
+				if (p == nullptr)
+				{
+					m_Node = next->Next;
+
+					detail::aligned_delete(next);
+				}
 			}
 
 			if (p)
-- 
2.43.0


From c03527511e7a222e00bddbb00e31b2f2f25d95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 07/46] fix: cascading::max_size may be called before the first
 allocation

---
 include/ktl/allocators/cascading.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 1152200..cf64f92 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -249,8 +249,12 @@ namespace ktl
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
 		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+			noexcept(detail::has_nothrow_max_size_v<A> && std::is_nothrow_default_constructible_v<A>)
 		{
+			// Without a node there's no instance to ask yet
+			if (!m_Node)
+				return A().max_size();
+
 			return m_Node->Allocator.max_size();
 		}
 
-- 
2.43.0


From 8c440285f9a8b7206f5e3ef8339559ffa74575e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 08/46] fix: trivial_vector::pop_back compiles

---
 include/ktl/containers/trivial_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..00a56b8 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -424,7 +424,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 7d551bc08db46a783a87f78a13c6b5a84645e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 09/46] fix: trivial_vector::emplace compiles and keeps its
 position when growing

---
 include/ktl/containers/trivial_vector.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 00a56b8..450c36a 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -373,17 +373,26 @@ namespace ktl
 		 * @return An iterator to the element that was added.
 		*/
 		template<typename... Args>
-		void emplace(const_iterator iter, Args&&... args) noexcept
+		iterator emplace(const_iterator iter, Args&&... args) noexcept
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
-            
+
+			const size_t index = iter - m_Begin;
+
+			// The arguments may refer to an element, which is about to be moved
+			T value(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-            
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
-            
-			*iter = T(std::forward<Args>(args)...);
+
+			iterator position = m_Begin + index;
+
+            std::memmove(position + 1, position, (m_End - position) * sizeof(T));
+
+			*position = std::move(value);
 			m_End++;
+
+			return position;
 		}
         
         /**
-- 
2.43.0


From f142ff56523fbf15227a4f0b6cfd39a7ceec22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 10/46] fix: trivial_vector may be given its own elements when
 it grows

---
 include/ktl/containers/trivial_vector.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 450c36a..562b2dd 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -307,9 +307,12 @@ namespace ktl
 		*/
 		iterator push_back(const T& element) noexcept
 		{
+			// The element may be stored in this vector, so it must be copied before growing
+			T value(element);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = element;
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -321,9 +324,12 @@ namespace ktl
 		*/
 		iterator push_back(T&& element) noexcept
 		{
+			// The element may be stored in this vector, so it must be moved before growing
+			T value(std::move(element));
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = std::move(element);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -339,8 +345,17 @@ namespace ktl
 			const size_t n = (last - first);
 
 			if (size_t(m_EndMax - m_End) < n)
+			{
+				// The range may be part of this vector
+				const bool aliased = first >= m_Begin && first < m_End;
+				const size_t index = aliased ? first - m_Begin : 0;
+
 				expand(n);
 
+				if (aliased)
+					first = m_Begin + index;
+			}
+
 			T* lastElement = m_End;
 			m_End += n;
 
@@ -358,9 +373,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may refer to an element of this vector, so they must be used before growing
+			T value(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
-- 
2.43.0


From e30ff516ef8f55a30f2647a94c6d248caf496f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 11/46] fix: moving a trivial_vector to another allocator
 deallocates the right size

---
 include/ktl/containers/trivial_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 562b2dd..032987c 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From 0c7782a3d16dc7d35161149212c21182edecdfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 12/46] fix: moving a trivial_array to another allocator
 deallocates the right size

---
 include/ktl/containers/trivial_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..4b43488 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From 8bebf4289d6454fbfc7bae4c8248cea1672d614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 13/46] fix: trivial_vector survives self-assignment and
 assignment from an empty one

---
 include/ktl/containers/trivial_vector.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 032987c..1c64bb0 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
@@ -184,7 +187,8 @@ namespace ktl
 			m_End = m_Begin + n;
 			m_EndMax = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (other.m_Begin != nullptr)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
-- 
2.43.0


From ea758e813b1ad46f5d7192f493527f5730cc488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 14/46] fix: trivial_array survives self-assignment and
 assignment from an empty one

---
 include/ktl/containers/trivial_array.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 4b43488..fae51f9 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
@@ -171,7 +174,8 @@ namespace ktl
 			m_Begin = alBlock;
 			m_End = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (other.m_Begin != nullptr)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
-- 
2.43.0


From 98c59fc27b73311de6e355a3dc34b6de655ba9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 15/46] fix: trivial_array::assign may be given part of the
 array itself

---
 include/ktl/containers/trivial_array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index fae51f9..640ba54 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -296,14 +296,17 @@ namespace ktl
 			{
 				T* alBlock = Traits::allocate(m_Alloc, n);
 
+				// The range may be part of this array, so it must be copied before deallocating
+				std::memcpy(alBlock, first, n * sizeof(T));
+
 				if (m_Begin != nullptr)
 					Traits::deallocate(m_Alloc, m_Begin, size());
 
 				m_Begin = alBlock;
 				m_End = m_Begin + n;
 			}
-
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			else
+				std::memmove(m_Begin, first, n * sizeof(T));
 		}
 
 	private:
-- 
2.43.0


From a7eef39ec46ef402340fe16ad91f211fa15b76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 16/46] fix: moving a binary_heap to another allocator destroys
 the old elements and deallocates the right size

---
 include/ktl/containers/binary_heap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..bff81b9 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,10 +160,13 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            {
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+                Traits::destroy(other.m_Alloc, other.m_Begin + i);
+            }
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
             other.m_Capacity = 0;
             other.m_Size = 0;
-- 
2.43.0


From accc754dc2412537a440e351932373559aa66ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 17/46] fix: binary_heap survives self-assignment

The elements are copy constructed, so that is what the noexcept depends on.
---
 include/ktl/containers/binary_heap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index bff81b9..d5fb453 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -185,8 +185,11 @@ namespace ktl
             }
         }
 
-        binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
+        binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
-- 
2.43.0


From 4b945fe9031ddae619d6945d0d24b360a13c02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 18/46] fix: binary_heap::insert may be given an element of the
 heap when it grows

---
 include/ktl/containers/binary_heap.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index d5fb453..4fb8618 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -304,9 +304,16 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be stored in this heap, so it must be used before growing
+                T element(std::forward<V>(value));
+
                 expand(1);
 
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
-- 
2.43.0


From 3e938fee09228014c1dd1c4acdfe9bcac06bff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 19/46] fix: binary_heap::pop leaves destroyed elements alone
 and works with types that can only be moved

---
 include/ktl/containers/binary_heap.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 4fb8618..76d1c6a 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -339,11 +339,16 @@ namespace ktl
         {
             KTL_ASSERT(m_Size > 0);
 
-            T root = m_Begin[0];
+            T root = std::move(m_Begin[0]);
+
+            // The last element has nothing to take its place
+            if (--m_Size != 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+
+            if (m_Size != 0)
+                percolateDown(0);
 
             return root;
         }
@@ -426,7 +431,7 @@ namespace ktl
 
         size_t percolateUp(size_t index)
         {
-            const T value = m_Begin[index];
+            T value = std::move(m_Begin[index]);
 
             while (index != 0 && m_Comp(value, m_Begin[parent(index)]))
             {
@@ -443,8 +448,6 @@ namespace ktl
         {
             size_t parent = index;
 
-            const T value = m_Begin[index];
-
             while (parent < m_Size)
             {
                 size_t l = left(parent);
@@ -461,14 +464,12 @@ namespace ktl
                 if (child == parent)
                     break;
 
-                const T temp(std::move(m_Begin[child]));
+                T temp(std::move(m_Begin[child]));
                 m_Begin[child] = std::move(m_Begin[parent]);
                 m_Begin[parent] = std::move(temp);
 
                 parent = child;
             }
-
-            m_Begin[parent] = std::move(value);
         }
 
     private:
-- 
2.43.0


From e7e370331c18f27f91b21bbb3eed9c79cade8a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 20/46] fix: self-assignment of a shared allocator keeps its
 control block alive

---
 include/ktl/allocators/shared.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..94f3585 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,11 +95,14 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
-			decrement();
+			if (m_Block != rhs.m_Block)
+			{
+				decrement();
 
-			m_Block = rhs.m_Block;
+				m_Block = rhs.m_Block;
 
-			increment();
+				increment();
+			}
 
 			return *this;
 		}
@@ -107,11 +110,14 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
-			decrement();
+			if (this != &rhs)
+			{
+				decrement();
 
-			m_Block = rhs.m_Block;
+				m_Block = rhs.m_Block;
 
-			rhs.m_Block = nullptr;
+				rhs.m_Block = nullptr;
+			}
 
 			return *this;
 		}
-- 
2.43.0


From 4d7c24e178f43b35873e850ee32c5d1aaa6e3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 21/46] fix: comparing moved-from shared allocators doesn't
 dereference null

---
 include/ktl/allocators/shared.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 94f3585..c20c6aa 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -125,13 +125,13 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			return m_Block == rhs.m_Block && (!m_Block || m_Block->Allocator == rhs.m_Block->Allocator);
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block || (m_Block && m_Block->Allocator != rhs.m_Block->Allocator);
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 18e8a95e4f9b633632f646e1a15763007d2b054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 22/46] fix: a shared allocator without a control block refuses
 requests

---
 include/ktl/allocators/shared.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index c20c6aa..e1b03eb 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -138,6 +138,10 @@ namespace ktl
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// The control block may have failed to be allocated
+			if (!m_Block)
+				return nullptr;
+
 			return m_Block->Allocator.allocate(n);
 		}
 
@@ -172,6 +176,9 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
+			if (!m_Block)
+				return 0;
+
 			return m_Block->Allocator.max_size();
 		}
 
@@ -180,6 +187,9 @@ namespace ktl
 		owns(void* p) const
 			noexcept(detail::has_nothrow_owns_v<A>)
 		{
+			if (!m_Block)
+				return false;
+
 			return m_Block->Allocator.owns(p);
 		}
 #pragma endregion
-- 
2.43.0


From e15c26a8f9e4bc2d2c2b0ed9a4c296a496f08326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 23/46] fix: overflow doesn't count failed allocations

---
 include/ktl/allocators/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..f4c687d 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -104,14 +104,14 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
-- 
2.43.0


From 2acd002e8814aa0e1ce78331b178f356b2502df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 24/46] fix: overflow refuses requests whose guarded size wraps

---
 include/ktl/allocators/overflow.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index f4c687d..cf5cad8 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -6,7 +6,9 @@
 #include "overflow_fwd.h"
 #include "type_allocator.h"
 
+#include <cstdint>
 #include <cstring>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <type_traits>
@@ -104,6 +106,10 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// The guards around the block must not make the size wrap
+			if (n > (std::numeric_limits<size_type>::max)() - OVERFLOW_SIZE * 2)
+				return nullptr;
+
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
-- 
2.43.0


From 7baa423d1498f22321f909465637da0d3e6c0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 25/46] fix: overflow doesn't count deallocations of null

---
 include/ktl/allocators/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index cf5cad8..2503d54 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -134,10 +134,10 @@ namespace ktl
 		{
 			KTL_ASSERT(p != nullptr);
 
-			m_Allocs -= n;
-
 			if (p)
 			{
+				m_Allocs -= n;
+
 				unsigned char* ptr = reinterpret_cast<unsigned char*>(p);
 
 				size_t before = 0;
-- 
2.43.0


From 21d2b6c13ec6f3817428985d97e9a729da861ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 26/46] fix: copies and moved-from overflow allocators don't
 report what they aren't responsible for

---
 include/ktl/allocators/overflow.h | 55 +++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 2503d54..d10f44a 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -29,6 +29,25 @@ namespace ktl
 		static constexpr unsigned char OVERFLOW_TEST = 0b10100101;
 		static constexpr size_t OVERFLOW_SIZE = 64;
 
+		// Each instance is responsible for what was allocated and constructed through it.
+		// Thus a copy starts from zero and moving takes over the responsibility
+		struct counter
+		{
+			int64_t Value;
+
+			counter() noexcept :
+				Value(0) {}
+
+			counter(const counter&) noexcept :
+				Value(0) {}
+
+			counter(counter&& other) noexcept :
+				Value(other.Value)
+			{
+				other.Value = 0;
+			}
+		};
+
 	public:
 		/**
 		 * @brief Construct the allocator with a reference to a stream object
@@ -38,8 +57,8 @@ namespace ktl
 			noexcept(std::is_nothrow_default_constructible_v<Alloc>) :
 			m_Stream(stream),
 			m_Alloc(),
-			m_Allocs(0),
-			m_Constructs(0) {}
+			m_Allocs(),
+			m_Constructs() {}
 
 		/**
 		 * @brief Constructor for forwarding any arguments to the underlying allocator
@@ -51,8 +70,8 @@ namespace ktl
 			noexcept(std::is_nothrow_constructible_v<Alloc, Args...>) :
 			m_Stream(stream),
 			m_Alloc(std::forward<Args>(args)...),
-			m_Allocs(0),
-			m_Constructs(0) {}
+			m_Allocs(),
+			m_Constructs() {}
 
 		overflow(const overflow&) = default;
 
@@ -60,22 +79,22 @@ namespace ktl
 
 		~overflow()
 		{
-			if (m_Allocs != 0)
+			if (m_Allocs.Value != 0)
 			{
 				m_Stream << "--------MEMORY LEAK DETECTED--------\nAllocator destroyed while having:\n";
-				if (m_Allocs > 0)
-					m_Stream << " Allocated memory (" << m_Allocs << " bytes)\n";
+				if (m_Allocs.Value > 0)
+					m_Stream << " Allocated memory (" << m_Allocs.Value << " bytes)\n";
 				else
-					m_Stream << " Too many frees (" << -m_Allocs << " bytes)\n";
+					m_Stream << " Too many frees (" << -m_Allocs.Value << " bytes)\n";
 			}
 
-			if (m_Constructs != 0)
+			if (m_Constructs.Value != 0)
 			{
 				m_Stream << "--------POSSIBLE LOGIC ERROR DETECTED--------\nAllocator destroyed while having:\n";
-				if (m_Constructs > 0)
-					m_Stream << " Too many constructor calls (" << m_Constructs << ")\n";
+				if (m_Constructs.Value > 0)
+					m_Stream << " Too many constructor calls (" << m_Constructs.Value << ")\n";
 				else
-					m_Stream << " Too many destructor calls (" << -m_Constructs << ")\n";
+					m_Stream << " Too many destructor calls (" << -m_Constructs.Value << ")\n";
 			}
 		}
 
@@ -116,7 +135,7 @@ namespace ktl
 			if (!ptr)
 				return nullptr;
 
-			m_Allocs += n;
+			m_Allocs.Value += n;
 
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
@@ -136,7 +155,7 @@ namespace ktl
 
 			if (p)
 			{
-				m_Allocs -= n;
+				m_Allocs.Value -= n;
 
 				unsigned char* ptr = reinterpret_cast<unsigned char*>(p);
 
@@ -186,7 +205,7 @@ namespace ktl
 			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs++;
+			m_Constructs.Value++;
 
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
@@ -204,7 +223,7 @@ namespace ktl
 			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
 			std::is_nothrow_destructible_v<T>)
 		{
-			m_Constructs--;
+			m_Constructs.Value--;
 
 			if constexpr (detail::has_destroy_v<Alloc, T*>)
 				m_Alloc.destroy(p);
@@ -281,7 +300,7 @@ namespace ktl
 	private:
 		Stream& m_Stream;
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		int64_t m_Allocs;
-		int64_t m_Constructs;
+		counter m_Allocs;
+		counter m_Constructs;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 844e038f4016704c159d59e371aa1c6e407d169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 27/46] fix: overflow::construct and destroy aren't noexcept
 when the underlying call may throw

---
 include/ktl/allocators/overflow.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index d10f44a..7184cc9 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -202,7 +202,8 @@ namespace ktl
 		*/
 		template<typename T, typename... Args>
 		void construct(T* p, Args&&... args) noexcept(
-			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
+			detail::has_construct_v<Alloc, T*, Args...> ?
+			detail::has_nothrow_construct_v<Alloc, T*, Args...> :
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
 			m_Constructs.Value++;
@@ -220,7 +221,8 @@ namespace ktl
 		*/
 		template<typename T>
 		void destroy(T* p) noexcept(
-			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
+			detail::has_destroy_v<Alloc, T*> ?
+			detail::has_nothrow_destroy_v<Alloc, T*> :
 			std::is_nothrow_destructible_v<T>)
 		{
 			m_Constructs.Value--;
-- 
2.43.0


From 99cc61d2fbcbdfd8dcd43620754731b38425f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 28/46] fix: moving a freelist over an allocator with shared or
 dynamic state doesn't assert

Such an allocator differs from the one it was moved into.
Also, move assignment may throw when deallocating the cached blocks does.
---
 include/ktl/allocators/freelist.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ktl/allocators/freelist.h b/include/ktl/allocators/freelist.h
index c7479c9..a293242 100644
--- a/include/ktl/allocators/freelist.h
+++ b/include/ktl/allocators/freelist.h
@@ -62,7 +62,7 @@ namespace ktl
 			m_Free(other.m_Free)
 		{
 			// Moving raw allocators in use is undefined
-			KTL_ASSERT(m_Alloc == other.m_Alloc || other.m_Free == nullptr);
+			KTL_ASSERT(has_valid_list());
 
 			other.m_Free = nullptr;
 		}
@@ -75,7 +75,7 @@ namespace ktl
 		freelist& operator=(const freelist&) = delete;
 
 		freelist& operator=(freelist&& rhs)
-			noexcept(std::is_nothrow_move_assignable_v<Alloc>)
+			noexcept(std::is_nothrow_move_assignable_v<Alloc> && detail::has_nothrow_deallocate_v<Alloc>)
 		{
 			release();
 
@@ -83,7 +83,7 @@ namespace ktl
 			m_Free = rhs.m_Free;
 
 			// Moving raw allocators in use is undefined
-			KTL_ASSERT(m_Alloc == rhs.m_Alloc || rhs.m_Free == nullptr);
+			KTL_ASSERT(has_valid_list());
 
 			rhs.m_Free = nullptr;
 
@@ -225,6 +225,15 @@ namespace ktl
 		}
 
 	private:
+		// Whether the cached blocks still belong to the underlying allocator, as far as it can tell
+		bool has_valid_list() const
+		{
+			if constexpr (detail::has_owns_v<Alloc>)
+				return m_Free == nullptr || m_Alloc.owns(m_Free);
+			else
+				return true;
+		}
+
 		void release()
 			noexcept(detail::has_nothrow_deallocate_v<Alloc>)
 		{
-- 
2.43.0


From 91829bec49c55b3f260d6f0afbffe1b48becfd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 29/46] fix: type_allocator refuses requests whose size in
 bytes wraps

---
 include/ktl/allocators/type_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..b367238 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -5,6 +5,7 @@
 
 #include "type_allocator_fwd.h"
 
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -98,6 +99,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must not wrap
+			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From 4616ff7d3aac0d50943d898e7724692554bcac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 30/46] fix: the noexcept of the type_allocator constructor
 depends on the allocator

---
 include/ktl/allocators/type_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index b367238..d666816 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -54,7 +54,7 @@ namespace ktl
 			typename = std::enable_if_t<
 			std::is_constructible_v<Alloc, Args...>>>
 		explicit type_allocator(Args&&... alloc)
-			noexcept(std::is_nothrow_constructible_v<T, Args...>) :
+			noexcept(std::is_nothrow_constructible_v<Alloc, Args...>) :
 			m_Alloc(std::forward<Args>(alloc)...) {}
 
 		type_allocator(const type_allocator&) = default;
-- 
2.43.0


From b2b7c5a5b648387845188b8d9dc4da666d15d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 31/46] fix: threaded::owns takes the lock, as it may read what
 others change

---
 include/ktl/allocators/threaded.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ktl/allocators/threaded.h b/include/ktl/allocators/threaded.h
index bc7aa10..aaed33d 100644
--- a/include/ktl/allocators/threaded.h
+++ b/include/ktl/allocators/threaded.h
@@ -106,9 +106,10 @@ namespace ktl
 
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_owns_v<A>, bool>::type
-		owns(void* p) const
-			noexcept(detail::has_nothrow_owns_v<A>)
+		owns(void* p) const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.owns(p);
 		}
 #pragma endregion
@@ -125,6 +126,6 @@ namespace ktl
 
 	private:
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		std::mutex m_Lock;
+		mutable std::mutex m_Lock;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 0cc5c68d1ece0bf21b1f99c805608c1876a70a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 32/46] fix: segragator only defines construct and destroy when
 the primary can tell what it owns

---
 include/ktl/allocators/segragator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index 82c124c..bf65ab4 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -115,8 +115,9 @@ namespace ktl
 
 #pragma region Construction
 		template<typename T, typename... Args>
-		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
+		typename std::enable_if<detail::has_owns_v<P> && (detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>), void>::type
 		construct(T* p, Args&&... args) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
@@ -145,8 +146,9 @@ namespace ktl
 		}
 
 		template<typename T>
-		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
+		typename std::enable_if<detail::has_owns_v<P> && (detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>), void>::type
 		destroy(T* p) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
-- 
2.43.0


From 9cb4f93909c49a5b4e53bb6b0604a8e599b1d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 33/46] fix: fallback isn't noexcept when asking the primary
 for ownership may throw

---
 include/ktl/allocators/fallback.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/fallback.h b/include/ktl/allocators/fallback.h
index 181af7b..ecbc29d 100644
--- a/include/ktl/allocators/fallback.h
+++ b/include/ktl/allocators/fallback.h
@@ -107,7 +107,7 @@ namespace ktl
 		}
 
 		void deallocate(void* p, size_t n)
-			noexcept(detail::has_nothrow_deallocate_v<P>&& detail::has_nothrow_deallocate_v<F>)
+			noexcept(detail::has_nothrow_owns_v<P> && detail::has_nothrow_deallocate_v<P> && detail::has_nothrow_deallocate_v<F>)
 		{
 			if (m_Primary.owns(p))
 			{
@@ -123,6 +123,7 @@ namespace ktl
 		template<typename T, typename... Args>
 		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
 		construct(T* p, Args&&... args) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
@@ -153,6 +154,7 @@ namespace ktl
 		template<typename T>
 		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
 		destroy(T* p) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
-- 
2.43.0


From 303404bd2dcde2a7dd52bd0e2ed726a7e15e55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 34/46] fix: has_nothrow_not_equal asks about operator!=

---
 include/ktl/utility/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 3374fe8..54741c5 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -84,9 +84,9 @@ namespace ktl::detail
 	template<typename T>
 	constexpr bool has_nothrow_equal_v = noexcept(std::declval<T&>() == std::declval<T&>());
 
-	// has T& == T& noexcept
+	// has T& != T& noexcept
 	template<typename T>
-	constexpr bool has_nothrow_not_equal_v = noexcept(std::declval<T&>() == std::declval<T&>());
+	constexpr bool has_nothrow_not_equal_v = noexcept(std::declval<T&>() != std::declval<T&>());
 
 	// has construct(T*, Args&&...) noexcept
 	template<typename Void, typename... Types>
-- 
2.43.0


From 6215a90ec1d4ce43cc9cd417a47d5802eb17f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 35/46] fix: posix_memalign takes the alignment before the size

---
 include/ktl/utility/aligned_malloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 1232ce3..2aa7b22 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -53,7 +53,7 @@ namespace ktl::detail
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
         void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
-- 
2.43.0


From d9130ca48435cd69b9e6c94af2c326f364d49ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 36/46] fix: aligned_malloc refuses sizes that wrap and
 includes what it uses

---
 include/ktl/utility/aligned_malloc.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 2aa7b22..1d94e98 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdlib>
 #include <memory>
+#include <utility>
 
 // KTL_MALLOC_ALREADY_ALIGNED
 #if defined(__GLIBC__) && ((__GLIBC__ >= 2 && __GLIBC_MINOR__ >= 8) || __GLIBC__ > 2) && defined(__LP64__)
@@ -60,7 +62,8 @@ namespace ktl::detail
         return _aligned_malloc(size, alignment);
 #else
         void* res = nullptr;
-        void* ptr = malloc(size + alignment);
+        // The size must not wrap
+        void* ptr = (size + alignment >= size) ? malloc(size + alignment) : nullptr;
         if (ptr != nullptr)
         {
             res = reinterpret_cast<void*>((reinterpret_cast<size_t>(ptr) & ~(size_t(alignment - 1))) + alignment);
-- 
2.43.0


From 7956e5f1f75c3e43d46e766205ecf6bb85fcbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 37/46] fix: the iterators and const accessors of
 trivial_buffer compile and its storage is aligned for T

---
 include/ktl/containers/trivial_buffer.h | 43 ++++++++++++++++---------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..07d4c2d 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -2,7 +2,10 @@
 
 #include "../utility/assert.h"
 
+#include <cstddef>
+#include <cstdint>
 #include <cstring>
+#include <initializer_list>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -31,14 +34,14 @@ namespace ktl
 
 		explicit trivial_buffer(const T& value)
 		{
-			std::uninitialized_fill_n<T*, size_t>(reinterpret_cast<T*>(m_Data), Size, value);
+			std::uninitialized_fill_n<T*, size_t>(data(), Size, value);
 		}
 
 		trivial_buffer(std::initializer_list<T> initializer)
 		{
 			KTL_ASSERT(initializer.size() <= Size);
 
-			T* dst = reinterpret_cast<T*>(m_Data);
+			T* dst = data();
 			for (auto value : initializer)
 			{
 				*dst = value;
@@ -81,7 +84,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& operator[](size_t index) noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& operator[](size_t index) noexcept { return data()[index % Size]; }
 
 		/**
 		 * @brief Returns a const reference to the element at @p index, rolling.
@@ -89,24 +92,24 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return data()[index % Size]; }
 
 
-		iterator begin() noexcept { return m_Data; }
+		iterator begin() noexcept { return data(); }
 
-		const_iterator begin() const noexcept { return m_Data; }
+		const_iterator begin() const noexcept { return data(); }
 
-		iterator end() noexcept { return m_Data + Size; }
+		iterator end() noexcept { return data() + Size; }
 
-		const_iterator end() const noexcept { return m_Data + Size; }
+		const_iterator end() const noexcept { return data() + Size; }
 
-		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(end()); }
 
-		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(end()); }
 
-		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(begin()); }
 
-		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(begin()); }
 
 
 		/**
@@ -119,13 +122,13 @@ namespace ktl
 		 * @brief Returns an iterator to the start of the buffer.
 		 * @return An iterator to the start of the buffer.
 		*/
-		iterator data() noexcept { return m_Data; }
+		iterator data() noexcept { return reinterpret_cast<T*>(m_Data); }
 
 		/**
 		 * @brief Returns a const iterator to the start of the buffer.
 		 * @return A const iterator to the start of the buffer.
 		*/
-		const_iterator data() const noexcept { return m_Data; }
+		const_iterator data() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
 		/**
 		 * @brief Returns a reference to the element at @p index, rolling.
@@ -133,7 +136,15 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return data()[index % Size]; }
+
+		/**
+		 * @brief Returns a const reference to the element at @p index, rolling.
+		 * @note An index higher than size() will roll back to the start of the buffer.
+		 * @param index The index of the element in the buffer.
+		 * @return A reference to the element at @p index.
+		*/
+		const T& at(size_t index) const noexcept { return data()[index % Size]; }
 
 
 		/**
@@ -149,6 +160,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		alignas(T) uint8_t m_Data[Size * sizeof(T)];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 859764a1d7643be54662da9f4be9570bc87db7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 38/46] fix: meta.h includes what it uses, so every header can
 be included on its own

---
 include/ktl/utility/meta.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ktl/utility/meta.h b/include/ktl/utility/meta.h
index 54741c5..66636b4 100644
--- a/include/ktl/utility/meta.h
+++ b/include/ktl/utility/meta.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <type_traits>
+#include <utility>
 
 namespace ktl::detail
 {
-- 
2.43.0


From 566f7c6952e430bf886f763f4a1d7df5c02abb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 39/46] fix: binary_heap copies stay consistent when copying an
 element throws

---
 include/ktl/containers/binary_heap.h | 33 +++++++++++-----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 76d1c6a..d771e37 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -118,15 +118,7 @@ namespace ktl
         }
 
         binary_heap(const binary_heap& other) noexcept(std::is_nothrow_copy_constructible_v<T>) :
-            m_Alloc(Traits::select_on_container_copy_construction(other.m_Alloc)),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
-        {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
-        }
+            binary_heap(other, Traits::select_on_container_copy_construction(other.m_Alloc)) {}
 
         binary_heap(binary_heap&& other) noexcept(std::is_nothrow_move_constructible_v<T>) :
             m_Alloc(std::move(other.m_Alloc)),
@@ -141,14 +133,11 @@ namespace ktl
         }
 
         binary_heap(const binary_heap& other, const Alloc& allocator) noexcept(std::is_nothrow_copy_constructible_v<T>) :
-            m_Alloc(allocator),
-            m_Comp(other.m_Comp),
-            m_Size(other.m_Size),
-            m_Capacity(other.m_Size),
-            m_Begin(Traits::allocate(m_Alloc, other.m_Size))
+            binary_heap(other.m_Size, allocator, other.m_Comp)
         {
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            // Only count the elements that exist, as copying the next one may throw
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
         }
 
         binary_heap(binary_heap&& other, const Alloc& allocator) noexcept(std::is_nothrow_move_constructible_v<T>) :
@@ -198,15 +187,19 @@ namespace ktl
                 Traits::deallocate(m_Alloc, m_Begin, m_Capacity);
             }
 
+            m_Size = 0;
+            m_Capacity = 0;
+            m_Begin = nullptr;
+
             m_Alloc = other.m_Alloc;
             m_Comp = other.m_Comp;
-            m_Size = other.m_Size;
+            m_Begin = Traits::allocate(m_Alloc, other.m_Size);
             m_Capacity = other.m_Size;
-            m_Begin = Traits::allocate(m_Alloc, m_Capacity);
 
             // Copy construct elements
-            for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            // Only count the elements that exist, as copying the next one may throw
+            for (; m_Size < other.m_Size; m_Size++)
+                Traits::construct(m_Alloc, m_Begin + m_Size, other.m_Begin[m_Size]);
 
             return *this;
         }
-- 
2.43.0


From c9df81282c99806167d1f16e219eb9a7a50528c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:20 +0000
Subject: [PATCH 40/46] fix: converting a type_allocator is noexcept if copying
 its allocator is

---
 include/ktl/allocators/type_allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index d666816..4f33a41 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -68,14 +68,14 @@ namespace ktl
 
 		template<typename U>
 		type_allocator(const type_allocator<U, Alloc>& other)
-			noexcept(std::is_nothrow_constructible_v<Alloc, const type_allocator<U, Alloc>&>) :
+			noexcept(std::is_nothrow_copy_constructible_v<Alloc>) :
 			m_Alloc(other.m_Alloc) {}
 
 		// Move construction is essentially forbidden for STL allocators
 		// https://en.cppreference.com/w/cpp/named_req/Allocator
 		template<typename U>
 		type_allocator(type_allocator<U, Alloc>&& other)
-			noexcept(std::is_nothrow_constructible_v<Alloc, type_allocator<U, Alloc>&&>) :
+			noexcept(std::is_nothrow_copy_constructible_v<Alloc>) :
 			m_Alloc(other.m_Alloc) {}
 
 		type_allocator& operator=(const type_allocator&) = default;
-- 
2.43.0


From 71301e0e667ea7d406148ce804441cd26d655c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 41/46] fix: moving a cascading allocator never moves its
 nodes, so it's noexcept without them being movable

---
 include/ktl/allocators/cascading.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index cf64f92..65ab78e 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -47,8 +47,7 @@ namespace ktl
 
 		cascading(const cascading&) = delete;
 
-		cascading(cascading&& other)
-			noexcept(std::is_nothrow_move_constructible_v<node>) :
+		cascading(cascading&& other) noexcept :
 			m_Node(std::move(other.m_Node))
 		{
 			other.m_Node = nullptr;
@@ -62,7 +61,7 @@ namespace ktl
 		cascading& operator=(const cascading&) = delete;
 
 		cascading& operator=(cascading&& rhs)
-			noexcept(std::is_nothrow_move_assignable_v<node>)
+			noexcept(std::is_nothrow_destructible_v<node>)
 		{
 			release();
 
-- 
2.43.0


From 71e3350251d3da5c5eb385188bb572cf85d6312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 42/46] fix: global::set_allocator isn't noexcept when moving
 the allocator may throw

---
 include/ktl/allocators/global.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index da374f5..ff9a94d 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -99,7 +99,8 @@ namespace ktl
 		}
 #pragma endregion
 
-		void set_allocator(Alloc&& value) noexcept
+		void set_allocator(Alloc&& value)
+			noexcept(std::is_nothrow_move_assignable_v<Alloc>)
 		{
 			s_Alloc = std::move(value);
 		}
-- 
2.43.0


From de9c9463f3b4b56033b16931269830a7350a8096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 43/46] fix: aligned_new lost the memory when the constructor
 threw

The control block of shared and the nodes of cascading were leaked.
---
 include/ktl/utility/aligned_malloc.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 1d94e98..18724fd 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -93,9 +93,12 @@ namespace ktl::detail
     T* aligned_new(size_t alignment, Args&&... args)
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
-        T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        if (p != nullptr)
-            ::new(p) T(std::forward<Args>(args)...);
+        // The memory must not be lost if the constructor throws
+        std::unique_ptr<void, void(*)(void*)> memory(aligned_malloc(sizeof(T), alignment), aligned_free);
+        T* p = nullptr;
+        if (memory)
+            p = ::new(memory.get()) T(std::forward<Args>(args)...);
+        memory.release();
         return p;
     }
 
-- 
2.43.0


From a7db365b161c75dc0f8790fe6018204dde180d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 44/46] fix: freelist kept blocks in its list that were already
 given back when an assignment threw

---
 include/ktl/allocators/freelist.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/freelist.h b/include/ktl/allocators/freelist.h
index a293242..8e47348 100644
--- a/include/ktl/allocators/freelist.h
+++ b/include/ktl/allocators/freelist.h
@@ -237,11 +237,11 @@ namespace ktl
 		void release()
 			noexcept(detail::has_nothrow_deallocate_v<Alloc>)
 		{
-			link* next = m_Free;
-			while (next)
+			while (m_Free)
 			{
-				link* prev = next;
-				next = next->Next;
+				// The underlying allocator may throw, after which the block must not be in the list
+				link* prev = m_Free;
+				m_Free = prev->Next;
 				m_Alloc.deallocate(prev, Max);
 			}
 		}
-- 
2.43.0


From 32d2bf7bb85b0d471f73d3a01000a422291e8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:58 +0000
Subject: [PATCH 45/46] fix: overflow counted constructions that threw

---
 include/ktl/allocators/overflow.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 7184cc9..75d0c7b 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -206,12 +206,13 @@ namespace ktl
 			detail::has_nothrow_construct_v<Alloc, T*, Args...> :
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs.Value++;
-
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
 			else
 				::new(p) T(std::forward<Args>(args)...);
+
+			// If the constructor throws there is nothing to destroy
+			m_Constructs.Value++;
 		}
 
 		/**
-- 
2.43.0


From ac1bf4fa9f109ea011ceb1385ec6dba317f7fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:34 +0000
Subject: [PATCH 46/46] fix: cascading kept an empty node behind the head
 forever and asserted a leak that was none

---
 include/ktl/allocators/cascading.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 65ab78e..351008c 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -130,6 +130,14 @@ namespace ktl
 
 					detail::aligned_delete(next);
 				}
+				// The previous allocator may be empty too, in which case nobody would delete it later on
+				else if (next->Next && next->Next->Allocations == 0)
+				{
+					node* prev = next->Next;
+					next->Next = prev->Next;
+
+					detail::aligned_delete(prev);
+				}
 			}
 
 			if (p)
-- 
2.43.0

