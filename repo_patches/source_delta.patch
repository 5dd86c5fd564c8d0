From 44ebd7524b3c257d3a959ec2f9691ca5865ddf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 01/74] fix: base32 encoder lost the last character of an
 unpadded tail

---
 src/lightspeed/utils/base32.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 8aa8c2b..be6ee64 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -41,7 +41,7 @@ const char &ByteToBase32Convert::getNext() {
 		needItems = true;
 		hasItems = false;
 	} else {
-		hasItems = readpos < wrbyte*8/5;
+		hasItems = readpos < (wrbyte*8 + (eolb?4:0))/5;
 	}
 	return out;
 }
@@ -120,7 +120,7 @@ void ByteToBase32Convert::flush() {
 	}
 
 	//unlock hasItems only if there are chars to read.
-	hasItems = readpos < wrbyte*8/5;
+	hasItems = readpos < (wrbyte*8 + 4)/5;
 }
 
 Base32ToByteConvert::Base32ToByteConvert()
-- 
2.43.0


From 1fc894f6112991081c61497398e884ca5a453923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 02/74] fix: base85 encoder emitted garbage when flushed
 without pending input

---
 src/lightspeed/utils/base85.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 50f0006..c597f17 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -105,7 +105,7 @@ void ByteToBase85Convert::flush() {
 	}
 	this->eolb = true;
 	this->needItems = false;
-	this->hasItems = true;
+	this->hasItems = wrpos > 0;
 }
 
 Base85ToByteConvert::Base85ToByteConvert()
-- 
2.43.0


From a75081b8db227ba056ac497813d62f80633b5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 03/74] fix: base16/base32 decoders had the case sensitivity
 flag inverted

---
 src/lightspeed/utils/base16.cpp | 2 +-
 src/lightspeed/utils/base32.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base16.cpp b/src/lightspeed/utils/base16.cpp
index 85e9b5b..d7a0e77 100644
--- a/src/lightspeed/utils/base16.cpp
+++ b/src/lightspeed/utils/base16.cpp
@@ -96,7 +96,7 @@ void Base16ToByteConvert::flush() {
 void Base16ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 0xF);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 0xF);
diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index be6ee64..fe97dc9 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -203,7 +203,7 @@ void Base32ToByteConvert::flush() {
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 31);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 31);
-- 
2.43.0


From 3864fa3c323cb4586ae6190c94f0442f0122efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 04/74] fix: UTF-8 encoders used a longer form for U+07FF,
 U+FFFF and other code points at the end of a length range

---
 src/lightspeed/base/streams/utf.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 9984d42..fb51f12 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -89,19 +89,19 @@ namespace LightSpeed {
      if (c < 128) {
              fbyte = (char)c;
              parts = 0;
-     } else if (c < 0x7ff) { // xx011 1111 1111
+     } else if (c < 0x800) { // xx011 1111 1111
          fbyte = (char)(c >> 6) | 0xC0;
          parts = 1;
-     } else if (c < 0xffff) {
+     } else if (c < 0x10000) {
          fbyte  = (char)(c >> 12) | 0xE0;
          parts = 2;
-     } else if (c < 0x1fffff) {
+     } else if (c < 0x200000) {
          fbyte = (char)(c >> 18) | 0xF0;
          parts = 3;
-     } else if (c < 0x3ffffff) {
+     } else if (c < 0x4000000) {
          fbyte = (char)(c >> 24) | 0xF8;
          parts = 4;
-     } else if (c < 0x7ffffff) {
+     } else if (c < 0x80000000) {
          fbyte = (char)(c >> 30) | 0xFC;
          parts = 5;
      } else  {
@@ -200,19 +200,19 @@ void WideToUtf8Convert::write(const wchar_t& item) {
     if (c < 128) {
             fbyte = (char)c;
             parts = 0;
-    } else if (c < 0x7ff) { // xx011 1111 1111
+    } else if (c < 0x800) { // xx011 1111 1111
         fbyte = (char)(c >> 6) | 0xC0;
         parts = 1;
-    } else if (c < 0xffff) {
+    } else if (c < 0x10000) {
         fbyte  = (char)(c >> 12) | 0xE0;
         parts = 2;
-    } else if (c < 0x1fffff) {
+    } else if (c < 0x200000) {
         fbyte = (char)(c >> 18) | 0xF0;
         parts = 3;
-    } else if (c < 0x3ffffff) {
+    } else if (c < 0x4000000) {
         fbyte = (char)(c >> 24) | 0xF8;
         parts = 4;
-    } else if (c < 0x7ffffff) {
+    } else if (c < 0x80000000) {
         fbyte = (char)(c >> 30) | 0xFC;
         parts = 5;
     } else  {
-- 
2.43.0


From f96aba6c3b1cad81757197ff27abbbc8acd164f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 05/74] fix: printing the lowest signed integer wrote garbage
 instead of its digits

---
 src/lightspeed/base/text/toString.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/toString.h b/src/lightspeed/base/text/toString.h
index 4e4be41..6dc0775 100644
--- a/src/lightspeed/base/text/toString.h
+++ b/src/lightspeed/base/text/toString.h
@@ -84,7 +84,10 @@ namespace LightSpeed {
 			else {
 				if (val < 0) {
 					this->buffer.write(ChT('-'));
-					this->extract(-val,base,up);
+					//the lowest value has no positive counterpart, split the last digit off first
+					NumType high = -(val / (NumType)base);
+					if (high) this->extract(high,base,up);
+					this->extract(-(val % (NumType)base),base,up);
 				} else {
 					this->extract(val,base,up);
 				}
-- 
2.43.0


From ab9839f497ac059e4ef29d0906a7ec04633a2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 06/74] fix: Deque gave up its elements for an endless loop
 when a move threw during growth

---
 src/lightspeed/base/containers/deque.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 2b56a32..8814af9 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -189,7 +189,7 @@ namespace LightSpeed {
 				}
 			}
 			~MoveOp() {
-				if (i < count) for (natural j = 0; j < i; i++) {
+				if (i < count) for (natural j = 0; j < i; j++) {
 					natural srcIndex = (offset + j) % wrap;
 					MoveObject<T>::doMove(newPos + j, oldPos + srcIndex);
 				}
-- 
2.43.0


From 9247c79f2dda77c500c0a13ed39bfb92891780ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 07/74] fix: Deque::pushBack into an empty queue left bogus
 elements behind when construction threw

---
 src/lightspeed/base/containers/deque.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 8814af9..bb3e1b9 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -82,9 +82,9 @@ namespace LightSpeed {
 	{
 		if (isFull()) tryExpand();
 		natural memSz = memBlock.getSize();
-		if (head == 0) head = memSz;
 		natural at = (tail + memSz - 1) % memSz;
 		val.construct(memBlock.getBase() + at);
+		if (head == 0) head = memSz;
 		tail = at;
 
 	}
-- 
2.43.0


From 0c21c141536d5bc37690a33a43465c014736755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 08/74] fix: AutoArray::erase overflowed when asked to erase
 everything up to the end

---
 src/lightspeed/base/containers/autoArray.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index abbf795..7accf82 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -170,7 +170,7 @@ void AutoArrayT<T,Alloc>::erase(natural at, natural count) {
     if (at > usedSz) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
     }
-	if (at+count > usedSz) count = usedSz - at;
+	if (count > usedSz - at) count = usedSz - at;
 	if (count) {
 		destruct<T>(allocBk.getBase()+at,count);
 		unreserveAt(at,count);
-- 
2.43.0


From 06dcac61b8127e937bfc08388b625735ecb6dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 09/74] fix: AutoArray lost its contents when assigned to
 itself

---
 src/lightspeed/base/containers/autoArray.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 7accf82..b647943 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -226,6 +226,7 @@ AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc> &AutoArrayT<T,Alloc>::operator=(const AutoArrayT &arr) {
+    if (&arr == this) return *this;
     clear();
     natural sz = arr.length();
     if (sz > 0) {
-- 
2.43.0


From 87dc95f17c1170e5a9a125468428b173aa0ab6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 10/74] fix: AutoArray::insert destroyed the items behind when
 inserting nothing or when moving an item threw

---
 src/lightspeed/base/containers/autoArray.tcc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index b647943..6d0ceea 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -192,14 +192,12 @@ void AutoArrayT<T,Alloc>::clear() {
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::reserveAt(natural pos, natural count) {
 
+	//nothing to move (and items must not be moved over themselves)
+	if (count == 0) return;
 	//add space for new items
 	this->addExtra(count);
-	try {
-		//move items at position
-		move(allocBk.getBase()+pos,usedSz - pos,allocBk.getBase()+pos+count);
-	} catch (...) {
-
-	}
+	//move items at position
+	move(allocBk.getBase()+pos,usedSz - pos,allocBk.getBase()+pos+count);
 	//update size of array
 	usedSz+=count;
 }
-- 
2.43.0


From adc20da5d3c7661cf384fdfa0e705589ab63e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 11/74] fix: AutoArray::append of the array to itself never
 ended

---
 src/lightspeed/base/containers/autoArray.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 6d0ceea..2030f45 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -267,9 +267,10 @@ void AutoArrayT<T,Alloc>::swap(AutoArrayT<T,Alloc> &other) {
 template<typename T, typename Alloc>
 template<typename A, typename B>
 void AutoArrayT<T,Alloc>::append(const ArrayT<A,B> &arr) {
-    addExtra(arr.length());
+    natural count = arr.length(); //count first, array can be appended to itself
+    addExtra(count);
     typename ArrayT<A,B>::Iterator iter = arr.getFwIter();
-    while (iter.hasItems()) {
+    while (count-- && iter.hasItems()) {
         add(iter.getNext());
     }
 }
-- 
2.43.0


From baad9f3dacd1dd7cb9790474263557a8ee98f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 12/74] fix: AutoArray read released or moved storage when an
 item of the array itself was added or inserted

---
 src/lightspeed/base/containers/autoArray.h   |  2 ++
 src/lightspeed/base/containers/autoArray.tcc | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/autoArray.h b/src/lightspeed/base/containers/autoArray.h
index f99745d..e24fe46 100644
--- a/src/lightspeed/base/containers/autoArray.h
+++ b/src/lightspeed/base/containers/autoArray.h
@@ -297,6 +297,8 @@ namespace LightSpeed {
 
         
 
+        ///Index of the item in this array, or naturalNull if it is not part of it
+        natural ownIndex(const T &item) const;
         void reserveAt(natural pos, natural count);
         void unreserveAt(natural pos, natural count);
 
diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 2030f45..72ba2a0 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -75,6 +75,12 @@ void AutoArrayT<T,Alloc>::freeExtra() {
 
 
 
+template<typename T, typename Alloc>
+natural AutoArrayT<T,Alloc>::ownIndex(const T &item) const {
+	const T *base = allocBk.getBase();
+	return &item >= base && &item < base + usedSz?&item - base:naturalNull;
+}
+
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::reserve(natural items) {
 	if (items > usedSz) addExtra(items - usedSz);
@@ -82,8 +88,9 @@ void AutoArrayT<T,Alloc>::reserve(natural items) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item) {
+	natural own = ownIndex(item);
 	addExtra(1);
-	new((void *)(allocBk.getBase()+usedSz)) T(item);
+	new((void *)(allocBk.getBase()+usedSz)) T(own < usedSz?allocBk.getBase()[own]:item);
 	++usedSz;
 
 }
@@ -91,9 +98,10 @@ void AutoArrayT<T,Alloc>::add(const T &item) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item, natural count) {
+	natural own = ownIndex(item);
 	addExtra(count);
 	for (natural i = 0; i < count; i++) {
-    	new((void *)(allocBk.getBase()+usedSz)) T(item);
+    	new((void *)(allocBk.getBase()+usedSz)) T(own < usedSz?allocBk.getBase()[own]:item);
     	++usedSz;
 	}
 }
@@ -125,8 +133,10 @@ void AutoArrayT<T,Alloc>::insert(natural at, const T &init, natural count) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
 	if (at == usedSz)
 		return add(init, count);
+	natural own = ownIndex(init);
+	if (own < usedSz && own >= at) own += count;
 	WriteInsertIter writ(*this,at,count);
-	while (count--) writ.write(init);
+	while (count--) writ.write(own < usedSz?allocBk.getBase()[own]:init);
 }
 
 template<typename T, typename Alloc>
-- 
2.43.0


From 8cfc85149c03078b26a3edaf21106fcaf3c4c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 13/74] fix: ObjManipPOD::construct initialized the first item
 only

---
 src/lightspeed/base/objmanip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/objmanip.h b/src/lightspeed/base/objmanip.h
index 1c4efca..038e162 100644
--- a/src/lightspeed/base/objmanip.h
+++ b/src/lightspeed/base/objmanip.h
@@ -361,7 +361,7 @@ namespace LightSpeed {
 
 		static T * construct(void *ptr, natural count, const T &src) {
 			for (natural i = 0; i < count ; i++)
-				copyOne(&src,reinterpret_cast<T *>(ptr));
+				copyOne(&src,reinterpret_cast<T *>(ptr)+i);
 			return reinterpret_cast<T *>(ptr);
 		}
 
-- 
2.43.0


From 203747d945392ab60cbad7a6f969fdbe08be901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 14/74] fix: AVLTree::insert of a node read the optional flag
 instead of its pointer

---
 src/lightspeed/base/containers/avltree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e3784ae..5f4affe 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -207,11 +207,11 @@ namespace LightSpeed {
 			bool done = false;
 			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done,&itr);
 			if (newroot == 0) {
-				if (*exist) *exist = true;
+				if (exist) *exist = true;
 			} else {
 				tree = newroot;
 				count++;
-				if (*exist) *exist = false;
+				if (exist) *exist = false;
 			}
 			return Iterator(itr);
 		}
-- 
2.43.0


From 01d3abac79f2523f66efcdfc4d0b2d332d4105f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 15/74] fix: the iterator returned by inserting into a tree
 pointed to a wrong path after a double rotation

---
 src/lightspeed/base/containers/avltree.h     | 6 +++---
 src/lightspeed/base/containers/avltreenode.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 5f4affe..e570efd 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -203,9 +203,8 @@ namespace LightSpeed {
 		 * @return iterator, where item has been placed
 		 */
 		Iterator insert(Node *nd, bool *exist = 0) {
-			typename Node::Iterator itr;
 			bool done = false;
-			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done,&itr);
+			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done);
 			if (newroot == 0) {
 				if (exist) *exist = true;
 			} else {
@@ -213,7 +212,8 @@ namespace LightSpeed {
 				count++;
 				if (exist) *exist = false;
 			}
-			return Iterator(itr);
+			//balancing changes the path, so it has to be searched after the insertion
+			return Iterator(cmpOper,tree,nd,Direction::forward);
 		}
 
 
diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index 6fc84a7..659ffc1 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -541,11 +541,11 @@ public:
 
 
 	Iterator insert(AvlTreeNode<T, LinkT> *nd, bool *exists = 0) {
-		Iterator out;
-		AvlTreeNode<T, LinkT> *x = tree->insert(order,nd,&out);
+		AvlTreeNode<T, LinkT> *x = tree->insert(order,nd);
 		if (exists) *exists = x == 0;
 		if (x) {tree = x; count++;}
-		return out;
+		//balancing changes the path, so it has to be searched after the insertion
+		return Iterator(order,tree,nd,Direction::forward);
 	}
 
 	AvlTreeNode<T, LinkT> *find(const AvlTreeNode<T, LinkT> &nd) const {
-- 
2.43.0


From f289ab228ab2633e21f8b149ac56f41d819f0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 16/74] fix: AvlTreeBasic lost the count of nodes when removing
 by iterator and when clearing

---
 src/lightspeed/base/containers/avltreenode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index 659ffc1..323e6db 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -570,7 +570,7 @@ public:
 		bool done = false;
 		AvlTreeNode<T, LinkT> *nd = iter.peek();
 		tree = static_cast<AvlTreeNode<T, LinkT> *>(tree->remove(iter,done));
-		if (done) count--;
+		count--;
 		return nd;
 	}
 
@@ -583,6 +583,7 @@ public:
 		if (tree) {
 			tree->clear(eraser);
 			tree = 0;
+			count = 0;
 		}
 	}
 
-- 
2.43.0


From 487d10e252b086dea403eaefdb49631b36997924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 17/74] fix: a tree assigned to itself lost its contents

---
 src/lightspeed/base/containers/avltree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e570efd..13831b3 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -128,6 +128,7 @@ namespace LightSpeed {
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
+			if (&other == this) return *this;
 			clear();
 			insert(other);
 			return *this;
-- 
2.43.0


From d2f6cbf8bf28d76c863163a8a5c7608e3c7764c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 18/74] fix: RefCntPtr read a destroyed pointer when assigned
 from a member of the object it releases

---
 src/lightspeed/base/memory/refCntPtr.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 15b7cd7..11cf9b9 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -149,9 +149,11 @@ namespace LightSpeed {
          */
         RefCntPtr &operator=(const RefCntPtr &other) {
         	Alloc::operator=(other);
+        	//other can be a part of the object being released
+        	T *newptr = other.ptr;
         	other.manualAddRef();
         	releasePtr();
-        	this->ptr = other.ptr;
+        	this->ptr = newptr;
             return *this;
         }
 
@@ -164,9 +166,11 @@ namespace LightSpeed {
 		}
 		RefCntPtr &operator=(RefCntPtr &&other) {
 			if (this != &other) {	
-				releasePtr();
-				this->ptr = other.ptr;
+				//other can be a part of the object being released
+				T *newptr = other.ptr;
 				other.ptr = 0;
+				releasePtr();
+				this->ptr = newptr;
 			}
 			return *this;
 		}
-- 
2.43.0


From b3f97328a840b2c009da2a93f272202efcc7fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 19/74] fix: RefCntPtr::attach and create destroyed an object
 which was still shared

---
 src/lightspeed/base/memory/refCntPtr.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 11cf9b9..58d1701 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -256,8 +256,9 @@ namespace LightSpeed {
 
 		///Attaches object to the pointer
 		void attach(T *ptr) {
-		    Super::attach(ptr);
-		    addRefPtr();
+		    if (ptr) ptr->addRef();
+		    releasePtr();
+		    this->ptr = ptr;
 		}
 
 		///Serializing support
@@ -273,12 +274,16 @@ namespace LightSpeed {
 		}
 
 		///Creates new instance using current factory
-		void create() {Super::create();addRefPtr();}
+		void create() {releasePtr();Super::create();addRefPtr();}
 		///Creates new instance using current factory
 		/**
 		 * @param x source instance
 		 */
-		void create(const T &x) {Super::create(x);addRefPtr();}
+		void create(const T &x) {
+			//x can be the object being released
+			RefCntPtr keep(*this);
+			releasePtr();Super::create(x);addRefPtr();
+		}
 
 
 		void clear() {
-- 
2.43.0


From fc581ae34ebe6199725cd2769a8813ac5f107b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 20/74] fix: SharedPtr read a destroyed pointer when assigned
 from a member of the object it releases

---
 src/lightspeed/base/memory/sharedResource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/sharedResource.h b/src/lightspeed/base/memory/sharedResource.h
index 11aaa27..c5388d1 100644
--- a/src/lightspeed/base/memory/sharedResource.h
+++ b/src/lightspeed/base/memory/sharedResource.h
@@ -204,8 +204,9 @@ namespace LightSpeed {
 		T &makeAssign(const T &other) {			
 			if (&other == this) return *static_cast<T *>(this);
 			T *t = static_cast<T *>(this);
+			T tmp(other);	//other can be a part of the object being released
 			t->~T();
-			new(t) T(other);
+			new(t) T(tmp);
 			return *t;
 		}
 
-- 
2.43.0


From 055980827784819c4100b66e2ea61f7c9a1ea44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 21/74] fix: assigning a WeakRefPtr did not move the lock of
 the reference

---
 src/lightspeed/base/memory/weakref.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index e29bf3b..ba0dd44 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -294,6 +294,14 @@ public:
 		:Pointer<T>(other.me.lockInternal()),me(other.me) {}
 
 	~WeakRefPtr() {me.unlockInternal();}
+
+	WeakRefPtr &operator=(const WeakRefPtr &other) {
+		WeakRef<T> old = me;
+		this->ptr = other.me.lockInternal();
+		me = other.me;
+		old.unlockInternal();
+		return *this;
+	}
 protected:
 	WeakRef<T> me;
 };
-- 
2.43.0


From b469dbadb48c2ff392e30a7c65a47e2ee31a4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 22/74] fix: FastLock woke a thread through its sleeping
 object, which could be destroyed already

---
 src/lightspeed/mt/fastlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 3546352..5c2463b 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -92,7 +92,7 @@ public:
 			//find tail of the queue - previous object will be new owner
 			while (p->next != o) p = p->next;
 			//store target thread, setting new owner can make Slot disappear
-			ISleepingObject *ntf = p->notify;
+			RefCntPtr<IThreadSleeper> ntf = p->notify;
 			//write owner to notify next thread - target thread has ownership now!
 			owner = p;
 			//notify new owner - it may sleep (release barrier here)
-- 
2.43.0


From 60ccba76bf8a903ff99aee17db965d5d22f4f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 23/74] fix: MicroLock woke a thread through its sleeping
 object, which could be destroyed already

---
 src/lightspeed/mt/microlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 0e2d01c..80270bd 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -82,7 +82,7 @@ namespace LightSpeed {
 					//find next object in the queue
 					while (k->next != this) k = k -> next;
 					//retrieve notifier - because object on k can vanish after the next command
-					ISleepingObject *n = k->owner;
+					RefCntPtr<IThreadSleeper> n = k->owner;
 					//give ownership to k (see lock() - while (next != 0) )
 					k->next = 0;
 					//notify the thread if it is necessary
-- 
2.43.0


From 895a97d72911b8741fbacb4fab234a3b7a909586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 24/74] fix: FastLockR kept the owner after unlockSaveRecusion,
 so that its thread could take the lock while another one held it

---
 src/lightspeed/mt/fastlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 5c2463b..e56de8f 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -296,6 +296,7 @@ public:
 	natural unlockSaveRecusion() {
 		natural ret = recursiveCount;
 		recursiveCount = 0;
+		ownerThread = 0;
 		FastLock::unlock();
 		return ret;
 	}
@@ -315,6 +316,7 @@ public:
 		if (tryLock) {
 			//call original tryLock - it returns false, when lock is owned
 			if (!FastLock::tryLock()) return false;
+			ownerThread = getCurThreadId();
 		} else {
 			//try to lock
 			lock();
-- 
2.43.0


From dd67331dcca3f18c5859090a05648fb54aff6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 25/74] fix: SpinLock::steal was not atomic, two threads could
 steal the lock

---
 src/lightspeed/mt/spinlock.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/mt/spinlock.h b/src/lightspeed/mt/spinlock.h
index b7adea4..f61650f 100644
--- a/src/lightspeed/mt/spinlock.h
+++ b/src/lightspeed/mt/spinlock.h
@@ -141,12 +141,8 @@ namespace LightSpeed {
 		 * @retval false failed. Object is not probably owned by specified thread
 		 */
 		bool steal(const ThreadId &from) {
-			if (isOwned(from)) {
-				writeRelease(&owner,ThreadId::current().asAtomic());
-				return true;
-			} else {
-				return false;
-			}
+			atomic id = from.asAtomic();
+			return id != 0 && lockCompareExchange(owner,id,ThreadId::current().asAtomic()) == id;
 
 		}
 
-- 
2.43.0


From cfbb01b4ad007ec85bb6842bd6adf20aabbeac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 26/74] fix: Mutex::tryLock did not start the count of
 recursions, the mutex was released too early

---
 src/lightspeed/mt/mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6016ec9..6006a4b 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -64,8 +64,8 @@ bool Mutex::tryLock()
 	atomic me = ThreadId::current().asAtomic();
 	if (lockCompareExchange(owner,0,me) != 0)
 		return false;
-	else
-		return true;
+	recursion = 1;
+	return true;
 }
 
 void Mutex::unlock()
-- 
2.43.0


From 1424c3532a27f414bf4e5ad2071d6cb92c7e2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 27/74] fix: LevelLock never forgot the bottom of its queue,
 after a contention every lock waited for ever

---
 src/lightspeed/mt/rwlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index e180c50..2e89f02 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -173,6 +173,8 @@ public:
 		curLevel = s->level;
 		//remove from the queue
 		qtop = qtop->next;
+		//the last one has left the queue
+		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
 		//mark slot signaled
-- 
2.43.0


From 7da769dd802181ebad20a56db4f4f9260fcd56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 28/74] fix: LevelLock::cancelAsync left the bottom of the
 queue pointing to the removed slot

---
 src/lightspeed/mt/rwlock.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 2e89f02..443a6cb 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -116,10 +116,15 @@ public:
 
 			if (!s.signaled) {
 				Slot *q = qtop;
-				if (q == &s) qtop = q->next;
-				else {
+				if (q == &s) {
+					qtop = q->next;
+					if (qtop == 0) qbot = 0;
+				} else {
 					while (q && q->next != &s) q = q ->next;
-					if (q->next == &s) q->next =  s.next;
+					if (q) {
+						q->next =  s.next;
+						if (qbot == &s) qbot = q;
+					}
 				}
 			}
 		}
-- 
2.43.0


From a938a08dcb3d55e785b79bdedaa6e39a1f1d6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 29/74] fix: LevelLock read a slot which its thread could have
 destroyed already

---
 src/lightspeed/mt/rwlock.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 443a6cb..d16af14 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -182,10 +182,12 @@ public:
 		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
+		//slot can disappear once it is signaled
+		ISleepingObject *n = s->notify;
 		//mark slot signaled
 		s->signaled = true;
 		//wakeup thread
-		s->notify->wakeUp();
+		n->wakeUp();
 	}
 
 	atomicValue getLevel() const {
-- 
2.43.0


From dbfc151f7d84d2b9eed90ae71ebbe9eaca8b70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 30/74] fix: a lock of Semaphore which was given up left its
 slot in the queue

---
 src/lightspeed/mt/semaphore.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index 634e98d..f505987 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -35,33 +35,21 @@ namespace LightSpeed {
 		bool lock(SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,nil,md)) {
-				return false;
-			} else {
-				return true;
-			}
+			return SyncPt::wait(slot,nil,md) || !SyncPt::remove(slot);
 		}
 
 		///lock semaphore and specify timeout and condition
 		bool lock(const Timeout &tm, SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm,md)) {
-				return false;
-			} else {
-				return true;
-			}
+			return SyncPt::wait(slot,tm,md) || !SyncPt::remove(slot);
 		}
 
 		///lock semaphore and specify timeout
 		bool lock(const Timeout &tm) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm)) {
-				return false;
-			} else {
-				return true;
-			}
+			return SyncPt::wait(slot,tm) || !SyncPt::remove(slot);
 		}
 
 		///call to unlock semaphore
-- 
2.43.0


From c66bf8b800c8dba86f3c0445af3c431a1e8e0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 31/74] fix: FastLock::Async waited for ever when the lock was
 free

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index e56de8f..ec051d7 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -143,7 +143,8 @@ public:
 		Slot sl;
 	public:
 		Async(FastLock &lk):lk(lk),sl(getCurThreadSleepingObj()) {
-			lk.addToQueue(&sl);
+			//nobody else sets the owner when the queue has been empty
+			if (!lk.addToQueue(&sl)) lk.owner = &sl;
 		}
 		~Async() {
 			while (lk.owner != &sl) threadHalt();
-- 
2.43.0


From 2bfef971d3f2eb149b5f52b67d6bb9c7b9cdeb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 32/74] fix: MicroLock lost the ownership when the lock was
 passed right after the thread had been enqueued

---
 src/lightspeed/mt/microlock.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 80270bd..edfb79d 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -55,14 +55,16 @@ namespace LightSpeed {
 			//set owner to current sleeping object
 			owner = getCurThreadSleepingObj();
 
+			//expected top of the queue (next can be changed by unlocking thread once this object is enqueued)
+			MicroLockData *top = 0;
 			//try to lock the lock, but if it is already locked, k will not NULL
-			MicroLockData *k = lockCompareExchangePtr<MicroLockData>(&lk.owner,0,this);
+			MicroLockData *k = lockCompareExchangePtr<MicroLockData>(&lk.owner,top,this);
 			//test result of k
-			while (k != next) {
+			while (k != top) {
 				//update next to reflect reality
-				next = k;
+				next = top = k;
 				//accept reality and try to enqueue self to the queue
-				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,next,this);
+				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,top,this);
 			}
 			//wait until next is equal zero
 			while (next != 0) {
-- 
2.43.0


From ab152f73b0bedeafad2238a1d3ee484b11824a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 33/74] fix: SmallAlloc released the replaced block of another
 allocator by operator delete

---
 src/lightspeed/base/memory/smallAlloc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/smallAlloc.h b/src/lightspeed/base/memory/smallAlloc.h
index 9fd4007..6db9ce2 100644
--- a/src/lightspeed/base/memory/smallAlloc.h
+++ b/src/lightspeed/base/memory/smallAlloc.h
@@ -61,7 +61,8 @@ namespace LightSpeed {
 			bool move(AllocatedMemory &other) {
 				if (isLocal()) return false;
 				if (!other.isLocal()) {
-					operator delete(other.ptr);
+					if (other.alloc) other.alloc->dealloc(other.ptr,other.size*sizeof(T));
+					else operator delete(other.ptr);
 				}
 				other.ptr = ptr;
 				other.size = size;
-- 
2.43.0


From a833916159733197c9fa0dd97a0485cc843cfcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 34/74] fix: SmallAlloc left the block of an empty allocation
 uninitialised

---
 src/lightspeed/base/memory/smallAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/smallAlloc.h b/src/lightspeed/base/memory/smallAlloc.h
index 6db9ce2..b352339 100644
--- a/src/lightspeed/base/memory/smallAlloc.h
+++ b/src/lightspeed/base/memory/smallAlloc.h
@@ -85,7 +85,7 @@ namespace LightSpeed {
 			}
 
 			AllocatedMemory(const SmallAlloc<cnt> &alloc):alloc(alloc.alloc) {
-
+				allocMem(0);
 			}
 
 
-- 
2.43.0


From eb9d238deff65aa555622c11042895c943991e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 35/74] fix: AllocCluster computed the index of the released
 block from the unrounded size

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index c018337..beef146 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -59,7 +59,7 @@ void AllocCluster::dealloc( void *ptr, natural sz )
 	natural bksize = objSize2bksize(sz);
 	if (!isMyPtr(ptr,bksize)) throw InvalidPointerException(THISLOCATION,ptr);
 	bool wasFull = isFull();
-	makeDealloc(ptr,sz);
+	makeDealloc(ptr,bksize);
 	if (wasFull || isEmpty())
 		master->onDealloc(this,wasFull);
 }
-- 
2.43.0


From 6c779aa62b6afda35d5f62cd4f761304938e062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 36/74] fix: cluster allocator divided by zero for an
 allocation of zero bytes

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index beef146..920bc21 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -34,6 +34,7 @@ AllocCluster * AllocCluster::create( IRuntimeAlloc &alloc, IMaster *cb, byte cou
 natural AllocCluster::objSize2bksize( natural objSize )
 {
 	natural fs = sizeof(void *);
+	if (objSize == 0) objSize = 1;
 	while (objSize < fs) fs>>=1;
 	fs--;
 	return (objSize + fs) & (~fs);
-- 
2.43.0


From b69598aedbc5e7b387f53c7ba5d67981269d8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 37/74] fix: copy of LinkedList was in the reverse order

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1d405ac..e991a82 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -107,7 +107,7 @@ namespace LightSpeed {
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
 			for (Iterator i = other.getFwIter();i.hasItems();)
-				insertFirst(i.getNext());
+				add(i.getNext());
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
-- 
2.43.0


From 807275bc9daa3152db899f7fed2d682993d1ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 38/74] fix: swap of LinkedList mixed nodes of different
 allocators

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index e991a82..a5aeb11 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -120,6 +120,7 @@ namespace LightSpeed {
 		void swap(LinkedList &other) {
 			std::swap(first,other.first);
 			std::swap(last,other.last);
+			std::swap(fact,other.fact);
 		}
 
 		///assignment operator
-- 
2.43.0


From 6c85a8cd4fb2aea283bfdbafef042e0e0fbc0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:08 +0000
Subject: [PATCH 39/74] fix: assignment of LinkedList to itself lost all items

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index a5aeb11..dde1588 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -125,6 +125,7 @@ namespace LightSpeed {
 
 		///assignment operator
 		LinkedList &operator=(const LinkedList &other) {
+			if (this == &other) return *this;
 			clear();
 			for (Iterator i = other.getFwIter();i.hasItems();)
 				add(i.getNext());
-- 
2.43.0


From b40b72a145c6fa4c17f63fb88e1afb537cb780f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 40/74] fix: iterators of inserted LinkedList items referred
 the first item

---
 src/lightspeed/base/containers/linkedList.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index dde1588..1da9442 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -200,7 +200,7 @@ namespace LightSpeed {
 			item->next = const_cast<ListItem *>(iter.cur->next);
 			const_cast<ListItem *>(iter.cur)->next = item;
 			if (iter.cur == last) last = item;
-			return Iterator(item);
+			return Iterator(item,iter.cur);
 		}
 
 		///Inserts new node as before the node pointed by the iterator
@@ -213,22 +213,24 @@ namespace LightSpeed {
 			if (!iter.hasItems()) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 			if (iter.prev == 0) return insertFirst(item);
 
+			const ListItem *prev = iter.prev;
 			item->next = const_cast<ListItem *>(iter.cur);
-			const_cast<ListItem *>(iter.prev)->next = item;
+			const_cast<ListItem *>(prev)->next = item;
 			const_cast<Iterator &>(iter).prev = item;
-			return Iterator(item);
+			return Iterator(item,prev);
 		}
 
 
 		///Appends node
 		Iterator add(ListItem *x) {
+			const ListItem *prev = last;
 			x->next = 0;
 			if (last == 0) first = last = x;
 			else {
 				last->next = x;
 				last = x;
 			}
-			return Iterator(x);
+			return Iterator(x,prev);
 		}
 
 		///Removes node and returs it
-- 
2.43.0


From 228f8bffb0f25f6ffa9fa9e6b59a35619286ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 41/74] fix: removal of the last item of LinkedList left the
 pointer to the removed node

---
 src/lightspeed/base/containers/linkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1da9442..3cf8ac2 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -256,7 +256,9 @@ namespace LightSpeed {
 			if (iter.prev == 0) return removeFirst();
 			ListItem *prv = const_cast<ListItem *>(iter.prev);
 			ListItem *ret = const_cast<ListItem *>(iter.cur);
+			if (ret == 0) return 0;
 			prv->next = ret->next;
+			if (ret == last) last = prv;
 			ret->next = 0;
 			return ret;
 		}
-- 
2.43.0


From a2055b9d6bc2fa2ad531ac3c8c1d6df00c974e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 42/74] fix: getLast of a constant LinkedList returned the
 first item

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 3cf8ac2..fe41c00 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -283,7 +283,7 @@ namespace LightSpeed {
 
 		///Retrieves last item
 		const T &getLast() const {
-			if (last) return first->value;
+			if (last) return last->value;
 			else throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 			throw;
 		}
-- 
2.43.0


From 98d9981d3aa275919053397f6db429be52aee484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 43/74] fix: HeapSort::pop of an inner item broke the heap

---
 src/lightspeed/base/containers/sort.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/sort.tcc b/src/lightspeed/base/containers/sort.tcc
index 09d8978..3833692 100644
--- a/src/lightspeed/base/containers/sort.tcc
+++ b/src/lightspeed/base/containers/sort.tcc
@@ -71,7 +71,13 @@ bool HeapSort<Container,Cmp>::pop(natural at) {
         heapSize--;
         if (heapSize > at) {
             std::swap(cont(at),cont(heapSize));
-            shiftDown();
+            natural child = at;
+            while (child > 0 && isLess(cont[(child - 1) / 2],cont[child])) {
+                natural parent = (child - 1) / 2;
+                std::swap(cont(parent),cont(child));
+                child = parent;
+            }
+            shiftDown(child);
         }
         return true;
     } else {
-- 
2.43.0


From 2fad7c1e415c1480420d54cf5e6f2dc8856fac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 44/74] fix: WriteBuffer lost or repeated items after a partial
 write

---
 src/lightspeed/base/containers/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/buffer.h b/src/lightspeed/base/containers/buffer.h
index 9316498..918029b 100644
--- a/src/lightspeed/base/containers/buffer.h
+++ b/src/lightspeed/base/containers/buffer.h
@@ -415,7 +415,7 @@ namespace LightSpeed {
 	            while (rdpos < wrpos) {
 	                buffArr(x++) = buffArr[rdpos++];
 	            }
-	            wrpos -= x;
+	            wrpos = x;
 	            rdpos = 0;
 	        }
 	    }
-- 
2.43.0


From 8b66c6138b6335b16ce30370e42a6c934f5713cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 45/74] fix: ReadBuffer::peek(n) ignored the read position and
 never ended at the end of the stream

---
 src/lightspeed/base/containers/buffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/buffer.h b/src/lightspeed/base/containers/buffer.h
index 918029b..42e9d66 100644
--- a/src/lightspeed/base/containers/buffer.h
+++ b/src/lightspeed/base/containers/buffer.h
@@ -466,9 +466,12 @@ namespace LightSpeed {
         if (n >= buffArr.size()) 
             throw IteratorNoMoreItems(THISLOCATION,typeid(ItemT));
         while (n >= getBufferRemain()) {
+            natural remain = getBufferRemain();
             load();
+            if (getBufferRemain() == remain)
+                throw IteratorNoMoreItems(THISLOCATION,typeid(ItemT));
         }
-        return buffArr.at(n);        
+        return buffArr.at(rdpos + n);
     }
 
 }
-- 
2.43.0


From f66dbdaee0b524eaaff02f2c864421fbf468d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 46/74] fix: rational did not normalize negative numbers
 correctly

---
 src/lightspeed/base/rational.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/rational.h b/src/lightspeed/base/rational.h
index 45877ee..ee32389 100644
--- a/src/lightspeed/base/rational.h
+++ b/src/lightspeed/base/rational.h
@@ -376,7 +376,8 @@ namespace LightSpeed {
 		void _normalize() {
 			natural curgcd = _gcd();
 			while (curgcd > 1) {
-				n /= curgcd;
+				if (n < 0) n = -(integer)((0 - (natural)n) / curgcd);
+				else n = (integer)((natural)n / curgcd);
 				d /= curgcd;
 				curgcd = _gcd();
 			}
-- 
2.43.0


From f800120a9898132d305eebd9d3eb483380bc7001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 47/74] fix: floor and ceil of a negative rational number were
 wrong

---
 src/lightspeed/base/rational.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/base/rational.h b/src/lightspeed/base/rational.h
index ee32389..3a70295 100644
--- a/src/lightspeed/base/rational.h
+++ b/src/lightspeed/base/rational.h
@@ -293,10 +293,8 @@ namespace LightSpeed {
 		 * example: rational(11,4).floor()  = 2
 		 */
 		integer floor() const {
-			integer intr = n / d;
-			integer frac = n % d;
-			if (frac < 0) return intr-1;
-			else return intr;
+			if (n < 0) return -1-(integer)((0 - (natural)n - 1) / d);
+			else return (integer)((natural)n / d);
 		}
 
 		///calculates smallest integer number greater or equal to current rational number
@@ -306,10 +304,8 @@ namespace LightSpeed {
 		 * example: rational(11,4).ceil()  = 3
 		 */
 		integer ceil() const {
-			integer intr = n / d;
-			integer frac = n % d;
-			if (frac > 0) return intr+1;
-			else return intr;
+			if (n > 0) return (integer)(((natural)n - 1) / d) + 1;
+			else return -(integer)((0 - (natural)n) / d);
 		}
 
 		///calculates nearest integer
-- 
2.43.0


From e9ef8663cae85bdcd237f685b6a1763443f3f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 48/74] fix: remainder of rational numbers was wrong for a
 negative integer quotient

---
 src/lightspeed/base/rational.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/rational.h b/src/lightspeed/base/rational.h
index 3a70295..cb205ea 100644
--- a/src/lightspeed/base/rational.h
+++ b/src/lightspeed/base/rational.h
@@ -228,8 +228,8 @@ namespace LightSpeed {
 		 * @result remainder of division
 		 */
 		rational operator%(const rational &other) const {
-			integer subRes = ((*this) / other).floor();
-			if (subRes < 0) subRes++;
+			rational quot = (*this) / other;
+			integer subRes = quot.n < 0?quot.ceil():quot.floor();
 			rational mult = rational(subRes) * other;
 			return (*this) - mult;
 
-- 
2.43.0


From f8e04a70e942eb6b5d78327d760af846f70ee81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 49/74] fix: comparison of rational numbers overflowed although
 both products fit

---
 src/lightspeed/base/rational.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/rational.h b/src/lightspeed/base/rational.h
index cb205ea..55975c7 100644
--- a/src/lightspeed/base/rational.h
+++ b/src/lightspeed/base/rational.h
@@ -255,7 +255,7 @@ namespace LightSpeed {
 		 * @retval this is not less than other
 		 */
 		bool lessThan(const rational &other) const {
-			return (n*(integer)other.d - other.n * (integer)d) < 0;
+			return n*(integer)other.d < other.n * (integer)d;
 		}
 
 
-- 
2.43.0


From 9f6334c0db7bf3835017483030803860336fb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 50/74] fix: power of a rational number returned a wrong value

---
 src/lightspeed/base/rational.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/rational.h b/src/lightspeed/base/rational.h
index 55975c7..61418e8 100644
--- a/src/lightspeed/base/rational.h
+++ b/src/lightspeed/base/rational.h
@@ -346,7 +346,7 @@ namespace LightSpeed {
 				cur *= cur;
 				expo >>= 1;
 			}
-			return cur;
+			return acc;
 		}
 
 
-- 
2.43.0


From 866ca54b8545e84590d26b5d3f90b875225b0345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 51/74] fix: flush of the base64 decoder gave a wrong count of
 bytes for an unpadded tail

---
 src/lightspeed/utils/base64.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.tcc b/src/lightspeed/utils/base64.tcc
index 8f43dd9..457a973 100644
--- a/src/lightspeed/utils/base64.tcc
+++ b/src/lightspeed/utils/base64.tcc
@@ -145,7 +145,7 @@ Base64DecoderT<Char,Bin>::Base64DecoderT():buffer(0),cycle(0),eos(7) {
 template<typename Char, typename Bin>
 void Base64DecoderT<Char,Bin>::flush() {
 	if (cycle < 4 && cycle > 0) {
-		eos = 7 - cycle;
+		eos = cycle + 3;
 		cycle = 4;
 	}
 }
-- 
2.43.0


From 8cee0fc7cacf522f5899ac8ad76cd8c8bb09c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 52/74] fix: block operations of the filtered iterators stopped
 and continued the other way round

---
 src/lightspeed/base/iter/iteratorFilter.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/iter/iteratorFilter.tcc b/src/lightspeed/base/iter/iteratorFilter.tcc
index 79809b1..0118740 100644
--- a/src/lightspeed/base/iter/iteratorFilter.tcc
+++ b/src/lightspeed/base/iter/iteratorFilter.tcc
@@ -137,7 +137,7 @@ namespace LightSpeed {
     	if (buffer.length() == 0) return 0;
     	natural pos = 0;
     	if (fetched == 1) {
-    		buffer[fetched] = getNext();
+    		buffer[0] = getNext();
     		pos+=1;
     	}
     	do {
@@ -147,7 +147,7 @@ namespace LightSpeed {
     		natural c = flt.blockOutput(buffer.offset(pos).ref());
     		pos+=c;
 
-    	} while (!readAll && pos < buffer.length());
+    	} while (readAll && pos < buffer.length());
     	return pos;
     }
 
@@ -163,7 +163,7 @@ namespace LightSpeed {
     		natural c = flt.blockInput(buffer.offset(pos));
     		pos+=c;
 
-    	} while (!writeAll && pos < buffer.length());
+    	} while (writeAll && pos < buffer.length());
     	//this is need to handle 1:1 filters correctly
         if (!flt.needItems()) flushCycle();
     	return pos;
-- 
2.43.0


From c821dff1016395f5744495d06edd4420449f1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 53/74] fix: Date swapped the day and the year of its parts

---
 src/lightspeed/base/datetime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 4442559..274c860 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -31,7 +31,7 @@ namespace LightSpeed {
 			PartsEx() {}
 			PartsEx(integer year, integer month, integer day,
 					integer dayOfWeek, integer dayOfYear)
-				:Parts(day,month,year),dayOfWeek(dayOfWeek),dayOfYear(dayOfYear) {}
+				:Parts(year,month,day),dayOfWeek(dayOfWeek),dayOfYear(dayOfYear) {}
 			PartsEx(const Parts &b,integer dayOfWeek, integer dayOfYear)
 				:Parts(b),dayOfWeek(dayOfWeek),dayOfYear(dayOfYear) {}
 		};
-- 
2.43.0


From e48cec4cad1b02422f5f90597723c61833b0b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 54/74] fix: Time::operator += and -= did nothing

---
 src/lightspeed/base/datetime.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 274c860..8ef2824 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -192,10 +192,12 @@ namespace LightSpeed {
 		}
 
 		Time &operator+=(const Time &r) {
+			*this = *this + r;
 			*this = *this + r;
 			return *this;
 		}
 		Time &operator-=(const Time &r) {
+			*this = *this - r;
 			*this = *this - r;
 			return *this;
 		}
-- 
2.43.0


From 66fcb7febf7776e1143ff37b66d9e65727a0e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 55/74] fix: Time did not carry to the next day at midnight

---
 src/lightspeed/base/datetime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 8ef2824..087dff2 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -212,7 +212,7 @@ namespace LightSpeed {
 		 * @retval true value contains overflow.
 		 * @return false no overflow
 		 */
-		bool carry() const {return value > dayMilis;}
+		bool carry() const {return value >= dayMilis;}
 
 
 		///Clears carry, returns previous carry state
-- 
2.43.0


From 5335c401ac7fc53014fe1301f085e0291fb0a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 56/74] fix: Time::fromUnixTime took seconds for milliseconds

---
 src/lightspeed/base/datetime.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 087dff2..7be29cc 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -240,7 +240,9 @@ namespace LightSpeed {
 		static Time now();
 
 		static Time fromUnixTime(time_t t) {
-			return Time(t % (24*60*60) + 1000);
+			t %= 24*60*60;
+			if (t < 0) t += 24*60*60;
+			return Time(Bin::natural32(t * 1000));
 		}
 
 	protected:
-- 
2.43.0


From 3474affc8dca17fbfa347b5f93e6164f46ad91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 57/74] fix: DateTime::getMiliseconds added seconds

---
 src/lightspeed/base/datetime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 7be29cc..63b587e 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -320,7 +320,7 @@ namespace LightSpeed {
 		natural getHours() const {return t.getHours() + 24*d.getDays();}
 		natural getMinutes() const {return t.getMinutes() + 24*60*d.getDays();}
 		natural getSeconds() const {return t.getSeconds() + 24*60*60*d.getDays();}
-		natural getMiliseconds() const {return t.getSeconds() + 24*60*60*1000*d.getDays();}
+		natural getMiliseconds() const {return t.getMiliseconds() + 24*60*60*1000*d.getDays();}
 
 		DateTime operator+(const DateTime &dt) const {
 			Date dx = d + dt.d;
-- 
2.43.0


From 8784c427e4f346d6f0c9b0fffbac4fd1004855b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 58/74] fix: calendar divided negative numbers as unsigned

---
 src/lightspeed/base/datetime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 83e2849..6c5e084 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -15,7 +15,8 @@ static const integer daysPerMonth[2][12] =
 	};
 
 static integer intDiv(integer val, natural d) {
-	return val / d - (val < 0?1:0);
+	integer q = val / (integer)d;
+	return val % (integer)d < 0?q - 1:q;
 }
 
 static integer intMod(integer val, natural d) {
-- 
2.43.0


From 28c8024ebbfadae41a4df4cc18509aea1c223b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 59/74] fix: Date::dayNumber shifted the date by a wrong length
 of the year

---
 src/lightspeed/base/datetime.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 6c5e084..fbf393f 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -67,8 +67,9 @@ integer Date::dayNumber(integer year, integer month, integer day ) {
 		//choose row from table
 		leapRow = isLeap?1:0;
 
-		//every year has 365 days, leap year has 366
-		integer yearDays = 365 + leapRow;
+		//distance to the same month of the next and of the previous year
+		integer yearDays = 365 + (isLeapYear(month < 2?year:year+1)?1:0);
+		integer prevYearDays = 365 + (isLeapYear(month < 2?year-1:year)?1:0);
 		//is  day outside year range?
 		if (day > yearDays) {
 			//decrease by yearDays
@@ -78,9 +79,9 @@ integer Date::dayNumber(integer year, integer month, integer day ) {
 			//force repeat
 			rep = true;
 			//is day below 1 - yearDays?
-		} else if (day < 1 - yearDays) {
+		} else if (day < 1 - prevYearDays) {
 			//shift whole year
-			day+=yearDays;
+			day+=prevYearDays;
 			//decrease year
 			year--;
 			rep = true;
-- 
2.43.0


From 679c312675eddcd7bfc27052127660e5640c117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 60/74] fix: Date::dateFromDayNumber returned the first day of
 a month as a day after the end of the previous one

---
 src/lightspeed/base/datetime.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index fbf393f..499af3a 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -138,6 +138,11 @@ Date::PartsEx Date::dateFromDayNumber(integer dayNr) {
 		//get dayNumber againg
 		yearNr = daysToYear(year);
 	}
+	//result can be too low for years before the year zero
+	while (daysToYear(year + 1) <= dayNr) {
+		year++;
+		yearNr = daysToYear(year);
+	}
 	//dayOfYear is count of days from the first January
 	integer dayOfYear = dayNr - yearNr;
 	//get leapRow depend on if current year is leap
@@ -147,7 +152,7 @@ Date::PartsEx Date::dateFromDayNumber(integer dayNr) {
 	//prepare month
 	integer month = 0;
 	//find current month and day
-	while (day > daysPerMonth[leapRow][month]) {
+	while (day >= daysPerMonth[leapRow][month]) {
 		day -= daysPerMonth[leapRow][month];
 		month++;
 	}
-- 
2.43.0


From 7e64c7221331ad5ad3ac145a3069a03d0df8c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 61/74] fix: conversion of Date from and to the unix time
 ignored the epoch

---
 src/lightspeed/base/datetime.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 499af3a..e42d33e 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -7,6 +7,7 @@
 namespace LightSpeed {
 
 static const lnatural daySeconds = 3600*24;
+static const integer unixEpochDay = 719528; //day number of 1970/1/1
 
 static const integer daysPerMonth[2][12] =
 	{
@@ -254,12 +255,12 @@ Date & Date::operator +=(const Date & other)
 }
 
 integer Date::unixTimeToDays(time_t t) {
-	return (integer)(((lnatural)(t) / daySeconds));
+	return intDiv((integer)t,daySeconds) + unixEpochDay;
 }
 
 time_t Date::daysToUnixTime(integer d)
 {
-	return (time_t)(((lnatural)(d) * daySeconds));
+	return (time_t)((d - unixEpochDay) * (integer)daySeconds);
 }
 
 Date Date::operator +(const Parts & other) const
-- 
2.43.0


From 1ec9d532b7f930573e7802d23bfac60839198dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 62/74] fix: TimeStamp of a unix time before 1970 was wrong

---
 src/lightspeed/base/timestamp.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.h b/src/lightspeed/base/timestamp.h
index 87db182..c1457e6 100644
--- a/src/lightspeed/base/timestamp.h
+++ b/src/lightspeed/base/timestamp.h
@@ -64,7 +64,7 @@ namespace LightSpeed {
 		 */
 	 
 		static TimeStamp fromUnix(const time_t &unixTime) {
-			return TimeStamp((integer)(unixTime/daySecs),unixTime%daySecs * timeResolution);
+			return fromUnix(unixTime,0);
 		}
 
 		static TimeStamp fromSeconds(natural sec) {
@@ -78,7 +78,10 @@ namespace LightSpeed {
 		 * @return timestamp 
 		 */
 		static TimeStamp fromUnix(const time_t &unixTime, natural millis) {
-			return TimeStamp((integer)(unixTime/daySecs),unixTime%daySecs * timeResolution + millis);
+			integer day = unixTime / (integer)daySecs;
+			integer sec = unixTime % (integer)daySecs;
+			if (sec < 0) {day--;sec += daySecs;}
+			return TimeStamp(day,(natural)sec * timeResolution + millis);
 		}
 
 		///Converts Windows FILETIME to TimeStamp
-- 
2.43.0


From ba612980e47a89ddf3b4de28f10cd3d809278dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 63/74] fix: TimeStamp::intervalMin took 144 minutes for a day

---
 src/lightspeed/base/timestamp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/timestamp.h b/src/lightspeed/base/timestamp.h
index c1457e6..e8a7711 100644
--- a/src/lightspeed/base/timestamp.h
+++ b/src/lightspeed/base/timestamp.h
@@ -227,7 +227,7 @@ namespace LightSpeed {
 			return TimeStamp(sec/daySecs,(sec % daySecs)*timeResolution);
 		}
 		static TimeStamp intervalMin(natural min)  {
-			return TimeStamp(min/144,(min%144)*timeResolution*60);
+			return TimeStamp(min/1440,(min%1440)*timeResolution*60);
 		}
 		static TimeStamp intervalHour(natural hour){
 			return TimeStamp(hour/24,(hour % 24)*timeResolution*60*60);
-- 
2.43.0


From 2d764bf19588537df5fbc221be0545e10d297a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 64/74] fix: time zones east of Greenwich were refused

---
 src/lightspeed/base/timestamp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 5f3fd15..6193b02 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -159,7 +159,7 @@ namespace LightSpeed {
 				TimeStamp ofs = TimeStamp::intervalMin(zoneofsmin);
 				if (zonedir == '-') {
 					res = res + ofs;
-				} else if (zonedir != '+') {
+				} else if (zonedir == '+') {
 					res = res - ofs;
 				} else {
 					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
-- 
2.43.0


From 02231f295aecdc1d1f1245b685f0b3314fe9c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 65/74] fix: length of a HTTP chunk stopped at the first lower
 case digit

---
 src/lightspeed/base/streams/httpc.tcc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 55e5e09..12ab47b 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -525,7 +525,6 @@ namespace LightSpeed {
 			}
 			else if (c >= 'a' && c < ('a' + base - 10)) {
 				n = n * base + c - 'a' + 10;
-				break;
 			}
 			else {
 				break;
-- 
2.43.0


From 1bd5743e1e8d6611e2c9b6abb88eb5f3bb8f7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 66/74] fix: HttpResponse read the next message when the end of
 a chunked body was tested twice

---
 src/lightspeed/base/streams/httpc.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 12ab47b..5785820 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -374,9 +374,10 @@ namespace LightSpeed {
 	template<typename FnInput>
 	bool HttpResponse<FnInput>::openChunk() const
 	{
+		if (eof) return false;
 		natural p = strPool.mark();
 		ConstStrA ln = readLine();
-		while (ln.empty()) {
+		while (ln.empty() && !eof) {
 			ln = readLine();
 		}
 		readLen = parseNumber(ln, 16);
-- 
2.43.0


From 928dc7792adae491e843c2e9a1ab7fafddb59556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 67/74] fix: HttpResponse::open never ended at the end of the
 stream

---
 src/lightspeed/base/streams/httpc.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 5785820..048f0fd 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -250,6 +250,7 @@ namespace LightSpeed {
 
 		StrP hdrline = readLine();
 		while (hdrline.empty()) {
+			if (eof) return naturalNull;
 			strPool.clear();
 			hdrline = readLine();
 		}
-- 
2.43.0


From 73ab3a4d29ae9d51adb38d15f19f487e55aec590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 68/74] fix: chunked HTTP request kept the content length

---
 src/lightspeed/base/streams/httpc.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 048f0fd..3d44e95 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -137,7 +137,7 @@ namespace LightSpeed {
 	{
 		if (body) {
 			addHeader("Transfer-Encoding", "chunked");
-			hdrMap.erase(StrP(ConstStrA("Content-Length	")));
+			hdrMap.erase(StrP(ConstStrA("Content-Length")));
 		}
 
 		sendString(method);
-- 
2.43.0


From 8a2907707aca3f4b6a2b8d77c2ecd33a8f46f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 69/74] fix: TimeStamp of a date before 1970 was wrong

---
 src/lightspeed/base/linux/timestamp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/timestamp.cpp b/src/lightspeed/base/linux/timestamp.cpp
index 7f60157..5f57b55 100644
--- a/src/lightspeed/base/linux/timestamp.cpp
+++ b/src/lightspeed/base/linux/timestamp.cpp
@@ -64,7 +64,7 @@ namespace LightSpeed {
 			time_t r = timegm(&tminfo);
 			if (r == -1) throw ErrNoWithDescException(THISLOCATION, errno, "Failed to create time");
 //			r-=tminfo.tm_gmtoff;
-			return TimeStamp(r/daySecs,(r%daySecs)*1000);
+			return fromUnix(r);
 		}
 	}
 
-- 
2.43.0


From 21fdd2f4524a9e29350b73c3d24dbd6f2decc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 70/74] fix: MsgQueue touched a posted message which may be
 already processed

---
 src/lightspeed/base/actions/msgQueue.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index db64ba6..e1c2a6e 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -117,14 +117,16 @@ void MsgQueue::postMessage(AbstractMsg *msg) {
 	//notify message, that is queued
 	msg->queued(*this);
 	//set next by current top
-	msg->next = newMessages;
-	//atomically set new top
-	while (lockCompareExchangePtr(&newMessages,msg->next.get(),msg) != msg->next.get()) {
+	AbstractMsg *top = newMessages;
+	msg->next = top;
+	//atomically set new top (msg cannot be accessed after that, it can be already processed)
+	while (lockCompareExchangePtr(&newMessages,top,msg) != top) {
 		//if not successfull (current top has been changed meanwhile)
 		//detach next
 		msg->next.detach();
 		//and try new top
-		msg->next = newMessages;
+		top = newMessages;
+		msg->next = top;
 		//try agaiin
 	}
 	lockInc(queueLen);
@@ -138,10 +140,12 @@ void MsgQueue::postPriorityMessage(AbstractMsg *msg) {
 	if (msg == 0 || msg->next != nil) return;
 	//notify message, that is queued
 	msg->queued(*this);
-	msg->next = curQueue;
-	while (lockCompareExchangePtr(&curQueue,msg->next.get(),msg) != msg->next.get()) {
+	AbstractMsg *top = curQueue;
+	msg->next = top;
+	while (lockCompareExchangePtr(&curQueue,top,msg) != top) {
 		msg->next.detach();
-		msg->next = curQueue;
+		top = curQueue;
+		msg->next = top;
 	}
 	lockInc(queueLen);
 	notify();
-- 
2.43.0


From e2fa5a1a16168069a99882b3320d95d007c3860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 71/74] fix: MsgQueue copy constructor left the queue
 uninitialized

---
 src/lightspeed/base/actions/msgQueue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index e1c2a6e..1808874 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -38,19 +38,20 @@ MsgQueue::AbstractMsg *MsgQueue::AbstractMsg::isolate() {
 }
 
 MsgQueue::MsgQueue()
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(StdAlloc::getInstance()) {
 
 }
 
 MsgQueue::MsgQueue(IRuntimeAlloc &rtAllocator)
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(rtAllocator) {
 
 }
 
 MsgQueue::MsgQueue( const MsgQueue &other )
-	:rtAllocator(other.rtAllocator)
+	:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
+	,rtAllocator(other.rtAllocator)
 {
 
 }
-- 
2.43.0


From b38c896a6c0b244c2a279bf13c99e271c34f00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:25 +0000
Subject: [PATCH 72/74] fix: InBlockAlloc compared the count of items with the
 size of the block in bytes

---
 src/lightspeed/base/memory/inBlockAlloc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/inBlockAlloc.h b/src/lightspeed/base/memory/inBlockAlloc.h
index b7e2a12..3a75b5b 100644
--- a/src/lightspeed/base/memory/inBlockAlloc.h
+++ b/src/lightspeed/base/memory/inBlockAlloc.h
@@ -32,7 +32,7 @@ namespace LightSpeed {
 			bool swap(AllocatedMemory &) {return false;}
 			bool move(AllocatedMemory &/*other*/) {return false;}
 			AllocatedMemory(const AllocatedMemory &src, natural count) {
-				if (count > src.cnt)
+				if (count > src.cnt/sizeof(T))
 					throwAllocatorLimitException(THISLOCATION,count,0,typeid(InBlockAlloc));
 				else {
 					addr = src.addr;
@@ -41,7 +41,7 @@ namespace LightSpeed {
 			}
 
 			AllocatedMemory(const InBlockAlloc &alloc, natural count) {
-				if (count > alloc.sz)
+				if (count > alloc.sz/sizeof(T))
 					throwAllocatorLimitException(THISLOCATION,count,alloc.sz,typeid(InBlockAlloc));
 				addr = alloc.addr;
 				cnt = alloc.sz;
-- 
2.43.0


From 960dcba91584a250ab57711f07930eb38a5708d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:25 +0000
Subject: [PATCH 73/74] fix: SList::swapWhenTopIs changed the source even if
 the lists have not been swapped

---
 src/lightspeed/mt/slist.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 14971a3..0af103b 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -174,8 +174,9 @@ namespace LightSpeed {
 		bool swapWhenTopIs(SList &source, T *condition) {
 			atomic x = ptrToCookie(condition,_top);
 			atomic q = lockCompareExchange(_top,x,source._top);
+			if (q != x) return false;
 			source._top = q;
-			return q == x;
+			return true;
 		}
 
 		T *top() const {
-- 
2.43.0


From ce5080973f4c097258d4c389bd0dd185dca0ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:25 +0000
Subject: [PATCH 74/74] fix: SList::empty did not compile

---
 src/lightspeed/mt/slist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 0af103b..6595e2d 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		 
 		
 		bool empty() const {
-			return ptrToCookie(_top) == 0;
+			return cookieToPtr(_top) == 0;
 		}
 
 		///Insert (push) item into list in single thread access
-- 
2.43.0

