From 61499c06bcf84fb4315f59b551cf9a7a8950e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 01/51] fix: Deque destructor destroys the elements still
 stored

---
 include/Lintel/Deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index ba7e61f..e9c7111 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -47,6 +47,7 @@ public:
     }
 
     ~Deque() {
+	clear();
 	allocator.deallocate(deque, q_size);
     }
     typedef Deque<T> mytype;
-- 
2.43.0


From 67146f50cc6014e34aaf062afc871eb1047e0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 02/51] fix: Deque iterator + and += accept negative offsets
 that wrap

---
 include/Lintel/Deque.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index e9c7111..c6fc9bf 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -163,7 +163,8 @@ public:
         /// adds diff and returns the iterator
         iterator operator+(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            return iterator(mydeque, static_cast<size_t>(cur_pos + diff) % mydeque->q_size);
+            return iterator(mydeque, static_cast<size_t>(cur_pos + mydeque->q_size
+                                                         + diff) % mydeque->q_size);
         }
         /// subtracts diff and returns the iterator
         iterator operator-(ptrdiff_t diff) {
@@ -194,7 +195,7 @@ public:
         /// adds diff to the iterator and returns the reference
         iterator &operator+=(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            cur_pos = static_cast<size_t>(cur_pos + diff) % mydeque->q_size;
+            cur_pos = static_cast<size_t>(cur_pos + mydeque->q_size + diff) % mydeque->q_size;
             return *this;
         }
         /// subtracts diff to the iterator and returns the reference
-- 
2.43.0


From 43b01828cc3c3c5022e58fea2a7bc0cac43e89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 03/51] fix: Deque::push_back copies its argument before
 destroying the old elements

---
 include/Lintel/Deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index c6fc9bf..dd302dd 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -270,6 +270,8 @@ private:
     void push_expand(const T &val) {
 	T *new_deque = allocator.allocate(q_size * 2);
 	size_t i = 0;
+	// val may refer to an element of this deque, so copy it before destroying any of them
+	allocator.construct(new_deque + (q_size - 1), val);
 	// copy back to 0 offset
 	if (q_front == 0) {
 	    // special case if it's already 0 offset
@@ -292,7 +294,6 @@ private:
 	INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
                   % i % q_size % q_front % q_back);
 	q_front = 0;
-	allocator.construct(new_deque + i, val);
 	q_back = i + 1;
 	allocator.deallocate(deque, q_size);
 	q_size = q_size * 2;
-- 
2.43.0


From 61e40e9854a6a181fa61aee77be8122e6776ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 04/51] fix: PriorityQueue created without space can grow

---
 include/Lintel/PriorityQueue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 06da055..6d0ad02 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -219,13 +219,15 @@ public:
 private:
     LessImportant lessimportant;
     void double_size() {
-	T *pq_new = new T[size_available * 2];
+	// a queue may have been created without any space
+	uint32_t new_size = size_available > 0 ? size_available * 2 : 1;
+	T *pq_new = new T[new_size];
 	for(unsigned i=0;i<size_available;i++) {
 	    pq_new[i] = pq[i];
 	}
 	delete [] pq;
 	pq = pq_new;
-	size_available = size_available * 2;
+	size_available = new_size;
     }
     uint32_t size_available;
     uint32_t pq_size;
-- 
2.43.0


From e5d8b9a88958033942c9bc91df964bb62becfcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 05/51] fix: PriorityQueue::selfVerify accepts equally
 important elements

---
 include/Lintel/PriorityQueue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 6d0ad02..fb34cc5 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -206,10 +206,13 @@ public:
 	for(uint32_t i = 0; i < pq_size; ++i) {
 	    uint32_t down_left = 2 * i + 1;
 	    if (down_left >= pq_size) break;
-	    SINVARIANT(!lessimportant(pq[i], pq[down_left]));
+	    // equally important elements may be in either order
+	    SINVARIANT(!lessimportant(pq[i], pq[down_left])
+		       || lessimportant(pq[down_left], pq[i]));
 	    uint32_t down_right = down_left + 1;
 	    if (down_right >= pq_size) break;
-	    SINVARIANT(!lessimportant(pq[i], pq[down_right]));
+	    SINVARIANT(!lessimportant(pq[i], pq[down_right])
+		       || lessimportant(pq[down_right], pq[i]));
 	}
     }
 
-- 
2.43.0


From f3e16ba50716300a3ac097ac272703e2d4ec167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 06/51] fix: PriorityQueue::push of an element of the queue
 itself when it has to grow

---
 include/Lintel/PriorityQueue.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index fb34cc5..69d08ab 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -137,8 +137,9 @@ public:
     }
 
     void push(const T &val) {
+	T *old_pq = NULL; // val may be in there, so it stays until val is stored
 	if (pq_size == size_available) {
-	    double_size();
+	    old_pq = double_size();
 	}
 	int end_pos = pq_size;
 	while(end_pos > 0) {
@@ -152,6 +153,7 @@ public:
 	}
 	pq[end_pos] = val;
 	++pq_size;
+	delete [] old_pq;
     }
 
     /// equivalent to this->pop(), this->push(val), but roughly 2x as
@@ -221,16 +223,18 @@ public:
     T *PQ_End() { return pq + pq_size; }
 private:
     LessImportant lessimportant;
-    void double_size() {
+    /// returns the old space, which the caller has to delete
+    T *double_size() {
 	// a queue may have been created without any space
 	uint32_t new_size = size_available > 0 ? size_available * 2 : 1;
 	T *pq_new = new T[new_size];
 	for(unsigned i=0;i<size_available;i++) {
 	    pq_new[i] = pq[i];
 	}
-	delete [] pq;
+	T *old_pq = pq;
 	pq = pq_new;
 	size_available = new_size;
+	return old_pq;
     }
     uint32_t size_available;
     uint32_t pq_size;
-- 
2.43.0


From 0101eb808c6218d184ff9271700a986857710830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 07/51] fix: HashTable::addOrReplace stores the new data when
 the key exists

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 54e5590..f4ea85a 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -125,6 +125,7 @@ public:
 	hte *chain = internal_lookup(data, hashof);
 	if (chain != NULL) {
 	    replaced = true;
+	    chain->data = data;
 	    return &(chain->data);
 	} else {
 	    replaced = false;
-- 
2.43.0


From c5a03194737b6ee0237c0576c2afc932686c5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 08/51] fix: HashTable iterator reset() on a table that has
 become empty gives end()

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index f4ea85a..f14a455 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -329,6 +329,7 @@ private:
 
 	void reset() {
 	    cur_chain = 0;
+	    chain_loc = -1;
 	    findNonemptyChain();
 	}
 	int32_t getCurChain() {
-- 
2.43.0


From 4e5b3f41cdfc782e1193e07d19821059ac0b61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 09/51] fix: ByteBuffer::replace range check wrapped around for
 large offsets

---
 include/Lintel/ByteBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 0cd3075..cc0190f 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -441,7 +441,7 @@ namespace lintel {
 	/// @param src source data for replacing
 	/// @param length length of data for replacing
         void replace(size_t offset, const void *src, size_t length) {
-	    SINVARIANT(offset + length <= readAvailable());
+	    SINVARIANT(length <= readAvailable() && offset <= readAvailable() - length);
 	    memcpy(writeableReadStart() + offset, src, length);
 	}
 
-- 
2.43.0


From 3252d66469ef9380e5430825aa65729489c949be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 10/51] fix: ByteBuffer stream appends to a shared buffer used
 the space of the storage they copy from

---
 include/Lintel/ByteBuffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index cc0190f..64d50c0 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -377,6 +377,7 @@ namespace lintel {
 				   size_t max_size = 128*1024*1024) {
 	    size_t bytes_read = 0;
 
+	    uniqueify(); // before looking at the space available
 	    if (bufferSize() == 0) {
 		resizeBuffer(std::min(static_cast<size_t>(1024), max_size));
 	    }
@@ -413,6 +414,7 @@ namespace lintel {
 	int64_t appendFromStream(std::istream &sin, size_t amount) {
 	    size_t bytes_read = 0;
 
+	    uniqueify(); // before looking at the space available
 	    if (writeAvailable() < amount) {
 		resizeBuffer(bufferSize() - writeAvailable() + amount);
 	    }
-- 
2.43.0


From 58a083dcb2770f8876dc9a9d38533a41fc58f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 11/51] fix: ByteBuffer append and assign of a buffer to itself

---
 include/Lintel/ByteBuffer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 64d50c0..ef43f07 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -342,6 +342,9 @@ namespace lintel {
 	/// append contents of @param buf to this buffer, resizing if necessary.
 	/// @param buf source buffer for append into this buffer
 	void append(const ByteBuffer &buf) {
+	    if (&buf == this) { // make the space first, doing so moves the bytes to be appended
+		resizeBuffer(bufferSize() + readAvailable());
+	    }
 	    append(buf.readStart(), buf.readAvailable());
 	}
 
@@ -487,6 +490,9 @@ namespace lintel {
 	/// Copy the value in @param src into this ByteBuffer,
 	/// overwriting any prior contents.
 	void assign(const ByteBuffer &src) {
+	    if (&src == this) {
+		return;
+	    }
 	    reset();
 	    append(src.readStart(), src.readAvailable());
 	}
-- 
2.43.0


From b165492f25077d3f04f6a6f5b4cd2df4e1aa25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 12/51] fix: encodeBackward must not read before its input when
 more digits are asked for

---
 include/Lintel/Base64.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index b3a178d..e329722 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -170,23 +170,17 @@ namespace lintel {
 	    int32_t out_off;
 	    uint32_t trans_buf = 0;
 	    uint32_t bits = 0;
-	    for(out_off=digits-1, in_off=size-1; 
+	    for(out_off=digits-1, in_off=size; 
 		out_off >= 0; --out_off) {
-		if (bits < 6) {
-		    trans_buf += ((uint32_t)cdata[in_off]) << bits;
+		if (bits < 6 && in_off > 0) {
 		    --in_off;
+		    trans_buf += ((uint32_t)cdata[in_off]) << bits;
 		    bits += 8;
 		}
 		ret[out_off] = translate()[trans_buf & 0x3F];
 		trans_buf >>= 6;
-		bits -= 6;
+		bits = bits < 6 ? 0 : bits - 6;
 	    }
-	    // There may be a few spare bits...
-	    for(; bits > 0 && out_off >= 0; --out_off) {
-		ret[out_off] = translate()[trans_buf & 0x3F];
-		trans_buf >>= 6;
-		bits -= 6;
-	    }	
 	}	
 	
 	static std::string encode(std::string data, int32_t digits) {
-- 
2.43.0


From 8928e4df3f217c08f2ff25b84fd43fdce38834f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 13/51] fix: decode of a byte outside the alphabet must not
 read outside the table or uninitialised memory

---
 include/Lintel/Base64.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index e329722..1495b2a 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -32,7 +32,7 @@ namespace lintel {
 	    if (inverse) {
 		return inverse;
 	    }
-	    inverse = new char[256];
+	    inverse = new char[256]();
 	    for (int8_t i=0; i<64; ++i) {
 		inverse[static_cast<int32_t>(translate()[i])] = 
 		    static_cast<char>(i);
@@ -53,7 +53,7 @@ namespace lintel {
 	    uint32_t bits = 0;
 	    for(size_t in_off = 0;
 		in_off < size && out_off < ret_size; ++in_off) {
-		trans_buf += ((uint32_t)table[(uint32_t)data[in_off]]) << (32-6-bits);
+		trans_buf += ((uint32_t)table[(unsigned char)data[in_off]]) << (32-6-bits);
 		bits += 6;
 		if (bits >= 8) {
 		    ret[out_off] = trans_buf >> (32-8);
-- 
2.43.0


From a2714a447153ecb3f8c9065eeb1c1be2d91e31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 14/51] fix: encode into a buffer must write every digit asked
 for, also after a multiple of three bytes

---
 include/Lintel/Base64.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index 1495b2a..cb65a15 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -151,11 +151,10 @@ namespace lintel {
 		trans_buf <<= 6;
 		bits-=6;
 	    }
-	    // For the spare bits..
-	    for(; bits>0 && out_off < digits; ++out_off) {
+	    // For the spare bits, and zero bits if there are more digits
+	    for(; out_off < digits; ++out_off) {
 		ret[out_off] = translate()[trans_buf >> (32-6)];
 		trans_buf <<=6;
-		bits-=6;
 	    }
 	}
 	
-- 
2.43.0


From 431852e9441ea448cca37817604fa77355867a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 15/51] fix: the number of digits for 256MB and more must not
 overflow

---
 include/Lintel/Base64.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index cb65a15..95cedca 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -120,12 +120,7 @@ namespace lintel {
 	static std::string encode(const void * data, size_t size, 
 				  int32_t digits) {
 	    if (digits==0) {
-		digits = size * 8;
-		if (digits%6==0) {
-		    digits/=6;
-		} else {
-		    digits = digits / 6 + 1;
-		}
+		digits = static_cast<int32_t>((size * 8 + 5) / 6);
 	    }
 	    std::string ret(digits, translate()[0]);
 	    encode(data, size, digits, &ret[0]);
-- 
2.43.0


From c27a168c387cb3796c227eb796bf28adcfde2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 16/51] fix: stringToInteger in base 8 and 16 must refuse a
 number followed by other text

---
 include/Lintel/StringUtil.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/StringUtil.hpp b/include/Lintel/StringUtil.hpp
index f9501cf..1e55d10 100644
--- a/include/Lintel/StringUtil.hpp
+++ b/include/Lintel/StringUtil.hpp
@@ -133,7 +133,7 @@ T stringToInteger(const std::string &str, int base = 10) {
 	    FATAL_ERROR(boost::format("base %d unsupported: 8, 10 or 16 only") % base);
 	    break;
 	}
-	if (iss.fail()) {
+	if (iss.fail() || iss.peek() != std::istringstream::traits_type::eof()) {
 	    FATAL_ERROR(boost::format("error converting '%s' to integer") % str);
 	}
     }
-- 
2.43.0


From 2c6484e9ec0ee368197bd817606c194215395be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 17/51] fix: toCSVform must quote strings with quotes or
 newlines, not only those with commas

---
 src/StringUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 15c69b8..bb83b52 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -228,13 +228,13 @@ string htmlEscapeUnprintable(const string &in) {
 }
 
 // writes a char string in CSV form (as it is accepted by Excel)
-// if the string has commas then we need to use "" around the string
+// if the string has commas, quotes or newlines then we need to use "" around the string
 // if the string has " then we need to double the existent quotes 
 string toCSVform(const string &s) {
     string ret(s);
     int pos = -1; 
 
-    if ((pos = ret.find(",",0)) >= 0){
+    if ((pos = ret.find_first_of(",\"\r\n",0)) >= 0){
 	ret.insert(0,"\"");
 	pos = 1;
 	while ((pos = ret.find("\"",pos)) >= 0){
-- 
2.43.0


From 2a1afb3dd5f10dee9be6969563745d7c4f231199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 18/51] fix: stringToDouble must refuse a number followed by a
 zero byte and other bytes

---
 src/StringUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index bb83b52..0ec83a4 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -331,7 +331,7 @@ double stringToDouble(const string &str) {
     INVARIANT(str.size() > 0, 
 	      "zero length string not valid in conversion to double");
     double ret = strtod(str.c_str(),&endptr);
-    INVARIANT(*endptr == '\0',
+    INVARIANT(endptr == str.c_str() + str.size(),
 	      boost::format("didn't parse all of '%s' as a double") % str);
     return ret;
 }
-- 
2.43.0


From e542a6db1b1ae40190b4ac841fe0617250bcf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 19/51] fix: split and toCSVform must work beyond 2GB

---
 src/StringUtil.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 0ec83a4..34a33be 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -42,10 +42,10 @@ using boost::format;
 
 void split(const string &instr, const string &splitstr, vector<string> &bits) {
     SINVARIANT(splitstr.length() > 0);
-    int startbit = 0;
+    string::size_type startbit = 0;
     while(true) {
-	int endbit = instr.find(splitstr,startbit);
-	if (endbit < 0) {
+	string::size_type endbit = instr.find(splitstr,startbit);
+	if (endbit == string::npos) {
 	    bits.push_back(instr.substr(startbit,instr.length()-startbit));
 	    return;
 	} else {
@@ -232,12 +232,12 @@ string htmlEscapeUnprintable(const string &in) {
 // if the string has " then we need to double the existent quotes 
 string toCSVform(const string &s) {
     string ret(s);
-    int pos = -1; 
+    string::size_type pos = ret.find_first_of(",\"\r\n",0);
 
-    if ((pos = ret.find_first_of(",\"\r\n",0)) >= 0){
+    if (pos != string::npos){
 	ret.insert(0,"\"");
 	pos = 1;
-	while ((pos = ret.find("\"",pos)) >= 0){
+	while ((pos = ret.find("\"",pos)) != string::npos){
 	    ret.insert(pos,"\"");
 	    pos = pos + 2;
 	}
-- 
2.43.0


From fb0914abb0907763f43bcbc2eec78db039a23b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 20/51] fix: Clock::secondsToTfrac carries a fraction that
 rounds up to a whole second

---
 include/Lintel/Clock.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index 3482364..a5c6108 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -203,7 +203,8 @@ public:
 	//             = round(lower * 2^32)
 	//             = round((now - secs) * 2^32) = tmp
 	double tmp = round((seconds - sec_only) * DBL_TFRAC_PER_SECOND);
-	uint32_t tfrac_lower = static_cast<uint32_t>(tmp);
+	// tmp can be 2^32 when the fraction rounds up to the next second
+	uint64_t tfrac_lower = static_cast<uint64_t>(tmp);
 	return (static_cast<uint64_t>(sec_only) << 32) + tfrac_lower;	
     }
 
-- 
2.43.0


From 7e37b16d991dca422fbc0bac12bff521d23822de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 21/51] fix: Clock::secondsToTfrac refuses negative seconds as
 out of bounds

---
 include/Lintel/Clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index a5c6108..5e59980 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -191,7 +191,7 @@ public:
 #define DBL_TFRAC_PER_SECOND 4294967296.0
 
     static Tfrac secondsToTfrac(double seconds) {
-	INVARIANT(seconds < std::numeric_limits<uint32_t>::max(), 
+	INVARIANT(seconds >= 0 && seconds < std::numeric_limits<uint32_t>::max(), 
 		  boost::format("seconds %g out of bounds for conversion")
 		  % seconds);
 	uint32_t sec_only = static_cast<uint32_t>(floor(seconds));
-- 
2.43.0


From 4c3e6715d4d3d45755a2419ffce822b6c614243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 22/51] fix: Clock negates Tfrac values without signed overflow

---
 include/Lintel/Clock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index 5e59980..291ebad 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -255,7 +255,7 @@ public:
 
     // double in seconds
     static double int64TfracToDouble(int64_t in) {
-	return in >= 0 ? TfracToDouble(in) : -TfracToDouble(-in);
+	return in >= 0 ? TfracToDouble(in) : -TfracToDouble(-static_cast<Tfrac>(in));
     }
 
     static struct timeval TfracToStructTimeval(Tfrac in) {
@@ -278,7 +278,7 @@ public:
 	// Tfrac cooked_offset = ...
 	// if (negate) return in-cooked_offset;
 	// else return in+cooked_offset;
-	int64_t cooked_offset = secondsToTfrac(offset);
+	Tfrac cooked_offset = secondsToTfrac(offset); // unsigned, so negation can't overflow
 	if (negate) {
 	    cooked_offset = -cooked_offset;
 	}
-- 
2.43.0


From 2e2c79dfa0526771edb42c322d5ad1ecae8e0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 23/51] fix: StatsSeries frees its arrays with delete[]

---
 src/StatsSeries.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 803963a..4f81f41 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -64,11 +64,11 @@ StatsSeries::StatsSeries(unsigned maxlag_in)
 
 StatsSeries::~StatsSeries()
 {
-  delete samples;
+  delete[] samples;
   samples = NULL;
-  delete product;
+  delete[] product;
   product = NULL;
-  delete firstsamples;
+  delete[] firstsamples;
   firstsamples = NULL;
   max_lag = 0;
 }
-- 
2.43.0


From 137fd14f298fad504014dcb576f3dddeabc10179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 24/51] fix: StatsSeries::autocovariance is 0 for a lag no two
 samples span

---
 src/StatsSeries.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 4f81f41..eff7505 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -126,6 +126,10 @@ double
 StatsSeries::autocovariance(unsigned lag) const
 {
   SINVARIANT(lag<=max_lag);
+
+  if (lag >= sampleno) {
+    return 0.0; // no two samples are this far apart
+  }
   
   double lastsamples;
   lastsamples = 0.0;
-- 
2.43.0


From 45e3f756919dbefb711ef679e393c0b997fdff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 25/51] fix: StatsSequence with MergeMax keeps negative maxima

---
 src/StatsSequence.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StatsSequence.cpp b/src/StatsSequence.cpp
index d624015..a3a9245 100644
--- a/src/StatsSequence.cpp
+++ b/src/StatsSequence.cpp
@@ -64,7 +64,10 @@ StatsSequence::add(const double value)
 	points_remain_new_bucket = points_per_bucket;
     }
     if (merge_mode == MergeMax) { 
-	new_value = (new_value > value) ? new_value : value; 
+	// the first value of a bucket stands alone, so negative maxima are kept
+	if (points_remain_new_bucket == points_per_bucket || value > new_value) {
+	    new_value = value;
+	}
     } else { 
 	new_value += value; 
     }
-- 
2.43.0


From 150464c0d01126c6ae01b28f93d9b32321dd7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 26/51] fix: BitsetAnyTupleHash uses the member any (used does
 not exist)

---
 include/Lintel/Tuples.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Tuples.hpp b/include/Lintel/Tuples.hpp
index 140f541..495f8a9 100644
--- a/include/Lintel/Tuples.hpp
+++ b/include/Lintel/Tuples.hpp
@@ -252,7 +252,7 @@ namespace tuples {
     /// \brief class for hashing BitsetAnyTuple's
     template<class Tuple> struct BitsetAnyTupleHash {
         uint32_t operator()(const BitsetAnyTuple<Tuple> &v) const {
-            return lintel::tuples::bitset_any_hash(v.data, v.used, 0);
+            return lintel::tuples::bitset_any_hash(v.data, v.any, 0);
         }
     };
 
-- 
2.43.0


From bf40f759b49ccab6c122dbc79edc4c8385b8c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:54 +0000
Subject: [PATCH 27/51] fix: functions defined in Tuples.hpp and
 HashTupleStats.hpp are inline, so that two files can include them

---
 include/Lintel/HashTupleStats.hpp | 4 ++--
 include/Lintel/Tuples.hpp         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index 3fc329c..667cad5 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -41,7 +41,7 @@ namespace lintel {
 	    : ConsToHashUniqueCons<typename T::head_type, typename T::tail_type> {
 	};
 
-	void hashUniqueTupleAdd(boost::tuples::null_type, boost::tuples::null_type) {
+	inline void hashUniqueTupleAdd(boost::tuples::null_type, boost::tuples::null_type) {
 	}
 
 	template<class HUT, class T>
@@ -50,7 +50,7 @@ namespace lintel {
 	    hashUniqueTupleAdd(hut.get_tail(), v.get_tail());
 	}
 
-	double zeroCubeBaseCount(const boost::tuples::null_type) { 
+	inline double zeroCubeBaseCount(const boost::tuples::null_type) { 
 	    return 1; 
 	}
 
diff --git a/include/Lintel/Tuples.hpp b/include/Lintel/Tuples.hpp
index 495f8a9..a487408 100644
--- a/include/Lintel/Tuples.hpp
+++ b/include/Lintel/Tuples.hpp
@@ -265,7 +265,7 @@ namespace tuples {
     }
 
     /// Base version of assign
-    void assign(null_type, null_type) { }
+    inline void assign(null_type, null_type) { }
 
     /// Assign an anytuple from a normal tuple of the same type;
     /// unfortunately, we can't make this also an operator = since
-- 
2.43.0


From 3c3878ccdad455299a3fc50110e0f1f6bd5dc83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:13 +0000
Subject: [PATCH 28/51] fix: StatsQuantile allocates one collapse position per
 buffer, not per entry of a buffer

The positions are indexed by buffer number, so with more buffers than entries per buffer the array overflowed.
---
 src/StatsQuantile.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 6d155a4..9f665cd 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -155,7 +155,7 @@ void StatsQuantile::init(int _nbuffers, int _buffer_size) {
     } else {
 	tmp_buffer = NULL;
     }
-    collapse_pos = new int[buffer_size];
+    collapse_pos = new int[nbuffers]; // indexed by buffer number
     init_buffers();
 }
 
@@ -265,8 +265,6 @@ void StatsQuantile::add(const Stats &_stat) {
 	}
 	cur_buffer = stat->cur_buffer;
 	cur_buffer_pos = stat->cur_buffer_pos;
-	// TODO: determine if we really have to copy collapse_pos
-	memcpy(collapse_pos, stat->collapse_pos, sizeof(int) * buffer_size);
 	collapse_even_low = stat->collapse_even_low;
 	return;
     }
-- 
2.43.0


From e886f6205baad514f7b890d02b534826bd1f4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 29/51] fix: adding an empty StatsQuantile adds nothing

A lazy empty one has current buffer -1 and position buffer_size+1, which were read as if there were such a buffer.
---
 src/StatsQuantile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 9f665cd..a6b53b8 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -246,6 +246,10 @@ void StatsQuantile::add(const Stats &_stat) {
 
     Stats::add(_stat); 
 
+    if (stat->countll() == 0) {
+	return; // no values; a lazy one has no current buffer yet
+    }
+
     if ((cur_buffer == -1 || 
 	 (cur_buffer == 0 && cur_buffer_pos == 0)) && // we are empty
 	buffer_size == stat->buffer_size && // we are compatible
-- 
2.43.0


From 2e86408175e40056522e9c15daf713bb77196c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:17 +0000
Subject: [PATCH 30/51] fix: adding a StatsQuantile to itself adds each of its
 values once

It added values while iterating over the buffers it was filling, so the number of values in the buffers no longer was the count and getQuantile failed its invariant.
---
 src/StatsQuantile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index a6b53b8..e00b664 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -244,6 +244,14 @@ void StatsQuantile::add(const Stats &_stat) {
     const StatsQuantile *stat = dynamic_cast<const StatsQuantile *>(&_stat);
     INVARIANT(stat != NULL, "need another StatsQuantile for add(Stats) to work");
 
+    if (stat == this) {
+	// the values kept change while they are added, so add those of a copy
+	StatsQuantile copy("copy", nbuffers, buffer_size);
+	copy.add(_stat);
+	add(copy);
+	return;
+    }
+
     Stats::add(_stat); 
 
     if (stat->countll() == 0) {
-- 
2.43.0


From eee39df62fe0d2b3d872d3d01f0ee4e9eff2db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 31/51] fix: seeding a random number generator restarts
 randBoolFast

init() and initArray() left the bits drawn before the seeding in place, so
that up to 64 results of randBoolFast did not depend on the seed.
---
 include/Lintel/RandomBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/RandomBase.hpp b/include/Lintel/RandomBase.hpp
index 855385c..e13931a 100644
--- a/include/Lintel/RandomBase.hpp
+++ b/include/Lintel/RandomBase.hpp
@@ -24,10 +24,12 @@ namespace lintel {
 
         inline void init(uint32_t seed) {
             R::init(seed);
+            boolShift = 0;
         }
 
         inline void initArray(std::vector<uint32_t> seed_array) {
             R::initArray(seed_array);
+            boolShift = 0;
         }       
 
         inline uint32_t randInt() {
-- 
2.43.0


From 0cf4cceb8b063f27d3d82c59482281c34f72cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 32/51] fix: seeding Marsaglia's generator sets its index

The loop variable hides the member i, which was never set: the numbers
did not only depend on the seed.
---
 include/Lintel/MarsagliaRandom.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index c60a73f..3b9aed6 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -104,6 +104,7 @@ namespace lintel {
                 x[i] = r.randInt();
             }
             c = r.randIntUnbiased(A);
+            this->i = SIZE-1;
         }
         
         inline uint32_t randInt() {
-- 
2.43.0


From be5d5fe79bd69e3a3cb4bfc0d81c579c753d981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 33/51] fix: the small generator of Marsaglia moves all its
 words down

The newest word went to x instead of z, so that z was never used and the
numbers were not those of the published generator.
---
 include/Lintel/MarsagliaRandom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index 3b9aed6..ef84748 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -40,7 +40,7 @@ namespace lintel {
             static const uint32_t b = 4;
             static const uint32_t c = 21;
             t=(x^(x<<a));
-            x=y; y=z; x=w;  // Shift 'em down.
+            x=y; y=z; z=w;  // Shift 'em down.
             return w=(t^(t>>b))^(w^(w>>c));
             //return w=(w^(w>>c))^(t^(t>>b));
         }
-- 
2.43.0


From a5f08a5e1ac83ae67a9ef1efbc8e1d8ebd6ec20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 34/51] fix: refuse to seed from an empty array

initArray read the first of no seeds.
---
 src/MersenneTwisterRandom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MersenneTwisterRandom.cpp b/src/MersenneTwisterRandom.cpp
index 916013c..b1344ee 100644
--- a/src/MersenneTwisterRandom.cpp
+++ b/src/MersenneTwisterRandom.cpp
@@ -144,6 +144,7 @@ void
 MersenneTwisterInternal::initArray(std::vector<uint32_t> seed_array)
 {
     int i, j, k;
+    INVARIANT(!seed_array.empty(), "need at least one seed");
     init(19650218UL);
     i=1; j=0;
     k = (N>(int)seed_array.size() ? N : seed_array.size());
-- 
2.43.0


From f7e73db1ab3e7169e0fa01ba35b5c02050a1193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:11 +0000
Subject: [PATCH 35/51] fix: MT_random_shuffle can shuffle plain arrays

iter_swap was only found for iterators that are classes of namespace std.
---
 include/Lintel/MersenneTwisterRandom.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Lintel/MersenneTwisterRandom.hpp b/include/Lintel/MersenneTwisterRandom.hpp
index bf6d744..4c52f44 100644
--- a/include/Lintel/MersenneTwisterRandom.hpp
+++ b/include/Lintel/MersenneTwisterRandom.hpp
@@ -11,6 +11,7 @@
 #define LINTEL_MERSENNE_TWISTER_RANDOM_HPP
 
 #include <stdint.h>
+#include <algorithm>
 #include <vector>
 
 #include <Lintel/RandomBase.hpp>
@@ -98,6 +99,8 @@ template <class RandomAccessIter>
 inline void
 MT_random_shuffle(RandomAccessIter first, RandomAccessIter last, MersenneTwisterRandom &rng = MTRandom)
 {
+  using std::iter_swap;
+
   if (first == last)
     return;
   for(RandomAccessIter i = first + 1; i != last; ++i) {
-- 
2.43.0


From c7d66ce98369334a33c17202d0cd26a5b73fd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 36/51] fix: a value just below the end of a
 StatsHistogramUniform stays in its bins

The quotient of the distance and the bin width can be rounded up to the
number of bins, which counted the value past the end of the array.
---
 src/StatsHistogram.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 0a848a6..630f06e 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -94,7 +94,11 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
     else if (value >= bin_high)
 	bin = num_bins - 1;
     else
-	bin = (unsigned)(floor((value-bin_low)/bin_width));
+	{
+	    // rounding can take the quotient up to num_bins
+	    double d_bin = floor((value-bin_low)/bin_width);
+	    bin = d_bin < num_bins ? (unsigned)d_bin : num_bins - 1;
+	}
 
     return bin;
 }
-- 
2.43.0


From 77c2449ac4e002481dc9ee41a3a768af0f796902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 37/51] fix: StatsHistogramUniformAccum allocates a sum for
 every bin

The number of bins is rounded up to an even number; the array was not.
---
 src/StatsHistogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 630f06e..81b006b 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -578,7 +578,7 @@ StatsHistogramUniformAccum::StatsHistogramUniformAccum(const unsigned bins_in,
 			      scalable_in, growable_in),
 	val_bins(NULL)
 {
-  val_bins = new double[bins_in];
+  val_bins = new double[num_bins];
   SINVARIANT(val_bins != NULL);
   reset();
 }
-- 
2.43.0


From 310ce3fa07bee470a2c7b4ea285f8da92dbb8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 38/51] fix: StatsHistogramLogAccum releases its sums

---
 src/StatsHistogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 81b006b..4d2866b 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -730,8 +730,8 @@ StatsHistogramLogAccum::StatsHistogramLogAccum(const unsigned bins_in,
 }
 
 StatsHistogramLogAccum::~StatsHistogramLogAccum() {
-    delete[] bins;
-    bins = NULL;
+    delete[] val_bins;
+    val_bins = NULL;
 }
 
 void StatsHistogramLogAccum::reset() {
-- 
2.43.0


From 9225d7ec2ade7a074ac439733737a2b38db06f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 39/51] fix: the bins of a histogram end before numBins()

operator[] and value() let the index numBins() read past the arrays.
---
 src/StatsHistogram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 4d2866b..74d162e 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -83,7 +83,7 @@ void StatsHistogramUniform::reset() {
 
 unsigned long StatsHistogramUniform::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -399,7 +399,7 @@ void StatsHistogramLog::reset() {
 
 unsigned long StatsHistogramLog::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -646,7 +646,7 @@ void StatsHistogramUniformAccum::add(const double value) {
 
 double StatsHistogramUniformAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
@@ -759,7 +759,7 @@ void StatsHistogramLogAccum::add(const double index_value, const double data_val
 
 double StatsHistogramLogAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
-- 
2.43.0


From c1fbca09a24ec7c018d153a115afe3f186377ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 40/51] fix: values far above a StatsHistogramLog are counted
 in its last bin

A quotient that did not fit an unsigned was converted, and ended up in any
bin.
---
 src/StatsHistogram.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 74d162e..c8e9e01 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -408,11 +408,10 @@ unsigned StatsHistogramLog::sampleBin(double x) const {
     if (x <= smallest_bin)
 	return 0;
     double d_bin = bin_scaling * log(x / smallest_bin);
-    unsigned bin = (unsigned)floor(d_bin);
-    if (bin >= num_bins)
+    if (!(d_bin < num_bins))
 	return num_bins - 1;
     else
-	return bin;
+	return (unsigned)floor(d_bin);
 };
 
 // Given a fractional bin-index, return the value that would be "stored" there.
-- 
2.43.0


From 9bc827896bea3c28dcc7231a417d620cf2e59147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 41/51] fix: StatsHistogramLog reports that it is scalable and
 how often it rescaled

---
 include/Lintel/StatsHistogram.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index 49e743d..b44ed0d 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -198,8 +198,8 @@ public:
     double high() const { return bin_high; };
     double binhigh(unsigned index) const { return binOffset(index+1); };
     unsigned  numBins() const { return num_bins; }
-    unsigned  numRescales()  const { return 0; }
-    bool     isScalable()   const { return false; }
+    unsigned  numRescales()  const { return num_rescales; }
+    bool     isScalable()   const { return is_scalable; }
     unsigned  numGrows()  const { return 0; }
     bool     isGrowable()   const { return false; }
     double   mode() const;
-- 
2.43.0


From 0a6b7656c928c19dd7d77940ab43ceae27734954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 42/51] fix: scaling a histogram to an infinite value or from
 an empty range ends

Doubling the range never reached the value; both are refused.
---
 src/StatsHistogram.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index c8e9e01..77766c0 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -56,6 +56,8 @@ StatsHistogramUniform::StatsHistogramUniform(const unsigned bins_in,
 {
     INVARIANT(high_in >= low_in, "StatsHistogramUniform: high < low");
     INVARIANT(bins_in > 0, "StatsHistogramUniform: need at least one bin");
+    INVARIANT(high_in > low_in || !(is_growable || is_scalable),
+	      "StatsHistogramUniform: can not scale or grow an empty range");
     INVARIANT(!(is_growable && is_scalable),
 	      "StatsHistogramUniform: growable and stackable not allowed");
 
@@ -104,6 +106,8 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
 }
 
 void StatsHistogramUniform::add(const double value) {
+    INVARIANT(!is_scalable || Double::abs(value) < std::numeric_limits<double>::max()/8,
+	      boost::format("StatsHistogramUniform: unreasonably large value: %g") % value);
     Stats::add(value);	// Keep track of means, etc
 
     // Grow the number of bins?
@@ -373,6 +377,8 @@ StatsHistogramLog::StatsHistogramLog(const unsigned bins_in,
 	      "StatsHistogramLog: low-bound must be > 0.0");
     INVARIANT(smallest_bin <= bin_high, 
 	      "StatsHistogramLog: higher-bound must be larger than lower");
+    INVARIANT(smallest_bin < bin_high || !is_scalable,
+	      "StatsHistogramLog: can not scale an empty range");
 
     bin_scaling = double(num_bins) / log(bin_high/smallest_bin);
 
@@ -426,6 +432,8 @@ double StatsHistogramLog::binOffset(double index) const {
 void StatsHistogramLog::add(const double value) {
     INVARIANT(value > 0.0, 
 	      "values must be greater than 0 for log histogram");
+    INVARIANT(!is_scalable || value < std::numeric_limits<double>::max()/8,
+	      boost::format("StatsHistogramLog: unreasonably large value: %g") % value);
     Stats::add(value);		// Keep track of means, etc
 
     if (is_scalable && (value < smallest_bin || value >= bin_high)) {
@@ -595,6 +603,8 @@ void StatsHistogramUniformAccum::reset() {
 
 void StatsHistogramUniformAccum::add(const double index_value, 
                                      const double data_value) {
+    INVARIANT(!is_scalable || Double::abs(index_value) < std::numeric_limits<double>::max()/8,
+	      boost::format("StatsHistogramUniformAccum: unreasonably large value: %g") % index_value);
     Stats::add(data_value);		// Keep track of means, etc
 
     if (is_scalable  &&  (index_value < bin_low || index_value >= bin_high)) {
-- 
2.43.0


From ae2a84134e0e1b9a0c732bb6a0e695bcc47a9a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 43/51] fix: a growing histogram releases its old bins and
 counts how often it grew

The old bins leaked, numGrows() stayed 0 (numRescales() was counted
instead), and a value for which the number of bins does not fit an unsigned
was only refused near the largest double.
---
 src/StatsHistogram.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 77766c0..6221338 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -79,6 +79,7 @@ void StatsHistogramUniform::reset() {
 	bins[bin] = 0;
     bin_width = ((double)(bin_high - bin_low))/(double)num_bins;
     num_rescales = 0;
+    num_grows = 0;
 }
 
 
@@ -108,16 +109,17 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
 void StatsHistogramUniform::add(const double value) {
     INVARIANT(!is_scalable || Double::abs(value) < std::numeric_limits<double>::max()/8,
 	      boost::format("StatsHistogramUniform: unreasonably large value: %g") % value);
+    INVARIANT(!is_growable || value != value || (value >= bin_low && value < bin_high)
+	      || (value < bin_low ? bin_high - value : value - bin_low) / bin_width
+	      < std::numeric_limits<unsigned>::max()/4,
+	      boost::format("StatsHistogramUniform: unreasonably many bins up to value: %g") % value);
     Stats::add(value);	// Keep track of means, etc
 
     // Grow the number of bins?
     if (is_growable  &&  (value < bin_low || value >= bin_high)) {
-	num_rescales++;		// About to do a reset, so count it
+	num_grows++;		// count it
 	
 	if (value >= bin_high) { 
-	    INVARIANT(value < std::numeric_limits<double>::max()/2, 
-		      boost::format("StatsHistogramUniform: unreasonably"
-				    "large upper value: %g") % value);
 	    unsigned new_num_bins // round to an even number
 		= 2 * ((unsigned)floor((value - bin_low) / bin_width) + 1)/2;
 	    if (new_num_bins < num_bins * 2)
@@ -128,14 +130,11 @@ void StatsHistogramUniform::add(const double value) {
 	    // zero the new bins, and then copy the old values over
 	    memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
 	    memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
-	    //	    delete old_bins; // suppressed for now ...
+	    delete[] old_bins;
 	    bins = new_bins;
 	    num_bins = new_num_bins;
 	    bin_high = bin_low + new_num_bins * bin_width;
 	} else {
-	    INVARIANT(-value < std::numeric_limits<double>::max()/2,
-		      boost::format("unreasonably large lower value: %lg")
-		      % value);
 	    unsigned new_num_bins // round to an even number
 		= 2 * ((unsigned)floor((bin_high - value) / bin_width) + 1)/2;
 	    if (new_num_bins < num_bins * 2)
@@ -147,7 +146,7 @@ void StatsHistogramUniform::add(const double value) {
 	    memset(new_bins, 0, sizeof(long) * new_num_bins);
 	    memcpy(&new_bins[new_num_bins - num_bins],
 		   &old_bins[0], num_bins*sizeof(unsigned long));
-	    // delete old_bins;
+	    delete[] old_bins;
 	    bins = new_bins;
 	    num_bins = new_num_bins;
 	    bin_low = bin_high - new_num_bins * bin_width;
-- 
2.43.0


From cbfa00d930ae6fe704c34fb872ddf22da031dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 44/51] fix: a growable StatsHistogramUniformAccum grows

It accepted the option but put values outside its range into the end bins.
---
 src/StatsHistogram.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 6221338..ce9bcb7 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -604,8 +604,37 @@ void StatsHistogramUniformAccum::add(const double index_value,
                                      const double data_value) {
     INVARIANT(!is_scalable || Double::abs(index_value) < std::numeric_limits<double>::max()/8,
 	      boost::format("StatsHistogramUniformAccum: unreasonably large value: %g") % index_value);
+    const bool grow_low = index_value < bin_low;
+    const double grow_to = (grow_low ? bin_high - index_value : index_value - bin_low) / bin_width;
+    const bool grow = is_growable && (grow_low || index_value >= bin_high);
+    INVARIANT(!grow || grow_to < std::numeric_limits<unsigned>::max()/4,
+	      boost::format("StatsHistogramUniformAccum: unreasonably many bins up to value: %g") % index_value);
     Stats::add(data_value);		// Keep track of means, etc
 
+    if (grow) {
+	num_grows++;
+	unsigned new_num_bins = (unsigned)floor(grow_to) + 1;
+	if (new_num_bins < num_bins * 2)
+	    new_num_bins = num_bins * 2; // at least double the bin count
+	const unsigned at = grow_low ? new_num_bins - num_bins : 0;
+	unsigned long *new_bins = new unsigned long[new_num_bins];
+	double *new_val_bins = new double[new_num_bins];
+	for (unsigned i = 0; i < new_num_bins; i++) {
+	    const bool was = i >= at && i - at < num_bins;
+	    new_bins[i] = was ? bins[i - at] : 0;
+	    new_val_bins[i] = was ? val_bins[i - at] : 0.0;
+	}
+	delete[] bins;
+	delete[] val_bins;
+	bins = new_bins;
+	val_bins = new_val_bins;
+	num_bins = new_num_bins;
+	if (grow_low)
+	    bin_low = bin_high - num_bins * bin_width;
+	else
+	    bin_high = bin_low + num_bins * bin_width;
+    }
+
     if (is_scalable  &&  (index_value < bin_low || index_value >= bin_high)) {
 	num_rescales++;		// About to do a reset, so count it
 
-- 
2.43.0


From 82c4cf41bd4d8f4a36154efc4a9b08272472a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:59 +0000
Subject: [PATCH 45/51] fix: ConstantString comparisons see the bytes after a
 null byte

---
 include/Lintel/ConstantString.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index a4e10d0..b5a8e36 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -100,14 +100,10 @@ public:
 	} 
     }
     int compare(const ConstantString &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compare(rhs.data(), rhs.size());
     }
     int compare(const std::string &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compare(rhs.data(), rhs.size());
     }
 
     char operator[](size_t pos) const {
@@ -153,6 +149,16 @@ public:
 	return myptr == to.myptr ? true : false;
     }
 private:
+    // strings may contain null bytes, so the order of two strings that agree
+    // up to the end of the shorter one is the order of their lengths
+    int compare(const char *rhs, size_t rhs_size) const {
+	int ret = memcmp(data(), rhs, size() < rhs_size ? size() : rhs_size);
+	if (ret != 0 || size() == rhs_size) {
+	    return ret;
+	}
+	return size() < rhs_size ? -1 : 1;
+    }
+
     ConstantStringValue *myptr;
 
     static int nstrings;
@@ -202,7 +208,7 @@ operator!=(const ConstantString &lhs, const std::string &rhs) {
 
 inline bool
 operator!=(const ConstantString &lhs, const char *rhs) {
-    return strcmp(lhs.c_str(),rhs) != 0;
+    return lhs.size() != strlen(rhs) || strcmp(lhs.c_str(),rhs) != 0;
 }
 
 inline std::ostream &
-- 
2.43.0


From 341cd4bc74eb7378ed781aa6d9a9b7b74e4e64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:59 +0000
Subject: [PATCH 46/51] fix: writing a ConstantString writes the bytes after a
 null byte

---
 include/Lintel/ConstantString.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index b5a8e36..5010b09 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -213,7 +213,7 @@ operator!=(const ConstantString &lhs, const char *rhs) {
 
 inline std::ostream &
 operator<< (std::ostream&o, const ConstantString&s) {
-    o << s.c_str();
+    o << s.str();
     return o;
 }
 
-- 
2.43.0


From 2f5f2967a749a26f1364c4294497aee18981bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:14 +0000
Subject: [PATCH 47/51] fix: a string too long for any constant string buffer
 is refused

---
 include/Lintel/ConstantString.hpp | 2 +-
 src/ConstantString.cpp            | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index 5010b09..a7a5927 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -74,7 +74,7 @@ public:
 	    init("", 0); 
 	}
     }
-    void init(const void *s, uint32_t slen);
+    void init(const void *s, size_t slen);
 
     const char *c_str() const { return ConstantString_c_str(myptr); }
     const char *data() const { return ConstantString_c_str(myptr); }
diff --git a/src/ConstantString.cpp b/src/ConstantString.cpp
index dfc7fc3..34a1201 100644
--- a/src/ConstantString.cpp
+++ b/src/ConstantString.cpp
@@ -35,8 +35,10 @@ static uint32_t init_buffer_len;
 static const bool enable_constant_folding = true;
 
 void
-ConstantString::init(const void *s, uint32_t slen)
+ConstantString::init(const void *s, size_t slen)
 {
+    INVARIANT(slen <= static_cast<size_t>(buffer_size) - 5,
+	      "a constant string has to fit into a buffer, with its length and its null byte");
     if (buffers == NULL) {
 	buffers = new bufvect;
 	hashtable = new CS_hashtable;
-- 
2.43.0


From b009f010fb072f216022e68bc4e5d907201ba073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:14 +0000
Subject: [PATCH 48/51] fix: dumpInfo counts the constant strings stored, once
 each

---
 src/ConstantString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConstantString.cpp b/src/ConstantString.cpp
index 34a1201..8d7b182 100644
--- a/src/ConstantString.cpp
+++ b/src/ConstantString.cpp
@@ -71,13 +71,13 @@ ConstantString::init(const void *s, size_t slen)
 	}
     }
     slen += 1; // "null at end of string"
-    ++nstrings;
-    string_bytes += slen;
     int space_used = slen + ((4 - (slen % 4))%4) + sizeof(uint32_t);
     slen -= 1;
 
     for(unsigned int i = 0;i<buffers->size();i++) {
 	if (((*buffers)[i].size - (*buffers)[i].amt_used) >= space_used) {
+	    ++nstrings;
+	    string_bytes += slen + 1;
 	    char *ptr = reinterpret_cast<char *>((*buffers)[i].data);
 	    ptr += (*buffers)[i].amt_used;
 	    *reinterpret_cast<uint32_t *>(ptr) = slen;
-- 
2.43.0


From cec5180ffe199035ab6c707c5f51fb1fc564864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:27 +0000
Subject: [PATCH 49/51] fix: EstimateOffset of signed values that lie more than
 half the range apart

---
 include/Lintel/unstable/InterpolationSearch.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/unstable/InterpolationSearch.hpp b/include/Lintel/unstable/InterpolationSearch.hpp
index 11471e3..680d93c 100644
--- a/include/Lintel/unstable/InterpolationSearch.hpp
+++ b/include/Lintel/unstable/InterpolationSearch.hpp
@@ -40,8 +40,10 @@ template<typename ValueT> struct EstimateOffset {
     // Postconditions: 0 <= return value <= last_pos
     size_t 
     operator()(const ValueT &v, const ValueT &first, const ValueT &last, size_t last_pos) const {
-        UnsignedValueT value_range = last - first;
-        double relative_pos = static_cast<double>(v - first) / value_range; // [0,1]
+        // the differences of signed values can be too big for the signed type
+        UnsignedValueT value_range = static_cast<UnsignedValueT>(last) - static_cast<UnsignedValueT>(first);
+        UnsignedValueT value_offset = static_cast<UnsignedValueT>(v) - static_cast<UnsignedValueT>(first);
+        double relative_pos = static_cast<double>(value_offset) / value_range; // [0,1]
         return relative_pos * last_pos;
     }
 };
-- 
2.43.0


From 542ad8620bdaf12c241d1ba52ecded2b495a509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:05 +0000
Subject: [PATCH 50/51] fix: PThreadScopedLock: a lock that fails leaves the
 thread on its ordering level

---
 include/Lintel/PThread.hpp.in | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/PThread.hpp.in b/include/Lintel/PThread.hpp.in
index 84bc0bc..5e1fc8a 100644
--- a/include/Lintel/PThread.hpp.in
+++ b/include/Lintel/PThread.hpp.in
@@ -235,7 +235,13 @@ public:
 	: mutex(_mutex), ordering_group(NULL), mutex_level(_mutex_level)
     {
 	old_level = group.scopeDown(mutex_level);
-	mutex.lock();
+	try {
+	    mutex.lock();
+	} catch (...) {
+	    // an assertion mapped to an exception; the lock isn't held
+	    group.scopeUp(mutex_level, old_level);
+	    throw;
+	}
 	// Only set this up if we are sure we could scope down; otherwise
 	// if the assertion is mapped to an exception in scopeDown, we 
 	// blow up in the destructor.
-- 
2.43.0


From 0953c16d781b471c312cf6e17a69d097af290565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:05 +0000
Subject: [PATCH 51/51] fix: PThreadNoSignals::start: a refused start restores
 the signal mask of the caller

---
 src/PThread.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PThread.cpp b/src/PThread.cpp
index bd0e094..0a1cc79 100644
--- a/src/PThread.cpp
+++ b/src/PThread.cpp
@@ -290,7 +290,14 @@ pthread_t PThreadNoSignals::start() {
     // n.b. we're expecting this to be called from a master thread,
     // so no contention for the sigmask should occur
     pthread_sigmask(SIG_BLOCK, &newset, &oldset);
-    pthread_t tid = PThread::start();
+    pthread_t tid;
+    try {
+	tid = PThread::start();
+    } catch (...) {
+	// an assertion mapped to an exception; the caller keeps its signals
+	pthread_sigmask(SIG_SETMASK, &oldset, 0);
+	throw;
+    }
     pthread_sigmask(SIG_SETMASK, &oldset, 0);
     return tid;
 }
-- 
2.43.0

