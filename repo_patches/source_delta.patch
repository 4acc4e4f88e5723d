From 8bab0e0823bfe86d5051c6cbef826b85b7dc9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 001/123] fix: StringBuilder::byteAt() read before the buffer
 for a negative offset

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..5a0f8ce 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -363,7 +363,7 @@ uint8_t* StringBuilder::string() {
 */
 uint8_t StringBuilder::byteAt(const int OFFSET) {
   uint8_t ret = 0;
-  if (_root) {
+  if ((nullptr != _root) && (0 <= OFFSET)) {
     int offset = OFFSET;
     StrLL* ll_with_byte = _get_ll_containing_offset(_root, &offset);
     if (nullptr != ll_with_byte) {
-- 
2.43.0


From 1305311d14257fe0565c7e9e7f97779ec209d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 002/123] fix: StringBuilder::concatHandoffLimit() took or lost
 the wrong bytes at fragment boundaries

---
 src/StringBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 5a0f8ce..57886fe 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if (nullptr != ll_with_byte) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
@@ -717,6 +717,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             *(ll_with_byte->str + i) = *(ll_with_byte->str + i + LEN_LEFT);
           }
           ll_with_byte->len = LEN_RIGHT;
+          *(ll_with_byte->str + LEN_RIGHT) = 0;  // Keep the fragment null-terminated.
           donar->_root = ll_with_byte;    // Inform the donar instance...
 
           // Seek through the input and find the point where we need to snip.
@@ -726,7 +727,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From 0d3ceda168f760ba5919022bfae9c8afe60bdc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 003/123] fix: StringBuilder::locate() resumed from the wrong
 byte in a fragmented buffer

---
 src/StringBuilder.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 57886fe..88a07b6 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1109,7 +1109,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int search_offset  = start_offset;
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
-    StrLL* retrace_ll  = src_ll;
     int retrace_offset = start_offset;
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
@@ -1119,7 +1118,6 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         else if (1 == match_length) {
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
-          retrace_ll  = src_ll;
           retrace_offset = search_offset;
         }
       }
@@ -1127,7 +1125,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
         if (match_length > 1) {
           search_offset = retrace_offset;
           strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          src_ll = _get_ll_containing_offset(_root, &strll_offset);
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From adc56586bbe388c1e1a31d3cc990838b30100cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 004/123] fix: StringBuilder::replace() missed matches that
 overlap a failed partial match

---
 src/StringBuilder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 88a07b6..82ae415 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1269,10 +1269,12 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {  // If we were into a search, back out of it,
+          //   and resume at the byte following the start of the failed match.
+          remaining_search_len += (search_hit_idx - 1);
+          intra_frag_idx = (HAYSTACK_LEN - remaining_search_len);
+          src_ll = _get_ll_containing_offset(_root, &intra_frag_idx);
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From e1fb0c706b5d6326e7f23922cbbcfcce48d4f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 005/123] fix: StringBuilder::concatf() and concat(double)
 overflowed the stack on long output

---
 src/StringBuilder.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 82ae415..da2c9cc 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -895,9 +895,9 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
+  char temp[320];   // Enough for -DBL_MAX in decimal notation.
   memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
+  snprintf(temp, sizeof(temp), "%f", nu);
   concat(temp);
 }
 
@@ -946,16 +946,22 @@ int StringBuilder::concatf(const char* format, ...) {
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
 int StringBuilder::concatf(const char* format, va_list args) {
-  int len = strlen(format);
-  unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
-  // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
-  char temp[est_len];
-  memset(temp, 0, est_len);
-  int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  // Discover the length of the output before allocating space for it.
+  va_list args_copy;
+  va_copy(args_copy, args);
+  int ret = vsnprintf(nullptr, 0, format, args_copy);
+  va_end(args_copy);
+  if (0 < ret) {
+    char* temp = (char*) malloc(ret + 1);
+    if (nullptr != temp) {
+      ret = vsnprintf(temp, (ret + 1), format, args);
+      if (0 < ret) {  concat(temp);  }
+      free(temp);
+    }
+    else {
+      ret = -1;
+    }
+  }
   return ret;
 }
 
-- 
2.43.0


From bdbf0a9087b182ee1b26c0d73411b6da6ff1164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 006/123] fix: StringBuilder::implode() refused two one-byte
 tokens, position_as_uint64() halved long hex

---
 src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index da2c9cc..1c2fce0 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
@@ -1338,7 +1338,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN >= 2) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From 162865c4b4b2239e42fa4aff38e403f1b84cfb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 007/123] fix: StringBuilder::replace() never matched needles
 with bytes above 0x7F

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 1c2fce0..8aa12f8 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1234,7 +1234,7 @@ int StringBuilder::replace(const char* needle, const char* replace) {
     //   needlessly, roll through its fragment list and compare as we go.
     // One byte per-loop is compared against the delimiter.
     while ((!allocation_failure) & (remaining_search_len-- > 0) & (nullptr != src_ll)) {
-      if (*(src_ll->str + intra_frag_idx++) == *(needle + search_hit_idx++)) {
+      if (*(src_ll->str + intra_frag_idx++) == (uint8_t) *(needle + search_hit_idx++)) {
         // Bytes match.
         if (NEEDLE_LEN == search_hit_idx) {  // If it is the conclusion of a match...
           // Create a copy of the string up-to the first byte of the needle...
-- 
2.43.0


From 16a77f876574890b11cb4d51d9ea6716ee632fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 008/123] fix: Base64Decoder left its chunk length
 uninitialised

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From 729cb4e68e6833ee31de66ff47b9ad758a1855c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 009/123] fix: LinkedList and PriorityQueue remove(T) stopped
 after removing the head

---
 src/LightLinkedList.h | 2 +-
 src/PriorityQueue.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From 5c01629256b93285e2b53c525d280fbe0ef12da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 010/123] fix: PriorityQueue::insertIfAbsent() reported a
 position one too low

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index 89851a5..1da7830 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -185,7 +185,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
 //    };
   #endif
 
-  int return_value = -1;
+  int return_value = 0;
   PriorityNode<T>* insert_pointer = nullptr;
   PriorityNode<T>* current = root;
   while (nullptr != current) {
-- 
2.43.0


From 5daed7fa8df29a09efbaef4776b31bb6f84f87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 011/123] fix: LinkedList::insert() always reported position 1

---
 src/LightLinkedList.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index 55231c8..445ee4b 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -129,8 +129,7 @@ template <class T> int LinkedList<T>::insert(T d) {
   }
   current->next = nullptr;
   current->data = d;
-  element_count++;
-  return 1;
+  return element_count++;
 }
 
 
-- 
2.43.0


From 7195d63ee958af6b14cb2cff0628cede240c8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:48 +0000
Subject: [PATCH 012/123] fix: ElementPool ignored its overdraw limit and its
 pool before allocated() was called

---
 src/BusQueue/I2CDevice.cpp |  6 ++++++
 src/ElementPool.h          | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 1ea6144..842a105 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -98,6 +98,9 @@ bool I2CDevice::writeX(int sub_addr, uint16_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
@@ -110,6 +113,9 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::RX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..a4d1fa8 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -189,12 +189,20 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 
 /**
 * Remove an item from the preallocation pool an return it.
+* If the pool is exhausted, the item is taken from the heap, subject to the
+*   overdraw limit.
 *
-* @return a reference to the preallocated element.
+* @return a reference to the element, or nullptr if none could be provided.
 */
 template <class T> T* ElementPool<T>::take() {
+  if (!_list_populated) {
+    allocated();
+  }
   T* ret = _list.get();
   if (nullptr == ret) {
+    if (_overdraws_outstanding() >= _overdraw_limit) {
+      return nullptr;
+    }
     ret = new T();
     _overdraws++;
   }
-- 
2.43.0


From 1c9ea1c0d38bc85bd043b9527b166d974ea24284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 013/123] fix: StopWatch could stop a measurement that was
 never started

---
 src/TimerTools/StopWatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..47f8eb6 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
   reset();
 }
 
-- 
2.43.0


From 0f3fb96fd4350ba1692bb8404b0c78a41bd9dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 014/123] fix: C3PScheduler queued a schedule again while it
 was still executing

---
 src/TimerTools/C3PScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PScheduler.cpp b/src/TimerTools/C3PScheduler.cpp
index 0cbb4a9..733b94a 100644
--- a/src/TimerTools/C3PScheduler.cpp
+++ b/src/TimerTools/C3PScheduler.cpp
@@ -241,7 +241,7 @@ FAST_FUNC void C3PScheduler::serviceSchedules() {
 FAST_FUNC void C3PScheduler::advanceScheduler() {
   for (uint32_t i = 0; i < _active.count(); i++) {
     C3PSchedule* current = _active.peek(i, false);
-    if ((nullptr != current) && current->enabled()) {
+    if ((nullptr != current) && current->enabled() && !current->executingNow()) {
       if ((ULONG_MAX >> 1) > micros_since(current->_exec_at)) {
         if (0 != _exec_queue.insertIfAbsent(current)) {
           // TODO: Anomaly tracking...
-- 
2.43.0


From 0c116501a89394f51e4c29c6132397b817a2c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 015/123] fix: StopWatch dropped a measurement started when the
 clock read zero

---
 src/TimerTools/StopWatch.cpp | 5 +++--
 src/TimerTools/TimerTools.h  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 47f8eb6..1ba09bc 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0), _running(false) {
   reset();
 }
 
@@ -57,6 +57,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
   _run_time_total  += _run_time_last;
   _run_time_average = _run_time_total / _executions;
   _start_micros     = 0;
+  _running          = false;
   return true;
 }
 
@@ -64,7 +65,7 @@ ISR_FUNC bool StopWatch::addRuntime(const unsigned long START_TIME, const unsign
 ISR_FUNC bool StopWatch::markStop() {
   const uint32_t STOP_TIME = micros();
   bool ret = false;
-  if (_start_micros > 0) {
+  if (_running) {
     addRuntime(_start_micros, STOP_TIME);
     ret = true;
   }
diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..3f1d5a5 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -42,7 +42,7 @@ class StopWatch {
     inline uint32_t meanTime() {     return _run_time_average;   };
     inline uint32_t totalTime() {    return _run_time_total;     };
     inline uint32_t executions() {   return _executions;         };
-    inline void     markStart() {    _start_micros = (uint32_t) micros();   };
+    inline void     markStart() {    _start_micros = (uint32_t) micros();   _running = true;   };
     bool  markStop();
     bool  addRuntime(const unsigned long START_TIME, const unsigned long STOP_TIME);
     void  reset();
@@ -62,6 +62,7 @@ class StopWatch {
     uint32_t _run_time_average;
     uint32_t _run_time_total;
     uint32_t _executions;
+    bool     _running;  // Is there a measurement in progress?
 };
 
 
-- 
2.43.0


From 6b6d85f9facde92073706c0b12e347f66fc5b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 016/123] fix: BufferAccepterFork replayed or skipped bytes
 after a side claimed part of an offer

---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..54d82a5 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -66,8 +66,9 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     // Note the drift distance for each side of the fork.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
-    int32_t left_range_covered  = BYTES_TO_TAKE;
-    int32_t right_range_covered = BYTES_TO_TAKE;
+    // A side that is ahead by the whole offer isn't pushed, but keeps its drift.
+    int32_t left_range_covered  = ((nullptr != _left_hand)  ? strict_max(_left_drift,  BYTES_TO_TAKE) : BYTES_TO_TAKE);
+    int32_t right_range_covered = ((nullptr != _right_hand) ? strict_max(_right_drift, BYTES_TO_TAKE) : BYTES_TO_TAKE);
     if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
       StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
       _left_hand->pushBuffer(&deep_copy);
@@ -80,10 +81,12 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     }
     const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
     buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
+    _left_drift  = ((nullptr != _left_hand)  ? (left_range_covered - TOTAL_TAKEN)  : 0);
+    _right_drift = ((nullptr != _right_hand) ? (right_range_covered - TOTAL_TAKEN) : 0);
 
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (0 < TOTAL_TAKEN) {
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
   }
   return ret;
 }
-- 
2.43.0


From 2b0dc586f4ff5eb3f9eb0fe2a6fbcb00c4d04b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 017/123] fix: Base64Encoder accepted more input than the
 encoding had room for downstream

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..2b448ce 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -42,7 +42,6 @@ I have reproduced his original commentary, where it still applies. And may have
 
 // TODO: These are wrong. Calulate the real values once it works.
 #define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
 
 
 /*******************************************************************************
@@ -155,7 +154,8 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    // Every three bytes (or fewer) of input become four bytes of output.
+    ret = (_efferant->bufferAvailable() / 4) * 3;
   }
   return ret;
 }
-- 
2.43.0


From dc8a3ce35eed364c5a216edcafaca3b85d98d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 018/123] fix: UINT8 values read past a UINT16 source that did
 not fit

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..d78ed03 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From 0cd6e3557722ea09ec90c7f7a6a16f7d3a57349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 019/123] fix: UINT32 values accepted negative INT64 sources

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d78ed03..be7b9fb 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1300,7 +1300,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From ca2b793a632515ccda138e3c8aa9c1c29e3fc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 020/123] fix: INT64 values turned UINT64 sources above
 INT64_MAX negative

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index be7b9fb..d43166b 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -893,7 +893,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT64:
       {
         int64_t s = _load_from_mem(src);
-        if (s <= INT64_MAX) {
+        if (s >= 0) {   // Otherwise, the unsigned value is above INT64_MAX.
           d = s;
           ret = 0;
         }
-- 
2.43.0


From 92ed2ec21c399ac9557b7e901999e6ee0df52330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 021/123] fix: 64-bit integer values printed only their low
 half where long has 32 bits

---
 src/C3PValue/C3PType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d43166b..d977983 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -853,7 +853,7 @@ template <> int         C3PTypeConstraint<int32_t>::deserialize(void* obj, Strin
 ///
 template <> void        C3PTypeConstraint<int64_t>::to_string(void* obj, StringBuilder* out) {
   int64_t yuck = _load_from_mem(obj);
-  out->concatf("%ld", yuck);
+  out->concatf("%lld", (long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<int64_t>::representable_by(const TCode DEST_TYPE) {
@@ -1399,7 +1399,7 @@ template <> int         C3PTypeConstraint<uint32_t>::deserialize(void* obj, Stri
 ///
 template <> void        C3PTypeConstraint<uint64_t>::to_string(void* obj, StringBuilder* out) {
   uint64_t yuck = _load_from_mem(obj);
-  out->concatf("%lu", yuck);
+  out->concatf("%llu", (unsigned long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<uint64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From 4175e9cdbdfe7c66b1b5611a2daca9820c34ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 022/123] fix: conversion of integers to DOUBLE lost precision
 with single-precision constants

---
 src/C3PValue/C3PType.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d977983..f465606 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -522,7 +522,7 @@ template <> int8_t      C3PTypeConstraint<int8_t>::get_as(void* src, const TCode
       break;
     case TCode::BOOLEAN:    *((bool*) dest) = (0 != s);         return 0;
     case TCode::FLOAT:      *((float*) dest) = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;     return 0;
     default:  break;
   }
   return -1;
@@ -666,7 +666,7 @@ template <> int8_t      C3PTypeConstraint<int16_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;     return 0;
     default:  break;
   }
   return -1;
@@ -811,7 +811,7 @@ template <> int8_t      C3PTypeConstraint<int32_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;     return 0;
     default:  break;
   }
   return -1;
@@ -955,7 +955,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::get_as(void* src, const TCod
       }
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;      return 0;
     default:  break;
   }
   return -1;
@@ -1084,7 +1084,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::get_as(void* src, const TCod
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;      return 0;
     default:  break;
   }
   return -1;
@@ -1218,7 +1218,7 @@ template <> int8_t      C3PTypeConstraint<uint16_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;      return 0;
     default:  break;
   }
   return -1;
@@ -1358,7 +1358,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = (double) s;      return 0;
     default:  break;
   }
   return -1;
@@ -1510,7 +1510,7 @@ template <> int8_t      C3PTypeConstraint<uint64_t>::get_as(void* src, const TCo
       break;
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;    return 0;
     case TCode::BOOLEAN:    *((bool*) dest)     = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest)   = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest)   = (double) s;      return 0;
     default:  break;
   }
   return -1;
@@ -1761,20 +1761,20 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
   int8_t ret = -1;
   double d = 0.0d;
   switch (SRC_TYPE) {
-    case TCode::INT8:     d = (1.0d * *((int8_t*) src));        ret = 0;   break;
-    case TCode::INT16:    d = (1.0d * *((int16_t*) src));       ret = 0;   break;
-    case TCode::INT32:    d = (1.0d * *((int32_t*) src));       ret = 0;   break;
-    case TCode::INT64:    d = (1.0d * *((int64_t*) src));       ret = 0;   break;
-    case TCode::UINT8:    d = (1.0d * *((uint8_t*) src));       ret = 0;   break;
-    case TCode::UINT16:   d = (1.0d * *((uint16_t*) src));      ret = 0;   break;
-    case TCode::UINT32:   d = (1.0d * *((uint32_t*) src));      ret = 0;   break;
-    case TCode::UINT64:   d = (1.0d * *((uint64_t*) src));      ret = 0;   break;
+    case TCode::INT8:     d = (double) *((int8_t*) src);        ret = 0;   break;
+    case TCode::INT16:    d = (double) *((int16_t*) src);       ret = 0;   break;
+    case TCode::INT32:    d = (double) *((int32_t*) src);       ret = 0;   break;
+    case TCode::INT64:    d = (double) *((int64_t*) src);       ret = 0;   break;
+    case TCode::UINT8:    d = (double) *((uint8_t*) src);       ret = 0;   break;
+    case TCode::UINT16:   d = (double) *((uint16_t*) src);      ret = 0;   break;
+    case TCode::UINT32:   d = (double) *((uint32_t*) src);      ret = 0;   break;
+    case TCode::UINT64:   d = (double) *((uint64_t*) src);      ret = 0;   break;
     case TCode::BOOLEAN:  d = (*((bool*) src) ? 1.0d : 0.0d);   ret = 0;   break;
     case TCode::FLOAT:
       {
         float s = 0.0f;
         memcpy((void*) &s, src, sizeOfType(TCode::FLOAT));
-        d = (1.0d * *((float*) src));
+        d = (double) *((float*) src);
         ret = 0;
       }
       break;
-- 
2.43.0


From 3614e136a772e869b56af9445f8be07dfd7d61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 023/123] fix: C3PValue::get_as_bool() was true for zeros held
 by reference and for -0.0

---
 src/C3PValue/C3PValue.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..9a2ad89 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -458,8 +458,14 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
+  bool ret = (nullptr != _target_mem);
+  if (is_numeric()) {
+    // Numerics might be stored by reference, or have several zeros.
+    C3PType* t_helper = getTypeHelper(TCode::BOOLEAN);
+    t_helper->set_from((void*) &ret, _TCODE, _type_pun_get());
+  }
   if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  return ret;
 }
 
 
-- 
2.43.0


From 909291f360136bd617a93bb64308ccab6a56469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 024/123] fix: values of type STR_BUILDER took the content of
 the object for its address

---
 src/C3PValue/C3PType.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index f465606..7bf8f46 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2477,11 +2477,7 @@ template <> uint32_t    C3PTypeConstraint<StringBuilder*>::length(void* obj) {
 
 template <> void        C3PTypeConstraint<StringBuilder*>::to_string(void* obj, StringBuilder* out) {
   if (nullptr != obj) {
-    StringBuilder* o = nullptr;
-    memcpy((void*) &o, obj, sizeof(StringBuilder*));
-    if (nullptr != o) {
-      out->concat(o);
-    }
+    out->concat((StringBuilder*) obj);
   }
 }
 
@@ -2493,7 +2489,7 @@ template <> int8_t      C3PTypeConstraint<StringBuilder*>::set_from(void* dest,
       //case TCode::STR:     d = *((char**) src);    return 0;
       case TCode::STR_BUILDER:
         if (nullptr != dest) {
-          memcpy(dest, src, sizeof(StringBuilder*));
+          *((StringBuilder**) dest) = (StringBuilder*) src;
           ret = 0;
         }
         break;
-- 
2.43.0


From e8c0c0d66bc7916566df0ba0d3fad0b8ac61cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 025/123] fix: C3PValue::set() of a string kept the address of
 its own argument

---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..9453fed 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);   };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);   };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From e4ef9f403dbbf8d58095852363fbad17d67f2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 026/123] fix: C3PValue::drop() did not destroy values behind
 the head of the list

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 9a2ad89..5339245 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -615,7 +615,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From d4ae2ddf7b69e3adeb66d2c8194c3e5eff9ffea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 027/123] fix: C3PValue pointer-length accessors treated values
 of any type as a pointer-length pair

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5339245..7b0ff78 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -382,7 +382,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
   int8_t ret = -1;
   if ((nullptr != v) & (nullptr != l)) {
     ret--;
-    if (nullptr != _target_mem) {
+    if (is_ptr_len() && (nullptr != _target_mem)) {
       *v = ((C3PBinBinder*) _target_mem)->buf;
       *l = ((C3PBinBinder*) _target_mem)->len;
       ret = 0;
@@ -394,7 +394,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 // TODO: Audit. Might be wrong-headed.
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
-  if (nullptr != _target_mem) {
+  if (is_ptr_len() && (nullptr != _target_mem)) {
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
     _set_trace++;
-- 
2.43.0


From 4655fa1d3a463e26155922f8eced88b926bbf98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 028/123] fix: binary C3PValue without a value had an
 uninitialized pointer and length

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 7b0ff78..a4ee1e9 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -163,6 +163,7 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       //   single reference. That shim will be heap allocated.
       _target_mem = malloc(sizeof(C3PBinBinder));
       if (nullptr != _target_mem) {
+        memset(_target_mem, 0, sizeof(C3PBinBinder));
         //((C3PBinBinder*) _target_mem)->tcode = TC;
         _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
         // TODO: Is this the correct choice? We know that we are responsible for
-- 
2.43.0


From 87510ceda0935e6f098aebf9ec176268401a30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 029/123] fix: CBOR input_stringbuilder read 16-bit arguments
 with their bytes swapped

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..5732775 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 31f0d8e15a1fa5b4fd8a16c91238a1a45d9137da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 030/123] fix: CBOR encoder dropped the low byte of 64-bit
 integers from 256 to 65535

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 5732775..624f98b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From 1a0b4fe0a6d1d44dfa569bd89f102b554bb7a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 031/123] fix: CBOR output_static released malloc'd memory with
 delete

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 624f98b..4afc846 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From 351a1587406bfc28c26a9a011c6ae308bcb3059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 032/123] fix: CBOR output_static size check wrapped for empty
 blocks

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 4afc846..de96d9d 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -225,7 +225,7 @@ int8_t output_static::put_byte(uint8_t value) {
 }
 
 int8_t output_static::put_bytes(const uint8_t* data, int size) {
-  if (_offset + size - 1 < _capacity) {
+  if ((size >= 0) && ((uint32_t) size <= (_capacity - _offset))) {
     memcpy(_buffer + _offset, data, size);
     _offset += size;
     return 0;
-- 
2.43.0


From bcbd4c14cbb68df1997cd0e61661810de8a33b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 033/123] fix: CBOR decoder reported wrong values for negative
 integers at the bounds of their width

---
 src/cbor-cpp/cbor.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index de96d9d..a9024fc 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -677,8 +677,8 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
-            if (diff < 128u) {
+            const int32_t diff = ((int32_t) _in->get_byte()) + 1;
+            if (diff <= 128) {
               _listener->on_integer((int8_t) -(diff));
             }
             else {
@@ -689,8 +689,8 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
-            if (diff < 32768u) {
+            const int32_t diff = ((int32_t) _in->get_short()) + 1;
+            if (diff <= 32768) {
               _listener->on_integer((int16_t) -(diff));
             }
             else {
@@ -702,16 +702,23 @@ void decoder::run() {
           case 4:
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
-            _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
+            _listener->on_integer((int32_t) (-1 - ((int32_t) temp)));
           } else {
-            _listener->on_extra_integer(temp, -1);
+            _listener->on_integer((int64_t) (-1 - ((int64_t) temp)));
           }
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t temp64 = _in->get_long();
+            if (temp64 <= INT64_MAX) {
+              _listener->on_integer((int64_t) (-1 - ((int64_t) temp64)));
+            }
+            else {
+              _listener->on_extra_integer(temp64, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From 825d23ecdbcd502795fb1a3afdd9c765eb302481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 034/123] fix: CBOR decoder took lengths of 2^31 and above as
 negative

---
 src/cbor-cpp/cbor.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index a9024fc..709c05d 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -734,8 +734,15 @@ void decoder::run() {
           _state = STATE_BYTES_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_BYTES_DATA;
+          temp = _in->get_int();
+          if (temp <= INT32_MAX) {
+            _currentLength = (int) temp;
+            _state = STATE_BYTES_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long bytes");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -762,8 +769,15 @@ void decoder::run() {
           _state = STATE_STRING_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_STRING_DATA;
+          temp = _in->get_int();
+          if (temp <= INT32_MAX) {
+            _currentLength = (int) temp;
+            _state = STATE_STRING_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long string");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
-- 
2.43.0


From 23bcfe1579a3ae1102ffeb8c542eec29c16a9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 035/123] fix: CBOR decoder wrote beyond a zero-length array
 for empty byte strings

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 709c05d..51fa668 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -752,7 +752,7 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+        uint8_t data[_currentLength + 1];
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
-- 
2.43.0


From 6ff067b08cd066f959ff9408d681a9985118bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 036/123] fix: CBOR value decoder made up zeros beyond the end
 of the input

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index a4ee1e9..440760b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -824,7 +824,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > 0) {
+  if (INPUT_LEN > local_offset) {
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
-- 
2.43.0


From ae4af89e2ac4d91b4a6560b8f5c5d44d76e3dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 037/123] fix: CBOR value decoder truncated 64-bit lengths and
 refused empty strings

---
 src/C3PValue/C3PValue.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 440760b..4223811 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -853,7 +853,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = ((_length_extra > 0) & (INPUT_LEN >= (local_offset + _length_extra32)));
+    const bool HAVE_EXTRA_LEN = ((MINORTYPE < 28) & (_length_extra <= (INPUT_LEN - local_offset)));
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -933,12 +933,16 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
 
-      case 4:  value = _handle_array(&local_offset, _length_extra32);  break;
+      case 4:
+        if (HAVE_EXTRA_LEN) {   // Each element takes at least a byte.
+          value = _handle_array(&local_offset, _length_extra32);
+        }
+        break;
       case 5:
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if (INPUT_LEN >= (local_offset + (_length_extra32 * 2))) {
+        if (HAVE_EXTRA_LEN && ((_length_extra * 2) <= (INPUT_LEN - local_offset))) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
@@ -1049,7 +1053,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
-        if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
+        if (len_key64 < (INPUT_LEN - local_offset)) {  // +1 for the value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
           if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
-- 
2.43.0


From edd2dde45b5a8fb5437f0a2c066db71d58fe9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 038/123] fix: CBOR value decoder turned integers below the
 64-bit range into positive ones

---
 src/C3PValue/C3PValue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 4223811..862755b 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -890,7 +890,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
             else {                                 value = new C3PValue((int64_t) -(_length_extra+1));  }
             break;
           case 27:
-            value = new C3PValue((int64_t) -(_length_extra+1));
+            if (_length_extra <= INT64_MAX) {
+              value = new C3PValue((int64_t) -(_length_extra+1));
+            }
             break;
           default:
             if (MINORTYPE < 24) {
-- 
2.43.0


From d3ad880a3f3e3ff788a25bc946dd1bc31a3da35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 039/123] fix: CBOR value decoder took 64-bit tags for its
 vendor code

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 862755b..f7d144c 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -949,7 +949,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
       case 6:
-        if (C3P_CBOR_VENDOR_CODE == (_length_extra32 & 0xFFFFFF00)) {
+        if (C3P_CBOR_VENDOR_CODE == (_length_extra & ~((uint64_t) 0xFF))) {
           // We noticed our vendor code, mask it off and see if see have a type
           //   helper for it.
           const TCode TC = IntToTcode(_length_extra32 & 0x000000FF);
-- 
2.43.0


From bf6f69ec2da7dd90dcadfcba2538a9323989724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 040/123] fix: vectors took their elements from beyond the end
 of shorter binary values

---
 src/C3PValue/C3PType.cpp  | 56 +++++++++++++++++++++++++++++++++------
 src/C3PValue/C3PValue.cpp |  5 +++-
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 7bf8f46..4d9c5f5 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1845,7 +1845,12 @@ template <> int8_t      C3PTypeConstraint<Vector3f64>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -1911,7 +1916,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -1977,7 +1987,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2048,7 +2063,12 @@ template <> int8_t      C3PTypeConstraint<Vector3f>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2132,7 +2152,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2198,7 +2223,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2264,7 +2294,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2330,7 +2365,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));   return 0;
+      case TCode::BINARY:
+        if (((C3PBinBinder*) src)->len == length(dest)) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index f7d144c..87c0b25 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1191,7 +1191,10 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
         if (nullptr != ret) {
           // TODO: Hopefully C3PValue knows what to do with this?
-          ret->set(inner_tagged_val);
+          if (0 != ret->set(inner_tagged_val)) {
+            delete ret;
+            ret = nullptr;
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From 2b3dda2f0a621b953a448543dc0c21bdf1bee9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 041/123] fix: serializing a StringBuilder value took its
 content for its address

---
 src/C3PValue/C3PType.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 4d9c5f5..597b94b 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2580,8 +2580,7 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
       {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        StringBuilder* o = nullptr;
-        memcpy((void*) &o, obj, sizeof(StringBuilder*));
+        StringBuilder* o = (StringBuilder*) obj;
         encoder.write_string((char*) o->string());
         ret = 0;   // TODO: Safe SB API.
       }
-- 
2.43.0


From 70bf97ff902f20b15787dcb19b0b501675cf3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 042/123] fix: serializing a binary value wrote its descriptor
 and what lay behind it

---
 src/C3PValue/C3PType.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 597b94b..2c2c5ff 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2626,6 +2626,24 @@ template <> void        C3PTypeConstraint<C3PBinBinder>::to_string(void* obj, St
   }
 }
 
+template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
+  int ret = -1;
+  if (_pointer_safety_check(obj)) {
+    switch (FORMAT) {
+      case TCode::CBOR:
+        {
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          encoder.write_bytes(((C3PBinBinder*) obj)->buf, ((C3PBinBinder*) obj)->len);
+          ret = 0;
+        }
+        break;
+      default:  break;
+    }
+  }
+  return ret;
+}
+
 template <> int8_t      C3PTypeConstraint<C3PBinBinder>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
   if ((nullptr != src) & (nullptr != dest)) {
     switch (SRC_TYPE) {
-- 
2.43.0


From 53d971c372db78894b363a568848bbd22d7f9915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 043/123] fix: CBOR value decoder took the number of a simple
 value for a length

---
 src/C3PValue/C3PValue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 87c0b25..9fd6d50 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -972,9 +972,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           case 23:  value = new C3PValue(TCode::NONE);  break;  // CBOR "undefined"
 
           case 24:  case 25:
-            if (HAVE_EXTRA_LEN) {
-              consume_without_value = true;  //_listener->on_special(_length_extra);
-            }
+            consume_without_value = true;  //_listener->on_special(_length_extra);
             break;
           case 26:  value = new C3PValue(*((float*)(void*) &_length_extra32));  break;
           case 27:  value = new C3PValue(*((double*)(void*) &_length_extra));   break;
-- 
2.43.0


From e70b3226cd0082906050fec928ec9c21f183d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 044/123] fix: setting a binary C3PValue from another overwrote
 the members behind its pointer

---
 src/C3PValue/C3PValue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 9fd6d50..8ea4549 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -334,6 +334,10 @@ void* C3PValue::_type_pun_set() {
     //   _target_mem as its dest argument to a set() fxn.
     return &_target_mem;
   }
+  else if (is_ptr_len()) {
+    // The shim that holds the pointer and its length is what gets written.
+    return _target_mem;
+  }
   else if (!_is_val_by_ref()) {
     // Value-by-copy data that didn't fit inside void* will have been indirected
     //   into a separate allocation. Return that pointer.
@@ -1087,6 +1091,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
+                      tmp_kvp->reapValue(value->reapValue());
                       value->reapValue(false);
                       // There may have been other values attached. Take them as well.
                       C3PValue* tagalong = value->nextValue();
-- 
2.43.0


From 9ee989cdb4e307cb55775cb4350a39818a49b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 045/123] fix: CBOR encoder tagged arrays of 8-bit integers
 with the tags of other types

---
 src/cbor-cpp/cbor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 51fa668..4dc2891 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -448,7 +448,8 @@ int8_t encoder::write_typed_array(const uint32_t TAG_VAL, const void* PTR, const
   }
   const uint32_t BYTE_COUNT = (COUNT * t_size);
   if (0 < BYTE_COUNT) {
-    write_type_value(6, (TAG_VAL + (PF_IS_LITTLE_ENDIAN ? 4:0)));
+    // Single-byte elements have no endianess, and their tags no variants for it.
+    write_type_value(6, (TAG_VAL + ((PF_IS_LITTLE_ENDIAN && (t_size > 1)) ? 4:0)));
     write_bytes((const uint8_t*) PTR, BYTE_COUNT);
     return 0;
   }
-- 
2.43.0


From e9f08f9b4fddc18bcb4c99d819cfde5dd1b6c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 046/123] fix: CBOR decoder released the content of nested
 tagged values it returned

---
 src/C3PValue/C3PValue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 8ea4549..3a52d4e 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1198,6 +1198,11 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
             delete ret;
             ret = nullptr;
           }
+          else if (ret->_is_val_by_ref()) {
+            // If the value is held by reference, its ownership moves along.
+            ret->reapValue(inner_tagged_val->reapValue());
+            inner_tagged_val->reapValue(false);
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From ca27e94438c40428ecc6ac36c145f7369d183728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 047/123] fix: M2MMsgHdr counts every byte of its length field
 in the message's total length

---
 src/M2MLink/M2MMsgHdr.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..ec60f44 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -52,10 +52,12 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   if (msg_id > 0x0000FFFF) calcd_id_sz++;
   flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_ID_BYTES) | (calcd_id_sz << 6));
 
+  // The minimum header size counts a single byte of length. Each byte beyond that
+  //   is also part of the total.
   uint8_t calcd_len_sz = 1;
   uint32_t needed_total_sz = calcd_id_sz + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
-  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
-  if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
+  if (needed_total_sz > 0x000000FF) {  calcd_len_sz++;  needed_total_sz++;  }
+  if (needed_total_sz > 0x0000FFFF) {  calcd_len_sz++;  needed_total_sz++;  }
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
     msg_len = needed_total_sz;
@@ -96,10 +98,12 @@ int M2MMsgHdr::header_length() {
 
 bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   bool ret = false;
+  // The minimum header size counts a single byte of length. Each byte beyond that
+  //   is also part of the total.
   uint8_t calcd_len_sz = 1;
   uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
-  if (needed_total_sz > 0x000000FF) calcd_len_sz++;
-  if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
+  if (needed_total_sz > 0x000000FF) {  calcd_len_sz++;  needed_total_sz++;  }
+  if (needed_total_sz > 0x0000FFFF) {  calcd_len_sz++;  needed_total_sz++;  }
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
     msg_len = needed_total_sz;
-- 
2.43.0


From c8b3eb8b899207e514c8e4305bb6c64bdab34d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 048/123] fix: M2MMsg refuses headers with no length field, or
 a length which doesn't cover the header

---
 src/M2MLink/M2MMsg.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..9127222 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,17 +60,22 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == len_l) {
+      ret = -3;   // The length field is required.
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
       if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
-        ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
         }
+        else if (0 == hdr->payload_length()) {
+          ret = 1;
+        }
       }
     }
   }
-- 
2.43.0


From 44aeade1b92be3185a37c90e29fcf816b2fa9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 049/123] fix: M2MLink finishes a message whose last fragment
 is shorter than a header

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..98df83e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1195,7 +1195,8 @@ int8_t M2MLink::_process_input_buffer() {
   }
 
   if (proc_fallthru) {
-    if (_inbound_buf.length() >= 4) {
+    // A message in progress might be missing less than a header's worth of bytes.
+    if ((nullptr != _working) || (_inbound_buf.length() >= M2MMSGHDR_MINIMUM_HEADER_SIZE)) {
       if (nullptr == _working) {
         M2MMsgHdr _header;
         int8_t ret_header = M2MMsg::attempt_header_parse(&_header, &_inbound_buf);
-- 
2.43.0


From 67d3234fd0ad8e6b249746312c81287a33f3488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 050/123] fix: M2MLink doesn't look for services beyond its
 slots

---
 src/M2MLink/M2MLink.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 98df83e..b14fbd8 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1129,16 +1129,15 @@ int8_t M2MLink::_invoke_msg_callback(M2MMsg* msg) {
 int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   int8_t ret = -1;
   if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
-    ret++;
-  }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
-    ret++;
-    _svc_list[slot]->_handle_msg(_session_tag, msg);
-    if (BusOpcode::TX == msg->direction()) {
-      // If the message is now marked as TX, it means the application wants to
-      //   reply. This might just be an ACK, or it may be the next step in dialog,
-      //   itself demanding a reply.
-      ret++;
+    if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
+      ret += 2;
+      _svc_list[slot]->_handle_msg(_session_tag, msg);
+      if (BusOpcode::TX == msg->direction()) {
+        // If the message is now marked as TX, it means the application wants to
+        //   reply. This might just be an ACK, or it may be the next step in dialog,
+        //   itself demanding a reply.
+        ret++;
+      }
     }
   }
   return ret;
-- 
2.43.0


From 52cd0c151a1e5a763871d7b5ee2ebb383e81a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 051/123] fix: M2MLink replies release (and free) only those
 messages which wait for them

---
 src/M2MLink/M2MLink.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index b14fbd8..df919f7 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -950,14 +950,18 @@ int8_t M2MLink::_churn_outbound() {
 */
 int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   int8_t ret = 0;
-  for (int i = 0; i < _outbound_messages.size(); i++) {
+  int i = 0;
+  while ((0 != id) && (i < _outbound_messages.size())) {   // An ID of 0 is no ID.
     M2MMsg* temp = _outbound_messages.get(i);
-    if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
-        temp->markACKd();
-        _outbound_messages.remove(temp);
-        ret = 1;
-      }
+    // Only messages that went out, and are waiting on a reply can be satisfied.
+    if ((nullptr != temp) && (id == temp->uniqueId()) && temp->expectsReply() && temp->wasSent()) {
+      temp->markACKd();
+      _outbound_messages.remove(temp);
+      _reclaim_m2mmsg(temp);
+      ret++;
+    }
+    else {
+      i++;
     }
   }
   return ret;
-- 
2.43.0


From 83148df8b9955df6329f37fbb5ffab82689d9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 052/123] fix: M2MLink takes a message as answered if its reply
 is itself replied to

---
 src/M2MLink/M2MLink.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index df919f7..242796a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -667,6 +667,9 @@ int8_t M2MLink::_churn_inbound() {
     int8_t app_msg_ret = 127;
     M2MMsg* temp = _inbound_messages.dequeue();
     KeyValuePair* kvps_rxd = nullptr;
+    // Handling might convert the message into a reply. Note what it came in as.
+    const bool     WAS_REPLY = temp->isReply();
+    const uint32_t REPLY_ID  = temp->uniqueId();
 
     if (_verbosity >= LOG_LEV_INFO) {
       StringBuilder tmp_log;
@@ -861,10 +864,10 @@ int8_t M2MLink::_churn_inbound() {
         break;
     }
 
+    if (WAS_REPLY) {
+      _clear_waiting_send_by_id(REPLY_ID);
+    }
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
-- 
2.43.0


From e1a86755569237a8e79bfb68f67200e8e23a1f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 053/123] fix: M2MLink doesn't leak CONNECT messages it
 answered

---
 src/M2MLink/M2MLink.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 242796a..5f21f6d 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -711,10 +711,7 @@ int8_t M2MLink::_churn_inbound() {
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
         else if (temp->expectsReply()) {
-          if (0 == temp->ack()) {
-            gc_message = false;
-          }
-          else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
+          if ((0 != temp->ack()) && (_verbosity >= LOG_LEV_ERROR)) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
           //  StringBuilder tmp_log;
           //  tmp_log.concatf("Link 0x%08x responding with...\n", _session_tag);
-- 
2.43.0


From 518a5d62a9453d0d2867df371f8513eb782fda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 054/123] fix: M2MLink hangs up immediately if told to,
 whatever the state of the link

---
 src/M2MLink/M2MLink.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 5f21f6d..88ab6f8 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -327,6 +327,9 @@ int8_t M2MLink::hangup(bool graceful) {
     _purge_inbound();
     _purge_outbound();
     ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
+    if ((0 == ret) && (M2MLinkState::HUNGUP != currentState())) {
+      ret = _fsm_advance();  // No other state's exit conditions need be met.
+    }
   }
   return ret;
 }
-- 
2.43.0


From 2f0eebc46f4b6351c1ab967a5d0b58079414e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 055/123] fix: M2MLink retains the start of a sync packet that
 has yet to arrive in full

---
 src/M2MLink/M2MLink.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 88ab6f8..e0d6f70 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1369,12 +1369,11 @@ int8_t M2MLink::_process_for_sync() {
   }
   else {
     // Without finding a sync packet, we drop the data.
-    // Cull to a modulus of 4 bytes so as not to drop data we haven't tested.
-    const uint32_t CULL_LEN = ((uint32_t) AVAILABLE_LEN) & 0xFFFFFFFC;
-    if (0 < CULL_LEN) {   // clear() is cheaper than cull().
+    // Retain those bytes which might be the start of a sync packet.
+    const int CULL_LEN = AVAILABLE_LEN - (M2MMSGHDR_MINIMUM_HEADER_SIZE - 1);
+    if (0 < CULL_LEN) {
       ret = 0;
-      if ((uint32_t)AVAILABLE_LEN == CULL_LEN) {  _inbound_buf.clear();  }
-      else {  _inbound_buf.cull(CULL_LEN);  }
+      _inbound_buf.cull(CULL_LEN);
     }
   }
   if (_verbosity >= LOG_LEV_DEBUG) {
-- 
2.43.0


From 80f2a55bd44738af42372ae2ef76a0319188fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 056/123] fix: M2MLink survives a LOG message with no payload,
 and frees the payload of others

---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index e0d6f70..fdb70c6 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -985,14 +985,14 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
     KeyValuePair* inbound_kvp = nullptr;
     if (0 == msg->getPayload(&inbound_kvp)) {
       char* inbound_log = nullptr;
-      if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
+      if ((nullptr != inbound_kvp) && (0 == inbound_kvp->valueWithKey("b", &inbound_log))) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
         _remote_log.concatf("Link 0x%08x counterparty says:\n%s\n", _session_tag, inbound_log);
       }
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
+      if (nullptr != inbound_kvp) delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
-- 
2.43.0


From 2f9feb31ef0d8a7dd897f31ed606394445e3c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 057/123] fix: M2MMsg reports that its payload could not be
 serialized, rather than omitting it

---
 src/M2MLink/M2MMsg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9127222..e999725 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -335,10 +335,10 @@ int M2MMsg::serialize(StringBuilder* buf) {
     int payload_len = 0;
     if (nullptr != _kvp) {
       ret--;
-      if (0 == _kvp->serialize(&payload, _encoding)) {
-        ret--;
-        payload_len = payload.length();
+      if (0 != _kvp->serialize(&payload, _encoding)) {
+        return ret;
       }
+      payload_len = payload.length();
     }
     if (_header.set_payload_length(payload_len)) {
       ret--;
-- 
2.43.0


From 596f5f3163e02189f0f6e361c3a8739cc5358900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:44 +0000
Subject: [PATCH 058/123] fix: M2MMsg and M2MLink free the payloads they
 unpacked or made

---
 src/M2MLink/M2MLink.cpp |  3 +++
 src/M2MLink/M2MLink.h   |  2 ++
 src/M2MLink/M2MMsg.cpp  | 16 ++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index fdb70c6..12bfc3a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -784,6 +784,7 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
+          delete kvps_rxd;
         }
 
         if (temp->isReply()) {
@@ -800,6 +801,7 @@ int8_t M2MLink::_churn_inbound() {
             // If we have one assigned, serialize and relay it as a reply.
             KeyValuePair* a = new KeyValuePair("ident", _id_loc);
             int8_t ret_local = temp->reply(a, true);
+            delete a;
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -1482,6 +1484,7 @@ int8_t M2MLink::_send_who_message() {
     if (_id_loc) {
       KeyValuePair* a = new KeyValuePair("ident", _id_loc);
       msg->setPayload(a);
+      delete a;
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 4a503b4..9716730 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -409,6 +409,8 @@ class M2MMsg {
     KeyValuePair* _kvp    = nullptr;
     StringBuilder _accumulator;
 
+    void _drop_payload();
+
     /* Flag manipulation inlines */
     inline uint8_t _class_flags() {                return _flags;           };
     inline bool _class_flag(uint8_t _flag) {       return (_flags & _flag); };
diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index e999725..7d11c51 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -135,6 +135,7 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  _drop_payload();
 }
 
 
@@ -161,6 +162,19 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  _drop_payload();
+}
+
+
+/**
+* Frees the payload that was unpacked from an inbound message. Payloads given to
+*   us by the application are not retained.
+*/
+void M2MMsg::_drop_payload() {
+  if (nullptr != _kvp) {
+    delete _kvp;
+    _kvp = nullptr;
+  }
 }
 
 
@@ -239,11 +253,13 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    _drop_payload();
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;
   }
   return ret;
 }
-- 
2.43.0


From 6f02c0a1d869307aa441f961a5322cb9149ab55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 059/123] fix: M2MMsg serializes a message without payload each
 time it is sent, not only the first

---
 src/M2MLink/M2MMsg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 7d11c51..d0e587e 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -364,7 +364,9 @@ int M2MMsg::serialize(StringBuilder* buf) {
         if (!payload.isEmpty()) {
           buf->concatHandoff(&payload);
         }
-        _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        if (buf == &_accumulator) {
+          _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        }
         ret = 0;
       }
     }
-- 
2.43.0


From 13314620065b8dee8066df5b114122f41d40801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:38 +0000
Subject: [PATCH 060/123] fix: M2MLink doesn't take a value of some other type
 for the string in a LOG message

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 12bfc3a..4d03944 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -987,7 +987,8 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
     KeyValuePair* inbound_kvp = nullptr;
     if (0 == msg->getPayload(&inbound_kvp)) {
       char* inbound_log = nullptr;
-      if ((nullptr != inbound_kvp) && (0 == inbound_kvp->valueWithKey("b", &inbound_log))) {
+      KeyValuePair* log_kvp = (nullptr != inbound_kvp) ? inbound_kvp->valueWithKey("b") : nullptr;
+      if ((nullptr != log_kvp) && (0 == log_kvp->get_as(&inbound_log))) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
         _remote_log.concatf("Link 0x%08x counterparty says:\n%s\n", _session_tag, inbound_log);
       }
-- 
2.43.0


From 137d5d650c5baea15e9f677aa8e69d4a2852913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 061/123] fix: KeyValuePair::unserialize doesn't leak the keys
 it read

---
 src/C3PValue/KeyValuePair.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1891d2c..55b5b1c 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -419,7 +419,8 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);
+      nu->setKey(_wait);   // Makes its own copy.
+      free(_wait);
       _wait = nullptr;
     }
   }
-- 
2.43.0


From f39032877cdacb04e94e02010f2122643d35fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 062/123] fix: M2MLink logs the CONNECT message it failed to
 send, rather than a nonexistant one

---
 src/M2MLink/M2MLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4d03944..87dce5a 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1426,7 +1426,7 @@ int8_t M2MLink::_send_connect_message() {
     if (_verbosity >= LOG_LEV_CRIT) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x failed to serialize a connect header.\n", _session_tag);
-      _working->printDebug(&tmp_log);
+      connect_msg.printDebug(&tmp_log);
       c3p_log(LOG_LEV_CRIT, __PRETTY_FUNCTION__, &tmp_log);
     }
   }
-- 
2.43.0


From 585e66e9eb7a5edf33d82bdecefd4489de8d7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 063/123] fix: M2MMsgHdr refuses payload lengths so large that
 the total length wraps

---
 src/M2MLink/M2MMsgHdr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index ec60f44..6c0b8c6 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -98,6 +98,9 @@ int M2MMsgHdr::header_length() {
 
 bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   bool ret = false;
+  if (pl_len > 0x00FFFFFD) {   // Don't let the sum below wrap.
+    return ret;
+  }
   // The minimum header size counts a single byte of length. Each byte beyond that
   //   is also part of the total.
   uint8_t calcd_len_sz = 1;
-- 
2.43.0


From a43f1bc290bc762ad3cd63b7ca79c8a072f61dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 064/123] fix: M2MLink asks to CONNECT again if it wasn't
 answered

---
 src/M2MLink/M2MLink.cpp | 11 +++++++++--
 src/M2MLink/M2MLink.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 87dce5a..4d83a0e 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -268,8 +268,14 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
       _process_input_buffer();
       _churn_inbound();
       _churn_outbound();
-      // If we need to send an obligatory sync packet, do so.
-      if (_flags.value(M2MLINK_FLAG_SYNC_CASTING | M2MLINK_FLAG_SEND_KA)) {
+      // The counterparty might never have seen our CONNECT (or we its reply), so
+      //   ask again. Otherwise, if we need to send an obligatory sync packet, do so.
+      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+        if (millis_since(_ms_last_connect) > _opts.ms_keepalive) {
+          _send_connect_message();
+        }
+      }
+      else if (_flags.value(M2MLINK_FLAG_SYNC_CASTING | M2MLINK_FLAG_SEND_KA)) {
         if (millis_since(_ms_last_send) > _opts.ms_keepalive) {
           _send_sync_packet(true);
         }
@@ -1421,6 +1427,7 @@ int8_t M2MLink::_send_connect_message() {
   M2MMsg connect_msg(&connect_header, BusOpcode::TX);
   if (connect_header.serialize(&connect_packet)) {
     ret = (0 <= _relay_to_output_target(&connect_packet)) ? 0 : -2;
+    if (0 == ret) _ms_last_connect = millis();
   }
   else {
     if (_verbosity >= LOG_LEV_CRIT) {
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 9716730..635f83f 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -526,6 +526,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     uint8_t         _seq_ack_fails  = 0;
     uint32_t        _session_tag    = 0;        // Allows the application to keep track of our callbacks.
     uint32_t        _ms_last_send   = 0;        // At what time did the last message go out?
+    uint32_t        _ms_last_connect = 0;       // At what time did the last CONNECT go out?
     uint32_t        _ms_last_rec    = 0;        // At what time did the last message come in?
     uint16_t        _sync_losses    = 0;        // How many times this session have we lost sync?
     uint16_t        _unackd_sends   = 0;        // How many messages that needed an ACK failed to get one?
-- 
2.43.0


From cd6362fd9b6332f1ecc619e2b22b9b2b2b76068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 065/123] fix: M2MLink resynchronizes if it loses sync before
 the session is established

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4d83a0e..e05fade 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1547,8 +1547,9 @@ int8_t M2MLink::_fsm_poll() {
       break;
 
     // Exit conditions: We've exchanged CONNECT messages.
+    //   Or that we've lost sync, and need to find it again.
     case M2MLinkState::SYNC_TENTATIVE:
-      fsm_advance = _flags.value(M2MLINK_FLAG_ESTABLISHED);
+      fsm_advance = _flags.value(M2MLINK_FLAG_ESTABLISHED) || _fsm_is_next_pos(M2MLinkState::SYNC_RESYNC);
       break;
 
     // Exit conditions: An acceptable authentication has happened.
-- 
2.43.0


From 7650a8471dd9756b65c03631c0b1c828b97e70a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 066/123] fix: M2MLink doesn't skip authentication, or become
 LIVE twice, if CONNECT is answered at an odd time

---
 src/M2MLink/M2MLink.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index e05fade..b5e0ca3 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -270,7 +270,7 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
       _churn_outbound();
       // The counterparty might never have seen our CONNECT (or we its reply), so
       //   ask again. Otherwise, if we need to send an obligatory sync packet, do so.
-      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && !_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
         if (millis_since(_ms_last_connect) > _opts.ms_keepalive) {
           _send_connect_message();
         }
@@ -704,18 +704,13 @@ int8_t M2MLink::_churn_inbound() {
 
       case M2MMsgCode::CONNECT:
         if (temp->isReply()) {
-          if (!_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-            if (_fsm_is_stable()) {   // Ensures we are in SYNC_TENTATIVE.
-              if (_flags.value(M2MLINK_FLAG_AUTH_REQUIRED)) {
-                _fsm_append_route(2, M2MLinkState::PENDING_AUTH, M2MLinkState::LIVE);
-              }
-              else {
-                _fsm_append_route(1, M2MLinkState::LIVE);
-              }
+          if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+            if (_flags.value(M2MLINK_FLAG_AUTH_REQUIRED) && !_flags.value(M2MLINK_FLAG_AUTHD)) {
+              _fsm_append_route(2, M2MLinkState::PENDING_AUTH, M2MLinkState::LIVE);
+            }
+            else {
+              _fsm_append_route(1, M2MLinkState::LIVE);
             }
-          }
-          else {
-            _fsm_append_route(1, M2MLinkState::LIVE);
           }
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
-- 
2.43.0


From 9ea08f6b66ddd7f1ee9786fd0e77dc86f2a8f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 067/123] fix: ParsingConsole's history configuration doesn't
 change the prompt setting

---
 src/Console/C3PConsole.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..2aa0fd1 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -523,7 +523,6 @@ int8_t ParsingConsole::console_handler_conf(StringBuilder* text_return, StringBu
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "history")) {
     if (1 < args->count()) {
-      emitPrompt(0 != arg1);
       char* subcmd = args->position_trimmed(1);
       if (0 == StringBuilder::strcasecmp(subcmd, "clear")) {
         clearHistory();
-- 
2.43.0


From 97c731766fba8440c2717c65bc7b86afbfa76601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 068/123] fix: ParsingConsole executes terminated lines only,
 and honors the ZEROBYTE terminator

---
 src/Console/C3PConsole.cpp | 53 ++++++++++++++++----------------------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 2aa0fd1..306fad1 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,10 +207,10 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
-      StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
-      _buffer.drop_position(0);
+  else {
+    StringBuilder line;
+    while (_take_line(&line)) {
+      StringBuilder tmp_str_bldr(line.position_trimmed(0));
       if (!tmp_str_bldr.isEmpty()) {
         ret = (0 != ret) ? ret : 0;
         _history_idx = _max_history;
@@ -422,37 +422,28 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 
 /**
-* Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+* Checks for the configured terminator in the input stream, and takes the first
+*   line if one is complete. Input that isn't terminated yet is left in place.
 *
-* @return true if there is a line-ending in the buffer.
+* @param line will contain the line, without its terminator.
+* @return true if there was a complete line in the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
-  const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
-  const int L_TERM_LEN = strlen(L_TERM);
-  bool ret = false;
-  bool buf_has_lterm = false;
-  switch (L_TERM_LEN) {
-    case 2:
-      buf_has_lterm = _buffer.contains(L_TERM);
-      break;
-    case 1:
-      buf_has_lterm = _buffer.contains(L_TERM[0]);
-      break;
-    case 0:
-    default:
-      break;
-  }
-
-  if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
-      ret = true;
-    }
-    else {
-      _buffer.clear();
+bool ParsingConsole::_take_line(StringBuilder* line) {
+  const uint8_t* const L_TERM = (const uint8_t*) lineTerminatorLiteralStr(_rx_terminator);
+  const int L_TERM_LEN = lineTerminatorLength(_rx_terminator);
+  line->clear();
+  if (0 < L_TERM_LEN) {
+    const int LINE_LEN = _buffer.locate(L_TERM, L_TERM_LEN);
+    if (0 <= LINE_LEN) {
+      if (0 < LINE_LEN) {
+        line->concatHandoffLimit(&_buffer, (unsigned int) LINE_LEN);
+        line->string();   // The line might have arrived in pieces.
+      }
+      _buffer.cull(L_TERM_LEN);
+      return true;
     }
   }
-  return ret;
+  return false;
 }
 
 
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..1ed7ff3 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    bool _take_line(StringBuilder*);
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0


From 7b31fe128f6801cc951cd3eced18f2f324aca94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 069/123] fix: ParsingConsole handles backspace anywhere in the
 input, and keeps what follows it

---
 src/Console/C3PConsole.cpp | 48 ++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 306fad1..ab83da8 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -159,26 +159,38 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
   // TODO: Implement cursor keys.
   //   U: 0x1b, 0x5b, 0x41   D: 0x1b, 0x5b, 0x42
   //   L: 0x1b, 0x5b, 0x44   R: 0x1b, 0x5b, 0x43
-  uint8_t first_byte = *(incoming->string());
-  if (localEcho()) {
-    _response.concat(incoming);  // We do it this way to copy the buffer. printToLog() will take it.
-    //incoming->printDebug(&_response); Uncomment to hex dump received characters.
-    if (0x08 == first_byte) {
-      uint8_t last_chr_erase[] = {0x20, 0x08};
-      _response.concat(last_chr_erase, 2);
+  const uint8_t BACKSPACE = 0x08;
+  while (!incoming->isEmpty()) {
+    const int BS_OFFSET = incoming->locate(&BACKSPACE, 1);
+    if (0 == BS_OFFSET) {   // If we see the backspace key...
+      if (localEcho()) {
+        const uint8_t ECHO_ERASE[] = {0x08, 0x20, 0x08};
+        _response.concat((uint8_t*) ECHO_ERASE, 3);
+        printToLog(nullptr);   // Flush the log out of the console.
+      }
+      int blen = _buffer.length();
+      if (0 < blen) {   // ...and we have accumulated input...
+        _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
+      }
+      incoming->cull(1);  // Drop the first character of the input.
     }
-    printToLog(nullptr);   // Flush the log out of the console.
-  }
-  if (0x08 == first_byte) {   // If we see the backspace key...
-    int blen = _buffer.length();
-    if (0 < blen) {   // ...and we have accumulated input...
-      _buffer.cull(0, blen-1);  // Drop the last character of the buffer.
+    else {
+      // Take the input up to the next backspace, or all of it, if there isn't one.
+      StringBuilder input;
+      if (0 < BS_OFFSET) {
+        input.concatHandoffLimit(incoming, (unsigned int) BS_OFFSET);
+      }
+      else {
+        input.concatHandoff(incoming);
+      }
+      if (localEcho()) {
+        _response.concat(&input);  // We do it this way to copy the buffer. printToLog() will take it.
+        //input.printDebug(&_response); Uncomment to hex dump received characters.
+        printToLog(nullptr);   // Flush the log out of the console.
+      }
+      _buffer.concatHandoff(&input);  // Take the buffer.
+      _process_buffer();  // TODO: Observe return code.
     }
-    incoming->cull(1);  // Drop the first character of the input.
-  }
-  else {
-    _buffer.concatHandoff(incoming);  // Take the buffer.
-    _process_buffer();  // TODO: Observe return code.
   }
   return 1;
 }
-- 
2.43.0


From 5c3ffc2c9498b6c11373f78546b8152d57bc58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 070/123] fix: ParsingConsole doesn't crash on printing a
 prompt or unknown command where va_list is a char*

---
 src/Console/C3PConsole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index ab83da8..98d3b69 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -244,7 +244,7 @@ int8_t ParsingConsole::_process_buffer() {
             // TODO: Change to prompt color.
           }
           // Write the prompt to the log.
-          _response.concatf("\n%s", _prompt_string);
+          _response.concatf("\n%s", (const char*) _prompt_string);  // Not a va_list, where that is a char*.
         }
       }
     }
@@ -416,7 +416,7 @@ void ParsingConsole::printHelp(StringBuilder* output, char* specific_cmd) {
     tmpcmd->printDetailedHelp(output);
   }
   else {
-    output->concatf("Command '%s' not supported.\n", specific_cmd);
+    output->concatf("Command '%s' not supported.\n", (const char*) specific_cmd);  // Not a va_list, where that is a char*.
   }
 }
 
-- 
2.43.0


From b644eaf6c7c93c4c2b985304b0cd33c551428904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 071/123] fix: SimpleDataRecord::load(StringBuilder*) checks
 the record length against the data, as the other overload does

---
 src/Storage/SimpleDataRecord.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8c20fda..e5fc265 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -214,14 +214,16 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
   if (0 == _descriptor_deserialize(inbound_buf)) {
     ret--;
     if (_storage_tag == storage_tag) {
-      ret--;
-      if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
-        // Hash matches. Cull the useless edges of the buffer...
-        inbound_buf->cull(DATARECORD_BASE_SIZE);
+      if ((inbound_buf->length() - DATARECORD_BASE_SIZE) >= _data_length) {
         ret--;
-        if (0 == deserialize(inbound_buf, _format)) {
-          _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-          ret = 0;
+        if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
+          // Hash matches. Cull the useless edges of the buffer...
+          inbound_buf->cull(DATARECORD_BASE_SIZE, _data_length);
+          ret--;
+          if (0 == deserialize(inbound_buf, _format)) {
+            _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
+            ret = 0;
+          }
         }
       }
     }
-- 
2.43.0


From 2d910f4485742dfee0246cefcb3da9661eb005d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 072/123] fix: SimpleDataRecord truncates names of any length

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index e5fc265..b6c83a8 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -246,7 +246,7 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t SimpleDataRecord::_sanitize_name(const char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint8_t NAME_LENGTH = (uint8_t) strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From aba8e42a437121be6679956515a0e60cc244b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 073/123] fix: SimpleDataRecord loads a record without payload
 from a plain buffer

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index b6c83a8..576b358 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -178,7 +178,7 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
-  if (buf_len > DATARECORD_BASE_SIZE) {
+  if (buf_len >= DATARECORD_BASE_SIZE) {
     StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
     if (0 == _descriptor_deserialize(&desc_container)) {
       ret--;
-- 
2.43.0


From 47b5ede5b9a6ee490a7205f9f909c642e21543de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 074/123] fix: SimpleDataRecord::printDebug() stays within the
 name

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 576b358..6440fba 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -33,7 +33,7 @@ SimpleDataRecord::SimpleDataRecord(uint32_t storage_tag, StorageRecordType rtype
 
 void SimpleDataRecord::printDebug(StringBuilder* output) {
   output->concatf("\t Tag:\t 0x%08x\n", _storage_tag);
-  output->concatf("\t Key:\t %s\n", _key);
+  output->concatf("\t Key:\t %.16s\n", _key);
   output->concatf("\t Dirty:\t %c\n", isDirty() ? 'y':'n');
   output->concatf("\t Type:\t 0x%02x\n", recordType());
   output->concatf("\t Hash:\t 0x%08x\n", _hash);
-- 
2.43.0


From f401efbc671671a5974b81181a69bf50cebf6590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 075/123] fix: UARTAdapter::write() returns 0 if the transmit
 buffer takes nothing

---
 src/BusQueue/UARTAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 051a09c..53c2baa 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -244,7 +244,8 @@ uint32_t UARTAdapter::write(StringBuilder* buf) {
 uint32_t UARTAdapter::write(uint8_t* buf, uint32_t len) {
   uint32_t ret = 0;
   if (txCapable()) {
-    ret = _tx_buffer.insert(buf, len);
+    const int BYTES_INSERTED = _tx_buffer.insert(buf, len);   // Negative, if nothing was.
+    ret = (0 < BYTES_INSERTED) ? (uint32_t) BYTES_INSERTED : 0;
   }
   return ret;
 }
-- 
2.43.0


From b90e61b4f461274e96e13a4b9688129e94ba29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 076/123] fix: I2CAdapter::queue_io_job() reports success for a
 job it starts immediately, and marks it as queued

---
 src/BusQueue/I2CAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..f8de532 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -172,6 +172,8 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    nu->set_state(XferState::QUEUED);
+    ret = 0;   // Success or not, the job is ours, and the callback will tell.
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
-- 
2.43.0


From e8509de6de2d28654a73c269094d01d4243d46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 077/123] fix: BusAdapter::purge_queued_work_by_dev() doesn't
 skip the job behind one it purged

---
 src/BusQueue/BusQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..9844571 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -428,7 +428,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     */
     int8_t purge_queued_work_by_dev(BusOpCallback* cb_obj) {
       int8_t ret = 0;
-      for (int i = 0; i < work_queue.size(); i++) {
+      int i = 0;
+      while (i < work_queue.size()) {
         T* current = work_queue.get(i);
         if ((nullptr != current) && (current->callback == cb_obj)) {
           ret++;
@@ -439,6 +440,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
           }
           _reclaim_queue_item(current);   // Delete the queued work AND its buffer.
         }
+        else i++;   // A removal moves the next job into this position.
       }
       return ret;
     };
-- 
2.43.0


From 7d526be83e3f66dc1779d3d04388d88af202e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 078/123] fix: BusAdapter doesn't leave the fault of a finished
 transfer on a job its owner will queue again

---
 src/BusQueue/BusQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 9844571..f767d25 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -552,7 +552,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
         and wants us to ignore the memory cleanup. But we should at least set it
         back to IDLE.*/
         if (getVerbosity() >= LOG_LEV_DEBUG) { c3p_log(LOG_LEV_DEBUG, "BusAdapter", "BusAdapter::reclaim_queue_item(): \t Dropping...."); }
-        op->set_state(XferState::IDLE);
+        op->markForRequeue();   // IDLE, and without the fault of this transfer.
       }
     }
 
-- 
2.43.0


From af2c6aa89380432522a005246b6f27c6e812485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 079/123] fix: BusAdapter clears a job's free-buffer flag even
 if the job had no buffer

---
 src/BusQueue/BusQueue.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index f767d25..99f2e92 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -534,12 +534,14 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
         _failed_xfers++;
       }
 
-      if (op->shouldFreeBuffer() && (nullptr != op->buffer())) {
+      if (op->shouldFreeBuffer()) {
         // Independently of the BusOp's mem management, if the I/O buffer is
         //   marked for reap, do so at this point.
-        free(op->buffer());
-        op->setBuffer(nullptr, 0);
-        op->shouldFreeBuffer(false);
+        if (nullptr != op->buffer()) {
+          free(op->buffer());
+          op->setBuffer(nullptr, 0);
+        }
+        op->shouldFreeBuffer(false);  // Must not apply to the op's next buffer.
       }
 
       if (op->shouldReap() || preallocated.inPool(op)) {
-- 
2.43.0


From 9b2a1240a55eefcf81de947b1a59b5ff473c9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 080/123] fix: Image doesn't read or write pixels that are out
 of bounds, and setPixel() reports success

---
 src/Image/Image.cpp | 25 +++++++++++++++++++------
 src/Image/Image.h   |  1 +
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..45db082 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -892,17 +892,28 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 }
 
 
+/**
+* Does the given (native) location have a pixel in the buffer?
+* NOTE: Monochrome buffers are organized in groups of 8 rows.
+*/
+bool Image::_in_bounds(const PixUInt x, const PixUInt y) {
+  if (!allocated() || (x >= _x) || (y >= _y)) {
+    return false;
+  }
+  return ((ImgBufferFormat::MONOCHROME != _buf_fmt) || (y < (_y & ~((PixUInt) 7))));
+}
+
+
 /**
 * TODO: This class presumes a big-endian buffer to facilitate DMA to
 *   framebuffers. This assumption is bad.
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
   uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_in_bounds(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1042,6 +1053,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_in_bounds(x, y)) {
+    return false;  // Addressed pixel is out-of-bounds
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1069,9 +1083,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1080,9 +1094,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
   uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_in_bounds(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..d41277b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -306,6 +306,7 @@ class Image {
     void _char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt* miny, PixUInt* maxx, PixUInt* maxy);
     int8_t _buffer_allocator();
     void _remap_for_orientation(PixUInt* x, PixUInt* y);
+    bool _in_bounds(const PixUInt x, const PixUInt y);
 
     inline void _set_pixel_32(PixUInt x, PixUInt y, uint32_t c) {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
-- 
2.43.0


From 7a6439223f5e0ba97f46401b248d78e27cbe2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 081/123] fix: Image::setPixel() and fill() write 24-bit pixels
 where getPixel() reads them, and within the buffer

---
 src/Image/Image.cpp | 6 +++---
 src/Image/Image.h   | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 45db082..add09af 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1946,9 +1946,9 @@ void Image::fill(uint32_t color) {
       break;
     case 24:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
+        *(_buffer + (i * 3) + 0) = (uint8_t) (color >> 16) & 0xFF;
+        *(_buffer + (i * 3) + 1) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i * 3) + 2) = (uint8_t) (color & 0xFF);
       }
       break;
     case 16:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index d41277b..9ebe03b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -312,8 +312,10 @@ class Image {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* pix = _buffer + (_pixel_number(x, y) * 3);
+      *(pix + 0) = (uint8_t) (c >> 16);
+      *(pix + 1) = (uint8_t) (c >> 8);
+      *(pix + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
       *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
-- 
2.43.0


From 84c52767583847561c46c9a04e57d9c1f8854c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 082/123] fix: Image::setPixel() and fill() write 16-bit pixels
 in the byte order that getPixel() reads

---
 src/Image/Image.cpp | 3 ++-
 src/Image/Image.h   | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index add09af..8c1ab0a 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1953,7 +1953,8 @@ void Image::fill(uint32_t color) {
       break;
     case 16:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint16_t*) (_buffer + (i << 1))) = (uint16_t) color;
+        *(_buffer + (i << 1) + 0) = (uint8_t) (color >> 8);
+        *(_buffer + (i << 1) + 1) = (uint8_t) color;
       }
       break;
     case 8:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 9ebe03b..dca03f9 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -318,7 +318,9 @@ class Image {
       *(pix + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
+      uint8_t* pix = _buffer + (_pixel_number(x, y) << 1);
+      *(pix + 0) = (uint8_t) (c >> 8);
+      *(pix + 1) = (uint8_t) c;
     };
     inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
-- 
2.43.0


From 2b9b80eb924b23b012490e05ef22ce666875262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 083/123] fix: Image::setPixel(r, g, b) keeps the high bits of
 each channel in 16-bit and 8-bit formats

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 8c1ab0a..cdf5abf 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1105,12 +1105,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (r & 0xF8) | (g >> 5);
+        *(_buffer + offset + 1) = (uint8_t) ((g << 3) & 0xE0) | (b >> 3);
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (r & 0xE0) | ((g >> 3) & 0x1C) | (b >> 6);
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-- 
2.43.0


From 90f5783091f38b2d434dc69322e853d3627a4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 084/123] fix: Image keeps its size and format if it can't
 replace a buffer that isn't its own

---
 src/Image/Image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index cdf5abf..ac9b797 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -536,6 +536,7 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
         memcpy(_buffer, buf, bytesUsed());
         return true;
       }
+      _buf_fmt = old_fmt;  // The old buffer is still what we have.
     }
   }
   else {
@@ -550,6 +551,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  if (allocated() && !_is_ours()) {
+    return false;  // We can't resize a buffer that isn't ours.
+  }
   _x = x;
   _y = y;
   return (0 == _buffer_allocator());
-- 
2.43.0


From 3a6ff33c146f4d7d9cf19efad1540173a4c836bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 085/123] fix: Image::deserialize() reads what
 Image::serialize() writes

---
 src/Image/Image.cpp | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index ac9b797..30df8df 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -707,32 +707,22 @@ int8_t Image::serializeWithoutBuffer(uint8_t* buf, uint32_t* len) {
 */
 int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
-    // TODO: This is awful, and will absolutely wreck someone later.
-    //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
-    if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
+    // The serializer always writes 32-bit coordinates, whatever PixUInt is.
+    const uint32_t HEADER_LEN = 10;
+    if (len >= HEADER_LEN) {
+      const uint32_t temp_x = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+      const uint32_t temp_y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+      const ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + 8);
+      const uint8_t  BPP = _bits_per_pixel(temp_fmt);
+      const bool     COORDS_FIT    = ((temp_x == (PixUInt) temp_x) && (temp_y == (PixUInt) temp_y));
+      const uint64_t PROPOSED_SIZE = (((uint64_t) temp_x * temp_y * BPP) + 7) >> 3;
+      if ((0 < BPP) && COORDS_FIT && (PROPOSED_SIZE == (len - HEADER_LEN))) {
         // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
+        _x = (PixUInt) temp_x;
+        _y = (PixUInt) temp_y;
         _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+        _imgflags = (*(buf + 9) & ~C3P_IMG_FLAG_BUFFER_OURS);
+        return setBufferByCopy(buf + HEADER_LEN) ? 0 : -2;
       }
     }
   }
-- 
2.43.0


From d48a5ec9d77e93863e1a960af7ea740106f291ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 086/123] fix: Image::fillTriangle() fills triangles with edges
 that lean left

---
 src/Image/Image.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 30df8df..646d7c6 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1655,7 +1655,7 @@ void Image::drawTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     @param    color 16-bit 5-6-5 Color to fill/draw with
 */
 void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt x2, PixUInt y2, uint32_t color) {
-  PixUInt a, b, y, last;
+  int32_t a, b, y, last;
   // Sort coordinates by Y order (y2 >= y1 >= y0)
   if (y0 > y1) {
     strict_swap(&y0, &y1);
@@ -1680,9 +1680,10 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     return;
   }
 
-  PixUInt dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
-          dx12 = x2 - x1, dy12 = y2 - y1;
-  PixUInt sa = 0, sb = 0;
+  // The slopes of the edges can be negative.
+  const int32_t dx01 = ((int32_t) x1 - x0), dy01 = ((int32_t) y1 - y0), dx02 = ((int32_t) x2 - x0),
+                dy02 = ((int32_t) y2 - y0), dx12 = ((int32_t) x2 - x1), dy12 = ((int32_t) y2 - y1);
+  int32_t sa = 0, sb = 0;
 
   // For upper part of triangle, find scanline crossings for segments
   // 0-1 and 0-2.  If y1=y2 (flat-bottomed triangle), the scanline y1
-- 
2.43.0


From 43cc6ab9c85b16a3ec689e919d551969d36d565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 087/123] fix: Image draws nothing for lines and rectangles
 without extent, rather than two pixels or forever

---
 src/Image/Image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 646d7c6..1dda116 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1524,6 +1524,7 @@ void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1,
   @param    color 16-bit 5-6-5 Color to fill with
 */
 void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
+  if (0 == h) return;   // Nothing to draw, and (y+h-1) would precede y.
   // Overwrite in subclasses if startWrite is defined!
   // Can be just drawLine(x, y, x, y+h-1, color);
   // or fillRect(x, y, 1, h, color);
@@ -1541,6 +1542,7 @@ void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
   @param    color 16-bit 5-6-5 Color to fill with
 */
 void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
+  if (0 == w) return;   // Nothing to draw, and (x+w-1) would precede x.
   // Overwrite in subclasses if startWrite is defined!
   // Example: drawLine(x, y, x+w-1, y, color);
   // or fillRect(x, y, w, 1, color);
@@ -1559,6 +1561,7 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
   @param    color 16-bit 5-6-5 Color to fill with
 */
 void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
+  if (0 == h) return;   // Nothing to draw, and (y+h-1) would precede y.
   _lock(true);
   for (uint32_t i=x; i<x+w; i++) {
     drawLine(i, y, i, y+h-1, color);
-- 
2.43.0


From c330dad4339d7dd810fe974f9daa31f41ff0e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 088/123] fix: Image::drawLine() ends, even if the line does so
 at the largest coordinate

---
 src/Image/Image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 1dda116..f8444d9 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1994,7 +1994,8 @@ void Image::drawLine(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, uint32_t co
   const int8_t   ystep = (y0 < y1) ? 1 : -1;
   int32_t err = (int32_t) (dx >> 1);  // NOTE: Imposes width limit of 2,147,483,648 pixels.
 
-  while (x0 <= x1) {
+  // Counts pixels, since x0 might be unable to exceed x1.
+  for (uint32_t n = ((uint32_t) dx + 1); n > 0; n--) {
     if (steep) {
       setPixel(y0, x0, color);
     }
-- 
2.43.0


From 21e96571d7dd12139c0bb027fa5fea254d095ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 089/123] fix: Image::fillCircle() fills circles that cross the
 top of the image

---
 src/Image/Image.cpp | 24 +++++++++++++++++++-----
 src/Image/Image.h   |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index f8444d9..326adcb 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1859,7 +1859,7 @@ void Image::drawCircleHelper(PixUInt x0, PixUInt y0, PixUInt r, uint8_t quadrant
     @param    color 16-bit 5-6-5 Color to fill with
 */
 void Image::fillCircle(PixUInt x0, PixUInt y0, PixUInt r, uint32_t color) {
-  drawFastVLine(x0, y0 - r, 2 * r + 1, color);
+  _draw_column(x0, y0 - r, 2 * r + 1, color);
   fillCircleHelper(x0, y0, r, 3, 0, color);
 }
 
@@ -1896,15 +1896,15 @@ void Image::fillCircleHelper(PixUInt x0, PixUInt y0, PixUInt r, uint8_t corners,
     // for the SSD1306 library which has an INVERT drawing mode.
     if (x < (y + 1)) {
       if (corners & 1)
-        drawFastVLine(x0 + x, y0 - y, 2 * y + delta, color);
+        _draw_column(x0 + x, y0 - y, 2 * y + delta, color);
       if (corners & 2)
-        drawFastVLine(x0 - x, y0 - y, 2 * y + delta, color);
+        _draw_column(x0 - x, y0 - y, 2 * y + delta, color);
     }
     if (y != py) {
       if (corners & 1)
-        drawFastVLine(x0 + py, y0 - px, 2 * px + delta, color);
+        _draw_column(x0 + py, y0 - px, 2 * px + delta, color);
       if (corners & 2)
-        drawFastVLine(x0 - py, y0 - px, 2 * px + delta, color);
+        _draw_column(x0 - py, y0 - px, 2 * px + delta, color);
       py = y;
     }
     px = x;
@@ -1912,6 +1912,20 @@ void Image::fillCircleHelper(PixUInt x0, PixUInt y0, PixUInt r, uint8_t corners,
 }
 
 
+/*
+* Draws that part of a column that isn't above or to the left of the image.
+*/
+void Image::_draw_column(int32_t x, int32_t y, int32_t h, uint32_t color) {
+  if (0 > y) {
+    h += y;
+    y = 0;
+  }
+  if ((0 <= x) && (0 < h)) {
+    drawFastVLine(x, y, h, color);
+  }
+}
+
+
 /*!
    @brief   Draw a RAM-resident 16-bit image (RGB 5/6/5) at the specified (x,y)
    position. For 16-bit display devices; no color reduction performed.
diff --git a/src/Image/Image.h b/src/Image/Image.h
index dca03f9..c1682c0 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -307,6 +307,7 @@ class Image {
     int8_t _buffer_allocator();
     void _remap_for_orientation(PixUInt* x, PixUInt* y);
     bool _in_bounds(const PixUInt x, const PixUInt y);
+    void _draw_column(int32_t x, int32_t y, int32_t h, uint32_t color);
 
     inline void _set_pixel_32(PixUInt x, PixUInt y, uint32_t c) {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
-- 
2.43.0


From 960ed10aa66b3c549e19d1a2e6ec1d975df29b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 090/123] fix: Image::getTextBounds(const uint8_t*) reports the
 bounds of the text, rather than of the address space

---
 src/Image/Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 326adcb..b769f31 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1497,8 +1497,8 @@ void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1,
 
   PixUInt minx = _x;
   PixUInt miny = _y;
-  PixUInt maxx = -1;
-  PixUInt maxy = -1;
+  PixUInt maxx = 0;
+  PixUInt maxy = 0;
 
   while((c = *s++)) {
     _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
-- 
2.43.0


From ff0c719cb2b42085ecafcebf0a9f95ecbd29eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 091/123] fix: Image::drawChar() with a magnified custom font
 doesn't draw columns for glyphs that begin above the image

---
 src/Image/Image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index b769f31..db8ed9a 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1228,7 +1228,9 @@ void Image::drawChar(PixUInt x, PixUInt y, unsigned char c, uint32_t color, uint
             setPixel(x+xo+xx, y+yo+yy, color);
           }
           else {
-            fillRect(x+(xo16+xx)*size, y+(yo16+yy)*size, size, size, color);
+            for (int32_t n = 0; n < size; n++) {  // The glyph might begin above the image.
+              _draw_column(x+(xo16+xx)*size+n, y+(yo16+yy)*size, size, color);
+            }
           }
         }
         bits <<= 1;
-- 
2.43.0


From 41535d0970a2457a45e22b4e0ef25a580b2adb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 092/123] fix: Image::fill() doesn't write to an image without
 a buffer

---
 src/Image/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index db8ed9a..65d33c0 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1950,7 +1950,7 @@ void Image::drawBitmap(PixUInt x, PixUInt y, const uint8_t* bitmap, PixUInt w, P
 *
 */
 void Image::fill(uint32_t color) {
-  //uint8_t bpp = _bits_per_pixel();
+  if (!allocated()) return;
   _lock(true);
   switch (_bits_per_pixel()) {
     case 32:
-- 
2.43.0


From ca68a36bfbc3f44bf464a054257999b85221368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 093/123] fix: Image::getTextBounds() handles glyphs of a
 custom font that begin left of or above the image, or are empty

---
 src/Image/Image.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 65d33c0..1ba5dda 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1392,14 +1392,15 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
           *y += _textsize * (uint8_t) _gfxFont->yAdvance;
         }
         int16_t ts = (int16_t) _textsize;
-        PixUInt x1 = *x + xo * ts;
-        PixUInt y1 = *y + yo * ts;
-        PixUInt x2 = x1 + gw * ts - 1;
-        PixUInt y2 = y1 + gh * ts - 1;
-        if(x1 < *minx) *minx = x1;
-        if(y1 < *miny) *miny = y1;
-        if(x2 > *maxx) *maxx = x2;
-        if(y2 > *maxy) *maxy = y2;
+        // Glyphs without extent, or with negative offsets, can go negative.
+        const int32_t x1 = (int32_t) *x + xo * ts;
+        const int32_t y1 = (int32_t) *y + yo * ts;
+        const int32_t x2 = x1 + gw * ts - 1;
+        const int32_t y2 = y1 + gh * ts - 1;
+        if(x1 < (int32_t) *minx) *minx = (x1 > 0) ? x1 : 0;
+        if(y1 < (int32_t) *miny) *miny = (y1 > 0) ? y1 : 0;
+        if(x2 > (int32_t) *maxx) *maxx = x2;
+        if(y2 > (int32_t) *maxy) *maxy = y2;
         *x += xa * ts;
       }
     }
-- 
2.43.0


From e7c7414eb1b3c7a9b2209d293d08bcf2c0af20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 094/123] fix: C29: Identity::fromBuffer() read past a record
 whose name does not end in it, and took one without a whole UUID

---
 src/Identity/Identity.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 3d2b991..38e0be0 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -114,7 +114,17 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
           // TODO: Ill-conceived? Why persist a hardware serial number???
           break;
         case IdentFormat::UUID:
-          return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          {
+            // The name must end within the record, with room for the UUID behind it.
+            const int   REMAINING = (int) ident_len - (IDENTITY_BASE_PERSIST_LENGTH - 1);
+            const void* NAME_END  = (0 < REMAINING) ? memchr(buf, 0, REMAINING) : nullptr;
+            if (NAME_END) {
+              const int NAME_LEN = (int) ((const uint8_t*) NAME_END - buf) + 1;
+              if (REMAINING >= (NAME_LEN + (int) sizeof(UUID))) {
+                return_value = (Identity*) new IdentityUUID(buf, (uint16_t) REMAINING);
+              }
+            }
+          }
           break;
         case IdentFormat::L2_MAC:
           // TODO: This
-- 
2.43.0


From 01922c3299abc52da6c6cf835240dc024742690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 095/123] fix: C29: getIdentity() found an identity by name
 only given its own copy of the name

---
 src/Identity/Identity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 38e0be0..5c0e0c0 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -311,7 +311,7 @@ Identity* Identity::getIdentity(IdentFormat fmt) {
 * @return     An instance of Identity that is of the given format.
 */
 Identity* Identity::getIdentity(const char* nom) {
-  if (nom == _handle) {  // TODO: Direct comparison won't work here.
+  if ((nullptr != nom) && (0 == strcmp(nom, getHandle()))) {
     return this;
   }
   else if (_next) {
-- 
2.43.0


From 6ff4f34d7f532a5795e924a1cd61afbc1801e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 096/123] fix: C29: an identity made from an incomplete UUID
 held uninitialized memory

---
 src/Identity/IdentityUUID.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Identity/IdentityUUID.cpp b/src/Identity/IdentityUUID.cpp
index 44b9fcc..8507f71 100644
--- a/src/Identity/IdentityUUID.cpp
+++ b/src/Identity/IdentityUUID.cpp
@@ -42,12 +42,14 @@ IdentityUUID::IdentityUUID(const char* nom) : Identity(nom, IdentFormat::UUID) {
 
 IdentityUUID::IdentityUUID(const char* nom, char* uuid_str) : Identity(nom, IdentFormat::UUID) {
   _ident_len += sizeof(UUID);
+  memset(&uuid, 0, sizeof(uuid));   // The string might not have every digit.
   uuid_from_str(uuid_str, &uuid);
 }
 
 
 IdentityUUID::IdentityUUID(uint8_t* buf, uint16_t len) : Identity((const char*) buf, IdentFormat::UUID) {
   const int offset = _ident_len-5;
+  memset(&uuid, 0, sizeof(uuid));   // The buffer might not have every byte.
   if ((len - offset) >= 16) {
     // If there are at least 16 non-string bytes left in the buffer...
     for (int i = 0; i < 16; i++) *(((uint8_t*)&uuid.id) + i) = *(buf + i + offset);
-- 
2.43.0


From c2d3d7b58a22f5a6b372dfd73d267a900d1d0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 097/123] fix: C20: C3PTypePipeSink::byteCount() never counted
 what was consumed

---
 src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index ffcefcd..7240d39 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -142,6 +142,7 @@ int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
         incoming->prependHandoff(&tmp_stbldr);
       }
     } while (nullptr != val_to_emit);
+    _byte_count += (INCOMING_LEN - (uint32_t) incoming->length());
     return (incoming->isEmpty(true) ? 1: 0);
   }
   return -1;
-- 
2.43.0


From ffc92a17ba22bb19cbbce8e3d64a35d0ed3beb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 098/123] fix: C13: TimeSeries::indexIsWhichSample() gave
 garbage for indicies outside of the window

---
 src/TimeSeries/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 1245479..052f6db 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -65,7 +65,7 @@ TimeSeriesBase::~TimeSeriesBase() {
 */
 uint32_t TimeSeriesBase::indexIsWhichSample(const uint32_t MEM_IDX) {
   uint32_t ret = 0;
-  if (initialized() & (_samples_total > MEM_IDX)) {
+  if (initialized() & (MEM_IDX < _window_size) & (_samples_total > MEM_IDX)) {
     const uint32_t BACKSET_SAMPLE_IDX = (((0 == _sample_idx) ? _window_size : _sample_idx) - 1);
     const uint32_t IDX_DELTA = ((BACKSET_SAMPLE_IDX >= MEM_IDX) ? BACKSET_SAMPLE_IDX : (_window_size + BACKSET_SAMPLE_IDX)) - MEM_IDX;
     ret = ((_samples_total - IDX_DELTA) - 1);
-- 
2.43.0


From 6cadbaeef83dde3140c474e69bec12ceb42c4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 099/123] fix: C13: TimeSeries::copyValueRange() was off by one
 for the most-recent samples

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..4f216b0 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -495,7 +495,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From 2dd9e9dd2d55e43446654542d2942be336a32eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 100/123] fix: C13: TimeSeries kept a window it had no memory
 for (size overflow or failed allocation)

---
 src/TimeSeries/TimeSeries.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 4f216b0..f348e2d 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -353,7 +353,11 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
         free(samples);
         samples = nullptr;
       }
-      if (win > 0) {
+      _window_size = 0;  // Until we have the memory.
+      if (win > (SIZE_MAX / sizeof(T))) {
+        ret--;   // The memory size isn't representable.
+      }
+      else if (win > 0) {
         samples = (T*) malloc(win * sizeof(T));
         if (nullptr != samples) {
           _window_size = win;
-- 
2.43.0


From 9e0dea3da5be2169fda0b5f7f8837fd93910a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 101/123] fix: C13: the median of an even window overflowed for
 large samples

---
 src/TimeSeries/TimeSeries.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index f348e2d..690511c 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -643,7 +643,10 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      // Take care that the sum doesn't overflow the type.
+      const T LO = sorted[lower];
+      const T HI = sorted[upper];
+      _median = ((LO < 0) == (HI < 0)) ? (T) (LO + ((HI - LO) / 2)) : (T) ((LO + HI) / 2);
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From d5d5ec924ed8c37f08bb129894b99faca2506656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 102/123] fix: C13: a received TimeSeries wrote foreign values
 over memory that was too small for them

---
 src/TimeSeries/TimeSeries.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 052f6db..a33e2cd 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -251,22 +251,34 @@ template <> int C3PTypeConstraint<TimeSeriesBase*>::serialize(void* _obj, String
 }
 
 
+// The structure came from a counterparty, and its values might be of any type.
+//   So take only those that convert to the type we need.
+static bool _ts_uint_with_key(KeyValuePair* kvp, const char* K, uint32_t* x) {
+  KeyValuePair* v = kvp->valueWithKey(K);
+  return ((nullptr != v) ? (0 == v->get_as(x)) : false);
+}
+
+static bool _ts_str_with_key(KeyValuePair* kvp, const char* K, char** x) {
+  KeyValuePair* v = kvp->valueWithKey(K);
+  return ((nullptr != v) ? (0 == v->get_as(x)) : false);
+}
+
 template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, KeyValuePair* kvp) {
   int8_t ret = -1;
   if ((nullptr != _obj) & (nullptr != kvp)) {
     ret--;
     // Always take win, because it may indicate a re-windowing.
     uint32_t win_sz = 0;
-    const bool CONTAINED_WIN_KEY = (0 == kvp->valueWithKey("win", &win_sz));
+    const bool CONTAINED_WIN_KEY = _ts_uint_with_key(kvp, "win", &win_sz);
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
     if (nullptr == obj) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
-      TCode tc_val = TCode::NONE;
-      if (0 == kvp->valueWithKey("tc", (uint8_t*) &tc_val)) {
-        switch (tc_val) {
+      uint32_t tc_val = 0;
+      if (_ts_uint_with_key(kvp, "tc", &tc_val) & (tc_val <= 255)) {
+        switch ((TCode) tc_val) {
           case TCode::UINT8:   obj = (TimeSeriesBase*) new TimeSeries<uint8_t>(win_sz);   break;
           case TCode::UINT16:  obj = (TimeSeriesBase*) new TimeSeries<uint16_t>(win_sz);  break;
           case TCode::UINT32:  obj = (TimeSeriesBase*) new TimeSeries<uint32_t>(win_sz);  break;
@@ -296,8 +308,8 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       // First: Do the order invariant things.
       char* name_val   = nullptr;
       char* unit_val   = nullptr;
-      kvp->valueWithKey("n", &name_val);
-      kvp->valueWithKey("u", &unit_val);
+      _ts_str_with_key(kvp, "n", &name_val);
+      _ts_str_with_key(kvp, "u", &unit_val);
       if (name_val) {  obj->name(name_val);             }
       if (unit_val) {  obj->units((SIUnit*) unit_val);  }
 
@@ -307,11 +319,11 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         obj->windowSize(win_sz);  // This will initialize, as well.
       }
 
-      kvp->valueWithKey("ttl", &(obj->_samples_total));
+      _ts_uint_with_key(kvp, "ttl", &(obj->_samples_total));
 
       uint32_t idx_val = 0;
       C3PValue* dat_val = kvp->valueWithKey("dat");
-      const bool CONTAINED_IDX_KEY = (0 == kvp->valueWithKey("idx", &idx_val));
+      const bool CONTAINED_IDX_KEY = _ts_uint_with_key(kvp, "idx", &idx_val);
       if (CONTAINED_IDX_KEY & (nullptr != dat_val)) {
         // The dat and idx keys go together, and refer to the (samples)
         //   beginning at the (absolute index), respectively.
-- 
2.43.0


From 437f845ebc7b12418da578a573686373e8a45550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 103/123] fix: C32: getTextBounds() ignored characters of a
 custom font above 127

---
 src/Image/Image.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 1ba5dda..44352d9 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1380,8 +1380,9 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
     else if (c != '\r') { // Not a carriage return; is normal char
       uint8_t first = _gfxFont->first;
       uint8_t last  = _gfxFont->last;
-      if((c >= first) && (c <= last)) { // Char present in this font?
-        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[c - first];
+      const uint8_t ch = (uint8_t) c;   // As for writeChar(), where no character is negative.
+      if((ch >= first) && (ch <= last)) { // Char present in this font?
+        GFXglyph* glyph = &(((GFXglyph*) _gfxFont->glyph))[ch - first];
         uint8_t gw = glyph->width;
         uint8_t gh = glyph->height;
         uint8_t xa = glyph->xAdvance;
-- 
2.43.0


From 5ccb14be0fd38359f8b27f065ac62aa49bb5f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 104/123] fix: C32: getTextBounds() wrapped lines at glyphs
 that writeChar() doesn't wrap at

---
 src/Image/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 44352d9..5dc9840 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1388,7 +1388,7 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
         uint8_t xa = glyph->xAdvance;
         int8_t  xo = glyph->xOffset;
         int8_t  yo = glyph->yOffset;
-        if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
+        if((gw > 0) && (gh > 0) && textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
           *x  = 0; // Reset x to zero, advance y by one line
           *y += _textsize * (uint8_t) _gfxFont->yAdvance;
         }
-- 
2.43.0


From 171a25d466f2b786bfd670768ab9a0247923e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 105/123] fix: C34: purging a SensorFilter left its window to
 fill from the middle (and a SensorFilter3 full)

---
 src/TimeSeries/SensorFilter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2b0d1c2..7c9c4f9 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -318,6 +318,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
 template <class T> int8_t SensorFilter<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value = T(0);
   min_value  = T(0);
   max_value  = T(0);
@@ -654,10 +655,13 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
 template <class T> int8_t SensorFilter3<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value(T(0), T(0), T(0));
   _mean(T(0), T(0), T(0));
   _rms(T(0), T(0), T(0));
   _stdev(T(0), T(0), T(0));
+  invalidateStats();
+  _window_full = false;
   if (nullptr != samples) {
     if (_window_size > 0) {
       ret = 0;
-- 
2.43.0


From 97c1f47067251bd6262697886891d1045e44108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 106/123] fix: C34: the moving average of a SensorFilter of
 integers was wrong for negative and large samples

---
 src/TimeSeries/SensorFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 7c9c4f9..00dd9fc 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -410,7 +410,7 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
             break;
           case FilteringStrategy::MOVING_AVG:
             // Calculate the moving average...
-            last_value = ((last_value * (_window_size-1)) + val) / _window_size;
+            last_value = (T) ((((double) last_value * (_window_size-1)) + (double) val) / _window_size);
             break;
           case FilteringStrategy::MOVING_MED:
             // Calculate the moving median...
-- 
2.43.0


From fbd61ef44ab1d7588c864a6c286428521709ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 107/123] fix: C34: the median of an even SensorFilter window
 overflowed for large samples

---
 src/TimeSeries/SensorFilter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 00dd9fc..05a8809 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -559,7 +559,10 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    ret = (sorted[upper] + sorted[lower]) / 2;
+    // Take care that the sum doesn't overflow the type.
+    const T LO = sorted[lower];
+    const T HI = sorted[upper];
+    ret = ((LO < 0) == (HI < 0)) ? (T) (LO + ((HI - LO) / 2)) : (T) ((LO + HI) / 2);
   }
   return ret;
 }
-- 
2.43.0


From c3f0ab95000c5ee39dbd1423341d4d93aa01bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 108/123] fix: C34: a SensorFilter with a window of one kept no
 sample, and one without a window took statistics of no memory

---
 src/TimeSeries/SensorFilter.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 05a8809..553daca 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -389,7 +389,7 @@ template <class T> void SensorFilter<T>::printFilter(StringBuilder* output) {
 template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
   int8_t ret = -1;
   if (initialized()) {
-    if (_window_size > 1) {
+    if (_window_size > 0) {
       samples[_sample_idx++] = val;
       _samples_total++;
       if (_sample_idx >= _window_size) {
@@ -454,7 +454,7 @@ template <class T> T SensorFilter<T>::value() {
 * Updates the private cache variable.
 */
 template <class T> void SensorFilter<T>::_calculate_minmax() {
-  if (_filter_initd && _window_full) {
+  if (_filter_initd && _window_full && (_window_size > 0)) {
     min_value = samples[0];   // Start with a baseline.
     max_value = samples[0];   // Start with a baseline.
     for (uint32_t i = 1; i < _window_size; i++) {
@@ -473,7 +473,7 @@ template <class T> void SensorFilter<T>::_calculate_minmax() {
 * @return the mean of the contents of the filter.
 */
 template <class T> double SensorFilter<T>::_calculate_mean() {
-  if (_filter_initd && _window_full) {
+  if (_filter_initd && _window_full && (_window_size > 0)) {
     double summed_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
       summed_samples += (double) samples[i];
@@ -748,7 +748,7 @@ template <class T> int8_t SensorFilter3<T>::feedFilter(T x, T y, T z) {
   int8_t ret = -1;
   if (initialized()) {
     ret = 0;
-    if (_window_size > 1) {
+    if (_window_size > 0) {
       samples[_sample_idx++](x, y, z);
       _samples_total++;
       if (_sample_idx >= _window_size) {
@@ -817,7 +817,7 @@ template <class T> Vector3<T>* SensorFilter3<T>::value() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_minmax() {
   int8_t ret = -1;
-  if (_filter_initd && _window_full) {
+  if (_filter_initd && _window_full && (_window_size > 0)) {
     Vector3<T> tmp_min(&samples[0]);   // Start with a baseline.
     Vector3<T> tmp_max(&samples[0]);   // Start with a baseline.
     for (uint32_t i = 1; i < _window_size; i++) {
@@ -841,7 +841,7 @@ template <class T> int8_t SensorFilter3<T>::_calculate_minmax() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_mean() {
   int8_t ret = -1;
-  if (_filter_initd && _window_full) {
+  if (_filter_initd && _window_full && (_window_size > 0)) {
     Vector3f64 summed_samples;
     for (uint32_t i = 0; i < _window_size; i++) {
       Vector3f64 tmp((double) samples[i].x, (double) samples[i].y, (double) samples[i].z);
-- 
2.43.0


From 316f9a3cea53ddf187d744ef6a9de4932183f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 109/123] fix: C35: a TripleAxisTerminus answered that it
 refused what it kept

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 3c9906b..47459d8 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -196,6 +196,7 @@ FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f*
     else {
       _fresh_data = true;
     }
+    ret = 0;
   }
   return ret;
 }
-- 
2.43.0


From 684dc62c1b0fe4a19eba9510fc108874a4f7d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 110/123] fix: C35: a TripleAxisSingleFilter dereferenced an
 error (or next pipe) that was not given, and answered backward for what it
 relayed

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 47459d8..b74ea42 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -271,7 +271,10 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
   if (initialized()) {
     ret = -1;
     if (_SENSE == s) {
-      Vector3f tmp_err(error);
+      Vector3f tmp_err;
+      if (nullptr != error) {
+        tmp_err.set(error);
+      }
       ret = 0;
       switch (feedFilter(data)) {
         case 0:    // Value accepted into filter. No new result.
@@ -317,8 +320,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
     }
     else {
       // We blindly relay vectors of SpatialSense's we aren't configured for.
-      if (0 == _NXT->pushVector(s, data, error)) {
-        ret = -5;
+      if ((nullptr != _NXT) && (0 == _NXT->pushVector(s, data, error))) {
+        ret = 0;
       }
     }
   }
-- 
2.43.0


From 5217a26ecb835c21fbcb1e0bc2179893309b9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 111/123] fix: C35: a TripleAxisSingleFilter passed an error of
 zero on for vectors without one

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index b74ea42..9120acf 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -310,7 +310,7 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
           if (nullptr != _NXT) {
             // If the vector was pushed downstream, we consider it noted. If it
             //   was rejected, we leave the class marked dirty.
-            _filter_dirty = (0 > _NXT->pushVector(s, value(), &_ERR));
+            _filter_dirty = (0 > _NXT->pushVector(s, value(), (_has_error ? &_ERR : nullptr)));
           }
           break;
         default:   // Catch-all error case. Should never happen with the earlier init().
-- 
2.43.0


From d401e47e097b01899d0283a39d42186e236d2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 112/123] fix: C35: a TripleAxisConvention did not hand back
 the answer from downstream

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 9120acf..c3739f9 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -128,9 +128,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
         }
         break;
     }
-    if (0 == _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr)) {
-      ret = 0;
-    }
+    ret = _NXT->pushVector(s, &stacked_dat, (nullptr != error) ? &stacked_err : nullptr);
   }
   return ret;
 }
-- 
2.43.0


From f31def454d31679c35cb52707882d13a2c1285e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 113/123] fix: C35: printPipe() passed its indent as a va_list
 where that is a char*

---
 src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp     | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp | 2 +-
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp        | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
index b1e3d39..7bbc573 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisCompass.cpp
@@ -112,7 +112,7 @@ FAST_FUNC int8_t TripleAxisCompass::pushVector(const SpatialSense s, Vector3f* d
 void TripleAxisCompass::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Compass >----------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Compass >----------------\n", (const char*) indent.string());
   output->concatf("%s| Has callback:   %c\n", (char*) indent.string(), (nullptr != _CALLBACK)?'y':'n');
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| Field %s:    (%.4f, %.4f, %.4f)  Magnitude: %.4f\n", (char*) indent.string(), (dataReady()?"FRESH":"STALE"), (double) _field.x, (double) _field.y, (double) _field.z, (double) _field.length());
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
index 5770649..1397d09 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisOrientation.cpp
@@ -92,7 +92,7 @@ int8_t TripleAxisOrientation::pushVector(const SpatialSense s, Vector3f* data, V
 void TripleAxisOrientation::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Orientation >----------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Orientation >----------------\n", (const char*) indent.string());
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| Last update:    %u\n", (char*) indent.string(), _last_update);
   if (_data_period) {
diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index c3739f9..a41e5ed 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -66,7 +66,7 @@ FAST_FUNC int8_t TripleAxisFork::pushVector(const SpatialSense s, Vector3f* data
 void TripleAxisFork::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Fork >-------------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Fork >-------------------\n", (const char*) indent.string());
   indent.clear();
   if ((verbosity > 0) && (nullptr != _LEFT)) {
     _LEFT->printPipe(output, stage+1, verbosity);
@@ -137,7 +137,7 @@ FAST_FUNC int8_t TripleAxisConvention::pushVector(const SpatialSense s, Vector3f
 void TripleAxisConvention::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Convention >-------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Convention >-------------\n", (const char*) indent.string());
   indent.clear();
   if ((verbosity > 0) && (nullptr != _NXT)) {
     _NXT->printPipe(output, stage+1, verbosity);
@@ -216,7 +216,7 @@ void TripleAxisTerminus::reset() {
 void TripleAxisTerminus::printPipe(StringBuilder* output, uint8_t stage, uint8_t verbosity) {
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: Terminus >---------------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: Terminus >---------------\n", (const char*) indent.string());
   output->concatf("%s| Has callback:   %c\n", (char*) indent.string(), (nullptr != _CALLBACK)?'y':'n');
   output->concatf("%s| Seq number:     %u\n", (char*) indent.string(), _update_count);
   output->concatf("%s| SpatialSense:   %s\n", (char*) indent.string(), TripleAxisPipe::spatialSenseStr(_SENSE));
@@ -331,7 +331,7 @@ void TripleAxisSingleFilter::printPipe(StringBuilder* output, uint8_t stage, uin
   bool was_dirty = dirty();
   StringBuilder indent;
   for (uint8_t i = 0; i < stage; i++) {    indent.concat("    ");    }
-  output->concatf("%s+-< 3AxisPipe: SingleFilter >-----------\n", (char*) indent.string());
+  output->concatf("%s+-< 3AxisPipe: SingleFilter >-----------\n", (const char*) indent.string());
   output->concatf("%s| SpatialSense:   %s\n", (char*) indent.string(), TripleAxisPipe::spatialSenseStr(_SENSE));
   if (verbosity > 5) {
     SensorFilter3<float>::printFilter(output);
-- 
2.43.0


From 90112a80e1b80e8dc43b09eb2c90da0a73e54f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 114/123] fix: C28: UARTAdapter::printDebug() passed strings as
 a va_list where that is a char*

---
 src/BusQueue/UARTAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 53c2baa..2556566 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -135,9 +135,9 @@ void UARTAdapter::printDebug(StringBuilder* output) {
   output->concat("\tOpts:\n\t------------------------\n");
   output->concatf("\tChar size:\t%u bits\n", _opts.bit_per_word);
   output->concatf("\tStart bits:\t%u\n",     _opts.start_bits);
-  output->concatf("\tStop bits:\t%s\n",      str_stp);
-  output->concatf("\tParity:\t\t%s\n",       str_par);
-  output->concatf("\tFlow CTRL:\t%s\n\n",    str_flw);
+  output->concatf("\tStop bits:\t%s\n",      (const char*) str_stp);
+  output->concatf("\tParity:\t\t%s\n",       (const char*) str_par);
+  output->concatf("\tFlow CTRL:\t%s\n\n",    (const char*) str_flw);
 
   if (initialized()) {
     if (rxCapable()) {
-- 
2.43.0


From bb4b6ed7d0f163feb96c8d6847eb1e2d02823b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 115/123] fix: C24: M2MLink::printDebug() (and two GfxUI
 elements) passed strings as a va_list where that is a char*

---
 src/Image/GfxUI/GfxUIIdentity.cpp     | 2 +-
 src/Image/GfxUI/GfxUIKeyValuePair.cpp | 2 +-
 src/M2MLink/M2MLink.cpp               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/GfxUI/GfxUIIdentity.cpp b/src/Image/GfxUI/GfxUIIdentity.cpp
index 439f7f6..6fa696a 100644
--- a/src/Image/GfxUI/GfxUIIdentity.cpp
+++ b/src/Image/GfxUI/GfxUIIdentity.cpp
@@ -83,7 +83,7 @@ int GfxUIIdentity::_render(UIGfxWrapper* ui_gfx) {
   _txt_meta.clear();
   if (nullptr != _ident) {
     StringBuilder _tmp_sbldr;
-    _tmp_sbldr.concatf("%s\n", _ident->getHandle());
+    _tmp_sbldr.concatf("%s\n", (const char*) _ident->getHandle());
     _txt_handle.pushBuffer(&_tmp_sbldr);
 
     _tmp_sbldr.concatf("%s\n", Identity::identityTypeString(_ident->identityType()));
diff --git a/src/Image/GfxUI/GfxUIKeyValuePair.cpp b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
index 9684fa5..d129641 100644
--- a/src/Image/GfxUI/GfxUIKeyValuePair.cpp
+++ b/src/Image/GfxUI/GfxUIKeyValuePair.cpp
@@ -85,7 +85,7 @@ int GfxUIKeyValuePair::_render(UIGfxWrapper* ui_gfx) {
       char* cur_key = key_list.position_trimmed(0);
       current_kvp   = _kvp->valueWithKey(cur_key);
       StringBuilder keystr;
-      keystr.concatf("\"%s\":", cur_key);
+      keystr.concatf("\"%s\":", (const char*) cur_key);
 
       ui_gfx->img()->setCursor(i_x, (i_y + tracked_y));
       ui_gfx->img()->setTextColor(_style.color_active, _style.color_bg);
diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index b5e0ca3..e09f079 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -479,7 +479,7 @@ void M2MLink::printDebug(StringBuilder* output) {
   if (isConnected()) {
     output->concat("\n-- Counterparty:\n");
     if (nullptr != remoteIdentity()) {
-      output->concatf("\t[%s]:\t", remoteIdentity()->getHandle());
+      output->concatf("\t[%s]:\t", (const char*) remoteIdentity()->getHandle());
       remoteIdentity()->toString(output);
       output->concat('\n');
     }
-- 
2.43.0


From d9ebe0ce2063312f0b5d214aca49a866a73b4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 116/123] fix: C35: printing a TripleAxisSingleFilter took its
 value, leaving it stale for whoever polls

---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index a41e5ed..47e77af 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -337,6 +337,7 @@ void TripleAxisSingleFilter::printPipe(StringBuilder* output, uint8_t stage, uin
     SensorFilter3<float>::printFilter(output);
   }
   output->concatf("%s| Value %s:    (%.3f, %.3f, %.3f)\n", (char*) indent.string(), (was_dirty?"FRESH":"STALE"), (double) value()->x, (double) value()->y, (double) value()->z);
+  _filter_dirty = was_dirty;   // Printing the value is not taking it.
   if (_has_error) {
     output->concatf("%s| Error:          (%.3f, %.3f, %.3f)\n", (char*) indent.string(), (double) _ERR.x, (double) _ERR.y, (double) _ERR.z);
   }
-- 
2.43.0


From a0756fad40b77e6eb328ddd19b997de5aec3a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 117/123] fix: C36: a GPS coordinate with a long fraction
 overflowed 32 bits and came out wrong

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c878c85..45b011d 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -128,9 +128,11 @@ static inline float minmea_tofloat(struct minmea_float *f) {
 */
 static inline float minmea_tocoord(struct minmea_float *f) {
   if (f->scale == 0) {     return NAN;     }
-  int_least32_t degrees = f->value / (f->scale * 100);
-  int_least32_t minutes = f->value % (f->scale * 100);
-  return (float) degrees + (float) minutes / (60 * f->scale);
+  // The scale alone can take up most of 32 bits.
+  const int64_t DEG_SCALE = ((int64_t) f->scale * 100);
+  const int_least32_t degrees = (int_least32_t) (f->value / DEG_SCALE);
+  const int_least32_t minutes = (int_least32_t) (f->value % DEG_SCALE);
+  return (float) degrees + (float) minutes / (60 * (int64_t) f->scale);
 }
 
 
-- 
2.43.0


From 2bffb25c1d0f43fff3c5042051227af8329a2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 118/123] fix: C36: the scale of an NMEA number with many
 leading zeros in its fraction overflowed

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 45b011d..ed00a98 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -495,7 +495,7 @@ bool GPSWrapper::_scan(const char *sentence, const char *format, ...) {
                             int digit = *field - '0';
                             if (value == -1)
                                 value = 0;
-                            if (value > (INT_LEAST32_MAX-digit) / 10) {
+                            if ((value > (INT_LEAST32_MAX-digit) / 10) || (scale > (INT_LEAST32_MAX / 10))) {
                                 /* we ran out of bits, what do we do? */
                                 if (scale) {
                                     /* truncate extra precision */
-- 
2.43.0


From d92291bdcd7c1a6a6eb82584e758777c3a28644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:53 +0000
Subject: [PATCH 119/123] fix: C36: an absent altitude or speed in an NMEA
 sentence was converted from NaN to an integer

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index ed00a98..c8a82c5 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -281,7 +281,11 @@ bool GPSWrapper::_attempt_parse() {
           if (_parse_gga(&frame, line)) {
             _loc_frame.sat_count = frame.satellites_tracked;
             switch (frame.altitude_units) {
-              case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
+              case 'M':
+                if (0 != frame.altitude.scale) {   // Unknown altitudes are NaN.
+                  _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);
+                }
+                break;
               default:  break;
             }
             //_log.concatf("$xxGGA: fix quality: %d\n", frame.fix_quality);
@@ -330,7 +334,9 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_vtg frame;
           if (_parse_vtg(&frame, line)) {
             _loc_frame.mag_bearing = minmea_tofloat(&frame.magnetic_track_degrees);
-            _loc_frame.speed       = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            if (0 != frame.speed_kph.scale) {   // Unknown speeds are NaN.
+              _loc_frame.speed     = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            }
             local_success = true;
             emit_callback = true;
           }
-- 
2.43.0


From bf12193e708d5cdcedd6c8c8b43d1d3f0a4cb89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 120/123] fix: C36: haversineDistance() returned half the
 distance

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c8a82c5..8abcdaf 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -83,7 +83,7 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
   double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
-  ret = (int32_t) (MEAN_RADIUS_OF_EARTH * haversine_arctan);
+  ret = (int32_t) (2 * MEAN_RADIUS_OF_EARTH * haversine_arctan);
   return ret;
 }
 
-- 
2.43.0


From 8fda3d5243daf4505671eb1a83a0e910ea5d1400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 121/123] fix: C36: GPSWrapper dropped the start of an
 unfinished sentence after a push that was long

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 8abcdaf..76d0b23 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -156,8 +156,10 @@ int8_t GPSWrapper::pushBuffer(StringBuilder* buf) {
     _attempt_parse();
   }
 
-  if (ACC_LEN > GPSWRAPPER_MAX_ACCUMULATOR_LEN) {
-    _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
+  // What has been parsed is no longer in the accumulator.
+  const int32_t EXCESS_LEN = (_accumulator.length() - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
+  if (0 < EXCESS_LEN) {
+    _accumulator.cull(EXCESS_LEN);
   }
   return 1;
 }
-- 
2.43.0


From 45d3423ae3f5afe6f5ee7cedb533e8fc41aaec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:50 +0000
Subject: [PATCH 122/123] fix: C36: GPSWrapper lost a sentence when a push
 ended with a complete one, and counted and reported sentences by those before
 them

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 76d0b23..c973cc0 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -223,13 +223,14 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 
 
 bool GPSWrapper::_attempt_parse() {
+  // Unless it was terminated, the last token in the accumulator is an incomplete line.
+  const int INCOMPLETE_LINES = ('\n' == (char) _accumulator.byteAt(_accumulator.length() - 1)) ? 0 : 1;
   if (_accumulator.split("\n") == 0) return false;
   char* line = nullptr;
-  bool local_success = false;
-  bool emit_callback = false;
 
-  // Always assume that the last token in the accumulator is an incomplete line.
-  while (_accumulator.count() > 1) {
+  while (_accumulator.count() > INCOMPLETE_LINES) {
+    bool local_success = false;
+    bool emit_callback = false;
     line = _accumulator.position(0);
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
-- 
2.43.0


From 93c086a78f923acf2bfc9d7b36f61c1c0bd7224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 123/123] fix: C36: haversineDistance() of antipodal points
 could come out as INT_MIN

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c973cc0..3808fde 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -82,6 +82,9 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_theta  = sin(delta_theta / 2);
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
+  if (haversine_angle > 1.0) {   // Rounding can put antipodal points outside of the domain.
+    haversine_angle = 1.0;
+  }
   double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
   ret = (int32_t) (2 * MEAN_RADIUS_OF_EARTH * haversine_arctan);
   return ret;
-- 
2.43.0

