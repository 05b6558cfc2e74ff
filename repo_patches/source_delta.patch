From 5e3d1b81614dc766e821ecc23d636da1620109d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 01/37] fix: Request::Deserialize reads past the end of its
 input

A name length that fits the buffer but not the rest of the request made the
name read beyond the buffer, and arguments were decoded from the bytes that
follow the request when the buffer is longer than it.
---
 Request.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Request.cpp b/Request.cpp
index dcc27ec..69929a2 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -103,7 +103,8 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // check if everything is valid
     if (des_total_length > data_size) return 0;
-    if (des_name_length > data_size) return 0;
+    // the header and the name must fit into the request itself
+    if (10 + static_cast<uint32_t>(des_name_length) > des_total_length) return 0;
 
     // delete old datums
     for (auto i : arguments) delete i;
@@ -115,9 +116,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
 
     // deserialize datums
     uint32_t i = 10 + des_name_length;
-    while (i < data_size) {
+    while (i < des_total_length) {
         Datum* new_datum = new Datum();
-        uint32_t temp_res = new_datum->Deserialize(data + i, data_size - i);
+        uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
             delete new_datum;
             break;
-- 
2.43.0


From 70b938dd441515b422a5346e3148293013455150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 02/37] fix: Datum::Deserialize reads past the end of its input

The 6 bytes of the header were not counted when the name length was checked,
so the value type was read out of bounds and the length passed to the value
wrapped around.
---
 Datum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index db5abb7..bd18eef 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -66,8 +66,8 @@ uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
     // get the name length
     uint16_t name_length = le16toh(*reinterpret_cast<const uint16_t*>(data + 4));
 
-    // check if name length is greater than total_length
-    if (name_length > total_length) return 0;
+    // check if the header, the name and the value type fit into total_length
+    if (7 + static_cast<uint32_t>(name_length) > total_length) return 0;
 
     // create a Value of valid type with correct Deserialize() override
     Value* new_value = CreateValue(data[6 + name_length]);
-- 
2.43.0


From b6fea7eaa53a2bf6a0572f413fd66d8c096e6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 03/37] fix: Value::Deserialize reports success for content
 that failed to decode

A failed DeserializeInternal() was returned as 5 used bytes, so a malformed
value was accepted; a length close to 2^32 wrapped around in the bounds check.
A string kept the rejected length, and an undefined value leaked its old data.
---
 Value.cpp                 | 9 +++++++--
 values/ValueStr.cpp       | 2 +-
 values/ValueUndefined.cpp | 5 +++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Value.cpp b/Value.cpp
index 5e57d5c..cdec194 100644
--- a/Value.cpp
+++ b/Value.cpp
@@ -24,10 +24,15 @@ uint32_t DowowNetwork::Value::Deserialize(const char* data, uint32_t length) {
         le32toh(*reinterpret_cast<const uint32_t*>(data + 1));
     
     // checking length
-    if (len + 5 > length) return 0;
+    if (len > length - 5) return 0;
 
     // calling the derived deserializer
-    return DeserializeInternal(data + 5, len) + 5;
+    uint32_t used = DeserializeInternal(data + 5, len);
+
+    // failed (using no bytes is fine only for a value without content)
+    if (!used && GetSizeInternal()) return 0;
+
+    return used + 5;
 }
 
 const char* DowowNetwork::Value::Serialize() const {
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index adb9631..9e2a851 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -7,8 +7,8 @@ void DowowNetwork::ValueStr::DeleteBuffer() {
     if (str_data) {
         delete[] str_data;
         str_data = 0;
-        str_length = 0;
     }
+    str_length = 0;
 }
 
 DowowNetwork::ValueStr::ValueStr(std::string str) : Value(ValueTypeStr) {
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index e5040b8..6d5a118 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -8,6 +8,11 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
 }
 
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
+    // delete the old data
+    free(undefined_data);
+    undefined_data = 0;
+    undefined_data_length = 0;
+
     // no data at all
     if (length == 0) return 0;
 
-- 
2.43.0


From fea6493ecc8d6a38a8da68ecab90bb089274e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 04/37] fix: ValueArr decoding reads out of bounds and trusts
 the element count

The count was read from content shorter than 4 bytes, the type of an element
was read one byte past the end, and the count alone sized a reservation, which
throws std::length_error for a few malicious bytes.
---
 values/ValueArr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 4c456b2..7144df7 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -11,9 +11,15 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // delete the buffer
     Clear();
 
+    // can't even read the elements amount
+    if (length < 4) return 0;
+
     // read the elements amound
     uint32_t elements_amount = le32toh(*reinterpret_cast<const uint32_t*>(data));
 
+    // each element takes at least 5 bytes
+    if (elements_amount > (length - 4) / 5) return 0;
+
     // reserve space
     array.reserve(elements_amount);
 
@@ -22,7 +28,7 @@ uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t
     // iterate
     for (uint32_t i = 0; i < elements_amount; i++) {
         // out of bounds - invalidate array
-        if (read_offset > length) {
+        if (read_offset >= length) {
             Clear();
             return 0;
         }
-- 
2.43.0


From 4a3b76824fbd831081da353ef7473bfaa78cbfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 05/37] fix: ValueUndefined::CopyFrom loses the data or
 overflows

It copied as many bytes as the destination held, not the original: an empty
destination lost the data and a longer one overflowed the new buffer.
---
 values/ValueUndefined.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index 6d5a118..6ac5888 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -40,7 +40,11 @@ std::string DowowNetwork::ValueUndefined::ToStringInternal(uint16_t indent) cons
 }
 
 void DowowNetwork::ValueUndefined::CopyFrom(Value* original) {
+    // nothing to copy from itself
+    if (original == this) return;
+
     if (undefined_data) free(undefined_data);
+    undefined_data_length = static_cast<ValueUndefined*>(original)->undefined_data_length;
     undefined_data =
         malloc(static_cast<ValueUndefined*>(original)->undefined_data_length);
     memcpy(undefined_data, static_cast<ValueUndefined*>(original)->undefined_data, undefined_data_length);
-- 
2.43.0


From e7a514e00c47c2469482413e484fbd4cfd122f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 06/37] fix: setting a value from itself or from its own part
 uses freed memory

Datum::SetValue(), ValueArr::Set() and ValueArr::CopyFrom() deleted the old
value before they read the one to copy, which may be the same object.
---
 Datum.cpp           |  8 ++++++--
 values/ValueArr.cpp | 23 ++++++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/Datum.cpp b/Datum.cpp
index bd18eef..160d20a 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -32,8 +32,9 @@ DowowNetwork::Value* DowowNetwork::Datum::GetValue() {
 }
 
 void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
-    // delete the old value
-    delete this->value;
+    // the old value, must not be deleted until the new one is set
+    // because the new one might be (a part of) it
+    Value* old_value = this->value;
 
     // set the new value
     if (value) {
@@ -49,6 +50,9 @@ void DowowNetwork::Datum::SetValue(Value* value, bool to_copy) {
     else {
         this->value = new ValueUndefined();
     }
+
+    // delete the old value
+    if (old_value != this->value) delete old_value;
 }
 
 uint32_t DowowNetwork::Datum::Deserialize(const char* data, uint32_t length) {
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index 7144df7..f438b67 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -107,11 +107,13 @@ bool DowowNetwork::ValueArr::Set(uint32_t index, Value* val) {
     if (index < 0 || index >= array.size()) return false;
     if (!val) return false;
 
-    delete array[index];
-
     // create a copy
-    array[index] = CreateValue(val->GetType());
-    array[index]->CopyFrom(val);
+    Value* copy = CreateValue(val->GetType());
+    copy->CopyFrom(val);
+
+    // val might be (a part of) the old element
+    delete array[index];
+    array[index] = copy;
 
     return true;
 }
@@ -145,9 +147,16 @@ void DowowNetwork::ValueArr::Clear() {
 void DowowNetwork::ValueArr::CopyFrom(Value* original_) {
     ValueArr* original = static_cast<ValueArr*>(original_);
 
-    New(original->array.size());
-    for (size_t i = 0; i < array.size(); i++)
-        Set(i, original->Get(i));
+    // the original might be this array or a part of it
+    std::vector<Value*> copies;
+    for (auto i : original->array) {
+        Value* copy = CreateValue(i->GetType());
+        copy->CopyFrom(i);
+        copies.push_back(copy);
+    }
+
+    Clear();
+    array.swap(copies);
 }
 
 DowowNetwork::ValueArr::~ValueArr() {
-- 
2.43.0


From bc3ed76a0cdbfbc36623bd9c57f91221b8da0bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 07/37] fix: Request::Set() with a null value does not delete
 the argument

It is documented to, but it stored an undefined value, which Get() returned
and which was sent to the peer.
---
 Request.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Request.cpp b/Request.cpp
index 69929a2..07e5fb9 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -26,6 +26,16 @@ uint32_t DowowNetwork::Request::GetId() const {
 }
 
 void DowowNetwork::Request::Set(std::string name, Value* value, bool to_copy) {
+    // delete the argument
+    if (!value) {
+        arguments.remove_if([&name](Datum* dat) {
+            if (dat->GetName() != name) return false;
+            delete dat;
+            return true;
+        });
+        return;
+    }
+
     if (Get(name)) {
         // argument is already set
         auto temp_iter = 
-- 
2.43.0


From 988ed72dedfa937471dc985413cec9adbf3c9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 08/37] fix: Request::CopyFrom() does not produce a copy

Arguments the destination had before were kept and mixed with the copied ones,
and of arguments with equal names the wrong one was kept.
---
 Request.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index 07e5fb9..6fdf0e9 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -147,12 +147,21 @@ uint32_t DowowNetwork::Request::GetSize() const {
 }
 
 void DowowNetwork::Request::CopyFrom(const Request* original) {
+    // nothing to copy from itself
+    if (original == this) return;
+
     SetName(original->GetName());
     SetId(original->GetId());
     const auto& original_args = original->GetArguments();
+    // delete the old arguments
+    for (auto i : arguments) delete i;
+    arguments.clear();
     // copy the arguments
     for (const auto& d: original_args) {
-        Set(d->GetName(), d->GetValue());
+        Datum* copy = new Datum();
+        copy->SetName(d->GetName());
+        copy->SetValue(d->GetValue());
+        arguments.push_back(copy);
     }
 }
 
-- 
2.43.0


From 4a579ff0313f4f19e188abdbb312ad9534c2e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 09/37] fix: copies of requests, data, values and references
 share what they own

Request, Datum, ValueStr, ValueArr and ValueUndefined had the implicit copy
constructors, so that both copies freed the same memory; a copied
SafeConnection dropped a reference it had never taken.
---
 Datum.cpp                 | 10 ++++++++++
 Datum.hpp                 |  4 ++++
 Request.cpp               |  9 +++++++++
 Request.hpp               |  4 ++++
 SafeConnection.hpp        |  3 +++
 values/ValueArr.cpp       |  4 ++++
 values/ValueArr.hpp       |  2 ++
 values/ValueStr.cpp       |  4 ++++
 values/ValueStr.hpp       |  2 ++
 values/ValueUndefined.cpp |  4 ++++
 values/ValueUndefined.hpp |  2 ++
 11 files changed, 48 insertions(+)

diff --git a/Datum.cpp b/Datum.cpp
index 160d20a..1f6620d 100644
--- a/Datum.cpp
+++ b/Datum.cpp
@@ -8,6 +8,16 @@ DowowNetwork::Datum::Datum() {
     this->value = new ValueUndefined();
 }
 
+DowowNetwork::Datum::Datum(const Datum& original) : Datum() {
+    *this = original;
+}
+
+DowowNetwork::Datum& DowowNetwork::Datum::operator=(const Datum& original) {
+    name = original.name;
+    SetValue(original.value);
+    return *this;
+}
+
 bool DowowNetwork::Datum::GetValid() const {
     // the datum is valid if:
     //    1. its value isn't 0
diff --git a/Datum.hpp b/Datum.hpp
index 555a926..c7e1e70 100644
--- a/Datum.hpp
+++ b/Datum.hpp
@@ -21,6 +21,10 @@ namespace DowowNetwork {
     public:
         /// Create a new empty datum.
         Datum();
+        /// Create a deep copy of the Datum.
+        Datum(const Datum& original);
+        /// Replace the Datum with a deep copy of the original.
+        Datum& operator=(const Datum& original);
 
         /// Check if the Datum is a valid one.
         /*!
diff --git a/Request.cpp b/Request.cpp
index 6fdf0e9..63bae2a 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -9,6 +9,15 @@ DowowNetwork::Request::Request(std::string name) : name(name) {
 
 }
 
+DowowNetwork::Request::Request(const Request& original) {
+    CopyFrom(&original);
+}
+
+DowowNetwork::Request& DowowNetwork::Request::operator=(const Request& original) {
+    CopyFrom(&original);
+    return *this;
+}
+
 void DowowNetwork::Request::SetName(std::string name) {
     this->name = name;
 }
diff --git a/Request.hpp b/Request.hpp
index 9a0a394..edb1819 100644
--- a/Request.hpp
+++ b/Request.hpp
@@ -30,6 +30,10 @@ namespace DowowNetwork {
             \param name the name of the Request
         */
         explicit Request(std::string name = "");
+        /// Create a deep copy of the Request.
+        Request(const Request& original);
+        /// Replace the Request with a deep copy of the original.
+        Request& operator=(const Request& original);
 
         /// Set the name of the Request.
         /*!
diff --git a/SafeConnection.hpp b/SafeConnection.hpp
index 364bdfb..7af8871 100644
--- a/SafeConnection.hpp
+++ b/SafeConnection.hpp
@@ -15,6 +15,9 @@ namespace DowowNetwork {
                 c->IncreaseRefs();
             }
 
+            inline SafeConnection(const SafeConnection& other) : SafeConnection(other.c) { }
+            SafeConnection& operator=(const SafeConnection&) = delete;
+
             inline Connection& operator()() {
                 return *c;
             }
diff --git a/values/ValueArr.cpp b/values/ValueArr.cpp
index f438b67..2d40109 100644
--- a/values/ValueArr.cpp
+++ b/values/ValueArr.cpp
@@ -7,6 +7,10 @@ DowowNetwork::ValueArr::ValueArr() : Value(ValueTypeArr) {
     
 }
 
+DowowNetwork::ValueArr::ValueArr(const ValueArr& original) : Value(ValueTypeArr) {
+    CopyFrom(const_cast<ValueArr*>(&original));
+}
+
 uint32_t DowowNetwork::ValueArr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     Clear();
diff --git a/values/ValueArr.hpp b/values/ValueArr.hpp
index 7b63370..6331932 100644
--- a/values/ValueArr.hpp
+++ b/values/ValueArr.hpp
@@ -18,6 +18,8 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueArr();
+        // deep copy
+        ValueArr(const ValueArr& original);
 
         // get element #index.
         // Returns 0 if oob.
diff --git a/values/ValueStr.cpp b/values/ValueStr.cpp
index 9e2a851..6698bfc 100644
--- a/values/ValueStr.cpp
+++ b/values/ValueStr.cpp
@@ -19,6 +19,10 @@ DowowNetwork::ValueStr::ValueStr(const char *str) : ValueStr(std::string(str)) {
     
 }
 
+DowowNetwork::ValueStr::ValueStr(const ValueStr& original) : Value(ValueTypeStr) {
+    Set(original.Get());
+}
+
 uint32_t DowowNetwork::ValueStr::DeserializeInternal(const char* data, uint32_t length) {
     // delete the buffer
     DeleteBuffer();
diff --git a/values/ValueStr.hpp b/values/ValueStr.hpp
index f50ab9c..de78c0a 100644
--- a/values/ValueStr.hpp
+++ b/values/ValueStr.hpp
@@ -22,6 +22,8 @@ namespace DowowNetwork {
     public:
         ValueStr(std::string str = "");
         ValueStr(const char* str);
+        // deep copy
+        ValueStr(const ValueStr& original);
 
         // getters and setters
         std::string Get() const;
diff --git a/values/ValueUndefined.cpp b/values/ValueUndefined.cpp
index 6ac5888..9ac39b8 100644
--- a/values/ValueUndefined.cpp
+++ b/values/ValueUndefined.cpp
@@ -7,6 +7,10 @@ DowowNetwork::ValueUndefined::ValueUndefined() : Value(ValueTypeUndefined) {
     
 }
 
+DowowNetwork::ValueUndefined::ValueUndefined(const ValueUndefined& original) : Value(ValueTypeUndefined) {
+    CopyFrom(const_cast<ValueUndefined*>(&original));
+}
+
 uint32_t DowowNetwork::ValueUndefined::DeserializeInternal(const char* data, uint32_t length) {
     // delete the old data
     free(undefined_data);
diff --git a/values/ValueUndefined.hpp b/values/ValueUndefined.hpp
index 1051ddc..946bb38 100644
--- a/values/ValueUndefined.hpp
+++ b/values/ValueUndefined.hpp
@@ -15,6 +15,8 @@ namespace DowowNetwork {
         std::string ToStringInternal(uint16_t indent) const;
     public:
         ValueUndefined();
+        // deep copy
+        ValueUndefined(const ValueUndefined& original);
 
         void CopyFrom(Value* original);
 
-- 
2.43.0


From 48be9a27a25b583815f97d56b522ca06b2214d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 10/37] fix: a request length that arrives in pieces is decoded
 wrongly

Each piece overwrote the beginning of the length instead of continuing it.
---
 Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Connection.cpp b/Connection.cpp
index c8afcdc..403e57f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -241,7 +241,7 @@ bool DowowNetwork::Connection::Receive() {
         // (effectively interchangable definitions)
         int recv_res = recv(
             socket_fd,
-            &recv_buffer_length,
+            reinterpret_cast<char*>(&recv_buffer_length) + recv_buffer_offset,
             sizeof(recv_buffer_length) - recv_buffer_offset,
             0);
 
-- 
2.43.0


From 00fea85654ce79acc4ca8aec312ba95c59466312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 11/37] fix: a request length below 4 overflows the receive
 buffer

The 4 bytes of the length were copied to a buffer of the received length.
---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 403e57f..32b5c1c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -264,6 +264,12 @@ bool DowowNetwork::Connection::Receive() {
                     return false;
                 }
 
+                // check if too small for the length itself
+                if (recv_buffer_length < sizeof(recv_buffer_length)) {
+                    // the connection is broken
+                    return false;
+                }
+
                 // offset for data must be set to be after the size
                 recv_buffer_offset = sizeof(recv_buffer_length);
                 // create the buffer
-- 
2.43.0


From 0e2479eec49635ebc5d57e6c16cdc3a6b7ca54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 12/37] fix: graceful Disconnect() of an idle connection never
 finishes

The request that wakes the background thread up was pushed after the
connection had been marked as disconnecting, so Push() dropped it.
---
 Connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 32b5c1c..6069e3f 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -686,14 +686,14 @@ void DowowNetwork::Connection::Disconnect(bool forced, bool wait_for_join) {
         // forced
         Utils::WriteEventFd(to_stop_event, 1);
     } else if (!is_disconnecting) {
-        // mark for disconnection
-        is_disconnecting = true;
         // graceful
         Request *dummy = new Request("_");
         // push a dummy request so that the
         // thread will call Send() and
         // eventually stop
         Push(dummy, false, 0, false);
+        // mark for disconnection (Push() refuses the requests from now on)
+        is_disconnecting = true;
     }
 
     mutex_cd.unlock();
-- 
2.43.0


From ff9076b1e62cf463984fc02d95b8fee70ac0a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 13/37] fix: Push() may queue a request after the connection
 has stopped

The state was checked under the lock but the request was queued after the lock
had been released: it could end up in the queue of the next connection and
notify a descriptor which is already closed.
---
 Connection.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 6069e3f..a79a27a 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -541,17 +541,15 @@ time_t DowowNetwork::Connection::GetTheirNaIntervalLimit() {
 }
 
 DowowNetwork::Request* DowowNetwork::Connection::Push(Request* req, bool must_copy, int timeout, bool change_request_id) {
-    {
-        // lock
-        MTLock(__mcd, mutex_cd);
-
-        // not connected or disconnecting
-        if (!IsConnected() || IsDisconnecting()) {
-            // delete the data if it is not copied
-            if (!must_copy)
-                delete req;
-            return 0;
-        }
+    // lock (the connection must not stop until the request is in the queue)
+    MTLock(__mcd, mutex_cd);
+
+    // not connected or disconnecting
+    if (!IsConnected() || IsDisconnecting()) {
+        // delete the data if it is not copied
+        if (!must_copy)
+            delete req;
+        return 0;
     }
 
     // lock the send queue
-- 
2.43.0


From 6470ae8c119905b9a5e0598217a348dbd558bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 14/37] fix: request handlers are called with the connection
 locked

Two connections whose handlers push to each other (the chat server example
does that) locked each other's mutex_cd in the opposite order: deadlock.
---
 Connection.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index a79a27a..d036a84 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -70,9 +70,6 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
             sizeof(pollfds) / sizeof(pollfds[0]),
             -1);
 
-        // lock connected/disconnecting mutex
-        MTLock(__mcd, c->mutex_cd);
-
         // ***************
         // 'to_stop' event
         // ***************
-- 
2.43.0


From 45c0bd0bc0f393868715e079cbf14202a6053dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 15/37] fix: deadlock of a stopping connection with a holder of
 its reference

The background thread waited for the references to be dropped with mutex_cd
locked, and Push() or Disconnect() of a holder waited for that mutex.
---
 Connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index d036a84..cb2a62d 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -127,10 +127,11 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     }
 
     // lock the connected/disconnecting mutex
-    MTLock(__mcd, c->mutex_cd);
-
+    c->mutex_cd.lock();
     // mark as disconnecting
     c->is_disconnecting = true;
+    // unlock it: who holds a reference may need it before letting go
+    c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
     if (c->receive_event != -1) {
@@ -156,6 +157,9 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->not_needed_event = -1;
     }
 
+    // lock the connected/disconnecting mutex
+    MTLock(__mcd, c->mutex_cd);
+
     // close (almost) everything
     shutdown(c->socket_fd, SHUT_RDWR);
     close(c->socket_fd);
-- 
2.43.0


From b3b36c809d47c79e558daf976f731e74d20b2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 16/37] fix: a connection is destroyed while a SafeConnection
 refers to it

Dropping any reference, not the last one, woke the stopping connection up, and
a reference taken after the background thread had looked was not waited for.
---
 Connection.cpp | 47 +++++++++++++++++++++++++++++------------------
 Connection.hpp |  3 +++
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index cb2a62d..ac51dda 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -139,23 +139,8 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         close(c->receive_event);
     }
 
-    // lock the reference counter
-    c->mutex_ra.lock();
-    // still referenced by external code, setup event
-    if (c->GetRefs())
-        c->not_needed_event = eventfd(0, 0);
-    // unlock the reference counter
-    c->mutex_ra.unlock();
-
-    // needed by someone
-    if (c->not_needed_event != -1) {
-        // wait until the Connection is not needed anymore
-        Utils::SelectRead(c->not_needed_event, -1);
-
-        // close the event
-        close(c->not_needed_event);
-        c->not_needed_event = -1;
-    }
+    // wait until the Connection is not needed by external code
+    c->WaitForNoRefs();
 
     // lock the connected/disconnecting mutex
     MTLock(__mcd, c->mutex_cd);
@@ -188,6 +173,29 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     Utils::WriteEventFd(c->stopped_event, 1);
 }
 
+void DowowNetwork::Connection::WaitForNoRefs() {
+    // lock the reference counter
+    mutex_ra.lock();
+    // still referenced by external code
+    while (GetRefs()) {
+        // setup event
+        not_needed_event = eventfd(0, 0);
+        // unlock the reference counter
+        mutex_ra.unlock();
+
+        // wait until the Connection is not needed anymore
+        Utils::SelectRead(not_needed_event, -1);
+
+        // lock the reference counter
+        mutex_ra.lock();
+        // close the event
+        close(not_needed_event);
+        not_needed_event = -1;
+    }
+    // unlock the reference counter
+    mutex_ra.unlock();
+}
+
 bool DowowNetwork::Connection::PassThroughHandlers(Request* r) {
     // no request
     if (!r) return false;
@@ -667,7 +675,7 @@ void DowowNetwork::Connection::DecreaseRefs() {
     mutex_ra.lock();
     refs_amount--;
     // the background thread awaits loneliness ;-(
-    if (not_needed_event != -1)
+    if (!refs_amount && not_needed_event != -1)
         Utils::WriteEventFd(not_needed_event, 1);
     mutex_ra.unlock();
 }
@@ -801,6 +809,9 @@ DowowNetwork::Connection::~Connection() {
         delete background_thread;
     }
 
+    // a reference may have been taken after the thread checked for them
+    WaitForNoRefs();
+
     // close the stopped eventfd
     close(stopped_event);
 }
diff --git a/Connection.hpp b/Connection.hpp
index e1b570f..5c007ae 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -138,6 +138,9 @@ namespace DowowNetwork {
          */
         static void ConnThreadFunc(Connection* conn);
 
+        //! Wait until nothing outside the library refers to the Connection.
+        void WaitForNoRefs();
+
         //! Check if has something to send.
         //! /return send_buffer || send_queue.size()
         bool HasSomethingToSend();
-- 
2.43.0


From 8787198c6fe225baf033e5da26824b3d3c412511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 17/37] fix: the event of a waiting Pull() is closed twice

The background thread closed it and left the number for Pull() to close again,
and both used it without a common lock, so a descriptor opened in between could
be closed or written to.
---
 Connection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index ac51dda..45f48a1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -134,10 +134,10 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     c->mutex_cd.unlock();
 
     // notify the Pull() callers that the receive is finished
-    if (c->receive_event != -1) {
+    c->mutex_rq.lock();
+    if (c->receive_event != -1)
         Utils::WriteEventFd(c->receive_event, 1);
-        close(c->receive_event);
-    }
+    c->mutex_rq.unlock();
 
     // wait until the Connection is not needed by external code
     c->WaitForNoRefs();
@@ -333,12 +333,12 @@ bool DowowNetwork::Connection::Receive() {
                         if (!PassThroughHandlers(req)) {
                             mutex_rq.lock();
                             recv_queue.push(req);
-                            mutex_rq.unlock();
 
                             // queue updated, notify outer code
                             if (receive_event != -1) {
                                 Utils::WriteEventFd(receive_event, 1);
                             }
+                            mutex_rq.unlock();
                         }
                     }
                 }
-- 
2.43.0


From 030d148be238474c4d493fc59d9f0816392dc020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 18/37] fix: Pull() with a negative timeout hangs on a closed
 connection

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 45f48a1..4ff5893 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -632,6 +632,12 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
         return 0;
     }
 
+    // nothing is going to be received
+    if (is_disconnecting || !IsConnected()) {
+        mutex_rq.unlock();
+        return 0;
+    }
+
     // set up receive event
     receive_event = eventfd(0, 0);
 
-- 
2.43.0


From 0bcfb5d96aeac506f2f472411b0f2968958b920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 19/37] fix: the timeout of Pull() is taken as milliseconds

It is documented to be in seconds, as all the other timeouts are.
---
 Connection.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 4ff5893..86831d4 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -641,14 +641,11 @@ DowowNetwork::Request* DowowNetwork::Connection::Pull(int timeout) {
     // set up receive event
     receive_event = eventfd(0, 0);
 
-    // set up pollfds
-    pollfd pollfds { receive_event, POLLIN, 0 };
-
     // unlock
     mutex_rq.unlock();
 
-    // poll
-    poll(&pollfds, 1, timeout);
+    // wait
+    Utils::SelectRead(receive_event, timeout);
 
     // lock
     mutex_rq.lock();
-- 
2.43.0


From fb0661cbfd2487a46836999fbd4257eb8613af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 20/37] fix: a signal stops the server or confuses a connection

An interrupted poll() leaves the events unset: the server thread took that for
'no events' and quit, or acted on uninitialized memory as the connection did.
---
 Connection.cpp |  8 ++++++--
 Server.cpp     | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 86831d4..f568030 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -65,10 +65,14 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
         c->mutex_cd.unlock();
 
         // let's poll!
-        poll(
+        if (poll(
             pollfds,
             sizeof(pollfds) / sizeof(pollfds[0]),
-            -1);
+            -1) == -1)
+        {
+            // interrupted by a signal, nothing is known about events
+            continue;
+        }
 
         // ***************
         // 'to_stop' event
diff --git a/Server.cpp b/Server.cpp
index a880342..23629c8 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -52,7 +52,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 s->max_connections;
         }
 
-        pollfd *pollfds = new pollfd[2 + s->connections.size()];
+        // no events unless poll() reports them
+        pollfd *pollfds = new pollfd[2 + s->connections.size()]();
         // server socket
         pollfds[0].fd = accept_new ? s->socket_fd : -1;
         pollfds[0].events = POLLIN;
@@ -69,10 +70,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         }
 
         // poll events
-        poll(
+        if (poll(
             pollfds,
             2 + s->connections.size(),
-            -1);
+            -1) == -1)
+        {
+            // interrupted by a signal, nothing is known about events
+            delete[] pollfds;
+            continue;
+        }
 
         // lock
         std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
-- 
2.43.0


From fb29d3e726057c80f2449b678d0cc3f5c997d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 21/37] fix: closed descriptors of a stopped connection are
 still used

Setting a timer interval after the disconnection re-armed whatever timer had
got the number of the closed one.
---
 Connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index f568030..70a9cae 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -156,6 +156,12 @@ void DowowNetwork::Connection::ConnThreadFunc(Connection* c) {
     close(c->to_stop_event);
     close(c->our_sa_timer);
     close(c->their_na_timer);
+    // these numbers may be reused by other descriptors
+    c->socket_fd = -1;
+    c->push_event = -1;
+    c->to_stop_event = -1;
+    c->our_sa_timer = -1;
+    c->their_na_timer = -1;
 
     // delete buffers
     c->DeleteSendBuffer();
@@ -536,6 +542,8 @@ DowowNetwork::Connection::Connection(int socket_fd) : Connection() {
 }
 
 void DowowNetwork::Connection::SetOurSaInterval(time_t interval) {
+    // lock (the timer must not be closed meanwhile)
+    MTLock(__mcd, mutex_cd);
     our_sa_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(our_sa_timer, our_sa_interval);
 }
@@ -545,6 +553,8 @@ time_t DowowNetwork::Connection::GetOurSaInterval() {
 }
 
 void DowowNetwork::Connection::SetTheirNaIntervalLimit(time_t interval) {
+    // lock (the timer must not be closed meanwhile)
+    MTLock(__mcd, mutex_cd);
     their_na_interval = interval < 1 ? 1 : interval;
     Utils::SetTimerFdTimeout(their_na_timer, their_na_interval);
 }
-- 
2.43.0


From 191adc2a1b6dd556689bc71a3db14f710afc459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 22/37] fix: both sides of a connection use even request ids

Each side is meant to have a half of all the ids: the client has the odd ones.
---
 Client.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index 0e4fd22..c8f4859 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -65,7 +65,7 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     c->temp_socket_fd = -1;
 
     // setup the request id part
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
@@ -104,7 +104,7 @@ void DowowNetwork::Client::UnixThreadFunc(Client *c, std::string socket_path, in
     c->temp_socket_fd = -1;
 
     // request part setup
-    c->SetEvenRequestIdsPart(true);
+    c->SetEvenRequestIdsPart(false);
 
     // notify
     Utils::WriteEventFd(c->connect_event, 1);
-- 
2.43.0


From 0768ab0d06d28ba525a1cff7cc646a9399510c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 23/37] fix: a long UNIX socket path overflows the address on
 the stack

---
 Client.cpp | 4 ++++
 Server.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Client.cpp b/Client.cpp
index c8f4859..b5f5812 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -154,6 +154,10 @@ bool DowowNetwork::Client::ConnectUnix(std::string socket_path, int timeout) {
     if (IsConnected() || IsConnecting())
         return false;
 
+    // the path is too long
+    if (socket_path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // temp socket fd
     temp_socket_fd =
         socket(AF_UNIX, SOCK_STREAM, 0);
diff --git a/Server.cpp b/Server.cpp
index 23629c8..9d5ebc1 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -184,6 +184,10 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     if (GetType() != SocketTypeUndefined)
         return false;
 
+    // the path is too long
+    if (path.size() >= sizeof(sockaddr_un::sun_path))
+        return false;
+
     // try to create a socket
     socket_fd = socket(AF_UNIX, SOCK_STREAM, 0);
     // check if failed
-- 
2.43.0


From 3d4ae4ec210e5614b8c5c2285ff7fae4018f7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 24/37] fix: a server without handlers calls an uninitialized
 pointer

---
 Server.cpp | 3 ++-
 Server.hpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 9d5ebc1..65232d6 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -101,7 +101,8 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         for (auto c : s->connections) {
             if (pollfds[2 + i++].revents & POLLIN) {
                 // call 'disconnected' handler
-                (*s->GetDisconnectedHandler())(s, c);
+                if (s->GetDisconnectedHandler())
+                    (*s->GetDisconnectedHandler())(s, c);
                 // delete the connection
                 delete c;
                 deleted_conns.push_back(c);
diff --git a/Server.hpp b/Server.hpp
index f90bf6c..babbb5d 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -57,10 +57,10 @@ namespace DowowNetwork {
         //! Handler for new connections.
         //! Called right after the polling thread for
         //! connection is started.
-        ConnectionHandler connected_handler;
+        ConnectionHandler connected_handler = 0;
         //! Handler for disconnection.
         //! Called
-        ConnectionHandler disconnected_handler;
+        ConnectionHandler disconnected_handler = 0;
 
         /// Accept one client.
         Connection* AcceptOne();
-- 
2.43.0


From f801143c397d98c5f8546d5177719d196985a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 25/37] fix: Server::GetConnection() races with the deletion of
 connections

It walked the list without a lock while the server thread changed it, and
returned connections which had been deleted or were about to be. The server
thread also waited for the connections to stop with mutex_server locked.
---
 Server.cpp | 35 ++++++++++++++++++++++++-----------
 Server.hpp |  2 ++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index 65232d6..d5bc539 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -103,14 +103,17 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // call 'disconnected' handler
                 if (s->GetDisconnectedHandler())
                     (*s->GetDisconnectedHandler())(s, c);
-                // delete the connection
-                delete c;
                 deleted_conns.push_back(c);
             }
         }
-        // remove deleted connections
-        for (auto c : deleted_conns)
+        for (auto c : deleted_conns) {
+            // remove the connection, so that nobody gets it anymore
+            s->mutex_connections.lock();
             s->connections.remove(c);
+            s->mutex_connections.unlock();
+            // delete the connection
+            delete c;
+        }
 
         // ***********************
         // check if new connection
@@ -123,7 +126,9 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 // assign the id
                 new_conn->id = free_conn_id++;
                 // add to the list of connections
+                s->mutex_connections.lock();
                 s->connections.push_back(new_conn);
+                s->mutex_connections.unlock();
             }
         }
 
@@ -140,25 +145,27 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
         continue;
     }
 
-    // lock
-    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
+    // nobody gets the open connections from now on
+    std::list<Connection*> open_conns;
+    s->mutex_connections.lock();
+    open_conns.swap(s->connections);
+    s->mutex_connections.unlock();
 
     // force open connections to close
     // make all the open connections close
-    for (auto c : s->connections) {
+    for (auto c : open_conns) {
         c->Disconnect(true);
         c->WaitForStop(-1);
         delete c;
     }
-    s->connections.clear();
+
+    // lock
+    std::lock_guard<typeof(s->mutex_server)> __sm(s->mutex_server);
 
     // close the server socket
     close(s->socket_fd);
     // close to_stop fd
     close(s->to_stop_event);
-    
-    // clear
-    s->connections.clear();
 
     // notify about stop
     Utils::WriteEventFd(s->stopped_event, 1);
@@ -341,6 +348,9 @@ int32_t DowowNetwork::Server::GetMaxConnections() {
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string tag) {
+    // lock (the connection must not be deleted until it's referenced)
+    std::lock_guard<typeof(mutex_connections)> __mc(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
@@ -354,6 +364,9 @@ DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(std::string ta
 }
 
 DowowNetwork::SafeConnection *DowowNetwork::Server::GetConnection(uint32_t id) {
+    // lock (the connection must not be deleted until it's referenced)
+    std::lock_guard<typeof(mutex_connections)> __mc(mutex_connections);
+
     auto it = std::find_if(
         connections.begin(),
         connections.end(),
diff --git a/Server.hpp b/Server.hpp
index babbb5d..ff8d49f 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -53,6 +53,8 @@ namespace DowowNetwork {
 
         // mutex for any operations
         std::recursive_mutex mutex_server;
+        // mutex for the list of connections
+        std::mutex mutex_connections;
 
         //! Handler for new connections.
         //! Called right after the polling thread for
-- 
2.43.0


From 1270ce9c48f401a73f0d136d3a70ba42049cfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 26/37] fix: the connected handler sees a connection without
 its id

The id was assigned and the connection became available to GetConnection()
only after the handler had returned.
---
 Server.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index d5bc539..fbe7b9b 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -29,11 +29,6 @@ DowowNetwork::Connection* DowowNetwork::Server::AcceptOne() {
     // create a connection
     Connection *conn = new Connection(temp_fd);
 
-    // call the handler if set
-    if (GetConnectedHandler()) {
-        (*GetConnectedHandler())(this, conn);
-    }
-
     // success
     return conn;
 }
@@ -129,6 +124,10 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
                 s->mutex_connections.lock();
                 s->connections.push_back(new_conn);
                 s->mutex_connections.unlock();
+
+                // call the handler if set
+                if (s->GetConnectedHandler())
+                    (*s->GetConnectedHandler())(s, new_conn);
             }
         }
 
-- 
2.43.0


From 74f2afbb33bd58fa4ff62c5e92618ae0213a91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 27/37] fix: a stopped server is restarted, used or destroyed
 too early

The stop was notified before the server thread had reset the state, so the
server could be destroyed under it; the event was never reset, so WaitForStop()
of a restarted server returned at once; Stop() could write to the descriptor
which the server thread had just closed.
---
 Server.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Server.cpp b/Server.cpp
index fbe7b9b..5932e15 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -163,11 +163,6 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
 
     // close the server socket
     close(s->socket_fd);
-    // close to_stop fd
-    close(s->to_stop_event);
-
-    // notify about stop
-    Utils::WriteEventFd(s->stopped_event, 1);
 
     // UNIX socket - delete it
     if (s->GetType() == SocketTypeUnix)
@@ -175,12 +170,15 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
 
     // reset some data
     s->socket_fd = -1;
-    s->to_stop_event = -1;
     s->socket_type = SocketTypeUndefined;
+
+    // notify about stop
+    Utils::WriteEventFd(s->stopped_event, 1);
 }
 
 DowowNetwork::Server::Server() {
     stopped_event = eventfd(0, 0);
+    to_stop_event = eventfd(0, 0);
 }
 
 bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
@@ -240,8 +238,9 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
     socket_type = SocketTypeUnix;
     unix_socket_path = path;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
+    // reset the events
+    Utils::ReadEventFd(stopped_event, 0);
+    Utils::ReadEventFd(to_stop_event, 0);
 
     // start the thread
     std::thread t(ServerThreadFunc, this);
@@ -310,8 +309,9 @@ bool DowowNetwork::Server::StartTcp(std::string ip, uint16_t port) {
     tcp_socket_address = be32toh(addr.sin_addr.s_addr);
     tcp_socket_port = port;
 
-    // create eventfd
-    to_stop_event = eventfd(0, 0);
+    // reset the events
+    Utils::ReadEventFd(stopped_event, 0);
+    Utils::ReadEventFd(to_stop_event, 0);
 
     // start the thread
     std::thread t(ServerThreadFunc, this);
@@ -400,6 +400,11 @@ DowowNetwork::Server::~Server() {
     // stop
     Stop(-1);
 
-    // close the stopped eventfd
+    // the server thread is finished when it unlocks the mutex
+    mutex_server.lock();
+    mutex_server.unlock();
+
+    // close the eventfds
     close(stopped_event);
+    close(to_stop_event);
 }
-- 
2.43.0


From d0602e9b00e63f9fe8f7cc57a9bea8008a55cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 28/37] fix: request handlers are set and looked up without a
 lock

A server's connected handler sets them when the background thread of the
connection is already running and looking them up in the same map.
---
 Connection.cpp | 8 ++++++++
 Connection.hpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index 70a9cae..eeb615c 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -750,14 +750,19 @@ bool DowowNetwork::Connection::WaitForStop(int timeout) {
 }
 
 void DowowNetwork::Connection::SetHandlerDefault(RequestHandler h) {
+    MTLock(__mh, mutex_h);
     handler_default = h;
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerDefault() {
+    MTLock(__mh, mutex_h);
     return handler_default;
 }
 
 void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler h) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     // must delete and is set
     if (h == 0) {
         auto it = handlers_named.find(name);
@@ -772,6 +777,9 @@ void DowowNetwork::Connection::SetHandlerNamed(std::string name, RequestHandler
 }
 
 DowowNetwork::RequestHandler DowowNetwork::Connection::GetHandlerNamed(std::string name) {
+    // lock
+    MTLock(__mh, mutex_h);
+
     auto it = handlers_named.find(name);
     // is not set
     if (it == handlers_named.end()) return 0;
diff --git a/Connection.hpp b/Connection.hpp
index 5c007ae..10c9d2a 100644
--- a/Connection.hpp
+++ b/Connection.hpp
@@ -52,6 +52,8 @@ namespace DowowNetwork {
         std::recursive_mutex mutex_cd;
         //! mutex for background thread pointer
         std::recursive_mutex mutex_bt;
+        //! mutex for request handlers
+        std::recursive_mutex mutex_h;
 
         //! The ID of the free request.
         uint32_t free_request_id = 1;
-- 
2.43.0


From 138ff6bdb780e041720963c011dbfbd4e085c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 29/37] fix: ConnectTcp() ignores its timeout

F_SETFL was given 1 instead of O_NONBLOCK, so connect() blocked for as long as
the system waits, and the wait for its result looked for data to read.
---
 Client.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Client.cpp b/Client.cpp
index b5f5812..bede89c 100644
--- a/Client.cpp
+++ b/Client.cpp
@@ -46,7 +46,12 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
     // in progress
     if (connect_res == -1 && errno == EINPROGRESS) {
         // wait for result
-        connect_res = !Utils::SelectRead(c->temp_socket_fd, timeout);
+        connect_res = !Utils::SelectWrite(c->temp_socket_fd, timeout);
+
+        // get the result
+        socklen_t len = sizeof(connect_res);
+        if (!connect_res)
+            getsockopt(c->temp_socket_fd, SOL_SOCKET, SO_ERROR, &connect_res, &len);
     }
 
     // fail
@@ -59,7 +64,8 @@ void DowowNetwork::Client::TcpThreadFunc(Client *c, std::string ip, uint16_t por
         return;
     }
 
-    // connected
+    // connected, the socket must be blocking from now on
+    fcntl(c->temp_socket_fd, F_SETFL, 0);
     c->InitializeByFD(c->temp_socket_fd);
     // unset temp socket fd
     c->temp_socket_fd = -1;
@@ -129,7 +135,7 @@ bool DowowNetwork::Client::ConnectTcp(std::string ip, uint16_t port, int timeout
         return false;
 
     // make socket nonblocking
-    int nb_state = 1;
+    int nb_state = O_NONBLOCK;
     fcntl(temp_socket_fd, F_SETFL, nb_state);
 
     // create event
-- 
2.43.0


From 51b426c8f91202f49f65f3e9721afa3a3704920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 30/37] fix: a signal ends a wait which is meant to have no
 timeout

---
 Utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 76819a1..c26d602 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -1,5 +1,6 @@
 #include "Utils.hpp"
 
+#include <errno.h>
 #include <unistd.h>
 #include <sys/poll.h>
 #include <sys/timerfd.h>
@@ -10,14 +11,16 @@ const timespec zero_time { 0, 0 };
 
 bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
     pollfd pollfds { fd, POLLOUT, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+    // a signal must not end a wait that has no timeout
+    while (poll(&pollfds, 1, seconds * 1000) == -1 && errno == EINTR && seconds < 0);
 
     return pollfds.revents & POLLOUT;
 }
 
 bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
     pollfd pollfds { fd, POLLIN, 0 };
-    poll(&pollfds, 1, seconds * 1000);
+    // a signal must not end a wait that has no timeout
+    while (poll(&pollfds, 1, seconds * 1000) == -1 && errno == EINTR && seconds < 0);
 
     return pollfds.revents & POLLIN;
 }
-- 
2.43.0


From 1c1363fbb5cf981689cf2233def972039dced0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 31/37] fix: delete the requests that were never pulled when
 the connection is destroyed

---
 Connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Connection.cpp b/Connection.cpp
index eeb615c..5a1b29a 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -839,4 +839,10 @@ DowowNetwork::Connection::~Connection() {
 
     // close the stopped eventfd
     close(stopped_event);
+
+    // delete the requests that nobody has pulled
+    while (recv_queue.size()) {
+        delete recv_queue.front();
+        recv_queue.pop();
+    }
 }
-- 
2.43.0


From 3832de1bbbb59acf670b09f5343c1ba9d7ad6015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 32/37] fix: a block size changed during Receive() or Send()
 must not exceed the buffer

---
 Connection.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 5a1b29a..53fcbd6 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -309,11 +309,14 @@ bool DowowNetwork::Connection::Receive() {
         uint32_t bytes_left =
             recv_buffer_length - recv_buffer_offset;
 
+        // read once, may be changed by another thread meanwhile
+        uint32_t block_size = *const_cast<volatile uint32_t*>(&recv_block_size);
+
         // receive
         int recv_res = recv(
             socket_fd,
             recv_buffer + recv_buffer_offset,
-            bytes_left < recv_block_size ? bytes_left : recv_block_size,
+            bytes_left < block_size ? bytes_left : block_size,
             0);
 
         // check results
@@ -382,12 +385,15 @@ bool DowowNetwork::Connection::Send() {
         uint32_t left_to_send =
             send_buffer_length - send_buffer_offset;
 
+        // read once, may be changed by another thread meanwhile
+        uint32_t block_size = *const_cast<volatile uint32_t*>(&send_block_size);
+
         // write to the socket.
         // MSG_NOSIGNAL to disable broken pipe signal
         int send_res = send(
             socket_fd,
             send_buffer + send_buffer_offset,
-            left_to_send < send_block_size ? left_to_send : send_block_size,
+            left_to_send < block_size ? left_to_send : block_size,
             MSG_NOSIGNAL);
 
         // check result
-- 
2.43.0


From 78e86ce29d9c603dfc390a4bde00a86795b5783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:21 +0000
Subject: [PATCH 33/37] fix: timeouts too large for an int of milliseconds
 overflow

A negative timeout below INT_MIN / 1000 could become a finite one, and a
long positive one an infinite or a very short one.
---
 Utils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index c26d602..ab601d3 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -1,6 +1,7 @@
 #include "Utils.hpp"
 
 #include <errno.h>
+#include <limits.h>
 #include <unistd.h>
 #include <sys/poll.h>
 #include <sys/timerfd.h>
@@ -9,10 +10,17 @@
 // zero timespan
 const timespec zero_time { 0, 0 };
 
+// the timeout for poll(): negative is infinite, too long ones must not overflow
+static int PollTimeout(int seconds) {
+    if (seconds < 0) return -1;
+    if (seconds > INT_MAX / 1000) return INT_MAX;
+    return seconds * 1000;
+}
+
 bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
     pollfd pollfds { fd, POLLOUT, 0 };
     // a signal must not end a wait that has no timeout
-    while (poll(&pollfds, 1, seconds * 1000) == -1 && errno == EINTR && seconds < 0);
+    while (poll(&pollfds, 1, PollTimeout(seconds)) == -1 && errno == EINTR && seconds < 0);
 
     return pollfds.revents & POLLOUT;
 }
@@ -20,7 +28,7 @@ bool DowowNetwork::Utils::SelectWrite(int fd, int seconds) {
 bool DowowNetwork::Utils::SelectRead(int fd, int seconds) {
     pollfd pollfds { fd, POLLIN, 0 };
     // a signal must not end a wait that has no timeout
-    while (poll(&pollfds, 1, seconds * 1000) == -1 && errno == EINTR && seconds < 0);
+    while (poll(&pollfds, 1, PollTimeout(seconds)) == -1 && errno == EINTR && seconds < 0);
 
     return pollfds.revents & POLLIN;
 }
-- 
2.43.0


From e702adc902e3ac370aec564c8c30e08c5ac7807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 34/37] fix: Server: handlers and path are read without the
 mutex of their setters

---
 Server.cpp | 3 +++
 Server.hpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/Server.cpp b/Server.cpp
index 5932e15..7eeb1d3 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -250,6 +250,9 @@ bool DowowNetwork::Server::StartUnix(std::string path, bool dof) {
 }
 
 std::string DowowNetwork::Server::GetUnixPath() {
+    // lock
+    std::lock_guard<typeof(mutex_server)> __sm(mutex_server);
+
     return unix_socket_path;
 }
 
diff --git a/Server.hpp b/Server.hpp
index ff8d49f..c0c0d32 100644
--- a/Server.hpp
+++ b/Server.hpp
@@ -96,6 +96,7 @@ namespace DowowNetwork {
         }
         /// Get the 'connected' handler.
         inline ConnectionHandler GetConnectedHandler() {
+            std::lock_guard<std::recursive_mutex> __sm(mutex_server);
             return connected_handler;
         }
         /// Set the 'disconnected' handler.
@@ -106,6 +107,7 @@ namespace DowowNetwork {
         }
         /// Get the 'disconnected' handler.
         inline ConnectionHandler GetDisconnectedHandler() {
+            std::lock_guard<std::recursive_mutex> __sm(mutex_server);
             return disconnected_handler;
         }
 
-- 
2.43.0


From f2f26f1cb7f6e84cf1132f1dfc8e8c3cf1d6a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 35/37] fix: Server: connections are deleted while mutex_server
 is held

Who holds a reference to the connection and calls a function of the server
that needs the mutex waits for the thread of the server, which waits for the
reference to be released.
---
 Server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Server.cpp b/Server.cpp
index 7eeb1d3..a1c2507 100644
--- a/Server.cpp
+++ b/Server.cpp
@@ -106,8 +106,11 @@ void DowowNetwork::Server::ServerThreadFunc(Server *s) {
             s->mutex_connections.lock();
             s->connections.remove(c);
             s->mutex_connections.unlock();
-            // delete the connection
+            // delete the connection; who holds a reference to it
+            // may need the server before letting go
+            s->mutex_server.unlock();
             delete c;
+            s->mutex_server.lock();
         }
 
         // ***********************
-- 
2.43.0


From d93ddc145c4be08d423f61db74915af5c6452c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:14 +0000
Subject: [PATCH 36/37] fix: Request::Deserialize reports success for a request
 with an invalid argument

---
 Request.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Request.cpp b/Request.cpp
index 63bae2a..b88df06 100644
--- a/Request.cpp
+++ b/Request.cpp
@@ -139,8 +139,9 @@ uint32_t DowowNetwork::Request::Deserialize(char* data, uint32_t data_size) {
         Datum* new_datum = new Datum();
         uint32_t temp_res = new_datum->Deserialize(data + i, des_total_length - i);
         if (!temp_res) {
+            // an invalid argument makes the whole request invalid
             delete new_datum;
-            break;
+            return 0;
         }
         i += temp_res;
         arguments.push_back(new_datum);
-- 
2.43.0


From 753e43b9603202a8cef65c51b366199584f21595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:53 +0000
Subject: [PATCH 37/37] fix: a request length of four makes the connection end
 at the next byte

Nothing follows such a length, receiving no bytes was taken for a closed connection.
---
 Connection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Connection.cpp b/Connection.cpp
index 53fcbd6..ff7d1a1 100644
--- a/Connection.cpp
+++ b/Connection.cpp
@@ -283,8 +283,9 @@ bool DowowNetwork::Connection::Receive() {
                     return false;
                 }
 
-                // check if too small for the length itself
-                if (recv_buffer_length < sizeof(recv_buffer_length)) {
+                // check if nothing follows the length itself
+                // (receiving no bytes looks like a closed connection)
+                if (recv_buffer_length <= sizeof(recv_buffer_length)) {
                     // the connection is broken
                     return false;
                 }
-- 
2.43.0

