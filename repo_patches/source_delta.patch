From 3e84b3c5b59cf81126daa80c240b1cf34150e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 01/27] fix: asUint32 must accept values above INT32_MAX

Serials and reply serials of 2^31 and above made it throw, so the message
was dropped.
---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From a886ff47e7927758420a5e13d905e053255d9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 02/27] fix: variants have the alignment of their signature,
 one octet

Arrays of variants were written and read with padding the D-Bus format does
not have.
---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From 3b30971e683433a02459cf480974204efdfb3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 03/27] fix: align doubles when reading them

---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..bccabf7 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -66,6 +66,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 
 void MessageIStream::read(double* value)
 {
+    align(sizeof(double));
     uint8_t bytes[sizeof(double)];
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
-- 
2.43.0


From 7f2b4471ad807c68ea6609bde6b5029a5927f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 04/27] fix: write the array length where it belongs in an
 unaligned stream

The position of the length was taken before its alignment padding.
---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..8b2346e 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From d4137d9a207f6471e187184b048e66751616afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 05/27] fix: refuse to marshall signatures longer than 255
 octets

Their length was truncated to one octet, which produced corrupt messages.
---
 src/dbus_messageostream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..a74e059 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,7 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
 
 namespace DBus {
 
@@ -101,6 +102,9 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255) {
+            throw std::length_error("Signature is longer than 255 octets");
+        }
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
-- 
2.43.0


From bc70d6601d7d9e3edab489d6533daa461d07b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 06/27] fix: reject values of unsupported types when
 unmarshalling

They were skipped without reading anything, so an array of them grew forever.
---
 src/dbus_type.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..810cd6c 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -36,6 +36,7 @@
 #include "dbus_type_uint32.h"
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
+#include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -282,6 +283,10 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
         "DBus :: Unmarshalling type not implemented (%s)\n", type.c_str());
 
 #undef TYPE_UNMARSHALL_DATA
+
+    // Nothing can be read for such a type, so going on would leave the stream
+    // where it is: an array of it would never end.
+    throw std::runtime_error("Unmarshalling of an unsupported type");
 }
 
 // Generate an expanded description of the data type provided.
-- 
2.43.0


From 282106e5076dd25dd42d24b6246aec84ca78ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 07/27] fix: reject malformed signatures when unmarshalling

Unbalanced brackets, incomplete types, dictentries without exactly two fields
and variants that do not name exactly one type were decoded as something else.
---
 src/dbus_type.cpp           | 6 ++++++
 src/dbus_type_dictentry.cpp | 8 +++++++-
 src/dbus_type_struct.cpp    | 5 +++++
 src/dbus_type_variant.cpp   | 4 ++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 810cd6c..72671a9 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -365,6 +365,10 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
 {
     std::string result;
 
+    if (idx >= declaration.size()) {
+        throw std::runtime_error("Incomplete type in signature");
+    }
+
     // Handle arrays
     if (declaration[idx] == '(') {
         // Find the matching bracket, and skip all internal signatures
@@ -383,6 +387,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched brackets in the array signature.");
+        throw std::runtime_error("Mis-matched brackets in signature");
     }
     // Handle dictentry
     else if (declaration[idx] == '{') {
@@ -407,6 +412,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched braces in the dictentry signature.");
+        throw std::runtime_error("Mis-matched braces in signature");
     }
 
     result += declaration[idx];
diff --git a/src/dbus_type_dictentry.cpp b/src/dbus_type_dictentry.cpp
index 55c62c0..92de1f0 100644
--- a/src/dbus_type_dictentry.cpp
+++ b/src/dbus_type_dictentry.cpp
@@ -20,6 +20,7 @@
 #include "dbus_type_string.h"
 #include "dbus_type_uint32.h"
 #include <sstream>
+#include <stdexcept>
 
 #include "dbus_message.h"
 #include "dbus_messageistream.h"
@@ -93,7 +94,12 @@ void DBus::Type::DictEntry::unmarshall(MessageIStream& stream)
     const char key_type = getSignature().at(1);
     DBus::Validation::throwOnInvalidBasicType(key_type);
     m_Value.first = Type::create(std::string(1, key_type));
-    m_Value.second = Type::create(DBus::Type::extractSignature(getSignature(), 2));
+    const std::string value_type = DBus::Type::extractSignature(getSignature(), 2);
+    // Exactly one key type, one value type and the brackets around them
+    if (value_type.size() + 3 != getSignature().size()) {
+        throw std::runtime_error("A dictentry must have exactly two fields");
+    }
+    m_Value.second = Type::create(value_type);
     DBus::Type::unmarshallData(m_Value.first, stream);
     DBus::Type::unmarshallData(m_Value.second, stream);
 }
diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..569bad3 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -33,6 +33,7 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 #include <sstream>
+#include <stdexcept>
 
 /*
 Structs and dict entries are marshalled in the same way as their contents, but
@@ -150,6 +151,10 @@ void DBus::Type::Struct::unmarshall(MessageIStream& stream)
         DBus::Type::unmarshallData(m_Value.back(), stream);
         signatureIndex += signature.size();
     } while (signatureIndex < m_Signature.size() - 1);
+
+    if (signatureIndex != m_Signature.size() - 1) {
+        throw std::runtime_error("Incomplete type in struct signature");
+    }
 }
 
 std::string DBus::Type::Struct::toString(const std::string& prefix) const
diff --git a/src/dbus_type_variant.cpp b/src/dbus_type_variant.cpp
index 0d16a6d..c1cfbb5 100644
--- a/src/dbus_type_variant.cpp
+++ b/src/dbus_type_variant.cpp
@@ -24,6 +24,7 @@
 #include "dbus_type_string.h"
 #include "dbus_type_uint32.h"
 #include <sstream>
+#include <stdexcept>
 
 const std::string DBus::Type::Variant::s_StaticTypeCode("v");
 
@@ -88,6 +89,9 @@ void DBus::Type::Variant::unmarshall(MessageIStream& stream)
     Type::Signature signature;
     signature.unmarshall(stream);
     m_ContainedSignature = signature.getValue();
+    if (Type::extractSignature(m_ContainedSignature, 0) != m_ContainedSignature) {
+        throw std::runtime_error("A variant must contain a single complete type");
+    }
     m_Value = DBus::Type::create(signature.getValue());
     DBus::Type::unmarshallData(m_Value, stream);
 }
-- 
2.43.0


From 03ca7dd723c2f0b82d67f8b8fed32e3fb15c9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 08/27] fix: limit the nesting of containers to 64 when
 unmarshalling

Nested variants of a few kilobytes overflowed the stack.
---
 src/dbus_messageistream.cpp | 11 +++++++++++
 src/dbus_messageistream.h   |  5 +++++
 src/dbus_type.cpp           | 18 ++++++++++++++----
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index bccabf7..391e1e4 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -28,6 +28,7 @@ MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,11 +36,21 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
 }
 
+void MessageIStream::enterContainer()
+{
+    static const size_t MAX_DEPTH = 64;
+    if (m_depth >= MAX_DEPTH) {
+        throw std::runtime_error("Containers are nested too deeply");
+    }
+    ++m_depth;
+}
+
 void MessageIStream::align(size_t alignment)
 {
     if (m_offset % alignment) {
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..56047fb 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -53,6 +54,10 @@ public:
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
 
+    // Containers that are being read; they may not nest more than 64 deep
+    void enterContainer();
+    void leaveContainer() { --m_depth; }
+
     void align(size_t alignment);
     uint8_t read();
     void read(uint8_t* value, size_t size);
diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 72671a9..d4d8129 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -260,6 +260,15 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
         return;                                           \
     }
 
+#define TYPE_UNMARSHALL_CONTAINER(typename)               \
+    if (type[0] == typename ::s_StaticTypeCode[0]) {      \
+        typename& v = boost::any_cast<typename&>(result); \
+        stream.enterContainer();                          \
+        v.unmarshall(stream);                             \
+        stream.leaveContainer();                          \
+        return;                                           \
+    }
+
     std::string type = getMarshallingSignature(result);
 
     TYPE_UNMARSHALL_DATA(Type::Byte);
@@ -272,16 +281,17 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
     TYPE_UNMARSHALL_DATA(Type::Uint64);
     TYPE_UNMARSHALL_DATA(Type::Double);
     TYPE_UNMARSHALL_DATA(Type::String);
-    TYPE_UNMARSHALL_DATA(Type::Array);
-    TYPE_UNMARSHALL_DATA(Type::Variant);
-    TYPE_UNMARSHALL_DATA(Type::Struct);
+    TYPE_UNMARSHALL_CONTAINER(Type::Array);
+    TYPE_UNMARSHALL_CONTAINER(Type::Variant);
+    TYPE_UNMARSHALL_CONTAINER(Type::Struct);
     TYPE_UNMARSHALL_DATA(Type::ObjectPath);
     TYPE_UNMARSHALL_DATA(Type::Signature);
-    TYPE_UNMARSHALL_DATA(Type::DictEntry);
+    TYPE_UNMARSHALL_CONTAINER(Type::DictEntry);
 
     Log::write(DBus::Log::ERROR,
         "DBus :: Unmarshalling type not implemented (%s)\n", type.c_str());
 
+#undef TYPE_UNMARSHALL_CONTAINER
 #undef TYPE_UNMARSHALL_DATA
 
     // Nothing can be read for such a type, so going on would leave the stream
-- 
2.43.0


From 5bd2632ef0d203ca4f5bfc0d7966557ad5d593b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 09/27] fix: initialise the message header

A received message without a REPLY_SERIAL field reported an indeterminate
reply serial, and could be matched with a pending call.
---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..00f11c6 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = 0;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From d5dd7369640b9a5ec80768dd866b92ec9e14d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 10/27] fix: never use zero as a message serial

The counter wrapped to zero after 2^32-1 messages.
---
 src/dbus_message.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..bb5d2ec 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -35,7 +35,14 @@ boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
-    m_Header.serial = serial ? serial : m_SerialCounter++;
+    if (serial == 0) {
+        // Zero is not a valid serial, so skip it when the counter wraps
+        if (m_SerialCounter == 0) {
+            ++m_SerialCounter;
+        }
+        serial = m_SerialCounter++;
+    }
+    m_Header.serial = serial;
 }
 
 DBus::Message::Base::Base(const DBus::Type::Struct& header,
-- 
2.43.0


From edc19f01f00947e356dccbd4fd572b00d3acff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 11/27] fix: discard the cached octets when the message
 protocol is reset

Messages already delivered from the cache were delivered again with every
chunk received after a framing error.
---
 src/dbus_messageprotocol.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..361645f 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,12 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    // Discard what has been received so far, or it would be processed again
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From 364cce96add7d2582b0e2a9834d18ddc88aab6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 12/27] fix: accept errors with any parameters and keep the
 error text

An error whose body did not start with a string was dropped, so that its call
was never answered, and getMessage() was always empty.
---
 src/dbus_message_error.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..aeda06f 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,11 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // By convention the text of the error is its first parameter, but an error
+    // need not have one
+    if (m_Parameters.getParameterCount() && m_Parameters.getParameter(0).type() == typeid(DBus::Type::String)) {
+        m_Message = DBus::Type::asString(m_Parameters.getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From b4e47af83916853b49ddab0574b6adad70bb60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 13/27] fix: keep the flags of a received method call

isReplyExpected() was true for every received call.
---
 src/dbus_message_methodcall.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..641d20d 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,8 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
-    m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
 DBus::Message::MethodCall::MethodCall(const Message::MethodCallIdentifier& name,
-- 
2.43.0


From aded428138f6c56ac2629e35ce783190c2e2f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 14/27] fix: throw when asked for a parameter that does not
 exist

---
 src/dbus_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index bb5d2ec..542cfac 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -218,7 +218,7 @@ size_t DBus::Message::MethodCallParameters::getParameterCount() const
 const DBus::Type::Generic&
 DBus::Message::MethodCallParameters::getParameter(size_t idx) const
 {
-    return m_Contents.m_TypeList[idx];
+    return m_Contents.m_TypeList.at(idx);
 }
 
 DBus::Message::MethodCallParametersIn::MethodCallParametersIn(
-- 
2.43.0


From 91da7e494c91e8d556cc3195d4681f84c89d834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 15/27] fix: do not deliver messages without the body their
 signature requires

---
 src/dbus_message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 542cfac..e4a16d3 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -87,8 +87,8 @@ DBus::Message::Base::Base(const DBus::Type::Struct& header,
         }
     }
 
-    // Empty bodies have no parameters
-    if (body.size()) {
+    // Empty bodies have no parameters, unless the signature says otherwise
+    if (body.size() || signature.size()) {
         parseParameters(isLittleEndian, body, signature);
     }
 }
-- 
2.43.0


From 5f0e529d0f0359aa2259c9d03d1dafae00bc5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 16/27] fix: reject malformed match rules

An element without a quoted value was undefined behaviour, and a value
containing a comma or an equals sign was misread.
---
 src/dbus_matchrule.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..2da495e 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -15,10 +15,8 @@
 // file named COPYING. If you do not have this file see
 // <http://www.gnu.org/licenses/>.
 
-#include <algorithm>
-#include <boost/algorithm/string.hpp>
+#include <stdexcept>
 #include <boost/thread/recursive_mutex.hpp>
-#include <boost/tokenizer.hpp>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
@@ -31,21 +29,29 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 {
     // Parse the rule string into something programmatic
 
-    // 1. Split by the comma
-    boost::char_separator<char> separator { "," };
-    boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
-    for (auto&& param : tokenizer) {
-        // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
-
+    // 1. Split by the comma (a quoted value may contain commas, too)
+    for (size_t pos = 0; pos < rule.size();) {
+        if (rule[pos] == ',') {
+            ++pos;
+            continue;
+        }
+        // 2. Each element must be key='value'
+        //
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
+        // destination, arg*, eavesdrop
+        const size_t equals = rule.find_first_of("=,'", pos);
+        if (equals == std::string::npos || equals == pos || rule.compare(equals, 2, "='") != 0) {
+            throw std::runtime_error("Match rule is malformed: " + rule);
+        }
+        const size_t quote = rule.find('\'', equals + 2);
+        if (quote == std::string::npos || (quote + 1 < rule.size() && rule[quote + 1] != ',')) {
+            throw std::runtime_error("Match rule is malformed: " + rule);
+        }
 
         // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        const std::string keyvalue[] = { rule.substr(pos, equals - pos),
+            rule.substr(equals + 2, quote - equals - 2) };
+        pos = quote + 1;
 
         // We store it somewhere convenient to speed the isMateched checks
         if (keyvalue[0] == "type") {
-- 
2.43.0


From 2cbde104d78c6fb3237ace8874d05c93d77bf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 17/27] fix: a match rule for another message type does not
 match signals

---
 src/dbus_matchrule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 2da495e..730aa9e 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -87,6 +87,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
 {
     // These checks are AND, so all set parameters must agree
+    if (type != "" && type != "signal") {
+        return false;
+    }
+
     if (sender != "" && sender != signal.getHeaderSender()) {
         return false;
     }
-- 
2.43.0


From b0cebc7d5c7b98ae5562abff8b640b0e1e3d30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 18/27] fix: path_namespace includes the path itself, and '/'
 every path

A signal from the path itself threw an exception, which also stopped its
delivery to other handlers.
---
 src/dbus_matchrule.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 730aa9e..0432b15 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -115,16 +115,16 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
     // For example, path_namespace='/com/example/foo' would match signals sent
     // by /com/example/foo or by /com/example/foo/bar, but not by
     // /com/example/foobar.
-    if (path_namespace != "") {
+    // path_namespace='/' matches every path.
+    if (path_namespace != "" && path_namespace != "/") {
         if (signal_path.find(path_namespace) != 0) {
             return false;
         }
 
         // This handles the 3rd case, by checking the character _after_ the match is
-        // found: if it's not the terminator or another path (i.e. a new /) the
-        // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        // found: if it's not the end or another path (i.e. a new /) the search
+        // fails.
+        if (signal_path.size() > path_namespace.size() && signal_path[path_namespace.size()] != '/') {
             return false;
         }
     }
-- 
2.43.0


From a8db6eeac3fb344f6a40d1e2d4f113e4aeb79861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 19/27] fix: let handlers change the tables they are called
 from

A handler that unregistered itself or removed its match rule destroyed the
function being executed and invalidated the iteration over the rules. A reply
callback that threw left its call pending.
---
 src/dbus_native.cpp          | 56 ++++++++++++++++++++++++------------
 src/dbus_native.h            |  2 +-
 src/dbus_native_messages.cpp |  3 +-
 3 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..c157e97 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,34 +187,48 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself, so invoke a copy
+        const Message::CallbackFunctionMethodCall handler(it->second);
+        handler(method);
     }
 }
 
 void DBus::Native::onReceiveMethodReturn(
     const DBus::Message::MethodReturn& result)
 {
-    boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
-    auto it = m_MessageQueue.find(result.m_SerialReplyingTo);
     ++m_Stats.count_receive_methodreturns;
 
-    if (it != m_MessageQueue.end()) {
-        it->second.success(result);
+    Message::CallbackFunctionMethodReturn success;
+    {
+        // The call is no longer pending, whatever the callback does
+        boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
+        auto it = m_MessageQueue.find(result.m_SerialReplyingTo);
+        if (it == m_MessageQueue.end()) {
+            return;
+        }
+        success = it->second.success;
         m_MessageQueue.erase(it);
     }
+    success(result);
 }
 
 void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
-    boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
-    auto it = m_MessageQueue.find(error.getSerialOfReply());
+    DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
+        error.getMessage().c_str());
 
-    if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+    Message::CallbackFunctionError failure;
+    {
+        // The call is no longer pending, whatever the callback does
+        boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
+        auto it = m_MessageQueue.find(error.getSerialOfReply());
+        if (it == m_MessageQueue.end()) {
+            return;
+        }
+        failure = it->second.failure;
         m_MessageQueue.erase(it);
     }
-    DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
-        error.getMessage().c_str());
+    failure(error);
 }
 
 void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
@@ -222,19 +236,25 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);
     ++m_Stats.count_receive_signals;
 
+    boost::recursive_mutex::scoped_lock rulesGuard(m_RulesMapMutex);
+    // Handlers may add and remove rules, so iterate over those that are
+    // installed now...
+    const auto rules(m_RulesMap);
+
     std::string fullname = signal.getHeaderInterface() + "." + signal.getHeaderMember();
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself, so invoke a copy
+        const Message::CallbackFunctionSignal handler(it->second);
+        handler(signal);
     }
 
-    {
-        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
-            if (it.second.isMatched(signal)) {
-                it.second.invoke(signal);
-            }
+    for (const auto& rule : rules) {
+        // ... and have not been removed in the meantime
+        auto current = m_RulesMap.find(rule.first);
+        if (current != m_RulesMap.end() && current->second == rule.second && rule.second->isMatched(signal)) {
+            rule.second->invoke(signal);
         }
     }
 }
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..ca33617 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -159,7 +159,7 @@ private:
     std::map<std::string, Message::CallbackFunctionSignal> m_SignalMap;
 
     mutable boost::recursive_mutex m_RulesMapMutex;
-    std::map<std::string, MatchRule> m_RulesMap;
+    std::map<std::string, std::shared_ptr<MatchRule>> m_RulesMap;
 
     std::unique_ptr<MessageProtocol> m_MessageProtocol;
     std::unique_ptr<AuthenticationProtocol> m_AuthenticationProtocol;
diff --git a/src/dbus_native_messages.cpp b/src/dbus_native_messages.cpp
index 4ee46ef..4c9fb29 100644
--- a/src/dbus_native_messages.cpp
+++ b/src/dbus_native_messages.cpp
@@ -158,8 +158,7 @@ void DBus::Native::callAddMatch(
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        DBus::MatchRule newrule(rulestring, handler);
-        m_RulesMap.emplace(rulestring, newrule);
+        m_RulesMap.emplace(rulestring, std::make_shared<DBus::MatchRule>(rulestring, handler));
     }
 
     sendMethodCall(DBus::Native::DBusDaemon, method, success, failure);
-- 
2.43.0


From 6512bd82495b219569b93a89b24794baa9ee147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 20/27] fix: deliver a signal to all its handlers even if one
 throws

---
 src/dbus_native.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index c157e97..791421d 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -241,20 +241,31 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     // installed now...
     const auto rules(m_RulesMap);
 
+    // A handler that throws must not keep the signal from the others
+    const auto deliver = [&signal](const Message::CallbackFunctionSignal& handler) {
+        try {
+            handler(signal);
+        } catch (const std::exception& e) {
+            DBus::Log::write(DBus::Log::ERROR,
+                "DBus :: Native : signal handler has thrown an exception : %s\n",
+                e.what());
+        }
+    };
+
     std::string fullname = signal.getHeaderInterface() + "." + signal.getHeaderMember();
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
         // The handler may unregister itself, so invoke a copy
         const Message::CallbackFunctionSignal handler(it->second);
-        handler(signal);
+        deliver(handler);
     }
 
     for (const auto& rule : rules) {
         // ... and have not been removed in the meantime
         auto current = m_RulesMap.find(rule.first);
         if (current != m_RulesMap.end() && current->second == rule.second && rule.second->isMatched(signal)) {
-            rule.second->invoke(signal);
+            deliver([&rule](const Message::Signal& signal) { rule.second->invoke(signal); });
         }
     }
 }
-- 
2.43.0


From d4659c07b81e4cd45095c4f9aa2473c4a914595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 21/27] fix: describe signals with one argument per complete
 type

---
 src/dbus_introspectable.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..d933e3e 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,11 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
-        result += "<arg type='";
-        result += type;
-        result += "'/>";
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        std::string sig(DBus::Type::extractSignature(m_Type, idx));
+        result += "<arg type='" + sig + "'/>";
+        idx += sig.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From aecac90af2cb3593b0c8ab9d3f6ebe2e8425f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 22/27] fix: ignore the further keys of a bus address

unix:path=P,guid=G resolved to the path "P,guid=G", and an abstract address
with another key than guid to a wrong name.
---
 src/dbus_platform.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..d14a562 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -23,6 +23,12 @@ namespace {
 const static std::string UNIX_PATH_PREFIX("unix:path=");
 const static std::string UNIX_ABSTRACT_PATH_PREFIX("unix:abstract=");
 
+// Addresses may have more key=value pairs, such as the guid
+std::string withoutFurtherKeys(const std::string& path)
+{
+    return path.substr(0, path.find(','));
+}
+
 std::string getAbstractPath(const std::string& path)
 {
     if (path.find(UNIX_ABSTRACT_PATH_PREFIX) == 0) {
@@ -30,11 +36,7 @@ std::string getAbstractPath(const std::string& path)
         abstract_path.push_back('\0');
         abstract_path += path.substr(UNIX_ABSTRACT_PATH_PREFIX.size());
 
-        const size_t guid_part_pos(abstract_path.find(",guid="));
-        if (guid_part_pos != std::string::npos) {
-            abstract_path = abstract_path.substr(0, guid_part_pos);
-        }
-        return abstract_path;
+        return withoutFurtherKeys(abstract_path);
     }
     return path;
 }
@@ -43,7 +45,7 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        return withoutFurtherKeys(path.substr(UNIX_PATH_PREFIX.size()));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From 44a582e2fc53afc130aa84ddb89edda8177bbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 23/27] fix: write one message at a time

Concurrent async_writes on one socket interleave their data when the socket
does not accept all of it at once.
---
 src/dbus_transport.cpp | 54 +++++++++++++++++++++++++++++-------------
 src/dbus_transport.h   | 10 +++++---
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..4244909 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -26,12 +26,15 @@ DBus::Transport::Transport(const std::string& path)
     : m_Busname(path)
     , m_ReadyToSend(false)
     , m_socket(m_io_context)
+    , m_WriteOffset(0)
+    , m_WaitingForWrite(false)
     , m_ShuttingDown(false)
 {
     setDataHandler(
         std::bind(&Transport::onReceiveData, this, std::placeholders::_1));
 
     m_socket.connect(m_Busname);
+    m_socket.non_blocking(true);
 
     // The "special credentials passing NUL byte" is required, even for protocols
     // that can send credentials without needing one. Otherwise, the server may
@@ -140,11 +143,8 @@ void DBus::Transport::sendString(const std::string& data)
 void DBus::Transport::sendOctetDirect(uint8_t data)
 {
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
-    std::shared_ptr<std::string> buf(new std::string());
-    buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    m_WriteQueue.emplace_back(1, static_cast<char>(data));
+    writeQueued();
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -154,25 +154,47 @@ void DBus::Transport::sendStringDirect(const std::string& data)
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
 
     // We don't know when the write will complete, so we copy the buffer
-    std::shared_ptr<std::string> buf(new std::string(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    m_WriteQueue.push_back(data);
+    writeQueued();
     ++m_Stats.count_messagessent;
     m_Stats.bytes_sent += data.length();
 }
 
-void DBus::Transport::handle_write_output(
-    std::shared_ptr<std::string> buf_written,
-    const boost::system::error_code& error, std::size_t bytes_transferred)
+// Only one write may be in progress at any time, or the data of concurrent
+// writes would be interleaved when the socket does not accept all of it at once
+void DBus::Transport::writeQueued()
 {
-    buf_written.reset();
-    if (error) {
-        DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
-            error.message().c_str());
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+
+    while (!m_WriteQueue.empty() && !m_WaitingForWrite) {
+        const std::string& data = m_WriteQueue.front();
+        boost::system::error_code error;
+        m_WriteOffset += m_socket.write_some(
+            boost::asio::buffer(data.data() + m_WriteOffset, data.size() - m_WriteOffset), error);
+
+        if (error == boost::asio::error::would_block) {
+            m_WaitingForWrite = true;
+            m_socket.async_wait(boost::asio::local::stream_protocol::socket::wait_write,
+                boost::bind(&Transport::handle_write_ready, this, boost::placeholders::_1));
+        } else if (error) {
+            DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in write : %s\n",
+                error.message().c_str());
+            m_WriteQueue.clear();
+            m_WriteOffset = 0;
+        } else if (m_WriteOffset == data.size()) {
+            m_WriteQueue.pop_front();
+            m_WriteOffset = 0;
+        }
     }
 }
 
+void DBus::Transport::handle_write_ready(const boost::system::error_code&)
+{
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WaitingForWrite = false;
+    writeQueued();
+}
+
 void DBus::Transport::setDataHandler(
     const ReceiveDataCallbackFunction& callback)
 {
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..ec78e3d 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -21,6 +21,7 @@
 #include "dbus_octetbuffer.h"
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -36,9 +37,7 @@ public:
     ~Transport();
 
     void sendString(const std::string& data);
-    void handle_write_output(std::shared_ptr<std::string> buf_written,
-        const boost::system::error_code& error,
-        std::size_t bytes_transferred);
+    void handle_write_ready(const boost::system::error_code& error);
     void handle_read_data(const boost::system::error_code& error,
         std::size_t bytes_transferred);
 
@@ -57,6 +56,7 @@ protected:
         // buffering
     void sendOctetDirect(uint8_t data);
     void sendStringDirect(const std::string& data);
+    void writeQueued();
 
     std::string m_Busname;
     bool m_ReadyToSend;
@@ -70,6 +70,10 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    // Data waiting to be written to the socket, in order
+    std::deque<std::string> m_WriteQueue;
+    size_t m_WriteOffset;
+    bool m_WaitingForWrite;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From 03f7d29f6530dc84b9a52850ed6714f2b16fd58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 24/27] fix: act on each authentication line once

A line was never removed from the buffer, so after the first one no other was
ever seen.
---
 src/dbus_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..eb1b186 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -70,8 +70,8 @@ bool DBus::AuthenticationProtocol::processData()
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
         std::string command(m_data.data(), pos + 2);
-        return onCommand(command);
         m_data = m_data.substr(pos + 2);
+        return onCommand(command);
     };
 
     return false;
-- 
2.43.0


From d0fa30c7fd1c3b725cc4c7d6a381c999a8260982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 25/27] fix: follow the authentication protocol

AGREE_UNIX_FD led to BEGIN at any time, ERROR in reply to NEGOTIATE_UNIX_FD
left the connection waiting forever, any word starting with a command was
taken for it, and the authentication type was indeterminate before AUTH.
---
 src/dbus_auth.cpp | 45 ++++++++++++++++++++++++++++++---------------
 src/dbus_auth.h   |  8 ++++++++
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index eb1b186..b2bb06b 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -34,7 +34,9 @@ AGREE   ---->
 
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
-    : m_Transport(transport)
+    : m_AuthType(AUTH_BASIC)
+    , m_State(STATE_START)
+    , m_Transport(transport)
 {
 }
 
@@ -53,10 +55,12 @@ void DBus::AuthenticationProtocol::sendAuthListMethods()
 void DBus::AuthenticationProtocol::sendAuth(
     DBus::AuthenticationProtocol::AuthRequired type /* = AUTH_BASIC*/)
 {
-    {
-        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
-        m_AuthType = type;
+    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+    if (m_State == STATE_DONE) {
+        return;
     }
+    m_AuthType = type;
+    m_State = STATE_WAITING_FOR_OK;
 
     std::string auth("AUTH EXTERNAL ");
     DBus::Utils::ConvertBinaryToHexString(auth,
@@ -101,16 +105,12 @@ bool DBus::AuthenticationProtocol::onOK(
     std::string address;
     DBus::Utils::ConvertHexStringToBinary(address, guid);
 
-    bool send_begin = false;
-
-    {
-        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
-        if (m_AuthType == AUTH_BASIC) {
-            send_begin = true;
-        }
+    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+    if (m_State != STATE_WAITING_FOR_OK) {
+        return false;
     }
 
-    if (send_begin) {
+    if (m_AuthType == AUTH_BASIC) {
         sendBegin();
         return true;
     }
@@ -123,6 +123,13 @@ bool DBus::AuthenticationProtocol::onError(const std::string& error_message)
 {
     DBus::Log::write(DBus::Log::ERROR, "DBus :: onError : %s\n",
         error_message.c_str());
+
+    // The server may decline to pass descriptors
+    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+    if (m_State == STATE_WAITING_FOR_AGREE_UNIX_FD) {
+        sendBegin();
+        return true;
+    }
     return false;
 }
 
@@ -140,6 +147,11 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+
+    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+    if (m_State != STATE_WAITING_FOR_AGREE_UNIX_FD) {
+        return false;
+    }
     sendBegin();
     return true;
 }
@@ -157,11 +169,13 @@ bool DBus::AuthenticationProtocol::onNegotiateUnixFD(const std::string&)
 
 void DBus::AuthenticationProtocol::sendNegotiateUnixFD()
 {
+    m_State = STATE_WAITING_FOR_AGREE_UNIX_FD;
     sendWire(std::string("NEGOTIATE_UNIX_FD\r\n"));
 }
 
 void DBus::AuthenticationProtocol::sendBegin()
 {
+    m_State = STATE_DONE;
     sendWire(std::string("BEGIN\r\n"));
     m_Transport->onAuthComplete();
 }
@@ -215,10 +229,11 @@ bool DBus::AuthenticationProtocol::onCommand(const std::string& command)
                 std::bind(&DBus::AuthenticationProtocol::onCancel, this))
         };
 
+    // The command is the first word of the line
+    const std::string word = command.substr(0, std::min(command.find(' '), command.find("\r\n")));
     for (size_t i = 0; i < 8; ++i) {
-        if (command.substr(0, strlen(callback_list[i].first)) == callback_list[i].first) {
-            return callback_list[i].second(
-                command.substr(strlen(callback_list[i].first) + 1));
+        if (word == callback_list[i].first) {
+            return callback_list[i].second(command.substr(word.size() + 1));
         }
     }
 
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..9dab35b 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -59,8 +59,16 @@ protected:
     bool processData();
 
 private:
+    typedef enum State {
+        STATE_START,
+        STATE_WAITING_FOR_OK,
+        STATE_WAITING_FOR_AGREE_UNIX_FD,
+        STATE_DONE,
+    } State;
+
     std::string m_data;
     AuthenticationProtocol::AuthRequired m_AuthType;
+    State m_State;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From c19aa040fae998772f8942fc2b92cd9374402e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 26/27] fix: count what the statistics claim to count

Received errors were neither counted nor reported, the octets read never
counted, those of authentication only partly, and concurrent senders lost
counts.
---
 src/dbus_native.cpp    |  6 +++++-
 src/dbus_native.h      | 21 +++++++++++----------
 src/dbus_transport.cpp |  1 +
 src/dbus_transport.h   | 11 ++++++-----
 4 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 791421d..13bf514 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -63,10 +63,12 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
     try {
         const size_t bufferSize = buffer.size();
         if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+            m_Stats.bytes_auth += bufferSize - buffer.size();
             onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
+        } else {
+            m_Stats.bytes_auth += bufferSize;
         }
     } catch (const std::exception& e) {
         DBus::Log::write(
@@ -214,6 +216,7 @@ void DBus::Native::onReceiveMethodReturn(
 
 void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
+    ++m_Stats.count_receive_errors;
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
 
@@ -287,6 +290,7 @@ std::string DBus::Native::getStats() const
     ss << " count_receive_methodreturns: " << m_Stats.count_receive_methodreturns
        << std::endl;
     ss << " count_receive_errors: " << m_Stats.count_receive_errors << std::endl;
+    ss << " count_receive_errors: " << m_Stats.count_receive_errors << std::endl;
     ss << " count_receive_signals: " << m_Stats.count_receive_signals
        << std::endl;
 
diff --git a/src/dbus_native.h b/src/dbus_native.h
index ca33617..b863dc4 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -23,6 +23,7 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 #include "dbus_transport.h"
+#include <atomic>
 
 namespace DBus {
 
@@ -137,16 +138,16 @@ private:
     };
 
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth { 0 };
+        std::atomic<size_t> bytes_message { 0 };
+        std::atomic<size_t> count_sent_methodcalls { 0 };
+        std::atomic<size_t> count_sent_methodreturns { 0 };
+        std::atomic<size_t> count_sent_errors { 0 };
+        std::atomic<size_t> count_sent_signals { 0 };
+        std::atomic<size_t> count_receive_methodcalls { 0 };
+        std::atomic<size_t> count_receive_methodreturns { 0 };
+        std::atomic<size_t> count_receive_errors { 0 };
+        std::atomic<size_t> count_receive_signals { 0 };
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 4244909..eafc607 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -54,6 +54,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     std::size_t bytes_transferred)
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+    m_Stats.bytes_read += bytes_transferred;
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     m_ReceiveDataCallback(buffer);
 
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index ec78e3d..c4681b2 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -21,6 +21,7 @@
 #include "dbus_octetbuffer.h"
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <atomic>
 #include <deque>
 
 #define USE_ASIO_NORMAL 1
@@ -80,11 +81,11 @@ protected:
 
 private:
     struct Stats {
-        size_t count_messagessent = 0;
-        size_t count_messagesqueued = 0;
-        size_t count_messagespumped = 0;
-        size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> count_messagessent { 0 };
+        std::atomic<size_t> count_messagesqueued { 0 };
+        std::atomic<size_t> count_messagespumped { 0 };
+        std::atomic<size_t> bytes_sent { 0 };
+        std::atomic<size_t> bytes_read { 0 };
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From 24295f2c28f7e022a1815df57d1aab3330c8c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 27/27] fix: keep the flags of a received method return

---
 src/dbus_message_methodreturn.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..dbcb493 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -38,9 +38,6 @@ DBus::Message::MethodReturn::MethodReturn(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-
-    m_Header.flags = 0;
-    m_Header.type = Message::Header::TYPE_METHOD_RETURN;
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::TRACE, "DBus :: Received a method return with serial #%d\n",
-- 
2.43.0

