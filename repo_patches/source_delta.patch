From 680a44b3cfc2f642b2621a28e127e2a588e38fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 01/74] fix: OEM framer read past the buffered bytes when an
 ASCII '*' arrives in a short buffer

The look-ahead test subtracted from the buffered size without checking for
underflow, so with fewer than 10 bytes buffered it compared stale bytes
instead of waiting for more data.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0e363a0..f765873 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -318,7 +318,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
             {
                 // Need to be able to check for *12345678CRLF
-                if (uiMyByteCount > clInternalFrameBuffer.size() - OEM4_ASCII_CRC_LENGTH - 2)
+                if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
                     return STATUS::INCOMPLETE;
-- 
2.43.0


From 795bc2e3b1f9ab674d0a9f0bd656286e62964ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 02/74] fix: OEM framer result depended on the metadata object
 of the caller

The format of a message being framed was only kept in the caller's
metadata. A fresh object in a later call, or one left over from an earlier
message, changed how the rest of the message was framed: an abbreviated
ASCII frame made a following binary message whose sync was split over two
reads disappear, and a proprietary binary message made the next binary one
proprietary.
---
 include/novatel_edie/decoders/oem/framer.hpp |  1 +
 src/decoders/oem/src/framer.cpp              | 15 +++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer.hpp b/include/novatel_edie/decoders/oem/framer.hpp
index 083cb35..f07b580 100644
--- a/include/novatel_edie/decoders/oem/framer.hpp
+++ b/include/novatel_edie/decoders/oem/framer.hpp
@@ -43,6 +43,7 @@ class Framer : public FramerBase
 
     uint32_t uiMyJsonObjectOpenBraces{0};
     uint32_t uiMyAbbrevAsciiHeaderPosition{0};
+    HEADER_FORMAT eMyFrameFormat{HEADER_FORMAT::UNKNOWN}; //!< Format of the partially framed message between calls.
 
     //----------------------------------------------------------------------------
     //! \brief Check if the characters following an '*' fit the CRC format.
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index f765873..fb2bef0 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -52,6 +52,13 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
     // Dereferencing the pointer in the loop is expensive, so we cache the reference here
     const auto& clInternalFrameBuffer = *pclMyBuffer;
 
+    // The format of a partially framed message belongs to the framer. The caller may provide a different metadata object in every call.
+    stMetaData_.eFormat = eMyFrameState == NovAtelFrameState::WAITING_FOR_SYNC ? HEADER_FORMAT::UNKNOWN : eMyFrameFormat;
+    auto incomplete = [&]() -> STATUS {
+        eMyFrameFormat = stMetaData_.eFormat;
+        return STATUS::INCOMPLETE;
+    };
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -64,7 +71,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 // If the data lands on the abbreviated header CRLF then it can be missed unless it's tested again when there is more data
                 if (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII) { uiMyByteCount--; }
 
-                return STATUS::INCOMPLETE;
+                return incomplete();
             }
 
             stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
@@ -321,7 +328,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
                 {
                     uiMyByteCount--; // Rewind so that we reprocess the '*' delimiter after getting more bytes
-                    return STATUS::INCOMPLETE;
+                    return incomplete();
                 }
 
                 // Handle RXCONFIGA logs: Normally * signifies the start of the CRC, but
@@ -380,7 +387,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     uiMyByteCount--; // If the data lands on the header CRLF then it can be
                                      // missed unless it's tested again when there is more data
                     stMetaData_.uiLength = uiMyByteCount;
-                    return STATUS::INCOMPLETE;
+                    return incomplete();
                 }
                 // New line with abbrev data
                 else if (clInternalFrameBuffer[uiMyByteCount + 1] == OEM4_ABBREV_ASCII_SYNC &&
@@ -414,7 +421,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uiMyByteCount--; // If the data lands on the header CRLF then it can be missed
                                  // unless it's tested again when there is more data
                 stMetaData_.uiLength = static_cast<uint32_t>(clInternalFrameBuffer.size());
-                return STATUS::INCOMPLETE;
+                return incomplete();
             }
 
             // End of Abbrev
-- 
2.43.0


From 551dd225ce315912c5615565f241f870f8692599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 03/74] fix: OEM framer dropped intact messages behind a false
 ASCII start

When a byte above 127 ended a text candidate, everything since its sync byte
was discarded, including complete NMEA sentences and responses. Rescan after
the sync byte instead, as all other failed candidates do.
---
 src/decoders/oem/src/framer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index fb2bef0..0fbc95d 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -90,11 +90,15 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         if ((stMetaData_.eFormat == HEADER_FORMAT::ASCII || stMetaData_.eFormat == HEADER_FORMAT::SHORT_ASCII ||
              stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII || stMetaData_.eFormat == HEADER_FORMAT::NMEA ||
              stMetaData_.eFormat == HEADER_FORMAT::JSON) &&
-            ucDataByte > 127)
+            ucDataByte > 127 && eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC)
         {
+            // Only the sync byte is known to be bad, the bytes after it may contain complete messages
             stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+            uiMyByteCount = OEM4_ASCII_SYNC_LENGTH;
+            uiMyExpectedPayloadLength = 0;
+            uiMyAbbrevAsciiHeaderPosition = 0;
             ResetState();
-            uiMyByteCount--;
+            continue;
         }
 
         switch (eMyFrameState)
-- 
2.43.0


From 872b55864393d8e5c7cb891f63cb7c1968999f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 04/74] fix: OEM framer accepted NMEA sentences with a damaged
 trailer

Anything between the '*' and the next line feed was accepted as long as two
characters before the line end happened to match the checksum, which framed
sentences spliced from two messages.
---
 src/decoders/oem/src/framer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 0fbc95d..ecbfdad 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -540,7 +540,11 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + NMEA_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                // The checksum must directly follow the first delimiter and end the line, i.e. *hh<CR><LF>
+                const bool bTrailerIntact = clInternalFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, NMEA_SYNC_LENGTH) + 1 == crcStartIndexInBuffer &&
+                                            IsCrlf(uiMyByteCount - 2) && result.ptr == acCrc + NMEA_CRC_LENGTH;
+
+                if (bTrailerIntact && result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From 1faad7b120b45e72216123e3004198544d8e9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 05/74] fix: OEM framer payload-only option returned bytes
 beyond the payload

The CRC length was added to the header length instead of subtracted, so the
first 8 payload bytes were dropped and 8 bytes of the following data consumed.
---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index ecbfdad..8822467 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -300,7 +300,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                         stMetaData_.uiLength = uiMyExpectedPayloadLength;
                         if (!bMetadataOnly_)
                         {
-                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) + OEM4_BINARY_CRC_LENGTH);
+                            pclMyBuffer->erase_begin((uiMyExpectedMessageLength - uiMyExpectedPayloadLength) - OEM4_BINARY_CRC_LENGTH);
                             pclMyBuffer->copy_out(pucFrameBuffer_, stMetaData_.uiLength);
                             pclMyBuffer->erase_begin(uiMyExpectedPayloadLength + OEM4_BINARY_CRC_LENGTH);
                         }
-- 
2.43.0


From 36cd296d31af29238e8dd7f5160a6d15f6762a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 06/74] fix: framers wrote unknown bytes past the caller's
 frame buffer

Unknown bytes were copied without regard to the size of the provided buffer
(up to 256 bytes by the staged framers and the framer manager, the whole
buffered data by a manager without framers), and the OEM framer reported more
bytes than it had delivered when the buffer was shorter than a sync sequence.
Report at most as many bytes as fit, and BUFFER_FULL if none do.
---
 src/decoders/common/src/framer.cpp         | 10 ++++++--
 src/decoders/common/src/framer_manager.cpp |  3 ++-
 src/decoders/oem/src/framer.cpp            | 30 ++++++++++++----------
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..90c21e3 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -38,10 +38,16 @@ using namespace novatel::edie;
 
     // Helper to set metadata and handle unknown bytes
     auto handleUnknown = [&](uint32_t length) -> STATUS {
+        length = std::min(length, uiFrameBufferSize_);
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
-        if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
-        return STATUS::UNKNOWN;
+        if (bMetadataOnly_ || length == 0)
+        {
+            InitAttributes();
+            ResetState();
+        }
+        else { HandleUnknownBytes(pucFrameBuffer_, length); }
+        return length == 0 ? STATUS::BUFFER_FULL : STATUS::UNKNOWN;
     };
 
     // --- Stage 1: Find sync byte(s) ---
diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..4f710b5 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -151,7 +151,8 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         // No frame found at all
         if (bestFramerIndex == registrySize)
         {
-            assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            bestOffset = std::min(bestOffset, uiFrameBufferSize_);
+            if (bestOffset == 0) { return STATUS::BUFFER_FULL; }
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 8822467..2bec7ae 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -26,6 +26,7 @@
 
 #include "novatel_edie/decoders/oem/framer.hpp"
 
+#include <algorithm>
 #include <charconv>
 
 #include "novatel_edie/decoders/common/framer_registration.hpp"
@@ -59,6 +60,19 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
         return STATUS::INCOMPLETE;
     };
 
+    auto handleUnknown = [&](uint32_t length) -> STATUS {
+        length = std::min(length, uiFrameBufferSize_);
+        stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
+        stMetaData_.uiLength = length;
+        if (bMetadataOnly_ || length == 0)
+        {
+            InitAttributes();
+            ResetState();
+        }
+        else { HandleUnknownBytes(pucFrameBuffer_, length); }
+        return length == 0 ? STATUS::BUFFER_FULL : STATUS::UNKNOWN;
+    };
+
     // Loop buffer to complete NovAtel message
     while (eMyFrameState != NovAtelFrameState::COMPLETE_MESSAGE)
     {
@@ -79,8 +93,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
 
             if (uiMyByteCount == 0) { return STATUS::BUFFER_EMPTY; }
 
-            if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount); }
-            return STATUS::UNKNOWN;
+            return handleUnknown(uiMyByteCount);
         }
 
         const unsigned char ucDataByte = clInternalFrameBuffer[uiMyByteCount++];
@@ -143,18 +156,9 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             // If we have just encountered a sync byte and have read bytes before, we need to handle them
             if (eMyFrameState != NovAtelFrameState::WAITING_FOR_SYNC && uiMyByteCount > 1)
             {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiMyByteCount - 1); }
-                return STATUS::UNKNOWN;
-            }
-            if (uiMyByteCount > uiFrameBufferSize_)
-            {
-                stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
-                stMetaData_.uiLength = uiMyByteCount - 1;
-                if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, uiFrameBufferSize_); }
-                return STATUS::UNKNOWN;
+                return handleUnknown(uiMyByteCount - 1);
             }
+            if (uiMyByteCount > uiFrameBufferSize_) { return handleUnknown(uiFrameBufferSize_); }
             break;
 
         case NovAtelFrameState::WAITING_FOR_BINARY_SYNC2:
-- 
2.43.0


From ad0dc1ebe75dc8157296eaccb673c4fd51ed6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 07/74] fix: OEM framer stalled forever on an unclosed JSON
 object

A '{' that is never closed was a candidate of unlimited length: once it filled
the internal buffer every further write was refused. Apply the maximum message
length like for all other formats.
---
 src/decoders/oem/src/framer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 2bec7ae..71770cd 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -604,6 +604,12 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uiMyExpectedPayloadLength = 0;
                 eMyFrameState = NovAtelFrameState::COMPLETE_MESSAGE;
             }
+            else if (uiMyByteCount >= MESSAGE_SIZE_MAX)
+            {
+                uiMyByteCount = OEM4_ASCII_SYNC_LENGTH;
+                uiMyExpectedPayloadLength = 0;
+                ResetState();
+            }
             break;
 
         default:
-- 
2.43.0


From 509ddec89fe08c044e943a5ed6e73b4db811ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 08/74] fix: ASCII framers limited the message length from
 where the last search stopped

Whether an overlong candidate was framed or rejected depended on how the data
was split into writes.
---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 8b84182..0737d1b 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -82,10 +82,15 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         const auto& clFrameBuffer = *pclMyBuffer;
         const auto uiBufferSize = clFrameBuffer.size();
         constexpr size_t uiCrcTrailerLength = OEM4_ASCII_CRC_LENGTH + 3; // Delimiter + CRC + CRLF
-        auto uiCrcDelimIndex = clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, start, MaxMessageLength);
+        // The message length is limited from its beginning, regardless of where an earlier search left off
+        auto findDelimiter = [&clFrameBuffer](size_t from) {
+            return from < MaxMessageLength ? clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, from, MaxMessageLength - from)
+                                           : UCharFixedBuffer::npos;
+        };
+        auto uiCrcDelimIndex = findDelimiter(start);
         while (uiCrcDelimIndex != UCharFixedBuffer::npos && uiBufferSize - uiCrcDelimIndex >= uiCrcTrailerLength && !IsAsciiCrc(uiCrcDelimIndex + 1))
         {
-            uiCrcDelimIndex = clFrameBuffer.search_char(OEM4_ASCII_CRC_DELIMITER, uiCrcDelimIndex + 1, MaxMessageLength);
+            uiCrcDelimIndex = findDelimiter(uiCrcDelimIndex + 1);
         }
 
         if (uiCrcDelimIndex == UCharFixedBuffer::npos)
-- 
2.43.0


From 9db68f1030b3d8bf3b9304f876e6c3a755163031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 09/74] fix: abbreviated ASCII framer depended on how the
 stream was split

A CR at the end of the buffered data counted as the end of the line: a
response was framed one byte longer than the data, and a '<' at the end of
the data was taken for the first line of a message even when a space
followed. The length limit also depended on where the last search stopped.
---
 src/decoders/oem/src/framer_abb_ascii.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..cdb8b62 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -64,14 +64,22 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     const auto crlf = std::array<unsigned char, 2>{'\r', '\n'};
     const auto& clFrameBuffer = *pclMyBuffer;
 
-    auto midLineIncomplete = [&clFrameBuffer]() -> Result {
+    // The byte after the sync decides whether this is the first line of a message, see FindSync
+    if (clFrameBuffer.size() < 2) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, start}; }
+
+    auto midLineIncomplete = [&clFrameBuffer](size_t resume) -> Result {
         return clFrameBuffer.size() >= MAX_ASCII_MESSAGE_LENGTH ? Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH}
-                                                                : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, clFrameBuffer.size()};
+                                                                : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, resume};
+    };
+    // The message length is limited from its beginning, regardless of where an earlier search left off
+    auto findCrlf = [&clFrameBuffer, &crlf](size_t from) {
+        return from < MAX_ASCII_MESSAGE_LENGTH ? clFrameBuffer.search_chars(crlf, from, MAX_ASCII_MESSAGE_LENGTH - from) : UCharFixedBuffer::npos;
     };
 
     // Step 1: Parse the first line (header/response line)
-    const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
-    if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
+    const size_t headerCrlfIndex = findCrlf(0);
+    if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(clFrameBuffer.size()); }
+    if (!IsCrlf(static_cast<uint32_t>(headerCrlfIndex))) { return midLineIncomplete(headerCrlfIndex); } // Only the CR has arrived yet
 
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
@@ -85,13 +93,13 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
     }
 
     // Step 3: Parse body lines
-    size_t uiCrlfIndex = clFrameBuffer.search_chars(crlf, std::max(start, bodyStart), MAX_ASCII_MESSAGE_LENGTH);
+    size_t uiCrlfIndex = findCrlf(std::max(start, bodyStart));
     while (uiCrlfIndex != UCharFixedBuffer::npos && clFrameBuffer.size() > uiCrlfIndex + 3 && IsBodyLine(uiCrlfIndex + 2))
     {
-        uiCrlfIndex = clFrameBuffer.search_chars(crlf, uiCrlfIndex + 1, MAX_ASCII_MESSAGE_LENGTH);
+        uiCrlfIndex = findCrlf(uiCrlfIndex + 1);
     }
 
-    if (uiCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
+    if (uiCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(clFrameBuffer.size()); }
 
     if (clFrameBuffer.size() <= uiCrlfIndex + 3) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex}; }
 
-- 
2.43.0


From 7f3135d1f25d495ce744eb7299bd140d67176ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:24 +0000
Subject: [PATCH 10/74] fix: OEM framer copied a binary frame past a buffer
 smaller than the one offered when the header arrived

---
 src/decoders/oem/src/framer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 71770cd..04a879a 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -297,6 +297,18 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
 
             if (uiMyByteCount == uiMyExpectedMessageLength)
             {
+                // The header may have been checked against the larger buffer of an earlier call
+                const uint32_t uiMyOutputLength = bMyPayloadOnly ? uiMyExpectedPayloadLength : uiMyExpectedMessageLength;
+                if (uiMyCalculatedCrc32 == 0 && !bMetadataOnly_ && uiFrameBufferSize_ < uiMyOutputLength)
+                {
+                    stMetaData_.uiLength = uiMyOutputLength;
+                    uiMyByteCount = 0;
+                    uiMyExpectedPayloadLength = 0;
+                    uiMyExpectedMessageLength = 0;
+                    ResetState();
+                    return STATUS::BUFFER_FULL;
+                }
+
                 if (uiMyCalculatedCrc32 == 0)
                 {
                     if (bMyPayloadOnly)
-- 
2.43.0


From 4f53ba6941cf9e9d4a07871251d58f9c5e789984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:30 +0000
Subject: [PATCH 11/74] fix: filter time bounds and decimation period lost a
 millisecond

A bound given in seconds was truncated to milliseconds: 1.001 s became
1000 ms, so that an inclusive upper bound rejected the message it names and a
lower bound admitted one below it.
---
 src/decoders/oem/src/filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index fecf1d6..1b32d53 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -27,6 +27,7 @@
 #include "novatel_edie/decoders/oem/filter.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
@@ -55,7 +56,7 @@ void Filter::SetIncludeLowerTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterLowerTime = true;
     uiMyLowerWeek = uiWeek_;
-    uiMyLowerMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyLowerMSec = static_cast<uint32_t>(std::llround(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -63,7 +64,7 @@ void Filter::SetIncludeUpperTimeBound(uint32_t uiWeek_, double dSec_)
 {
     bMyFilterUpperTime = true;
     uiMyUpperWeek = uiWeek_;
-    uiMyUpperMSec = static_cast<uint32_t>(dSec_ * 1000.0);
+    uiMyUpperMSec = static_cast<uint32_t>(std::llround(dSec_ * 1000.0));
     PushUnique(vMyFilterFunctions, &Filter::FilterTime);
 }
 
@@ -88,7 +89,7 @@ void Filter::ClearTimeBounds()
 // -------------------------------------------------------------------------------------------------------
 void Filter::SetIncludeDecimation(double dPeriodSec_)
 {
-    SetIncludeDecimationMs(static_cast<uint32_t>(dPeriodSec_ * 1000.0)); // Convert provided seconds to MSec
+    SetIncludeDecimationMs(static_cast<uint32_t>(std::llround(dPeriodSec_ * 1000.0))); // Convert provided seconds to MSec
 }
 
 void Filter::SetIncludeDecimationMs(uint32_t dPeriodMSec_)
-- 
2.43.0


From d2cdfa428e71012359fd26f9ba1a1c869806b811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:30 +0000
Subject: [PATCH 12/74] fix: a decimation period of zero divided by zero

---
 src/decoders/oem/src/filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/filter.cpp b/src/decoders/oem/src/filter.cpp
index 1b32d53..819a743 100644
--- a/src/decoders/oem/src/filter.cpp
+++ b/src/decoders/oem/src/filter.cpp
@@ -288,7 +288,8 @@ bool Filter::FilterMessage(const MetaDataStruct& stMetaData_) const
 // -------------------------------------------------------------------------------------------------------
 bool Filter::FilterDecimation(const MetaDataStruct& stMetaData_) const
 {
-    return !bMyDecimate || bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
+    if (!bMyDecimate || uiMyDecimationPeriodMilliSec == 0) { return true; } // A period of zero does not decimate
+    return bMyInvertDecimation == static_cast<bool>(static_cast<uint32_t>(stMetaData_.dMilliseconds) % uiMyDecimationPeriodMilliSec);
 }
 
 // -------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9ead38c0e4ef8c3a2e1009a36d3f8972f3d21c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:07 +0000
Subject: [PATCH 13/74] fix: ASCII framers accepted a checksum followed by
 non-hexadecimal characters

---
 include/novatel_edie/decoders/oem/framer_ascii_base.hpp | 2 +-
 src/decoders/oem/src/framer.cpp                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
index 0737d1b..11bf3ea 100644
--- a/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
+++ b/include/novatel_edie/decoders/oem/framer_ascii_base.hpp
@@ -118,7 +118,7 @@ template <HEADER_FORMAT HeaderFormat, unsigned char SyncByte, size_t MaxMessageL
         auto result = std::from_chars(pCrcStart, pCrcStart + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
         auto uiCalcCrc = CalculateBlockCrc32(clFrameBuffer.data() + OEM4_ASCII_SYNC_LENGTH,
                                              static_cast<uint32_t>(frameEnd - OEM4_ASCII_SYNC_LENGTH - OEM4_ASCII_CRC_LENGTH - 3));
-        return result.ec == std::errc() && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
+        return result.ec == std::errc() && result.ptr == pCrcStart + OEM4_ASCII_CRC_LENGTH && uiCalcCrc == uiMessageCrc ? 0 : OEM4_ASCII_SYNC_LENGTH;
     }
 
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 04a879a..60162ca 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -495,7 +495,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 uint32_t uiMessageCrc;
                 auto result = std::from_chars(acCrc, acCrc + OEM4_ASCII_CRC_LENGTH, uiMessageCrc, 16);
 
-                if (result.ec == std::errc() && uiMyCalculatedCrc32 == uiMessageCrc)
+                if (result.ec == std::errc() && result.ptr == acCrc + OEM4_ASCII_CRC_LENGTH && uiMyCalculatedCrc32 == uiMessageCrc)
                 {
                     uiMyByteCount = 0;
 
-- 
2.43.0


From 918a7c4f991b04168e7db9b12a0798964a74ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 14/74] fix: removing a database entry hid or kept other
 entries with the same name or id

---
 .../decoders/common/message_database.hpp      | 28 +++++++++++--------
 src/decoders/common/src/message_database.cpp  | 15 +++++-----
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 0b78fa2..3a6e236 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -968,24 +968,28 @@ class MessageDatabase
         }
     }
 
+    // Re-point the mappings of a definition that has been removed to the latest remaining definition with the same name or ID. Keys are
+    // views into the definitions, so they must never outlive the definition they were taken from.
     void RemoveMessageMapping(const MessageDefinition& msg_)
     {
-        // Check string against name map
-        const auto itName = mMessageName.find(msg_.name);
-        if (itName != mMessageName.end()) { mMessageName.erase(itName); }
-
-        const auto itId = mMessageId.find(msg_.logID);
-        if (itId != mMessageId.end()) { mMessageId.erase(itId); }
+        mMessageName.erase(msg_.name);
+        mMessageId.erase(msg_.logID);
+        for (const auto& msg : vMessageDefinitions)
+        {
+            if (msg->name == msg_.name) { mMessageName[msg->name] = msg; }
+            if (msg->logID == msg_.logID) { mMessageId[msg->logID] = msg; }
+        }
     }
 
     void RemoveEnumerationMapping(const EnumDefinition& enm_)
     {
-        // Check string against name map
-        const auto itName = mEnumName.find(enm_.name);
-        if (itName != mEnumName.end()) { mEnumName.erase(itName); }
-
-        const auto itId = mEnumId.find(enm_._id);
-        if (itId != mEnumId.end()) { mEnumId.erase(itId); }
+        mEnumName.erase(enm_.name);
+        mEnumId.erase(enm_._id);
+        for (const auto& enm : vEnumDefinitions)
+        {
+            if (enm->name == enm_.name) { mEnumName[enm->name] = enm; }
+            if (enm->_id == enm_._id) { mEnumId[enm->_id] = enm; }
+        }
     }
 
     std::vector<MessageDefinition::ConstPtr>::iterator GetMessageIt(uint32_t iMsgId_)
diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index d516881..eaa9928 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -35,24 +35,23 @@ namespace novatel::edie {
 //-----------------------------------------------------------------------
 void MessageDatabase::RemoveMessage(const uint32_t iMsgId_)
 {
-    auto iTer = GetMessageIt(iMsgId_);
-
-    if (iTer != vMessageDefinitions.end())
+    for (auto iTer = GetMessageIt(iMsgId_); iTer != vMessageDefinitions.end(); iTer = GetMessageIt(iMsgId_))
     {
-        RemoveMessageMapping(**iTer);
+        const MessageDefinition::ConstPtr pclRemoved = *iTer;
         vMessageDefinitions.erase(iTer);
+        RemoveMessageMapping(*pclRemoved);
     }
 }
 
 //-----------------------------------------------------------------------
 void MessageDatabase::RemoveEnumeration(std::string_view strEnumeration_)
 {
-    const auto iTer = GetEnumIt(strEnumeration_);
-
-    if (iTer != vEnumDefinitions.end())
+    const std::string sName(strEnumeration_); // The name may belong to the definition being removed
+    for (auto iTer = GetEnumIt(sName); iTer != vEnumDefinitions.end(); iTer = GetEnumIt(sName))
     {
-        RemoveEnumerationMapping(**iTer);
+        const EnumDefinition::ConstPtr pclRemoved = *iTer;
         vEnumDefinitions.erase(iTer);
+        RemoveEnumerationMapping(*pclRemoved);
     }
 }
 
-- 
2.43.0


From ec97cb8dc9716b9fa3d6b98c43187ab584a2a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 15/74] fix: merging a database with itself iterated over the
 vectors being changed

---
 include/novatel_edie/decoders/common/message_database.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 3a6e236..40bd864 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -767,7 +767,8 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendMessages(const std::vector<MessageDefinition::ConstPtr>& vMessageDefinitions_)
     {
-        for (const auto& msgDef : vMessageDefinitions_)
+        const auto vDefinitions = vMessageDefinitions_; // The given vector may be the one of this database
+        for (const auto& msgDef : vDefinitions)
         {
             RemoveMessage(msgDef->logID);
 
@@ -796,7 +797,8 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void AppendEnumerations(const std::vector<EnumDefinition::ConstPtr>& vEnumDefinitions_)
     {
-        for (const auto& enmDef : vEnumDefinitions_)
+        const auto vDefinitions = vEnumDefinitions_; // The given vector may be the one of this database
+        for (const auto& enmDef : vDefinitions)
         {
             RemoveEnumeration(enmDef->name);
             vEnumDefinitions.push_back(enmDef);
-- 
2.43.0


From 31d9255164a3093dc1f5723c4dedcb1869bbef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:12 +0000
Subject: [PATCH 16/74] fix: message name lookup read past an empty name and
 misread sources that are not one digit

---
 src/decoders/common/src/message_database.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoders/common/src/message_database.cpp b/src/decoders/common/src/message_database.cpp
index eaa9928..f97d403 100644
--- a/src/decoders/common/src/message_database.cpp
+++ b/src/decoders/common/src/message_database.cpp
@@ -63,10 +63,12 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
     uint32_t uiResponse;
 
     // Ingest the sibling information, i.e. the _1 from LOGNAMEA_1
-    if (sMsgName_.find_last_of('_') != std::string::npos && sMsgName_.find_last_of('_') == sMsgName_.size() - 2)
+    const size_t uiSiblingPos = sMsgName_.find_last_not_of("0123456789");
+    if (uiSiblingPos != std::string::npos && sMsgName_[uiSiblingPos] == '_' && uiSiblingPos + 1 < sMsgName_.size() &&
+        uiSiblingPos + 3 >= sMsgName_.size())
     {
-        uiSiblingId = static_cast<uint32_t>(ToDigit(sMsgName_.back()));
-        sMsgName_.resize(sMsgName_.size() - 2);
+        uiSiblingId = static_cast<uint32_t>(std::stoul(sMsgName_.substr(uiSiblingPos + 1)));
+        sMsgName_.resize(uiSiblingPos);
     }
 
     // If this is an abbrev msg (no format information), we will be able to find the MsgDef
@@ -79,6 +81,8 @@ uint32_t MessageDatabase::MsgNameToMsgId(std::string sMsgName_) const
         return CreateMsgId(pclMessageDef->logID, uiSiblingId, uiMsgFormat, uiResponse);
     }
 
+    if (sMsgName_.empty()) { return 0; }
+
     switch (sMsgName_.back())
     {
     case 'R': // ASCII Response
-- 
2.43.0


From 2b031d07a8d9f2dd00fabc138a826353292dd0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 17/74] fix: adopting a message family left the fields of field
 arrays in their old layout

---
 .../decoders/common/message_database.hpp      | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 40bd864..7496292 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -775,15 +775,7 @@ class MessageDatabase
             MessageDefinition::Ptr copy = std::make_shared<MessageDefinition>(*msgDef);
 
             // Rebuild FieldInfo to ensure field indices match our message family
-            for (const auto& [crc, fields] : copy->fieldInfo)
-            {
-                // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
-                // cast off constness to rebuild field definitions with this DB's message family.
-                std::vector<BaseField::Ptr> fieldVec;
-                fieldVec.reserve(fields->messageOrderedFields.size());
-                for (const auto& f : fields->messageOrderedFields) { fieldVec.emplace_back(std::const_pointer_cast<BaseField>(f)); }
-                copy->fieldInfo[crc] = BuildFieldInfo(std::move(fieldVec), pDbMetadata ? pDbMetadata->messageFamily : "");
-            }
+            for (const auto& [crc, fields] : copy->fieldInfo) { copy->fieldInfo[crc] = RebuildFieldInfo(*fields); }
 
             vMessageDefinitions.push_back(copy);
         }
@@ -949,6 +941,23 @@ class MessageDatabase
     }
 
   private:
+    FieldInfo::ConstPtr RebuildFieldInfo(const FieldInfo& fields_) const
+    {
+        // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
+        // cast off constness to rebuild field definitions with this DB's message family.
+        std::vector<BaseField::Ptr> fieldVec;
+        fieldVec.reserve(fields_.messageOrderedFields.size());
+        for (const auto& f : fields_.messageOrderedFields)
+        {
+            fieldVec.emplace_back(std::const_pointer_cast<BaseField>(f));
+            if (auto fieldArrayField = std::dynamic_pointer_cast<FieldArrayField>(fieldVec.back()))
+            {
+                fieldArrayField->fieldInfo = RebuildFieldInfo(*fieldArrayField->fieldInfo);
+            }
+        }
+        return BuildFieldInfo(std::move(fieldVec), pDbMetadata ? pDbMetadata->messageFamily : "");
+    }
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
-- 
2.43.0


From 6854d9d2393946096d14084450317d041f6ae806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:10 +0000
Subject: [PATCH 18/74] fix: copies of a message database shared enumeration
 bindings and metadata, and appended enumerations were ignored by existing
 messages

---
 .../decoders/common/message_database.hpp      | 31 +++++++++++++++----
 .../implementations/message_database.cpp      |  1 +
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 7496292..3c7459d 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -797,6 +797,7 @@ class MessageDatabase
             mEnumName[enmDef->name] = enmDef;
             mEnumId[enmDef->_id] = enmDef;
         }
+        GenerateMessageMappings(); // Messages already defined may refer to the new enumerations
     }
 
     //----------------------------------------------------------------------------
@@ -885,7 +886,8 @@ class MessageDatabase
     //----------------------------------------------------------------------------
     void SetMessageFamily(const std::string& messageFamily_)
     {
-        if (!pDbMetadata) { pDbMetadata = std::make_shared<DbMetadata>(); }
+        // Copies of this database share the metadata object
+        pDbMetadata = pDbMetadata ? std::make_shared<DbMetadata>(*pDbMetadata) : std::make_shared<DbMetadata>();
         pDbMetadata->messageFamily = messageFamily_;
         const auto previousMessageDefinitions = std::move(vMessageDefinitions);
         vMessageDefinitions.clear();
@@ -930,13 +932,15 @@ class MessageDatabase
         mMessageId.clear();
         for (auto& msg : vMessageDefinitions)
         {
-            mMessageName[msg->name] = msg;
-            mMessageId[msg->logID] = msg;
-
-            for (const auto& item : msg->fieldInfo)
+            if (!EnumFieldsMapped(*msg))
             {
-                if (!item.second->messageOrderedFields.empty()) { MapMessageEnumFields(item.second->messageOrderedFields); }
+                // Other databases and decoded messages may share this definition
+                if (msg.use_count() > 1) { msg = std::make_shared<MessageDefinition>(*msg); }
+                for (const auto& item : msg->fieldInfo) { MapMessageEnumFields(item.second->messageOrderedFields); }
             }
+
+            mMessageName[msg->name] = msg;
+            mMessageId[msg->logID] = msg;
         }
     }
 
@@ -958,6 +962,21 @@ class MessageDatabase
         return BuildFieldInfo(std::move(fieldVec), pDbMetadata ? pDbMetadata->messageFamily : "");
     }
 
+    bool EnumFieldsMapped(const MessageDefinition& msg_) const
+    {
+        return std::all_of(msg_.fieldInfo.begin(), msg_.fieldInfo.end(),
+                           [this](const auto& item_) { return EnumFieldsMapped(item_.second->messageOrderedFields); });
+    }
+
+    bool EnumFieldsMapped(const std::vector<BaseField::ConstPtr>& vMsgDefFields_) const
+    {
+        return std::all_of(vMsgDefFields_.begin(), vMsgDefFields_.end(), [this](const BaseField::ConstPtr& field_) {
+            if (const auto* enumField = dynamic_cast<const EnumField*>(field_.get())) { return enumField->enumDef == GetEnumDefId(enumField->enumId); }
+            const auto* fieldArrayField = dynamic_cast<const FieldArrayField*>(field_.get());
+            return fieldArrayField == nullptr || EnumFieldsMapped(fieldArrayField->fieldInfo->messageOrderedFields);
+        });
+    }
+
     void MapMessageEnumFields(const std::vector<BaseField::ConstPtr>& vMsgDefFields_)
     {
         for (const auto& field : vMsgDefFields_)
diff --git a/python/src/py_common/implementations/message_database.cpp b/python/src/py_common/implementations/message_database.cpp
index c79d99f..20e754f 100644
--- a/python/src/py_common/implementations/message_database.cpp
+++ b/python/src/py_common/implementations/message_database.cpp
@@ -111,6 +111,7 @@ PYCOMMON_EXPORT void py_common::PyMessageDatabase::AppendEnumerations(const std:
     ThrowIfLocked();
     core_->AppendEnumerations(vEnumDefinitions_);
     AppendEnumTypes(vEnumDefinitions_);
+    AppendMessageTypes(core_->MessageDefinitions()); // Messages referring to the new enumerations may have been redefined
 }
 
 PYCOMMON_EXPORT void py_common::PyMessageDatabase::RemoveMessage(uint32_t iMsgId_)
-- 
2.43.0


From 180502a88281cfa257cccd6a87f74af386a7de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 19/74] fix: header decoder let fields of an earlier header
 show through in a later one

---
 src/decoders/oem/src/header_decoder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index 55a5a2d..f934fa0 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -283,6 +283,9 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
+    // Not every format carries every field, do not let those of a previously decoded header show through
+    stInterHeader_ = IntermediateHeader{};
+
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
     auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
 
@@ -324,7 +327,14 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         // Abbreviated ascii responses have no headers
         if (strncmp(pcTempBuf, "OK", 2) == 0 || strncmp(pcTempBuf, "ERROR", 5) == 0)
         {
+            stMetaData_.ucSiblingId = NULL_SIBLING_ID;
+            stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
             stMetaData_.bResponse = true;
+            stMetaData_.usWeek = 0;
+            stMetaData_.dMilliseconds = 0.0;
+            stMetaData_.usMessageId = 0;
+            stMetaData_.uiMessageCrc = 0;
+            stMetaData_.uiBinaryMsgLength = 0;
             stMetaData_.messageName = "UNKNOWN";
             stMetaData_.uiHeaderLength = static_cast<uint32_t>(pcTempBuf - reinterpret_cast<const char*>(pucLogBuf_));
             stInterHeader_.ucMessageType = static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE);
@@ -384,8 +394,6 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         break;
 
     case HEADER_FORMAT::SHORT_BINARY: {
-        // Reset the IntermediateHeader ucMessageType because can incorrectly set ucSiblingId and bResponse if it isn't
-        stInterHeader_.ucMessageType = 0;
         auto stBinaryShortHeader = LoadValueFromBuffer<Oem4BinaryShortHeader>(pucLogBuf_);
         stInterHeader_.usLength = stBinaryShortHeader.ucLength;
         stInterHeader_.usMessageId = stBinaryShortHeader.usMessageId;
-- 
2.43.0


From 938a0e1e9e9239e1e4ccb74ca14c9c2c6b842eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 20/74] fix: header decoder read past the end of a framed
 message

---
 .../decoders/oem/header_decoder.hpp           |  4 +-
 src/decoders/oem/src/header_decoder.cpp       | 60 ++++++++++++-------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/header_decoder.hpp b/include/novatel_edie/decoders/oem/header_decoder.hpp
index 14500bc..599e717 100644
--- a/include/novatel_edie/decoders/oem/header_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/header_decoder.hpp
@@ -84,9 +84,9 @@ class HeaderDecoder
 
     // Decode novatel headers
     template <const char pcDelimiter[], ASCII_HEADER eField>
-    [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
+    [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcEnd_) const;
     template <const char pcDelimiter[], ASCII_HEADER... eFields>
-    [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const;
+    [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcEnd_) const;
     void DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
 
   public:
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index f934fa0..d4e13c1 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -52,9 +52,16 @@ void HeaderDecoder::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
     vMyGpsTimeStatusDefinitions = pclMyMsgDb->GetEnumDefName("GPSTimeStatus");
 }
 
+// -------------------------------------------------------------------------------------------------------
+static bool StartsWith(const char* pcBuf_, const char* pcEnd_, std::string_view svPrefix_)
+{
+    if (pcEnd_ != nullptr && static_cast<size_t>(pcEnd_ - pcBuf_) < svPrefix_.size()) { return false; }
+    return strncmp(pcBuf_, svPrefix_.data(), svPrefix_.size()) == 0;
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <const char pcDelimiter[], ASCII_HEADER eField>
-bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const
+bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcEnd_) const
 {
     constexpr bool bIsLeadingNumberField = eField == ASCII_HEADER::SEQUENCE || eField == ASCII_HEADER::IDLE_TIME || eField == ASCII_HEADER::WEEK ||
                                            eField == ASCII_HEADER::SECONDS || eField == ASCII_HEADER::RECEIVER_SW_VERSION;
@@ -67,6 +74,9 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
 
     size_t ullDelimiterSize = strlen(pcDelimiter);
 
+    // The end of the log is only known when the log was framed
+    if (pcEnd_ != nullptr && *ppcLogBuf_ >= pcEnd_) { return false; }
+
     // We check if the first character in the field is in the valid format
     if ((bIsLeadingNumberField && !isdigit(**ppcLogBuf_)) || (bIsLeadingAlphaField && !isalpha(**ppcLogBuf_)) ||
         (bIsLeadingHexField && !isxdigit(**ppcLogBuf_)))
@@ -75,8 +85,9 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
     }
 
     // Find next delimiter
-    const char* pcNextDelimiter = strchr(*ppcLogBuf_, pcDelimiter[0]);
-    if (pcNextDelimiter == nullptr)
+    const char* pcNextDelimiter = pcEnd_ == nullptr ? strchr(*ppcLogBuf_, pcDelimiter[0])
+                                                    : static_cast<const char*>(std::memchr(*ppcLogBuf_, pcDelimiter[0], pcEnd_ - *ppcLogBuf_));
+    if (pcNextDelimiter == nullptr || (pcEnd_ != nullptr && ullDelimiterSize > static_cast<size_t>(pcEnd_ - pcNextDelimiter)))
     {
         SPDLOG_LOGGER_ERROR(pclMyLogger, "Message header could not be decoded as the expected field delimiter could not be found.");
         return false;
@@ -194,9 +205,9 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
 
 // -------------------------------------------------------------------------------------------------------
 template <const char pcDelimiter[], ASCII_HEADER... eFields>
-bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_) const
+bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcEnd_) const
 {
-    return (DecodeAsciiHeaderField<pcDelimiter, eFields>(stInterHeader_, ppcLogBuf_) && ...);
+    return (DecodeAsciiHeaderField<pcDelimiter, eFields>(stInterHeader_, ppcLogBuf_, pcEnd_) && ...);
 }
 
 // -------------------------------------------------------------------------------------------------------
@@ -287,10 +298,12 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     stInterHeader_ = IntermediateHeader{};
 
     const auto* pcTempBuf = reinterpret_cast<const char*>(pucLogBuf_);
-    auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
+    // Never look beyond the end of the log if it is known
+    const uint32_t uiLength = stMetaData_.uiLength;
+    const char* pcEnd = uiLength > 0 ? pcTempBuf + uiLength : nullptr;
 
     stMetaData_.eFormat = [&] {
-        switch (stBinaryHeader.ucSync1)
+        switch (pucLogBuf_[0])
         {
         case OEM4_ASCII_SYNC: return HEADER_FORMAT::ASCII;
         case OEM4_SHORT_ASCII_SYNC: return HEADER_FORMAT::SHORT_ASCII;
@@ -298,7 +311,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         case NMEA_SYNC: return HEADER_FORMAT::NMEA;
         case '{': return HEADER_FORMAT::JSON;
         case OEM4_BINARY_SYNC1:
-            switch (stBinaryHeader.ucSync3)
+            if (uiLength > 0 && uiLength < OEM4_BINARY_SYNC_LENGTH) { return HEADER_FORMAT::UNKNOWN; }
+            switch (pucLogBuf_[2])
             {
             case OEM4_BINARY_SYNC3: return HEADER_FORMAT::BINARY;
             case OEM4_SHORT_BINARY_SYNC3: return HEADER_FORMAT::SHORT_BINARY;
@@ -314,8 +328,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         ++pcTempBuf; // Move the input buffer past the sync char '#'
         if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::PORT, ASCII_HEADER::SEQUENCE,
                                      ASCII_HEADER::IDLE_TIME, ASCII_HEADER::TIME_STATUS, ASCII_HEADER::WEEK, ASCII_HEADER::SECONDS,
-                                     ASCII_HEADER::RECEIVER_STATUS, ASCII_HEADER::MSG_DEF_CRC>(stInterHeader_, &pcTempBuf) ||
-            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf))
+                                     ASCII_HEADER::RECEIVER_STATUS, ASCII_HEADER::MSG_DEF_CRC>(stInterHeader_, &pcTempBuf, pcEnd) ||
+            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf, pcEnd))
         {
             return STATUS::FAILURE;
         }
@@ -325,7 +339,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         ++pcTempBuf; // Move the input buffer past the sync char '<'
 
         // Abbreviated ascii responses have no headers
-        if (strncmp(pcTempBuf, "OK", 2) == 0 || strncmp(pcTempBuf, "ERROR", 5) == 0)
+        if (StartsWith(pcTempBuf, pcEnd, "OK") || StartsWith(pcTempBuf, pcEnd, "ERROR"))
         {
             stMetaData_.ucSiblingId = NULL_SIBLING_ID;
             stMetaData_.eTimeStatus = TIME_STATUS::UNKNOWN;
@@ -344,14 +358,14 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
         // At this point, we do not know if the format is short or not, but both have a message
         // field
-        if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME>(stInterHeader_, &pcTempBuf)) { return STATUS::FAILURE; }
-        if (DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::PORT>(stInterHeader_, &pcTempBuf))
+        if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME>(stInterHeader_, &pcTempBuf, pcEnd)) { return STATUS::FAILURE; }
+        if (DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::PORT>(stInterHeader_, &pcTempBuf, pcEnd))
         {
             // Port field succeeded, so this is not short format
             if (!DecodeAsciiHeaderFields<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::SEQUENCE, ASCII_HEADER::IDLE_TIME, ASCII_HEADER::TIME_STATUS,
                                          ASCII_HEADER::WEEK, ASCII_HEADER::SECONDS, ASCII_HEADER::RECEIVER_STATUS, ASCII_HEADER::MSG_DEF_CRC>(
-                    stInterHeader_, &pcTempBuf) ||
-                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf))
+                    stInterHeader_, &pcTempBuf, pcEnd) ||
+                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::RECEIVER_SW_VERSION>(stInterHeader_, &pcTempBuf, pcEnd))
             {
                 return STATUS::FAILURE;
             }
@@ -360,8 +374,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         {
             // Port field failed, so we (unsafely) assume this is short
             stMetaData_.eFormat = HEADER_FORMAT::SHORT_ABB_ASCII;
-            if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf) ||
-                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf))
+            if (!DecodeAsciiHeaderField<pcAbbrevAsciiRegDelimiter, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf, pcEnd) ||
+                !DecodeAsciiHeaderField<pcAbbrevAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf, pcEnd))
             {
                 return STATUS::FAILURE;
             }
@@ -370,14 +384,16 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
 
     case HEADER_FORMAT::SHORT_ASCII:
         ++pcTempBuf; // Move the input buffer past the sync char '%'
-        if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf) ||
-            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf))
+        if (!DecodeAsciiHeaderFields<pcAsciiRegDelimiter, ASCII_HEADER::MESSAGE_NAME, ASCII_HEADER::WEEK>(stInterHeader_, &pcTempBuf, pcEnd) ||
+            !DecodeAsciiHeaderField<pcAsciiFinalDelimiter, ASCII_HEADER::SECONDS>(stInterHeader_, &pcTempBuf, pcEnd))
         {
             return STATUS::FAILURE;
         }
         break;
 
-    case HEADER_FORMAT::BINARY:
+    case HEADER_FORMAT::BINARY: {
+        if (uiLength > 0 && uiLength < sizeof(Oem4BinaryHeader)) { return STATUS::FAILURE; }
+        auto stBinaryHeader = LoadValueFromBuffer<Oem4BinaryHeader>(pucLogBuf_);
         stInterHeader_.usMessageId = stBinaryHeader.usMsgNumber;
         stInterHeader_.ucMessageType = stBinaryHeader.ucMsgType;
         stInterHeader_.uiPortAddress = stBinaryHeader.ucPort;
@@ -392,8 +408,10 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
         stInterHeader_.uiMessageDefinitionCrc = stBinaryHeader.usMsgDefCrc;
         pcTempBuf += sizeof(Oem4BinaryHeader);
         break;
+    }
 
     case HEADER_FORMAT::SHORT_BINARY: {
+        if (uiLength > 0 && uiLength < sizeof(Oem4BinaryShortHeader)) { return STATUS::FAILURE; }
         auto stBinaryShortHeader = LoadValueFromBuffer<Oem4BinaryShortHeader>(pucLogBuf_);
         stInterHeader_.usLength = stBinaryShortHeader.ucLength;
         stInterHeader_.usMessageId = stBinaryShortHeader.usMessageId;
@@ -406,7 +424,7 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     case HEADER_FORMAT::JSON:
         try
         {
-            DecodeJsonHeader(pcTempBuf, stInterHeader_);
+            DecodeJsonHeader(pcEnd == nullptr ? std::string_view(pcTempBuf) : std::string_view(pcTempBuf, uiLength), stInterHeader_);
         }
         catch (std::exception& e)
         {
-- 
2.43.0


From 99f0f22834d3cf33c03ea8d982fc240c54d457b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 21/74] fix: header decoder lost milliseconds, and the sibling
 ID and failures of JSON headers

---
 .../decoders/oem/header_decoder.hpp           |  2 +-
 src/decoders/oem/src/header_decoder.cpp       | 56 ++++++++++++++++---
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/header_decoder.hpp b/include/novatel_edie/decoders/oem/header_decoder.hpp
index 599e717..3e7f51e 100644
--- a/include/novatel_edie/decoders/oem/header_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/header_decoder.hpp
@@ -87,7 +87,7 @@ class HeaderDecoder
     [[nodiscard]] bool DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcEnd_) const;
     template <const char pcDelimiter[], ASCII_HEADER... eFields>
     [[nodiscard]] bool DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_, const char** ppcLogBuf_, const char* pcEnd_) const;
-    void DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
+    [[nodiscard]] bool DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const;
 
   public:
     //----------------------------------------------------------------------------
diff --git a/src/decoders/oem/src/header_decoder.cpp b/src/decoders/oem/src/header_decoder.cpp
index d4e13c1..9097419 100644
--- a/src/decoders/oem/src/header_decoder.cpp
+++ b/src/decoders/oem/src/header_decoder.cpp
@@ -27,6 +27,9 @@
 #include "novatel_edie/decoders/oem/header_decoder.hpp"
 
 #include <charconv>
+#include <cmath>
+#include <cstring>
+#include <limits>
 
 #include <simdjson.h>
 
@@ -52,6 +55,16 @@ void HeaderDecoder::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
     vMyGpsTimeStatusDefinitions = pclMyMsgDb->GetEnumDefName("GPSTimeStatus");
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Times have a resolution of one millisecond. The product of most times in seconds is not exact, so it must be rounded.
+static bool SecondsToMilliseconds(double dSeconds_, double& dMilliseconds_)
+{
+    const double dMilliseconds = std::round(1000.0 * dSeconds_);
+    if (!(dMilliseconds >= 0.0 && dMilliseconds <= static_cast<double>(std::numeric_limits<uint32_t>::max()))) { return false; }
+    dMilliseconds_ = dMilliseconds;
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 static bool StartsWith(const char* pcBuf_, const char* pcEnd_, std::string_view svPrefix_)
 {
@@ -161,7 +174,11 @@ bool HeaderDecoder::DecodeAsciiHeaderField(IntermediateHeader& stInterHeader_, c
             pclMyLogger->debug("Failed to parse SECONDS.");
             return false;
         }
-        stInterHeader_.dMilliseconds = 1000.0 * dSeconds;
+        if (!SecondsToMilliseconds(dSeconds, stInterHeader_.dMilliseconds))
+        {
+            pclMyLogger->debug("SECONDS is out of range.");
+            return false;
+        }
         break;
     }
     case ASCII_HEADER::RECEIVER_STATUS: {
@@ -211,7 +228,7 @@ bool HeaderDecoder::DecodeAsciiHeaderFields(IntermediateHeader& stInterHeader_,
 }
 
 // -------------------------------------------------------------------------------------------------------
-void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const
+bool HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHeader& stInterHeader_) const
 {
     simdjson::dom::parser parser;
     simdjson::dom::element doc;
@@ -219,22 +236,40 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     auto error = parser.parse(pcTempBuf_.data(), pcTempBuf_.size()).get(doc);
     if (error)
     {
-        std::cerr << "JSON parsing error: " << error << '\n';
-        return;
+        SPDLOG_LOGGER_ERROR(pclMyLogger, "JSON parsing error: {}", simdjson::error_message(error));
+        return false;
     }
 
     // Access the "header" object
     simdjson::dom::element clJsonHeader_;
     if (doc["header"].get(clJsonHeader_) != simdjson::SUCCESS)
     {
-        std::cerr << "Error: JSON does not contain a 'header' object\n";
-        return;
+        SPDLOG_LOGGER_ERROR(pclMyLogger, "JSON does not contain a 'header' object");
+        return false;
     }
 
     // Decode the fields
     int64_t messageId;
     if (clJsonHeader_["id"].get(messageId) == simdjson::SUCCESS) { stInterHeader_.usMessageId = static_cast<uint16_t>(messageId); }
 
+    // The message name has the sibling ID as its suffix
+    std::string_view message;
+    if (clJsonHeader_["message"].get(message) == simdjson::SUCCESS)
+    {
+        const auto pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+        const size_t ullNameLength = pclMessageDef != nullptr ? pclMessageDef->name.size() : message.size();
+        if (message.size() > ullNameLength + 1 && message[ullNameLength] == '_' && message.compare(0, ullNameLength, pclMessageDef->name) == 0)
+        {
+            uint8_t ucSiblingId = 0;
+            message.remove_prefix(ullNameLength + 1);
+            const auto result = std::from_chars(message.data(), message.data() + message.size(), ucSiblingId);
+            if (result.ec == std::errc() && result.ptr == message.data() + message.size())
+            {
+                stInterHeader_.ucMessageType = PackMsgType(ucSiblingId, static_cast<uint32_t>(MESSAGE_FORMAT::BINARY), 0);
+            }
+        }
+    }
+
     std::string_view port;
     if (clJsonHeader_["port"].get(port) == simdjson::SUCCESS)
     {
@@ -247,7 +282,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     double percentIdleTime;
     if (clJsonHeader_["percent_idle_time"].get(percentIdleTime) == simdjson::SUCCESS)
     {
-        stInterHeader_.ucIdleTime = static_cast<uint8_t>(percentIdleTime * 2.0);
+        stInterHeader_.ucIdleTime = static_cast<uint8_t>(std::lround(percentIdleTime * 2.0));
     }
 
     std::string_view timeStatus;
@@ -260,7 +295,7 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     if (clJsonHeader_["week"].get(week) == simdjson::SUCCESS) { stInterHeader_.usWeek = static_cast<uint16_t>(week); }
 
     double seconds;
-    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS) { stInterHeader_.dMilliseconds = seconds * 1000.0; }
+    if (clJsonHeader_["seconds"].get(seconds) == simdjson::SUCCESS && !SecondsToMilliseconds(seconds, stInterHeader_.dMilliseconds)) { return false; }
 
     int64_t receiverStatus;
     if (clJsonHeader_["receiver_status"].get(receiverStatus) == simdjson::SUCCESS)
@@ -279,6 +314,8 @@ void HeaderDecoder::DecodeJsonHeader(std::string_view pcTempBuf_, IntermediateHe
     {
         stInterHeader_.uiMessageDefinitionCrc = static_cast<uint32_t>(messageDefinitionCrc);
     }
+
+    return true;
 }
 
 // -------------------------------------------------------------------------------------------------------
@@ -424,7 +461,8 @@ STATUS HeaderDecoder::Decode(const unsigned char* pucLogBuf_, IntermediateHeader
     case HEADER_FORMAT::JSON:
         try
         {
-            DecodeJsonHeader(pcEnd == nullptr ? std::string_view(pcTempBuf) : std::string_view(pcTempBuf, uiLength), stInterHeader_);
+            const auto svJson = pcEnd == nullptr ? std::string_view(pcTempBuf) : std::string_view(pcTempBuf, uiLength);
+            if (!DecodeJsonHeader(svJson, stInterHeader_)) { return STATUS::FAILURE; }
         }
         catch (std::exception& e)
         {
-- 
2.43.0


From 60ad654a70d630c62a7ac9bf09cb0f612955fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:03 +0000
Subject: [PATCH 22/74] fix: message decoder constructed with a database had no
 enumerations, and checked the family of the wrong one

---
 .../novatel_edie/decoders/common/message_decoder.hpp  |  3 +--
 include/novatel_edie/decoders/oem/message_decoder.hpp | 11 +++++++++++
 src/decoders/common/src/message_decoder.cpp           |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index c1d772d..f9ba791 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -1730,8 +1730,7 @@ class MessageDecoderBase
     //----------------------------------------------------------------------------
     MessageDecoderBase(std::string expectedMessageFamily_, MessageDatabase::Ptr pclMessageDb_ = nullptr,
                        std::function<size_t(const size_t, const uintptr_t, const uintptr_t)> fAlignmentFunc_ = MessageDatabase::NoAlign)
-        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_)),
-          pclMyMsgDb(std::move(pclMessageDb_))
+        : sMyExpectedMessageFamily(std::move(expectedMessageFamily_)), fMyAlignmentFunc(std::move(fAlignmentFunc_))
     {
         InitFieldMaps();
         if (pclMessageDb_ != nullptr) { LoadJsonDb(std::move(pclMessageDb_)); }
diff --git a/include/novatel_edie/decoders/oem/message_decoder.hpp b/include/novatel_edie/decoders/oem/message_decoder.hpp
index b23785f..d46a5ec 100644
--- a/include/novatel_edie/decoders/oem/message_decoder.hpp
+++ b/include/novatel_edie/decoders/oem/message_decoder.hpp
@@ -74,6 +74,17 @@ class MessageDecoder : public MessageDecoderBase
     //! \param[in] pclMessageDb_ A pointer to a MessageDatabase object. Defaults to nullptr.
     //----------------------------------------------------------------------------
     MessageDecoder(const MessageDatabase::Ptr& pclMessageDb_ = nullptr);
+
+    //----------------------------------------------------------------------------
+    //! \brief Load a MessageDatabase object.
+    //
+    //! \param[in] pclMessageDb_ A pointer to a MessageDatabase object.
+    //----------------------------------------------------------------------------
+    void LoadJsonDb(MessageDatabase::Ptr pclMessageDb_) override
+    {
+        MessageDecoderBase::LoadJsonDb(std::move(pclMessageDb_));
+        pResponseDefinition.reset(); // It refers to the enumerations of the previous database
+    }
 };
 
 } // namespace novatel::edie::oem
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index cdfb43b..ded546c 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -35,7 +35,7 @@ using namespace novatel::edie;
 // -------------------------------------------------------------------------------------------------------
 void MessageDecoderBase::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
-    ValidateMessageDatabaseFamily(pclMyMsgDb, sMyExpectedMessageFamily, pclMyLogger);
+    ValidateMessageDatabaseFamily(pclMessageDb_, sMyExpectedMessageFamily, pclMyLogger);
     pclMyMsgDb = std::move(pclMessageDb_);
     InitEnumDefinitions();
 }
-- 
2.43.0


From f9724ae0608e7bb23deb0d35a7cb6fabbd32ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:47 +0000
Subject: [PATCH 23/74] fix: values of a previously decoded message showed
 through in the next one

---
 .../decoders/common/message_decoder.hpp       | 75 +++++++------------
 src/decoders/common/src/message_decoder.cpp   | 14 +---
 2 files changed, 32 insertions(+), 57 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index f9ba791..00e2138 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -787,56 +787,37 @@ class CompositeField
     //!
     //! \param[in] fieldInfo_ The FieldInfo object containing the message's fields
     // ---------------------------------------------------------------------------
-    CompositeField(FieldInfo::ConstPtr fieldInfo_) : fieldInfo(std::move(fieldInfo_))
+    CompositeField(FieldInfo::ConstPtr fieldInfo_) { Reset(std::move(fieldInfo_)); }
+
+    // ---------------------------------------------------------------------------
+    //! \brief Set the field info, and each field to the default value of its type.
+    //!
+    //! \note Unlike SetFieldInfo(), no value which was previously set remains.
+    //!
+    //! \param[in] fieldInfo_ The FieldInfo object containing the message's fields
+    // ---------------------------------------------------------------------------
+    void Reset(FieldInfo::ConstPtr fieldInfo_)
     {
-        if (fieldInfo)
-        {
-            fixedFields.resize(fieldInfo->fixedFieldBytes);
-            varFields.resize(fieldInfo->varFieldCount);
+        fieldInfo = std::move(fieldInfo_);
+        fixedFields = FixedFieldRegion(fieldInfo ? fieldInfo->fixedFieldBytes : 0); // All default values of fixed fields are zero
+        varFields.clear();
+        if (!fieldInfo) { return; }
 
-            for (const auto& fieldDef : fieldInfo->messageOrderedFields)
+        varFields.resize(fieldInfo->varFieldCount);
+        for (const auto& fieldDef : fieldInfo->messageOrderedFields)
+        {
+            switch (fieldDef->type)
             {
-                switch (fieldDef->type)
-                {
-                case FIELD_TYPE::FIELD_ARRAY: {
-                    varFields[fieldDef->index] = CompositeFieldArray{};
-                    break;
-                }
-                case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
-                    const auto* arrFieldDef = dynamic_cast<const ArrayField*>(fieldDef.get());
-                    const size_t arrayLength = arrFieldDef ? arrFieldDef->arrayLength : 0;
-                    for (size_t i = 0; i < arrayLength; i++)
-                    {
-                        SimpleTypeVisitor(*arrFieldDef, [&](auto&& arg) {
-                            using ValueT = std::decay_t<decltype(arg)>;
-                            SetArrayElement<true>(*arrFieldDef, i, ValueT{});
-                        });
-                    }
-                    break;
-                }
-                case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
-                    SimpleTypeVisitor(*fieldDef, [&](auto&& arg) {
-                        using ValueT = std::conditional_t<std::is_same_v<std::decay_t<decltype(arg)>, bool>, uint8_t, std::decay_t<decltype(arg)>>;
-                        varFields[fieldDef->index] = std::vector<ValueT>{};
-                    });
-                    break;
-                case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
-                case FIELD_TYPE::ENUM:
-                    switch (fieldDef->dataType.length)
-                    {
-                    case 1: SetFieldValue<true>(fieldDef->index, int8_t{}); break;
-                    case 2: SetFieldValue<true>(fieldDef->index, int16_t{}); break;
-                    case 4: SetFieldValue<true>(fieldDef->index, int32_t{}); break;
-                    default: throw std::runtime_error("CompositeField(): unsupported enum width");
-                    }
-                    break;
-                default:
-                    SimpleTypeVisitor(*fieldDef, [&](auto&& arg) {
-                        using ValueT = std::decay_t<decltype(arg)>;
-                        SetFieldValue<true>(fieldDef->index, ValueT{});
-                    });
-                    break;
-                }
+            case FIELD_TYPE::FIELD_ARRAY: varFields[fieldDef->index] = CompositeFieldArray{}; break;
+            case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
+                SimpleTypeVisitor(*fieldDef, [&](auto&& arg) {
+                    using ValueT = std::conditional_t<std::is_same_v<std::decay_t<decltype(arg)>, bool>, uint8_t, std::decay_t<decltype(arg)>>;
+                    varFields[fieldDef->index] = std::vector<ValueT>{};
+                });
+                break;
+            case FIELD_TYPE::RESPONSE_STR: [[fallthrough]];
+            case FIELD_TYPE::STRING: varFields[fieldDef->index] = std::string{}; break;
+            default: break;
             }
         }
     }
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index ded546c..c1c3932 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -350,9 +350,7 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 {
                     *ppucLogBuf_ +=
                         fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
-                    vFieldArrayContainer[i] =
-                        CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                    vFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                    vFieldArrayContainer[i].Reset(subFieldDefinitions->fieldInfo);
                     STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
                                                   uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -669,9 +667,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
-                pvFieldArrayContainer[i] =
-                    CompositeField(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                pvFieldArrayContainer[i].SetFieldInfo(subFieldDefinitions->fieldInfo);
+                pvFieldArrayContainer[i].Reset(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
             }
@@ -867,9 +863,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
 
             for (simdjson::dom::element element : array)
             {
-                vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo->fixedFieldBytes, subFieldDefinitions->fieldInfo->varFieldCount);
-                auto& stSubMessageBody = vFieldArrayContainer.back();
-                stSubMessageBody.SetFieldInfo(subFieldDefinitions->fieldInfo);
+                auto& stSubMessageBody = vFieldArrayContainer.emplace_back(subFieldDefinitions->fieldInfo);
 
                 // Recursively decode the subfields
                 STATUS eStatus = DecodeJson(*subFieldDefinitions->fieldInfo, element, stSubMessageBody);
@@ -930,8 +924,8 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     const uint32_t uiMessageCrc = stMetaData_.bResponse ? 0 : stMetaData_.uiMessageCrc;
     const FieldInfo& msgFieldInfo = pclMsgDef->GetMsgDefFromCrc(uiMessageCrc);
 
-    stInterMessage_.resize(msgFieldInfo.fixedFieldBytes, msgFieldInfo.varFieldCount);
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
+    stInterMessage_.Reset(stInterMessage_.GetFieldInfo()); // Do not let values of a previously decoded message show through
 
     // Decode the detected format
     switch (stMetaData_.eFormat)
-- 
2.43.0


From 58dc0cf8c803ba276dc4c13546b21659b7a7a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 24/74] fix: binary message decoder read past the end of the
 message

---
 .../decoders/common/message_decoder.hpp       |  13 +-
 include/novatel_edie/decoders/oem/common.hpp  |   1 +
 src/decoders/common/src/message_decoder.cpp   | 113 ++++++++++++++----
 .../oem/src/rangecmp/range_decompressor.cpp   |   1 +
 4 files changed, 104 insertions(+), 24 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index 00e2138..f5988c0 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -508,6 +508,7 @@ class FlatFieldArray
     {
         if (fieldInfo_ == nullptr) { throw std::runtime_error("FlatFieldArray(): fieldInfo must not be null"); }
         if (fieldInfo_->varFieldCount > 0) { throw std::runtime_error("FlatFieldArray(): fieldInfo must not have variable fields"); }
+        if (fieldInfo_->fixedFieldBytes == 0) { throw std::runtime_error("FlatFieldArray(): fieldInfo must have fields"); }
     }
 
   public:
@@ -1537,6 +1538,12 @@ class MessageDecoderBase
     void InitEnumDefinitions();
     void InitFieldMaps();
 
+    // pucEnd_ is the end of the message, or a null pointer if it is not known
+    [[nodiscard]] STATUS DecodeBinaryFields(const FieldInfo& vMsgDefFields_, const unsigned char** ppucLogBuf_, CompositeField& clCompField_,
+                                            const unsigned char* pucEnd_) const;
+    [[nodiscard]] STATUS DecodeBinaryBody(const FieldInfo& vMsgDefFields_, const unsigned char* pucBody_, CompositeField& clCompField_,
+                                          const MetaDataBase& stMetaData_) const;
+
   protected:
     MessageDatabase::Ptr pclMyMsgDb{nullptr};
 
@@ -1643,7 +1650,7 @@ class MessageDecoderBase
 
     // -------------------------------------------------------------------------------------------------------
     uint32_t GetArrayLength(const unsigned char* pucTempStart, const unsigned char** ppucLogBuf_, const ArrayField& arrayDef,
-                            const CompositeField& clCompField_) const
+                            const CompositeField& clCompField_, const unsigned char* pucEnd = nullptr) const
     {
         if (arrayDef.arrayLengthRef.empty())
         {
@@ -1652,6 +1659,10 @@ class MessageDecoderBase
                 throw std::runtime_error("GetArrayLength: Unsupported length size; must be 1,2 or 4");
 
             *ppucLogBuf_ += fMyAlignmentFunc(lenBytes, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+            if (pucEnd != nullptr && (*ppucLogBuf_ > pucEnd || lenBytes > static_cast<size_t>(pucEnd - *ppucLogBuf_)))
+            {
+                throw std::runtime_error("GetArrayLength(): Message ends before the array length");
+            }
 
             uint32_t uiArrayLength = 0;
             for (std::size_t i = 0; i < lenBytes; ++i) { uiArrayLength |= static_cast<uint32_t>((*ppucLogBuf_)[i]) << (8 * i); }
diff --git a/include/novatel_edie/decoders/oem/common.hpp b/include/novatel_edie/decoders/oem/common.hpp
index 2fe8bc8..26b333c 100644
--- a/include/novatel_edie/decoders/oem/common.hpp
+++ b/include/novatel_edie/decoders/oem/common.hpp
@@ -132,6 +132,7 @@ enum class CONSTELLATION
 inline size_t OemAlignmentFunction(const size_t size, const uintptr_t start, const uintptr_t ptr)
 {
     size_t alignment = std::min(size_t{4}, size);
+    if (alignment == 0) { return 0; }
     size_t offset = (ptr - start) % alignment;
     return offset == 0 ? 0 : alignment - offset;
 };
diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index c1c3932..fa1c16f 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -27,6 +27,8 @@
 #include "novatel_edie/decoders/common/message_decoder.hpp"
 
 #include <cassert>
+#include <cstring>
+#include <limits>
 
 #include <simdjson.h>
 
@@ -272,18 +274,43 @@ template void MessageDecoderBase::DecodeBinaryField<false>(const BaseField&, con
 STATUS
 MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned char** ppucLogBuf_, CompositeField& clCompField_,
                                  const uint32_t uiMessageLength_) const
+{
+    return DecodeBinaryFields(vMsgDefFields_, ppucLogBuf_, clCompField_, uiMessageLength_ == 0 ? nullptr : *ppucLogBuf_ + uiMessageLength_);
+}
+
+// -------------------------------------------------------------------------------------------------------
+STATUS
+MessageDecoderBase::DecodeBinaryFields(const FieldInfo& vMsgDefFields_, const unsigned char** ppucLogBuf_, CompositeField& clCompField_,
+                                       const unsigned char* pucEnd_) const
 {
     const unsigned char* pucTempStart = *ppucLogBuf_;
 
+    // The number of bytes left to decode, which is only limited if the length of the message is known
+    const auto remaining = [&]() -> size_t {
+        return pucEnd_ == nullptr ? std::numeric_limits<size_t>::max() : static_cast<size_t>(pucEnd_ - *ppucLogBuf_);
+    };
+    // Padding may be missing at the end of a message
+    const auto align = [&](const size_t ullSize_) {
+        *ppucLogBuf_ += std::min(
+            remaining(), fMyAlignmentFunc(ullSize_, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_)));
+    };
+
     for (const auto& field : vMsgDefFields_.messageOrderedFields)
     {
-        auto fieldTypeLength = static_cast<uint8_t>(field->dataType.length);
-        *ppucLogBuf_ += fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+        const size_t fieldTypeLength = field->dataType.length;
+        align(fieldTypeLength);
+
+        // The remaining fields of a message which ends early have their default values
+        if (remaining() == 0) { return STATUS::SUCCESS; }
 
         switch (field->type)
         {
-        case FIELD_TYPE::SIMPLE: DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1); break;
+        case FIELD_TYPE::SIMPLE:
+            if (fieldTypeLength > remaining()) { return STATUS::MALFORMED_INPUT; }
+            DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, 1);
+            break;
         case FIELD_TYPE::ENUM:
+            if (fieldTypeLength > remaining()) { return STATUS::MALFORMED_INPUT; }
             switch (field->dataType.length)
             {
             case 1: clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<uint8_t>(*ppucLogBuf_)); break;
@@ -296,32 +323,38 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             *ppucLogBuf_ += field->dataType.length;
             break;
         case FIELD_TYPE::RESPONSE_ID:
+            if (sizeof(int32_t) > remaining()) { return STATUS::MALFORMED_INPUT; }
             clCompField_.SetFieldValue<true>(field->index, LoadValueFromBuffer<int32_t>(*ppucLogBuf_));
             *ppucLogBuf_ += sizeof(int32_t);
             break;
         case FIELD_TYPE::RESPONSE_STR: {
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), uiMessageLength_ - sizeof(int32_t)); // Remove CRC
+            // Binary response string is not null terminated or 4 byte aligned, it takes up the rest of the message
+            if (pucEnd_ == nullptr) { return STATUS::MALFORMED_INPUT; }
+            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_), remaining());
             clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
-            // Binary response string is not null terminated or 4 byte aligned
             *ppucLogBuf_ += sTemp.size();
             break;
         }
         case FIELD_TYPE::FIXED_LENGTH_ARRAY: {
             const uint32_t uiArraySize = dynamic_cast<const ArrayField*>(field.get())->arrayLength;
+            if (uiArraySize * fieldTypeLength > remaining()) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<true>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_);
+            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, dynamic_cast<const ArrayField&>(*field), clCompField_, pucEnd_);
+            if (uiArraySize * fieldTypeLength > remaining()) { return STATUS::MALFORMED_INPUT; }
             DecodeBinaryField<false>(*field, ppucLogBuf_, clCompField_, uiArraySize);
             break;
         }
         case FIELD_TYPE::STRING: {
             // This version of a string is different. It is hopefully null terminated.
-            std::string_view sTemp(reinterpret_cast<const char*>(*ppucLogBuf_));
-            clCompField_.SetFieldValue<false>(field->index, std::string(sTemp));
-            *ppucLogBuf_ += sTemp.size() + 1; // + 1 to consume the NULL at the end of the string.
+            const auto* pcString = reinterpret_cast<const char*>(*ppucLogBuf_);
+            const size_t ullStringLength = pucEnd_ == nullptr ? strlen(pcString) : strnlen(pcString, remaining());
+            clCompField_.SetFieldValue<false>(field->index, std::string(pcString, ullStringLength));
+            *ppucLogBuf_ += std::min(remaining(), ullStringLength + 1); // + 1 to consume the NULL at the end of the string.
             AddStringFieldPadding(pucTempStart, ppucLogBuf_);
+            if (pucEnd_ != nullptr && *ppucLogBuf_ > pucEnd_) { *ppucLogBuf_ = pucEnd_; }
             break;
         }
         case FIELD_TYPE::FIELD_ARRAY: {
@@ -332,11 +365,12 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
                 return STATUS::MALFORMED_INPUT;
             }
             const auto* subFieldDefinitions = fieldArrayDef.get();
-            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_);
+            const uint32_t uiArraySize = GetArrayLength(pucTempStart, ppucLogBuf_, *subFieldDefinitions, clCompField_, pucEnd_);
 
             if (subFieldDefinitions->fieldInfo->varFieldCount == 0)
             {
                 const size_t totalBytes = uiArraySize * subFieldDefinitions->fieldInfo->fixedFieldBytes;
+                if (totalBytes > remaining()) { return STATUS::MALFORMED_INPUT; }
                 // Store flat FIELD_ARRAY directly as std::vector<std::byte>
                 std::vector<std::byte> flatFieldData(reinterpret_cast<const std::byte*>(*ppucLogBuf_),
                                                      reinterpret_cast<const std::byte*>(*ppucLogBuf_) + totalBytes);
@@ -345,14 +379,14 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             }
             else
             {
+                if (uiArraySize > remaining()) { return STATUS::MALFORMED_INPUT; } // Each row takes up at least one byte
                 std::vector<CompositeField> vFieldArrayContainer(uiArraySize);
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
-                    *ppucLogBuf_ +=
-                        fMyAlignmentFunc(fieldTypeLength, reinterpret_cast<uintptr_t>(pucTempStart), reinterpret_cast<uintptr_t>(*ppucLogBuf_));
+                    align(fieldTypeLength);
+                    if (remaining() == 0) { return STATUS::MALFORMED_INPUT; }
                     vFieldArrayContainer[i].Reset(subFieldDefinitions->fieldInfo);
-                    STATUS eStatus = DecodeBinary(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i],
-                                                  uiMessageLength_ - static_cast<uint32_t>(*ppucLogBuf_ - pucTempStart));
+                    STATUS eStatus = DecodeBinaryFields(*subFieldDefinitions->fieldInfo, ppucLogBuf_, vFieldArrayContainer[i], pucEnd_);
                     if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 }
                 clCompField_.SetFieldValue(*field, std::move(vFieldArrayContainer));
@@ -363,8 +397,6 @@ MessageDecoderBase::DecodeBinary(const FieldInfo& vMsgDefFields_, const unsigned
             SPDLOG_LOGGER_CRITICAL(pclMyLogger, "DecodeBinary(): Unknown field type\n");
             throw std::runtime_error("DecodeBinary(): Unknown field type\n");
         }
-
-        if (*ppucLogBuf_ - pucTempStart >= static_cast<int32_t>(uiMessageLength_)) { return STATUS::SUCCESS; }
     }
     return STATUS::SUCCESS;
 }
@@ -892,6 +924,47 @@ void MessageDecoderBase::DecodeJsonField(const BaseField& field_, simdjson::dom:
     it->second(clCompField_, field_, clJsonField_, elementIndex_, fixed_, *pclMyMsgDb);
 }
 
+// -------------------------------------------------------------------------------------------------------
+STATUS
+MessageDecoderBase::DecodeBinaryBody(const FieldInfo& vMsgDefFields_, const unsigned char* pucBody_, CompositeField& clCompField_,
+                                     const MetaDataBase& stMetaData_) const
+{
+    // Neither go beyond the length in the header nor beyond the end of the frame
+    uint32_t uiBodyLength = stMetaData_.uiBinaryMsgLength;
+    const bool bLengthKnown = stMetaData_.uiLength > 0 || uiBodyLength > 0;
+    if (stMetaData_.uiLength > 0)
+    {
+        uiBodyLength = stMetaData_.uiLength <= stMetaData_.uiHeaderLength ? 0
+                                                                          : std::min(uiBodyLength, stMetaData_.uiLength - stMetaData_.uiHeaderLength);
+    }
+
+    if (vMsgDefFields_.varFieldCount == 0)
+    {
+        // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
+        size_t ullBytes = vMsgDefFields_.fixedFieldBytes;
+        if (bLengthKnown && uiBodyLength < ullBytes)
+        {
+            ullBytes = uiBodyLength;
+            for (const auto& field : vMsgDefFields_.messageOrderedFields)
+            {
+                if (field->index < ullBytes && field->index + clCompField_.GetFieldByteSize(*field) > ullBytes) { return STATUS::MALFORMED_INPUT; }
+            }
+        }
+        clCompField_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucBody_), ullBytes);
+        return STATUS::SUCCESS;
+    }
+
+    try
+    {
+        return DecodeBinaryFields(vMsgDefFields_, &pucBody_, clCompField_, bLengthKnown ? pucBody_ + uiBodyLength : nullptr);
+    }
+    catch (const std::runtime_error& e)
+    {
+        SPDLOG_LOGGER_ERROR(pclMyLogger, "DecodeBinary(): Malformed Input: {}", e.what());
+        return STATUS::MALFORMED_INPUT;
+    }
+}
+
 // -------------------------------------------------------------------------------------------------------
 STATUS
 MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stInterMessage_, MetaDataBase& stMetaData_) const
@@ -946,13 +1019,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     }
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
-        if (msgFieldInfo.varFieldCount == 0)
-        {
-            // Fast path: if there are no variable-length fields, copy the entire message to the fixed region
-            stInterMessage_.SetFieldValue<true>(0, reinterpret_cast<const std::byte*>(pucTempInData), msgFieldInfo.fixedFieldBytes);
-            return STATUS::SUCCESS;
-        }
-        return DecodeBinary(msgFieldInfo, &pucTempInData, stInterMessage_, stMetaData_.uiBinaryMsgLength);
+        return DecodeBinaryBody(msgFieldInfo, pucTempInData, stInterMessage_, stMetaData_);
     case HEADER_FORMAT::JSON: {
         simdjson::dom::parser parser;
         simdjson::dom::element clJsonFields;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..e408789 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -786,6 +786,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
 
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
+        stMetaData_.uiLength = stMetaData_.uiHeaderLength + stMetaData_.uiBinaryMsgLength;
         memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
-- 
2.43.0


From 83010a891a4374ba19674f5e068f0fe69a2653be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 25/74] fix: binary encoder left padding uninitialised and
 misaligned variable-length rows and strings

---
 .../novatel_edie/decoders/common/encoder.hpp  | 31 +++++++++++++------
 include/novatel_edie/decoders/oem/encoder.hpp |  7 +++--
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 46affe8..955d8f0 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -316,6 +316,8 @@ template <typename Derived> class EncoderBase
     //----------------------------------------------------------------------------
     //! \brief Add padding after binary string fields to maintain alignment.
     //
+    //! \param[in] start_ A pointer to the start of the fields being encoded,
+    //!     which the alignment is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -325,19 +327,21 @@ template <typename Derived> class EncoderBase
     //!     there was not enough space in the buffer.
     //! \see MessageDecoderBase::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    virtual bool AddStringFieldPadding([[maybe_unused]] unsigned char** ptr, [[maybe_unused]] uint32_t& uiBytesLeft_) const { return true; }
+    virtual bool AddStringFieldPadding([[maybe_unused]] const unsigned char* start, [[maybe_unused]] unsigned char** ptr,
+                                       [[maybe_unused]] uint32_t& uiBytesLeft_) const
+    {
+        return true;
+    }
 
     template <bool Flatten>
     [[nodiscard]] bool EncodeBinaryBody(const CompositeField& stInterMessage_, const std::vector<BaseField::ConstPtr>& fieldDefinitions_,
                                         unsigned char** ppucOutBuf_, uint32_t& uiBytesLeft_) const
     {
-        const auto alignPtr = [this](uint16_t fieldTypeLength_, const unsigned char* startBuf, unsigned char** ppucOutBuf_,
+        const auto alignPtr = [this](size_t fieldTypeLength_, const unsigned char* startBuf, unsigned char** ppucOutBuf_,
                                      uint32_t& uiBytesLeft_) -> bool {
             auto align = this->fMyAlignmentFunc(fieldTypeLength_, reinterpret_cast<uintptr_t>(startBuf), reinterpret_cast<uintptr_t>(*ppucOutBuf_));
-            if (align > uiBytesLeft_) { return false; }
-            *ppucOutBuf_ += align;
-            uiBytesLeft_ -= static_cast<uint32_t>(align);
-            return true;
+            // The padding is part of the message, so its contents must be defined
+            return align <= uiBytesLeft_ && SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, static_cast<uint32_t>(align));
         };
 
         // Fast path: all-fixed message — single memcpy of the fixedFields blob
@@ -393,6 +397,11 @@ template <typename Derived> class EncoderBase
                             // Write array length
                             if (arrayFieldDef->arrayLengthRef.empty())
                             {
+                                // The count must fit the field which holds it
+                                if (arrayFieldDef->arrayLengthFieldSize < sizeof(count) && (count >> (arrayFieldDef->arrayLengthFieldSize * 8)) != 0)
+                                {
+                                    return false;
+                                }
                                 if (!alignPtr(arrayFieldDef->arrayLengthFieldSize, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
                                 switch (arrayFieldDef->arrayLengthFieldSize)
                                 {
@@ -415,8 +424,11 @@ template <typename Derived> class EncoderBase
                         // Variable-length FIELD_ARRAY
                         if constexpr (std::is_same_v<ValueType, CompositeFieldArray>)
                         {
+                            const bool hasVariableRows = fieldArrayFieldDef->fieldInfo->varFieldCount != 0;
                             for (const auto& element : fieldVector)
                             {
+                                // Rows of variable length are each aligned, see MessageDecoderBase::DecodeBinaryFields()
+                                if (hasVariableRows && !alignPtr(fieldDefRef.dataType.length, startBuf, ppucOutBuf_, uiBytesLeft_)) { return false; }
                                 if (!EncodeBinaryBody<Flatten>(element, fieldArrayFieldDef->fieldInfo->messageOrderedFields, ppucOutBuf_,
                                                                uiBytesLeft_))
                                 {
@@ -438,7 +450,7 @@ template <typename Derived> class EncoderBase
                             if (remaining > 0 && !SetInBuffer(ppucOutBuf_, uiBytesLeft_, 0, remaining)) { return false; }
                         }
 
-                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(ppucOutBuf_, uiBytesLeft_); }
+                        if constexpr (std::is_same_v<ValueType, std::string>) { return AddStringFieldPadding(startBuf, ppucOutBuf_, uiBytesLeft_); }
                         return true;
                     },
                     stInterMessage_.GetVarFields()[fieldDefRef.index]);
@@ -447,8 +459,9 @@ template <typename Derived> class EncoderBase
             else
             {
                 // All other fields (SIMPLE, ENUM, RESPONSE_ID, RESPONSE_STR, FIXED_LENGTH_ARRAY): copy bytes directly
-                // Note: the following check assumes none of the aforementioned field types can be empty
-                if (!stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_)) { return false; }
+                const size_t fieldBytes = stInterMessage_.GetFieldByteSize(fieldDefRef);
+                if (fieldBytes > uiBytesLeft_) { return false; }
+                stInterMessage_.WriteFieldToBuffer(fieldDefRef, ppucOutBuf_, uiBytesLeft_);
             }
         }
 
diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 6b4d0a8..940007a 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -52,6 +52,8 @@ class Encoder : public EncoderBase<Encoder>
     //! \brief Add padding after binary string fields to maintain alignment. OEM
     //!     strings maintain 4-byte alignment.
     //
+    //! \param[in] start_ A pointer to the start of the fields being encoded,
+    //!     which the alignment is relative to.
     //! \param[in, out] ptr_ A pointer to the encode buffer pointer to be padded
     //!     if necessary. Updated in place.
     //! \param[in, out] uiBytesLeft_ The number of bytes left in the buffer.
@@ -61,10 +63,9 @@ class Encoder : public EncoderBase<Encoder>
     //!     there was not enough space in the buffer.
     //! \see MessageDecoder::AddStringFieldPadding() for the corresponding decoder method.
     //----------------------------------------------------------------------------
-    bool AddStringFieldPadding(unsigned char** ptr, uint32_t& uiBytesLeft_) const override
+    bool AddStringFieldPadding(const unsigned char* start, unsigned char** ptr, uint32_t& uiBytesLeft_) const override
     {
-        if (!SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (reinterpret_cast<uintptr_t>(*ptr) % 4))) return false;
-        return true;
+        return SetInBuffer(ptr, uiBytesLeft_, 0, 4 - (static_cast<uint32_t>(*ptr - start) % 4));
     }
 
   protected:
-- 
2.43.0


From 8ea56180b2318454d75f875c736ba640106b93d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 26/74] fix: text encoder indexed past its power table,
 rejected CHAR arrays and wrote %Z arrays in decimal

---
 .../novatel_edie/decoders/common/encoder.hpp  | 38 ++++++++++++-------
 src/decoders/oem/src/encoder.cpp              |  7 +++-
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index 955d8f0..e4ac819 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -29,6 +29,7 @@
 
 #include <array>
 #include <charconv>
+#include <cmath>
 #include <cstdarg>
 #include <functional>
 #include <optional>
@@ -92,11 +93,12 @@ template <typename T> inline std::chars_format FloatingPointFormat(const BaseFie
 
     if (!fd_.width.has_value()) { return std::chars_format::scientific; }
 
-    const auto width = fd_.width.value();
+    const auto width = static_cast<size_t>(fd_.width.value());
     const auto absVal = std::abs(val_);
+    const double upper = width < powLookup.size() ? powLookup[width] : std::pow(10.0, static_cast<double>(width));
+    const double lower = width < npowLookup.size() ? npowLookup[width] : std::pow(10.0, -static_cast<double>(width));
 
-    return absVal >= std::numeric_limits<T>::min() && (absVal > powLookup[width] || absVal < npowLookup[width]) ? std::chars_format::scientific
-                                                                                                                : std::chars_format::fixed;
+    return absVal >= std::numeric_limits<T>::min() && (absVal > upper || absVal < lower) ? std::chars_format::scientific : std::chars_format::fixed;
 }
 
 // -------------------------------------------------------------------------------------------------------
@@ -506,6 +508,24 @@ template <typename Derived> class EncoderBase
         }
     }
 
+    // ---------------------------------------------------------------------------
+    //! \brief Check whether an array element is the null character which terminates
+    //!     an array of characters.
+    //!
+    //! \param[in] fd_ The field definition of the array.
+    //! \param[in] cf_ The message body providing the value.
+    //! \param[in] index_ The element index.
+    // ---------------------------------------------------------------------------
+    [[nodiscard]] static bool IsNullCharacter(const ArrayField& fd_, const CompositeField& cf_, const size_t index_)
+    {
+        switch (fd_.dataType.name)
+        {
+        case DATA_TYPE::CHAR: return cf_.GetFieldValue<int8_t>(fd_, index_) == 0;
+        case DATA_TYPE::UCHAR: return cf_.GetFieldValue<uint8_t>(fd_, index_) == 0;
+        default: return false;
+        }
+    }
+
     // ---------------------------------------------------------------------------
     //! \brief Write a single primitive element, using a custom conversion from
     //!     the field map when one is registered, otherwise the default
@@ -565,11 +585,7 @@ template <typename Derived> class EncoderBase
 
             for (size_t i = 0; i < count; i++)
             {
-                if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
-                {
-                    break;
-                }
+                if (fieldDefRef_.isString && IsNullCharacter(*arrayFieldDef, cf_, i)) { break; }
                 if (!WriteAsciiElement(fieldDefRef_, cf_, asciiFieldMap, i, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 if (fieldDefRef_.isCsv && !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, separator)) { return false; }
             }
@@ -746,11 +762,7 @@ template <typename Derived> class EncoderBase
 
             for (size_t i = 0; i < count; i++)
             {
-                if (fieldDefRef_.isString && (fieldDefRef_.dataType.name == DATA_TYPE::CHAR || fieldDefRef_.dataType.name == DATA_TYPE::UCHAR) &&
-                    cf_.GetFieldValue<uint8_t>(*arrayFieldDef, i) == 0)
-                {
-                    break;
-                }
+                if (fieldDefRef_.isString && IsNullCharacter(*arrayFieldDef, cf_, i)) { break; }
                 if (!WriteAsciiElement<true>(fieldDefRef_, cf_, jsonFieldMap, i, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 if (!fieldDefRef_.isString && !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, ',')) { return false; }
                 wroteAny = true;
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5f50735..ba74155 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -82,6 +82,7 @@ void Encoder::InitFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("UB")] = BasicIntMapEntry<uint8_t>();
     asciiFieldMap[CalculateBlockCrc32("B")] = BasicIntMapEntry<int8_t>();
     asciiFieldMap[CalculateBlockCrc32("XB")] = BasicHexMapEntry<uint8_t>(2);
+    asciiFieldMap[CalculateBlockCrc32("Z")] = BasicHexMapEntry<uint8_t>(2);
 
     asciiFieldMap[CalculateBlockCrc32("x")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
@@ -190,7 +191,11 @@ void Encoder::InitFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("P")] = BasicIntMapEntry<uint8_t>();
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
+                                                const MessageDatabase&, size_t offset) {
+        return fd_.dataType.name == DATA_TYPE::CHAR ? WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<int8_t>(fd_, offset))
+                                                    : WriteIntToBuffer(ppcOutBuf_, uiBytesLeft_, cf_.GetFieldValue<uint8_t>(fd_, offset));
+    };
 
     jsonFieldMap[CalculateBlockCrc32("T")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-- 
2.43.0


From 11d2537cc6f21a87bda7bd0a828819a0106cb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 27/74] fix: text message decoder read past the end of the
 message and let exceptions escape

Missing elements and rows were taken from the checksum, empty and delimiter-led text was refused, and arrays of
characters were stored as another type than when decoded from binary.
---
 src/decoders/common/src/message_decoder.cpp | 152 +++++++++++++-------
 src/decoders/oem/src/message_decoder.cpp    |  36 ++++-
 2 files changed, 131 insertions(+), 57 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index fa1c16f..bdd46f1 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -410,25 +410,37 @@ void MessageDecoderBase::DecodeAsciiField(const BaseField& field_, const char**
     it->second(clCompField_, field_, ppcToken_, tokenLength_, elementIndex_, fixed_, *pclMyMsgDb);
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Decode a byte represented by two hexadecimal digits
+static bool DecodeHexByte(uint8_t& ucValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
+{
+    if (*ppcLogBuf_ >= pcBufEnd_ || pcBufEnd_ - *ppcLogBuf_ < 2) { return false; }
+    const auto result = std::from_chars(*ppcLogBuf_, *ppcLogBuf_ + 2, ucValue_, 16);
+    if (result.ec != std::errc() || result.ptr != *ppcLogBuf_ + 2) { return false; }
+    *ppcLogBuf_ += 2;
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 // Decode an ASCII array formatted with the %Z conversion string
-static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeZConversionStringAsciiArray(std::vector<uint8_t>& vDecodedValues_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                uint32_t uiArraySize_)
 {
     vDecodedValues_.resize(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-        *ppcLogBuf_ += 2;
-        vDecodedValues_[i] = static_cast<uint8_t>(uiValueRead);
+        if (!DecodeHexByte(vDecodedValues_[i], ppcLogBuf_, pcBufEnd_)) { return STATUS::MALFORMED_INPUT; }
     }
 
     return STATUS::SUCCESS;
 }
 
 // Decode an ASCII array field that is not comma separated, e.g. a raw ASCII value or hex representation
-template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_)
+template <typename CharType>
+static STATUS DecodeNonCommaSeparatedAsciiArrayField(CharType& cValue_, const char** ppcLogBuf_, const char* pcBufEnd_)
 {
+    if (*ppcLogBuf_ >= pcBufEnd_) { return STATUS::MALFORMED_INPUT; }
+
     // Escaped '\' character
     if (strncmp("\\\\", *ppcLogBuf_, 2) == 0)
     {
@@ -440,11 +452,9 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
     else if (strncmp("\\x", *ppcLogBuf_, 2) == 0)
     {
         *ppcLogBuf_ += 2; // Consume the '\x' that signifies hex without a char representation
-        uint32_t uiValueRead = 0;
-        if (sscanf(*ppcLogBuf_, "%02x", &uiValueRead) != 1) { return STATUS::MALFORMED_INPUT; }
-
-        cValue_ = static_cast<CharType>(uiValueRead);
-        *ppcLogBuf_ += 2;
+        uint8_t ucValueRead = 0;
+        if (!DecodeHexByte(ucValueRead, ppcLogBuf_, pcBufEnd_)) { return STATUS::MALFORMED_INPUT; }
+        cValue_ = static_cast<CharType>(ucValueRead);
     }
     // Ascii character
     else
@@ -457,13 +467,13 @@ template <typename CharType> static STATUS DecodeNonCommaSeparatedAsciiArrayFiel
 
 // Decode an ASCII array made up of non-comma separated values, e.g. a raw ASCII values or hex representations
 template <typename CharType>
-static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const BaseField::ConstPtr& field_,
-                                                uint32_t uiArraySize_, bool fixed_)
+static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, const char** ppcLogBuf_, const char* pcBufEnd_,
+                                                const BaseField::ConstPtr& field_, uint32_t uiArraySize_, bool fixed_)
 {
     std::vector<CharType> vDecodedValues(uiArraySize_);
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(vDecodedValues[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
     if (fixed_) { clCompField_.SetFieldValue<true>(field_->index, std::move(vDecodedValues)); }
@@ -471,25 +481,32 @@ static STATUS DecodeNonCommaSeparatedAsciiArray(CompositeField& clCompField_, co
     return STATUS::SUCCESS;
 }
 
+// Set a variable-length array of characters to text, stored as the same type as an array which was decoded from binary
+static void SetCharacterArray(CompositeField& clCompField_, const BaseField& field_, const std::string_view svText_)
+{
+    if (field_.dataType.name == DATA_TYPE::CHAR) { clCompField_.SetFieldValue<false>(field_.index, std::vector<int8_t>(svText_.begin(), svText_.end())); }
+    else { clCompField_.SetFieldValue<false>(field_.index, std::vector<uint8_t>(svText_.begin(), svText_.end())); }
+}
+
 // Decode an ASCII array which is formatted like a string with opening and closing quotes, e.g. "string value"
-static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, uint32_t uiArraySize_)
+static STATUS DecodeStringAsciiArray(std::string& sDecodedValue_, const char** ppcLogBuf_, const char* pcBufEnd_, uint32_t uiArraySize_)
 {
     sDecodedValue_.assign(uiArraySize_, '\0');
 
     // Look for opening double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     for (uint32_t i = 0; i < uiArraySize_; ++i)
     {
-        if (**ppcLogBuf_ == '\"') { break; }
+        if (*ppcLogBuf_ < pcBufEnd_ && **ppcLogBuf_ == '\"') { break; }
 
-        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_);
+        STATUS eStatus = DecodeNonCommaSeparatedAsciiArrayField(sDecodedValue_[i], ppcLogBuf_, pcBufEnd_);
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
     }
 
     // Look for closing double-quote
-    if (**ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
+    if (*ppcLogBuf_ >= pcBufEnd_ || **ppcLogBuf_ != '\"') { return STATUS::MALFORMED_INPUT; }
     *ppcLogBuf_ += 1;
 
     return STATUS::SUCCESS;
@@ -517,9 +534,11 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         if constexpr (Abbreviated) { ConsumeAbbrevFormatting(ppcLogBuf_); }
 
         size_t tokenLength = strcspn(*ppcLogBuf_, tokenDelimiters.data());
-        if (tokenLength == 0) { return STATUS::MALFORMED_INPUT; }
 
-        bool bEarlyEndOfMessage = (*(*ppcLogBuf_ + tokenLength) == endDelim);
+        // Only text may be empty, or begin with a delimiter
+        const bool bTextField = field->type == FIELD_TYPE::STRING || field->type == FIELD_TYPE::RESPONSE_ID ||
+                                field->type == FIELD_TYPE::RESPONSE_STR || (field->type == FIELD_TYPE::FIXED_LENGTH_ARRAY && !field->isCsv);
+        if (tokenLength == 0 && !bTextField) { return STATUS::MALFORMED_INPUT; }
 
         switch (field->type)
         {
@@ -551,11 +570,6 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
         case FIELD_TYPE::STRING:
             switch (**ppcLogBuf_)
             {
-            case ',': [[fallthrough]];
-            case '*':
-                clCompField_.SetFieldValue<false>(field->index, std::string(""));
-                *ppcLogBuf_ += 1;
-                break;
             case '"':
                 // If a field delimiter character is in the string, the previous tokenLength value is invalid.
                 tokenLength = strcspn(*ppcLogBuf_ + 1, quotedStringDelimiters.data()); // Look for LAST '"' character, skipping past the first.
@@ -576,9 +590,13 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             std::string_view sResponse(*ppcLogBuf_, tokenLength);
             if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, static_cast<int32_t>(1)); }
             // Note: This won't match responses with format specifiers in them (%d, %s, etc.), they will be given id=0
-            else { clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length()))); }
+            else
+            {
+                clCompField_.SetFieldValue<true>(
+                    field->index,
+                    GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(sResponse.length(), svErrorPrefix.length()))));
+            }
             // Do not advance buffer, need to reprocess this field for the following RESPONSE_STR.
-            bEarlyEndOfMessage = false;
             break;
         }
         case FIELD_TYPE::RESPONSE_STR:
@@ -608,7 +626,9 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
 
                 *ppcLogBuf_ += tokenLength + 1;
-                tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
+
+                // The message must not end before the elements, which are present unless there are none to be separated
+                if (*(*ppcLogBuf_ - 1) == endDelim && (uiArraySize > 0 || !field->isCsv)) { return STATUS::MALFORMED_INPUT; }
             }
 
             STATUS eStatus = STATUS::SUCCESS;
@@ -616,7 +636,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             {
                 assert(field->dataType.name == DATA_TYPE::UCHAR || field->dataType.name == DATA_TYPE::HEXBYTE);
                 std::vector<uint8_t> vDecodedValues;
-                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeZConversionStringAsciiArray(vDecodedValues, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus == STATUS::SUCCESS)
                 {
                     if (fixed)
@@ -630,17 +650,17 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
             else if (field->isString)
             {
                 std::string sDecodedValue;
-                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, uiArraySize);
+                eStatus = DecodeStringAsciiArray(sDecodedValue, ppcLogBuf_, pcBufEnd_, uiArraySize);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 if (fixed) { clCompField_.SetFieldValue<true>(field->index, std::move(sDecodedValue)); }
-                else { clCompField_.SetFieldValue<false>(field->index, std::move(sDecodedValue)); }
+                else { SetCharacterArray(clCompField_, *field, sDecodedValue); }
                 *ppcLogBuf_ += 1;
             }
             else if (!field->isCsv)
             {
                 eStatus = field->dataType.name == DATA_TYPE::CHAR
-                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed)
-                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, field, uiArraySize, fixed);
+                              ? DecodeNonCommaSeparatedAsciiArray<int8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed)
+                              : DecodeNonCommaSeparatedAsciiArray<uint8_t>(clCompField_, ppcLogBuf_, pcBufEnd_, field, uiArraySize, fixed);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
                 *ppcLogBuf_ += 1;
             }
@@ -656,6 +676,7 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
                 }
                 for (uint32_t i = 0; i < uiArraySize; ++i)
                 {
+                    if (*ppcLogBuf_ >= pcBufEnd_ || (i > 0 && *(*ppcLogBuf_ - 1) == endDelim)) { return STATUS::MALFORMED_INPUT; }
                     tokenLength = strcspn(*ppcLogBuf_, unquotedStringDelimiters.data());
                     DecodeAsciiField(*field, ppcLogBuf_, tokenLength, clCompField_, i, fixed);
                     *ppcLogBuf_ += tokenLength + 1;
@@ -699,6 +720,10 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
             for (uint32_t i = 0; i < uiArraySize; ++i)
             {
+                if constexpr (!Abbreviated)
+                {
+                    if (*(*ppcLogBuf_ - 1) == endDelim) { return STATUS::MALFORMED_INPUT; } // Rows are missing
+                }
                 pvFieldArrayContainer[i].Reset(subFieldDefinitions->fieldInfo);
                 STATUS eStatus = DecodeAscii<Abbreviated>(*subFieldDefinitions->fieldInfo, ppcLogBuf_, pvFieldArrayContainer[i], pcBufEnd_);
                 if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -713,7 +738,8 @@ STATUS MessageDecoderBase::DecodeAscii(const FieldInfo& vMsgDefFields_, const ch
 
         if constexpr (!Abbreviated)
         {
-            if (bEarlyEndOfMessage) { break; }
+            // The delimiter following this field ended the message, any further fields are not present
+            if (field->type != FIELD_TYPE::RESPONSE_ID && *(*ppcLogBuf_ - 1) == endDelim) { break; }
         }
     }
 
@@ -781,7 +807,9 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                 if (sResponse == "OK") { clCompField_.SetFieldValue<true>(field->index, 1); }
                 else
                 {
-                    clCompField_.SetFieldValue<true>(field->index, GetResponseId(vMyResponseDefinitions, sResponse.substr(svErrorPrefix.length())));
+                    clCompField_.SetFieldValue<true>(
+                        field->index,
+                        GetResponseId(vMyResponseDefinitions, sResponse.substr(std::min(sResponse.length(), svErrorPrefix.length()))));
                 }
             }
             break;
@@ -805,7 +833,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                         for (size_t i = 0; i < strValue.size(); ++i) { vDecodedValues[i] = static_cast<uint8_t>(strValue[i]); }
                         if (!vDecodedValues.empty()) { clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size()); }
                     }
-                    else { clCompField_.SetFieldValue<false>(field->index, std::string(strValue)); }
+                    else { SetCharacterArray(clCompField_, *field, strValue); }
                 }
             }
             else
@@ -924,6 +952,24 @@ void MessageDecoderBase::DecodeJsonField(const BaseField& field_, simdjson::dom:
     it->second(clCompField_, field_, clJsonField_, elementIndex_, fixed_, *pclMyMsgDb);
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Decode the body of a text format, where text which does not represent a value of its field is reported by an exception
+template <typename F> static STATUS DecodeTextBody(F&& fDecode_)
+{
+    try
+    {
+        return fDecode_();
+    }
+    catch (const std::runtime_error&)
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
+    catch (const std::logic_error&)
+    {
+        return STATUS::MALFORMED_INPUT;
+    }
+}
+
 // -------------------------------------------------------------------------------------------------------
 STATUS
 MessageDecoderBase::DecodeBinaryBody(const FieldInfo& vMsgDefFields_, const unsigned char* pucBody_, CompositeField& clCompField_,
@@ -1000,23 +1046,26 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     stInterMessage_.SetFieldInfo(pclMsgDef, uiMessageCrc);
     stInterMessage_.Reset(stInterMessage_.GetFieldInfo()); // Do not let values of a previously decoded message show through
 
+    // The text formats are searched for delimiters, which requires a null-terminated copy unless the length of the message is not known
+    std::string sBody;
+    const auto* pcTextBody = reinterpret_cast<const char*>(pucTempInData);
+    const char* pcTextBodyEnd = nullptr;
+    if (stMetaData_.uiLength > stMetaData_.uiHeaderLength && stMetaData_.eFormat != HEADER_FORMAT::BINARY &&
+        stMetaData_.eFormat != HEADER_FORMAT::SHORT_BINARY)
+    {
+        sBody.assign(pcTextBody, stMetaData_.uiLength - stMetaData_.uiHeaderLength);
+        pcTextBody = sBody.data();
+        pcTextBodyEnd = sBody.data() + sBody.size();
+    }
+
     // Decode the detected format
     switch (stMetaData_.eFormat)
     {
     case HEADER_FORMAT::ASCII: [[fallthrough]];
-    case HEADER_FORMAT::SHORT_ASCII: {
-        const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-        return DecodeAscii<false>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                  stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                    : nullptr);
-    }
+    case HEADER_FORMAT::SHORT_ASCII: return DecodeTextBody([&] { return DecodeAscii<false>(msgFieldInfo, &pcTextBody, stInterMessage_, pcTextBodyEnd); });
     case HEADER_FORMAT::ABB_ASCII: [[fallthrough]];
-    case HEADER_FORMAT::SHORT_ABB_ASCII: {
-        const auto* pcTempInData = reinterpret_cast<const char*>(pucTempInData);
-        return DecodeAscii<true>(msgFieldInfo, &pcTempInData, stInterMessage_,
-                                 stMetaData_.uiLength > stMetaData_.uiHeaderLength ? pcTempInData + stMetaData_.uiLength - stMetaData_.uiHeaderLength
-                                                                                   : nullptr);
-    }
+    case HEADER_FORMAT::SHORT_ABB_ASCII:
+        return DecodeTextBody([&] { return DecodeAscii<true>(msgFieldInfo, &pcTextBody, stInterMessage_, pcTextBodyEnd); });
     case HEADER_FORMAT::BINARY: [[fallthrough]];
     case HEADER_FORMAT::SHORT_BINARY:
         return DecodeBinaryBody(msgFieldInfo, pucTempInData, stInterMessage_, stMetaData_);
@@ -1024,7 +1073,8 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
         simdjson::dom::parser parser;
         simdjson::dom::element clJsonFields;
 
-        std::string_view jsonStringView(reinterpret_cast<const char*>(pucTempInData)); // Assumes null-terminated data
+        // Assumes null-terminated data if the length of the message is not known
+        const std::string_view jsonStringView = pcTextBodyEnd != nullptr ? std::string_view(sBody) : std::string_view(pcTextBody);
 
         auto error = parser.parse(jsonStringView).get(clJsonFields);
         if (error)
@@ -1040,7 +1090,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
             return STATUS::MALFORMED_INPUT;
         }
 
-        return DecodeJson(msgFieldInfo, body, stInterMessage_);
+        return DecodeTextBody([&] { return DecodeJson(msgFieldInfo, body, stInterMessage_); });
     }
     default: //
         return STATUS::UNKNOWN;
diff --git a/src/decoders/oem/src/message_decoder.cpp b/src/decoders/oem/src/message_decoder.cpp
index 9a8f371..d4f2c37 100644
--- a/src/decoders/oem/src/message_decoder.cpp
+++ b/src/decoders/oem/src/message_decoder.cpp
@@ -37,8 +37,24 @@
 
 using namespace novatel::edie::oem;
 
-// Register the OEM alignment function with the MessageDatabase at static initialization time
 namespace {
+// Set a field, or an element of an array, to a character. The field may be wider than the character.
+void SetCharacterElement(novatel::edie::CompositeField& clCompField_, const novatel::edie::BaseField& field_, const size_t elementIndex_,
+                         const bool fixed_, const char cValue_)
+{
+    novatel::edie::SimpleTypeVisitor(field_, [&](auto&& arg) {
+        using T = std::decay_t<decltype(arg)>;
+        if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
+        {
+            const auto value = static_cast<T>(static_cast<unsigned char>(cValue_));
+            if (fixed_) { clCompField_.SetArrayElement<true>(field_, elementIndex_, value); }
+            else { clCompField_.SetArrayElement<false>(field_, elementIndex_, value); }
+        }
+        else { throw std::runtime_error("Field '" + field_.name + "' cannot hold a character"); }
+    });
+}
+
+// Register the OEM alignment function with the MessageDatabase at static initialization time
 const bool kRegisteredOemAlignment = [] {
     novatel::edie::MessageDatabase::RegisterAlignmentFunction("OEM", novatel::edie::oem::OemAlignmentFunction);
     return true;
@@ -62,9 +78,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // TODO: check that the character is printable
         // if (!isprint(**ppcToken_)) { throw ... }
-        const auto value = static_cast<uint32_t>(static_cast<unsigned char>(**ppcToken_));
-        if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
-        else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
+        SetCharacterElement(clCompField_, pstMessageDataType_, elementIndex_, fixed_, **ppcToken_);
     };
     asciiFieldMap[CalculateBlockCrc32("k")] = SimpleAsciiMapEntry<float>();
     asciiFieldMap[CalculateBlockCrc32("lk")] = SimpleAsciiMapEntry<double>();
@@ -72,7 +86,7 @@ void MessageDecoder::InitOemFieldMaps()
     asciiFieldMap[CalculateBlockCrc32("ucb")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_, const char** ppcToken_,
                                                    [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                    [[maybe_unused]] MessageDatabase& pclMsgDb_) {
-        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(*ppcToken_).to_ulong());
+        const uint32_t value = static_cast<uint32_t>(std::bitset<8>(std::string(*ppcToken_, tokenLength_)).to_ulong());
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
         else { clCompField_.SetArrayElement<false>(pstMessageDataType_, elementIndex_, value); }
     };
@@ -127,6 +141,7 @@ void MessageDecoder::InitOemFieldMaps()
                                                  [[maybe_unused]] const size_t tokenLength_, const size_t elementIndex_, const bool fixed_,
                                                  [[maybe_unused]] MessageDatabase& pclMsgDb_) {
         // RXCONFIG in ASCII is always #COMMANDNAMEA
+        if (tokenLength_ < 2) { throw std::runtime_error("Failed to parse command name"); }
         MessageDefinition::ConstPtr pclMessageDef = pclMsgDb_.GetMsgDef(std::string_view(*ppcToken_ + 1, tokenLength_ - 2)); // + 1 to Skip the '#'
         const uint32_t value = pclMessageDef != nullptr ? CreateMsgId(pclMessageDef->logID, 0, 1, 0) : 0;
         if (fixed_) { clCompField_.SetArrayElement<true>(pstMessageDataType_, elementIndex_, value); }
@@ -136,7 +151,16 @@ void MessageDecoder::InitOemFieldMaps()
     // =========================================================
     // Json Field Mapping
     // =========================================================
-    jsonFieldMap[CalculateBlockCrc32("c")] = SimpleJsonMapEntry<uint32_t>();
+    jsonFieldMap[CalculateBlockCrc32("c")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
+                                                simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
+                                                [[maybe_unused]] MessageDatabase& pclMsgDb_) {
+        std::string_view sValue;
+        if (clJsonField_.get(sValue) != simdjson::SUCCESS || sValue.size() != 1)
+        {
+            throw std::runtime_error("Failed to decode JSON field '" + pstMessageDataType_.name + "'");
+        }
+        SetCharacterElement(clCompField_, pstMessageDataType_, elementIndex_, fixed_, sValue.front());
+    };
     jsonFieldMap[CalculateBlockCrc32("k")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lk")] = SimpleJsonMapEntry<double>();
 
-- 
2.43.0


From 48279206cf8e57ac69c6681604fce9120cb43968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 28/74] fix: OEM framer counted braces within JSON strings

---
 include/novatel_edie/decoders/oem/framer.hpp |  2 ++
 src/decoders/oem/src/framer.cpp              | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/framer.hpp b/include/novatel_edie/decoders/oem/framer.hpp
index f07b580..d93a4e6 100644
--- a/include/novatel_edie/decoders/oem/framer.hpp
+++ b/include/novatel_edie/decoders/oem/framer.hpp
@@ -42,6 +42,8 @@ class Framer : public FramerBase
     NovAtelFrameState eMyFrameState{NovAtelFrameState::WAITING_FOR_SYNC};
 
     uint32_t uiMyJsonObjectOpenBraces{0};
+    bool bMyJsonString{false};
+    bool bMyJsonEscape{false};
     uint32_t uiMyAbbrevAsciiHeaderPosition{0};
     HEADER_FORMAT eMyFrameFormat{HEADER_FORMAT::UNKNOWN}; //!< Format of the partially framed message between calls.
 
diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index 60162ca..ef9d844 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -148,6 +148,8 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                     eMyFrameState = NovAtelFrameState::WAITING_FOR_JSON_OBJECT;
                     stMetaData_.eFormat = HEADER_FORMAT::JSON;
                     uiMyJsonObjectOpenBraces = 1;
+                    bMyJsonString = false;
+                    bMyJsonEscape = false;
                 }
                 break;
             default: break;
@@ -601,7 +603,15 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
                 return STATUS::BUFFER_FULL;
             }
 
-            if (ucDataByte == '{') { uiMyJsonObjectOpenBraces++; }
+            // Braces within a string are not part of the structure
+            if (bMyJsonString)
+            {
+                if (bMyJsonEscape) { bMyJsonEscape = false; }
+                else if (ucDataByte == '\\') { bMyJsonEscape = true; }
+                else if (ucDataByte == '"') { bMyJsonString = false; }
+            }
+            else if (ucDataByte == '"') { bMyJsonString = true; }
+            else if (ucDataByte == '{') { uiMyJsonObjectOpenBraces++; }
             else if (ucDataByte == '}') { uiMyJsonObjectOpenBraces--; }
 
             if (uiMyJsonObjectOpenBraces == 0)
-- 
2.43.0


From da12a032a759b998ef0fc6aada991befc390cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:03 +0000
Subject: [PATCH 29/74] fix: JSON message decoder refused arrays and truncated
 8-byte %e fields

---
 src/decoders/common/src/message_decoder.cpp | 48 ++++++++++-----------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index bdd46f1..47ae9a0 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -197,7 +197,6 @@ void MessageDecoderBase::InitFieldMaps()
     jsonFieldMap[CalculateBlockCrc32("UB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("XB")] = SimpleJsonMapEntry<uint8_t>();
     jsonFieldMap[CalculateBlockCrc32("lf")] = SimpleJsonMapEntry<double>();
-    jsonFieldMap[CalculateBlockCrc32("e")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("le")] = SimpleJsonMapEntry<double>();
     jsonFieldMap[CalculateBlockCrc32("g")] = SimpleJsonMapEntry<float>();
     jsonFieldMap[CalculateBlockCrc32("lg")] = SimpleJsonMapEntry<double>();
@@ -213,6 +212,19 @@ void MessageDecoderBase::InitFieldMaps()
         }
     };
 
+    jsonFieldMap[CalculateBlockCrc32("e")] = jsonFieldMap[CalculateBlockCrc32("f")];
+
+    // Unlike other formats, JSON represents the elements of these arrays by their values
+    jsonFieldMap[CalculateBlockCrc32("P")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
+                                                simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
+                                                [[maybe_unused]] MessageDatabase& pclMsgDb_) {
+        if (pstMessageDataType_.dataType.name == DATA_TYPE::CHAR)
+        {
+            PushElement<int8_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_);
+        }
+        else { PushElement<uint8_t>(clCompField_, pstMessageDataType_, clJsonField_, elementIndex_, fixed_); }
+    };
+
     jsonFieldMap[CalculateBlockCrc32("d")] = [](CompositeField& clCompField_, const BaseField& pstMessageDataType_,
                                                 simdjson::dom::element clJsonField_, const size_t elementIndex_, const bool fixed_,
                                                 [[maybe_unused]] MessageDatabase& pclMsgDb_) {
@@ -819,7 +831,7 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
         case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: {
             const bool fixed = (field->type == FIELD_TYPE::FIXED_LENGTH_ARRAY);
             const auto* arrayField = dynamic_cast<const ArrayField*>(field.get());
-            const uint32_t uiArraySize = (fixed && arrayField != nullptr) ? arrayField->arrayLength : 0;
+            const uint32_t uiArraySize = arrayField != nullptr ? arrayField->arrayLength : 0;
 
             if (field->isString)
             {
@@ -872,38 +884,24 @@ STATUS MessageDecoderBase::DecodeJson(const FieldInfo& vMsgDefFields_, simdjson:
                             clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
                         }
                     }
-                    else if (field->conversionHash == CalculateBlockCrc32("P"))
+                    else
                     {
                         if (fixed)
                         {
                             if (array.size() > uiArraySize) { return STATUS::MALFORMED_INPUT; }
-                            std::vector<int8_t> vDecodedValues(uiArraySize, 0);
-                            size_t i = 0;
-                            for (simdjson::dom::element it : array)
-                            {
-                                int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues[i++] = static_cast<int8_t>(value);
-                            }
-                            if (!vDecodedValues.empty())
-                            {
-                                clCompField_.SetFieldValue<true>(field->index, vDecodedValues.data(), vDecodedValues.size());
-                            }
                         }
                         else
                         {
-                            std::vector<int8_t> vDecodedValues;
-                            vDecodedValues.reserve(array.size());
-                            for (simdjson::dom::element it : array)
-                            {
-                                int64_t value;
-                                if (it.get(value) != simdjson::SUCCESS) { return STATUS::MALFORMED_INPUT; }
-                                vDecodedValues.emplace_back(static_cast<int8_t>(value));
-                            }
-                            clCompField_.SetFieldValue<false>(field->index, std::move(vDecodedValues));
+                            SimpleTypeVisitor(*field, [&](auto&& arg) {
+                                using T = std::decay_t<decltype(arg)>;
+                                using StoredType = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
+                                clCompField_.SetFieldValue<false>(field->index, std::vector<StoredType>(array.size()));
+                            });
                         }
+
+                        size_t i = 0;
+                        for (simdjson::dom::element it : array) { DecodeJsonField(*field, it, clCompField_, i++, fixed); }
                     }
-                    else { return STATUS::MALFORMED_INPUT; }
                 }
             }
             break;
-- 
2.43.0


From d284455df5b88bb6be00b54a76ebe85e8f6b45d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 30/74] fix: Encoder::Encode did not account for the header and
 trailer it writes

The buffer size handed to EncodeBody() was the size of the whole buffer, so a
message which did not fit was written past its end. Abbreviated ASCII responses
left the header and body pointers of the message data unset.
---
 src/decoders/oem/src/encoder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index ba74155..2dd02e7 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -442,6 +442,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eFormat_ == ENCODE_FORMAT::ABBREV_ASCII && ((stHeader_.ucMessageType & static_cast<uint8_t>(MESSAGE_TYPE_MASK::RESPONSE)) != 0))
     {
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "<")) { return STATUS::BUFFER_FULL; }
+        stMessageData_.pucMessageHeader = *ppucBuffer_;
         stMessageData_.uiMessageHeaderLength = 1;
 
         if (fieldDefinitions.size() <= 1) { return STATUS::MALFORMED_INPUT; }
@@ -450,14 +451,16 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
         if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         stMessageData_.pucMessage = *ppucBuffer_;
         stMessageData_.uiMessageLength = pucTempEncodeBuffer - *ppucBuffer_;
+        stMessageData_.pucMessageBody = *ppucBuffer_ + stMessageData_.uiMessageHeaderLength;
         stMessageData_.uiMessageBodyLength = stMessageData_.uiMessageLength - stMessageData_.uiMessageHeaderLength;
 
         return STATUS::SUCCESS;
     }
 
     STATUS eStatus = EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, eHeaderFormat_, eFormat_);
-    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
+    pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -468,6 +471,7 @@ Encoder::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     pucTempEncodeBuffer += stMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stMessageData_.uiMessageBodyLength;
 
     if (eFormat_ == ENCODE_FORMAT::JSON)
     {
@@ -560,6 +564,7 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
         pcTempBuffer--; // Remove last delimiter ','
+        uiBufferSize_++;
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
@@ -570,6 +575,7 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<true>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
         pcTempBuffer--; // Remove last delimiter ' '
+        uiBufferSize_++;
         if (!CopyToBuffer(&pcTempBuffer, uiBufferSize_, "\r\n")) { return STATUS::BUFFER_FULL; }
         pucTempBuffer = reinterpret_cast<unsigned char*>(pcTempBuffer);
         break;
-- 
2.43.0


From a562eb7c467fa83fc387dbb0d316b308f66fb2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 31/74] fix: short ASCII headers dereferenced a missing message
 definition

---
 src/decoders/oem/src/encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 2dd02e7..f5e72b6 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -351,7 +351,8 @@ bool Encoder::EncodeAsciiShortHeader(const IntermediateHeader& stInterHeader_, c
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_SHORT_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     const uint32_t uiResponse = (stInterHeader_.ucMessageType & static_cast<uint32_t>(MESSAGE_TYPE_MASK::RESPONSE)) >> 7;
     sMsgName.push_back(uiResponse != 0U ? 'R' : 'A'); // Append 'A' for ascii, or 'R' for ascii response
     AppendSiblingId(sMsgName, stInterHeader_);
@@ -369,7 +370,8 @@ bool Encoder::EncodeAbbrevAsciiShortHeader(const IntermediateHeader& stInterHead
 {
     if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SYNC)) { return false; }
 
-    std::string sMsgName(pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId)->name);
+    MessageDefinition::ConstPtr pclMessageDef = pclMyMsgDb->GetMsgDef(stInterHeader_.usMessageId);
+    std::string sMsgName(pclMessageDef != nullptr ? pclMessageDef->name : GetEnumString(vMyCommandDefinitions, stInterHeader_.usMessageId));
     AppendSiblingId(sMsgName, stInterHeader_);
 
     return CopyAllToBufferSeparated(ppcOutBuf_, uiBytesLeft_, OEM4_ABBREV_ASCII_SEPARATOR,                                 //
-- 
2.43.0


From 69b00728e0fa1f9981ad002364b0429a1d613eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 32/74] fix: encoding a message without fields overwrote the
 end of its header

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 src/decoders/oem/src/encoder.cpp                 | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index e4ac819..ba9315a 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -791,6 +791,7 @@ template <typename Derived> class EncoderBase
                                       char** ppcOutBuf_, uint32_t& uiBytesLeft_) const
     {
         if (!CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '{')) { return false; }
+        if (fieldDefinitions_.empty()) { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '}'); }
 
         for (const auto& fieldDef : fieldDefinitions_)
         {
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index f5e72b6..5caa88e 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -565,8 +565,11 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
     case ENCODE_FORMAT::ASCII: {
         auto* pcTempBuffer = reinterpret_cast<char*>(pucTempBuffer);
         if (!EncodeAsciiBody<false>(stMessage_, fieldDefinitions, &pcTempBuffer, uiBufferSize_)) { return STATUS::BUFFER_FULL; }
-        pcTempBuffer--; // Remove last delimiter ','
-        uiBufferSize_++;
+        if (!fieldDefinitions.empty())
+        {
+            pcTempBuffer--; // Remove last delimiter ','
+            uiBufferSize_++;
+        }
         const uint32_t uiCrc = CalculateBlockCrc32(stMessageData_.pucMessageHeader + 1,
                                                    reinterpret_cast<unsigned char*>(pcTempBuffer) - stMessageData_.pucMessageHeader - 1);
         if (!CopyAllToBuffer(&pcTempBuffer, uiBufferSize_, '*', HexValue<uint32_t>{uiCrc, 8}, "\r\n")) { return STATUS::BUFFER_FULL; }
-- 
2.43.0


From aa2f2db163ca8ed94b3e38bc97f53be587bb72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 33/74] fix: encoding a response as JSON threw an exception

---
 include/novatel_edie/decoders/common/encoder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index ba9315a..c4ec429 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -858,6 +858,7 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::FIXED_LENGTH_ARRAY: [[fallthrough]];
             case FIELD_TYPE::ENUM: [[fallthrough]];
+            case FIELD_TYPE::RESPONSE_ID: [[fallthrough]];
             case FIELD_TYPE::SIMPLE:
                 if (!EncodeJsonField(fieldDefRef, clCompField_, ppcOutBuf_, uiBytesLeft_)) { return false; }
                 break;
-- 
2.43.0


From 77c9e6f2655f155f4181c90bf14eca0dc41cbbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:46 +0000
Subject: [PATCH 34/74] fix: JSON encoder did not escape text

---
 .../novatel_edie/decoders/common/encoder.hpp  | 25 ++++++++++++++++++-
 src/decoders/oem/src/encoder.cpp              | 20 +++++++--------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/novatel_edie/decoders/common/encoder.hpp b/include/novatel_edie/decoders/common/encoder.hpp
index c4ec429..538fac0 100644
--- a/include/novatel_edie/decoders/common/encoder.hpp
+++ b/include/novatel_edie/decoders/common/encoder.hpp
@@ -228,6 +228,25 @@ template <typename BufferType> [[nodiscard]] inline bool CopyToBuffer(BufferType
     return true;
 }
 
+// -------------------------------------------------------------------------------------------------------
+// Copy text into a JSON string, escaping the characters which cannot appear in one as they are.
+template <typename BufferType> [[nodiscard]] bool CopyJsonTextToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, std::string_view text_)
+{
+    for (const char c : text_)
+    {
+        if (c == '"' || c == '\\')
+        {
+            if (!CopyToBuffer(buffer_, uiBytesLeft_, '\\') || !CopyToBuffer(buffer_, uiBytesLeft_, c)) { return false; }
+        }
+        else if (static_cast<unsigned char>(c) < 0x20)
+        {
+            if (!CopyToBuffer(buffer_, uiBytesLeft_, "\\u") || !WriteHexToBuffer(buffer_, uiBytesLeft_, static_cast<uint16_t>(c), 4)) { return false; }
+        }
+        else if (!CopyToBuffer(buffer_, uiBytesLeft_, c)) { return false; }
+    }
+    return true;
+}
+
 // -------------------------------------------------------------------------------------------------------
 template <typename BufferType, typename... Args> [[nodiscard]] bool CopyAllToBuffer(BufferType* buffer_, uint32_t& uiBytesLeft_, Args&&... args_)
 {
@@ -852,7 +871,11 @@ template <typename Derived> class EncoderBase
             case FIELD_TYPE::STRING: {
                 const auto value = clCompField_.GetVarFields()[fieldDefRef.index];
                 const auto& str = std::get<std::string>(value);
-                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")", str, "\",")) { return false; }
+                if (!CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', std::string_view(fieldDefRef.name), R"(": ")") ||
+                    !CopyJsonTextToBuffer(ppcOutBuf_, uiBytesLeft_, str) || !CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\","))
+                {
+                    return false;
+                }
                 break;
             }
             case FIELD_TYPE::VARIABLE_LENGTH_ARRAY: [[fallthrough]];
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 5caa88e..0bd260b 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -265,22 +265,22 @@ void Encoder::InitFieldMaps()
 
     jsonFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_,
-                            fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
-                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const char cValue = fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
+                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset));
+        return CopyJsonTextToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1));
     };
 
     jsonFieldMap[CalculateBlockCrc32("c")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                 const MessageDatabase&, size_t offset) {
-        if (fd_.dataType.length == 1)
+        char cValue;
+        if (fd_.dataType.length == 1) { cValue = static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)); }
+        else if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
         {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)), '"');
+            cValue = static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset));
         }
-        if (fd_.dataType.length == 4 && fd_.dataType.name == DATA_TYPE::ULONG)
-        {
-            return CopyAllToBuffer(ppcOutBuf_, uiBytesLeft_, '"', static_cast<char>(cf_.GetFieldValue<uint32_t>(fd_, offset)), '"');
-        }
-        return false;
+        else { return false; }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"') && CopyJsonTextToBuffer(ppcOutBuf_, uiBytesLeft_, std::string_view(&cValue, 1)) &&
+               CopyToBuffer(ppcOutBuf_, uiBytesLeft_, '"');
     };
 }
 
-- 
2.43.0


From 6ab0e41daf0b5c083263c40f006a916f799d42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 35/74] fix: binary encoder reported success for bodies its
 header cannot describe

---
 include/novatel_edie/decoders/oem/encoder.hpp | 2 +-
 src/decoders/oem/src/encoder.cpp              | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/encoder.hpp b/include/novatel_edie/decoders/oem/encoder.hpp
index 940007a..42f152d 100644
--- a/include/novatel_edie/decoders/oem/encoder.hpp
+++ b/include/novatel_edie/decoders/oem/encoder.hpp
@@ -182,7 +182,7 @@ class Encoder : public EncoderBase<Encoder>
     //! over-running.
     //!   FAILURE: stMessageData_.pucMessageHeader is a null pointer.
     //!   UNSUPPORTED: eEncodeFormat_ contains a format that is not supported for
-    //! encoding.
+    //! encoding, or the payload is too long for the length field of its header.
     //----------------------------------------------------------------------------
     [[nodiscard]] STATUS EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, const CompositeField& stMessage_,
                                     const std::vector<BaseField::ConstPtr>& fieldDefinitions, MessageDataStruct& stMessageData_,
diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index 0bd260b..add3231 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <charconv>
 #include <cstring>
+#include <limits>
 
 #include "novatel_edie/decoders/oem/crc.hpp"
 
@@ -598,6 +599,8 @@ Encoder::EncodeBody(unsigned char* const* ppucBuffer_, uint32_t uiBufferSize_, c
         if (stMessageData_.pucMessageHeader == nullptr) { return STATUS::FAILURE; }
         // Go back and set the length field in the header.
         // TODO: this block of code below is what's blocking us from moving this function to common (can solve this with dynamic casting or CRTP?)
+        const size_t maxLength = IsShortHeaderFormat(eHeaderFormat_) ? std::numeric_limits<uint8_t>::max() : std::numeric_limits<uint16_t>::max();
+        if (eFormat_ == ENCODE_FORMAT::BINARY && static_cast<size_t>(pucTempBuffer - *ppucBuffer_) > maxLength) { return STATUS::UNSUPPORTED; }
         if (!IsShortHeaderFormat(eHeaderFormat_))
         {
             auto usLength = static_cast<uint16_t>(pucTempBuffer - *ppucBuffer_);
-- 
2.43.0


From 525354e82279b82195db6fa5e013bc45c3cb6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 36/74] fix: decoding a text message without a body read past
 its end

---
 src/decoders/common/src/message_decoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/common/src/message_decoder.cpp b/src/decoders/common/src/message_decoder.cpp
index 47ae9a0..7a99d8b 100644
--- a/src/decoders/common/src/message_decoder.cpp
+++ b/src/decoders/common/src/message_decoder.cpp
@@ -1048,7 +1048,7 @@ MessageDecoderBase::Decode(const unsigned char* pucMessage_, CompositeField& stI
     std::string sBody;
     const auto* pcTextBody = reinterpret_cast<const char*>(pucTempInData);
     const char* pcTextBodyEnd = nullptr;
-    if (stMetaData_.uiLength > stMetaData_.uiHeaderLength && stMetaData_.eFormat != HEADER_FORMAT::BINARY &&
+    if (stMetaData_.uiLength > 0 && stMetaData_.uiLength >= stMetaData_.uiHeaderLength && stMetaData_.eFormat != HEADER_FORMAT::BINARY &&
         stMetaData_.eFormat != HEADER_FORMAT::SHORT_BINARY)
     {
         sBody.assign(pcTextBody, stMetaData_.uiLength - stMetaData_.uiHeaderLength);
-- 
2.43.0


From e774f8ae74d7c7aedc4512a793eb98f11949e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:17 +0000
Subject: [PATCH 37/74] fix: refuse row indices beyond the end of a field array

FlatFieldArray::GetFieldValue() and operator[] and FieldArray::operator[] did
not check the row index, unlike the other accessors of decoded fields, and
read beyond the rows of the message.
---
 include/novatel_edie/decoders/common/message_decoder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/novatel_edie/decoders/common/message_decoder.hpp b/include/novatel_edie/decoders/common/message_decoder.hpp
index f5988c0..b59d080 100644
--- a/include/novatel_edie/decoders/common/message_decoder.hpp
+++ b/include/novatel_edie/decoders/common/message_decoder.hpp
@@ -565,6 +565,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     template <typename T> T GetFieldValue(const BaseField& field_, size_t index_) const
     {
+        if (index_ >= size()) { throw std::runtime_error("FlatFieldArray::GetFieldValue(): index out of bounds"); }
         return LoadFixedField<T>(fields, field_, index_ * fieldInfo->fixedFieldBytes);
     }
 
@@ -588,6 +589,7 @@ class FlatFieldArray
     // ---------------------------------------------------------------------------
     [[nodiscard]] FieldArrayRecordView operator[](size_t row_) const
     {
+        if (row_ >= size()) { throw std::runtime_error("FlatFieldArray::operator[](): index out of bounds"); }
         return FieldArrayRecordView(fields, row_ * fieldInfo->fixedFieldBytes, fieldInfo);
     }
 
@@ -1477,6 +1479,7 @@ class FieldArray
         if (const auto* flatArray = std::get_if<FlatFieldArray>(fieldArray)) { return (*flatArray)[index_]; }
         if (const auto* compositeArray = std::get_if<CompositeFieldArray>(fieldArray))
         {
+            if (index_ >= compositeArray->size()) { throw std::runtime_error("FieldArray::operator[](): index out of bounds"); }
             return FieldArrayRecordView((*compositeArray)[index_], fieldInfo);
         }
         throw std::runtime_error("FieldArray::operator[]: underlying storage is not a FlatFieldArray or CompositeFieldArray");
-- 
2.43.0


From 0a96d7dd3aee73cf2083c875a2d7898cd60d63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 38/74] fix: leave decoded messages alone when enumerations are
 remapped

A message that was decoded earlier shares the fields of its definition, not
the definition itself. Changing the enumerations of a database rewrote these
fields in place, so the values of such a message changed their meaning.
---
 include/novatel_edie/decoders/common/message_database.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 3c7459d..76f2e5e 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -934,8 +934,10 @@ class MessageDatabase
         {
             if (!EnumFieldsMapped(*msg))
             {
-                // Other databases and decoded messages may share this definition
-                if (msg.use_count() > 1) { msg = std::make_shared<MessageDefinition>(*msg); }
+                // Other databases may share this definition, decoded messages may share its fields
+                const bool bShared = msg.use_count() > 1 || std::any_of(msg->fieldInfo.begin(), msg->fieldInfo.end(),
+                                                                        [](const auto& item_) { return item_.second.use_count() > 1; });
+                if (bShared) { msg = std::make_shared<MessageDefinition>(*msg); }
                 for (const auto& item : msg->fieldInfo) { MapMessageEnumFields(item.second->messageOrderedFields); }
             }
 
-- 
2.43.0


From 6cb3d5df4e9dce3b706598943dc0fabd7836ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 39/74] fix: parse text messages whose trailer exceeds the
 maximum length

The framers accept ASCII messages of up to MESSAGE_SIZE_MAX bytes plus their
CRC and line ending. Such a message does not fit into the frame buffer of the
parser, which asked for it again and again and never returned.
---
 include/novatel_edie/decoders/oem/parser.hpp |  1 +
 src/decoders/oem/src/parser.cpp              | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/parser.hpp b/include/novatel_edie/decoders/oem/parser.hpp
index c470ea8..7cd19b6 100644
--- a/include/novatel_edie/decoders/oem/parser.hpp
+++ b/include/novatel_edie/decoders/oem/parser.hpp
@@ -69,6 +69,7 @@ class Parser
     std::unique_ptr<unsigned char[]> pcMyEncodeBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
     unsigned char* pucMyEncodeBufferPointer{nullptr};
     std::unique_ptr<unsigned char[]> pcMyFrameBuffer{std::make_unique<unsigned char[]>(uiParserInternalBufferSize)};
+    uint32_t uiMyFrameBufferSize{uiParserInternalBufferSize};
     unsigned char* pucMyFrameBufferPointer{nullptr};
 
     // Configuration options
diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index f7164de..b8358ed 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -100,7 +100,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
     while (true)
     {
         pucMyFrameBufferPointer = pcMyFrameBuffer.get(); //!< Reset the buffer.
-        auto eStatus = clMyFramer.GetFrame(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
+        auto eStatus = clMyFramer.GetFrame(pucMyFrameBufferPointer, uiMyFrameBufferSize, stMetaData_);
 
         // Datasets ending with an Abbreviated ASCII message will always return an incomplete framing status
         // as there is no delimiter marking the end of the log.
@@ -111,7 +111,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
         if (bDecodeIncompleteAbbreviated_ && eStatus == STATUS::INCOMPLETE &&
             (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII || stMetaData_.eFormat == HEADER_FORMAT::SHORT_ABB_ASCII))
         {
-            uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiParserInternalBufferSize);
+            uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiMyFrameBufferSize);
             if (uiFlushSize > 0)
             {
                 eStatus = STATUS::SUCCESS;
@@ -146,7 +146,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 // Should we decompress this?
                 if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
                 {
-                    eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
+                    eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiMyFrameBufferSize, stMetaData_);
                     if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
                     else
                     {
@@ -190,6 +190,12 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
             }
         }
         else if (eStatus == STATUS::INCOMPLETE || eStatus == STATUS::BUFFER_EMPTY) { return STATUS::BUFFER_EMPTY; }
+        else if (eStatus == STATUS::BUFFER_FULL && stMetaData_.uiLength > uiMyFrameBufferSize)
+        {
+            // The trailer of a text message may exceed the maximum message length, the framer provides the message again
+            pcMyFrameBuffer = std::make_unique<unsigned char[]>(stMetaData_.uiLength);
+            uiMyFrameBufferSize = stMetaData_.uiLength;
+        }
         else { pclMyLogger->info("Framer returned status {}", eStatus); }
     }
 }
-- 
2.43.0


From 7a89384fd2f686b1d82eb0750b7e52030eea273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 40/74] fix: report the header of the message that was read
 from the parser

ReadIntermediate(), and Read() for messages without a definition, set the
message and its body but left the header pointer and length as they were after
an earlier message, which may refer to another buffer.
---
 src/decoders/oem/src/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index b8358ed..233d8cb 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -156,6 +156,9 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                     // Continue if we succeeded.
                 }
 
+                stMessageData_.uiMessageLength = stMetaData_.uiLength;
+                stMessageData_.pucMessageHeader = pucMyFrameBufferPointer;
+                stMessageData_.uiMessageHeaderLength = stMetaData_.uiHeaderLength;
                 pucMyFrameBufferPointer += stMetaData_.uiHeaderLength;
                 stMessageData_.pucMessageBody = pucMyFrameBufferPointer;
                 stMessageData_.uiMessageBodyLength = stMetaData_.uiLength - stMetaData_.uiHeaderLength;
@@ -170,7 +173,9 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 pclMyLogger->info("MessageDecoder returned status {}", eStatus);
                 if (bMyReturnUnknownBytes)
                 {
+                    stMessageData_.pucMessageHeader = nullptr;
                     stMessageData_.pucMessageBody = nullptr;
+                    stMessageData_.uiMessageHeaderLength = 0;
                     stMessageData_.uiMessageBodyLength = 0;
                     return STATUS::UNKNOWN;
                 }
-- 
2.43.0


From f72e8a9e1b94c3e8a0cf3f1599a2a53af85e06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 41/74] fix: deliver what the final attempt at the end of a
 file yields

An incomplete abbreviated ASCII message at the end of a file that has no
definition, or that cannot be decoded, was removed from the parser and then
lost, because only a success was reported to the caller.
---
 include/novatel_edie/decoders/common/file_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 5e4aaae..9e6147b 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -89,7 +89,9 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
                 if constexpr (std::is_invocable_v<ParserFunc, Args..., bool>)
                 {
                     // For OEM parser, make a final attempt to decode an incomplete abbreviated ASCII message from remaining bytes
-                    return parserFunc_(std::forward<Args>(args_)..., true) == STATUS::SUCCESS ? STATUS::SUCCESS : STATUS::STREAM_EMPTY;
+                    const STATUS eFinalStatus = parserFunc_(std::forward<Args>(args_)..., true);
+                    const bool bNothingLeft = eFinalStatus == STATUS::INCOMPLETE || eFinalStatus == STATUS::BUFFER_EMPTY;
+                    return bNothingLeft ? STATUS::STREAM_EMPTY : eFinalStatus;
                 }
                 return STATUS::STREAM_EMPTY;
             }
-- 
2.43.0


From 6fd210db2da07038366eb9f37042682320a3ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 42/74] fix: refuse input streams that have failed

A stream that is at its end was refused, but one that could not be opened
replaced the current stream and reported that there was nothing to read.
---
 include/novatel_edie/decoders/common/file_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 9e6147b..534bda8 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -240,7 +240,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
     //----------------------------------------------------------------------------
     [[nodiscard]] bool SetStream(std::shared_ptr<std::istream> pclInputStream_)
     {
-        if (pclInputStream_ == nullptr || pclInputStream_->eof()) { return false; }
+        if (pclInputStream_ == nullptr || !pclInputStream_->good()) { return false; }
         pclMyInputStream = pclInputStream_;
         Reset();
         return true;
-- 
2.43.0


From 072354cb93705f97232e828e9f44c6c95dbb2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 43/74] fix: read from input streams that can not be rewound

The attempt to rewind such a stream, e.g. a pipe, left it in a failed state so
nothing could be read from it although SetStream() and Reset() reported
success.
---
 include/novatel_edie/decoders/common/file_parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index 534bda8..c247ad8 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -310,6 +310,12 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
         {
             pclMyInputStream->clear();
             pclMyInputStream->seekg(0, std::ios::beg);
+            if (!pclMyInputStream->good())
+            {
+                // The stream can not be rewound, but what follows can still be read
+                pclMyInputStream->clear();
+                return false;
+            }
         }
         return true;
     }
-- 
2.43.0


From 5b4abbbb40a12418946f458f97567c0b935a6bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 44/74] fix: report an empty stream when no input stream was
 set

---
 include/novatel_edie/decoders/common/file_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/decoders/common/file_parser.hpp b/include/novatel_edie/decoders/common/file_parser.hpp
index c247ad8..5aebd9d 100644
--- a/include/novatel_edie/decoders/common/file_parser.hpp
+++ b/include/novatel_edie/decoders/common/file_parser.hpp
@@ -54,6 +54,7 @@ template <typename ParserT, typename FilterT, typename MetaDataT, typename Inter
 
     [[nodiscard]] bool ReadStream()
     {
+        if (pclMyInputStream == nullptr) { return false; }
         std::array<char, MAX_ASCII_MESSAGE_LENGTH> cData{};
         pclMyInputStream->read(cData.data(), std::min(cData.size(), clMyParser.GetAvailableSpace()));
         size_t ullBytesRead = pclMyInputStream->gcount();
-- 
2.43.0


From 4d19b8f511b7f368279e15798536528f8a1d0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 45/74] fix: keep the range decompressor within the message
 body and the RANGE record limit

---
 .../oem/rangecmp/range_decompressor.hpp       |  9 +-
 .../oem/src/rangecmp/range_decompressor.cpp   | 90 +++++++++++++++----
 2 files changed, 78 insertions(+), 21 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 84e2b26..45eefcd 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -98,16 +98,17 @@ class RangeDecompressor
                          double primaryPsr, double primaryDoppler) const;
 
     //! Convert a RANGECMP message into RANGE message.
-    static void RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_);
+    static void RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, uint32_t uiBodyLength_, Range& stRangeMessage_);
 
     //! Convert a RANGECMP2 message into RANGE message.
-    void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_);
+    void RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, uint32_t uiBodyLength_, Range& stRangeMessage_,
+                          const MetaDataStruct& stMetaData_);
 
     //! Convert a RANGECMP4 message into RANGE message.
-    void RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiBodyLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     //! Convert a RANGECMP5 message into RANGE message.
-    void RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
+    void RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiBodyLength_, Range& stRangeMessage_, const MetaDataStruct& pstMetaData_);
 
     Filter clMyRangeCmpFilter;
     HeaderDecoder clMyHeaderDecoder;
diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index e408789..d99326e 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -26,11 +26,43 @@
 
 #include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
 
+#include <algorithm>
 #include <stdexcept>
 
 using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
+namespace {
+//------------------------------------------------------------------------------
+// Get the next unused observation of a RANGE message.
+RangeData& NextRangeData(Range& stRangeMessage_)
+{
+    if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations for a RANGE message."); }
+    return stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+}
+
+//------------------------------------------------------------------------------
+// Load a fixed size message structure from a message body which may not fill it.
+template <typename T> T LoadMessage(const unsigned char* pucData_, uint32_t uiBodyLength_)
+{
+    if (uiBodyLength_ < sizeof(uint32_t)) { throw std::runtime_error("Message body is too short."); }
+    T stMessage;
+    std::memcpy(&stMessage, pucData_, std::min<size_t>(uiBodyLength_, sizeof(T)));
+    return stMessage;
+}
+
+//------------------------------------------------------------------------------
+// Get the number of bitfield bytes claimed by a message, which must all be within its body.
+uint32_t ExtractByteCount(unsigned char** ppucData_, uint32_t uiBodyLength_)
+{
+    if (uiBodyLength_ < sizeof(uint32_t)) { throw std::runtime_error("Message body is too short."); }
+    const auto uiByteCount = LoadValueFromBuffer<uint32_t>(*ppucData_);
+    if (uiByteCount > uiBodyLength_ - sizeof(uint32_t)) { throw std::runtime_error("Message contains more bytes than its body."); }
+    *ppucData_ += sizeof(uint32_t);
+    return uiByteCount;
+}
+} // namespace
+
 //------------------------------------------------------------------------------
 RangeDecompressor::RangeDecompressor(MessageDatabase::Ptr pclJsonDb_)
     : clMyHeaderDecoder(pclJsonDb_), clMyMessageDecoder(pclJsonDb_), clMyEncoder(pclJsonDb_)
@@ -359,7 +391,7 @@ void RangeDecompressor::PopulateNextRangeData(RangeData& stRangeData_, const ran
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_)
+void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMessage_, uint32_t uiBodyLength_, Range& stRangeMessage_)
 {
     using namespace rangecmp;
 
@@ -371,6 +403,11 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
     constexpr std::array<double, 16> stdDevPsrScaling = {0.050, 0.075, 0.113, 0.169, 0.253,  0.380,  0.570,  0.854,
                                                          1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
 
+    if (stRangeCmpMessage_.uiNumberOfObservations > RANGE_RECORD_MAX ||
+        sizeof(uint32_t) + stRangeCmpMessage_.uiNumberOfObservations * sizeof(RangeCmpData) > uiBodyLength_)
+    {
+        throw std::runtime_error("Message contains more observations than its body.");
+    }
     stRangeMessage_.uiNumberOfObservations = stRangeCmpMessage_.uiNumberOfObservations;
 
     // Decompress each field from the RangeCmpData and put it into the respective RangeData.
@@ -405,7 +442,8 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMessage_, uint32_t uiBodyLength_, Range& stRangeMessage_,
+                                         const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp2;
 
@@ -426,9 +464,17 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
                                                          0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
 
     stRangeMessage_.uiNumberOfObservations = 0;
+    if (stRangeCmpMessage_.uiNumberOfRangeDataBytes > std::min<size_t>(uiBodyLength_ - sizeof(uint32_t), sizeof(stRangeCmpMessage_.aucRangeData)))
+    {
+        throw std::runtime_error("Message contains more range data bytes than its body.");
+    }
     uint32_t uiRangeDataBytesDecompressed = 0;
     while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
     {
+        if (stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed < sizeof(SatelliteBlock))
+        {
+            throw std::runtime_error("Not enough bytes remaining for a satellite block.");
+        }
         auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
@@ -445,6 +491,10 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
         {
             // Decompress the signal block
+            if (stRangeCmpMessage_.uiNumberOfRangeDataBytes - uiRangeDataBytesDecompressed < sizeof(SignalBlock))
+            {
+                throw std::runtime_error("Not enough bytes remaining for a signal block.");
+            }
             auto stSigBlock = LoadValueFromBuffer<SignalBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
             const auto eSignalType = GetBitfield<SIGNAL_TYPE, SIG_SIGNAL_TYPE_MASK>(stSigBlock.uiCombinedField1);
@@ -459,7 +509,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
             ChannelTrackingStatus stCtStatus(stSatBlock, stSigBlock);
 
             // Construct the decompressed range data
-            RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+            RangeData& stRangeData = NextRangeData(stRangeMessage_);
             stRangeData.usPrn = usPrn;
             stRangeData.sGlonassFrequency = GetBitfield<int16_t, SAT_GLONASS_FREQUENCY_ID_MASK>(stSatBlock.ulCombinedField);
             stRangeData.dPsr = iPsrBase + GetBitfield<uint64_t, SIG_PSR_DIFF_MASK>(stSigBlock.ullCombinedField2) / SIG_PSR_DIFF_SCALE_FACTOR;
@@ -479,7 +529,7 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiBodyLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp4;
 
@@ -496,8 +546,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
-    pucData_ += sizeof(uint32_t);
+    auto uiBytesLeft = ExtractByteCount(&pucData_, uiBodyLength_);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
 
@@ -506,6 +555,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
     // can be read correctly.
     const auto skipDBlock = [&uiBytesLeft, &uiBitOffset, &pucData_](bool& primary) {
         const uint32_t uiBitsToSkip = primary ? SIG_DBLK_PRIMARY_BITS : SIG_DBLK_SECONDARY_BITS;
+        if (uiBitsToSkip > uiBytesLeft * 8 - uiBitOffset) { throw std::runtime_error("Not enough bytes remaining in the buffer."); }
         uiBytesLeft -= (uiBitsToSkip + uiBitOffset) / 8;
         pucData_ += (uiBitsToSkip + uiBitOffset) / 8;
         uiBitOffset = (uiBitsToSkip + uiBitOffset) % 8;
@@ -582,8 +632,8 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                            PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
-                                                  stCtStatus, prn, stRb.first.cGlonassFrequency);
+                            PopulateNextRangeData(NextRangeData(stRangeMessage_), stBlock, stMetaData_, stCtStatus, prn,
+                                                  stRb.first.cGlonassFrequency);
                         }
                         else
                         {
@@ -604,7 +654,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                    RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                    RangeData& stRangeData = NextRangeData(stRangeMessage_);
                     PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
 
                     // Always store reference blocks.
@@ -655,14 +705,13 @@ void RangeDecompressor::DecompressBlock(unsigned char** ppucData_, uint32_t& uiB
 }
 
 //------------------------------------------------------------------------------
-void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
+void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, uint32_t uiBodyLength_, Range& stRangeMessage_, const MetaDataStruct& stMetaData_)
 {
     using namespace rangecmp5;
 
     stRangeMessage_.uiNumberOfObservations = 0;
     uint32_t uiBitOffset = 0;
-    auto uiBytesLeft = LoadValueFromBuffer<uint32_t>(pucData_);
-    pucData_ += sizeof(uint32_t);
+    auto uiBytesLeft = ExtractByteCount(&pucData_, uiBodyLength_);
 
     auto systems = ExtractBitfield<uint16_t, SATELLITE_SYSTEMS_BITS>(&pucData_, uiBytesLeft, uiBitOffset);
 
@@ -722,7 +771,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
-                RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
+                RangeData& stRangeData = NextRangeData(stRangeMessage_);
                 PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
             }
 
@@ -756,6 +805,8 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     if (!clMyRangeCmpFilter.DoFiltering(stMetaData_)) { return STATUS::UNSUPPORTED; }
 
     HEADER_FORMAT eFormat = stMetaData_.eFormat;
+    if (uiBufferSize_ < stMetaData_.uiHeaderLength) { return STATUS::BUFFER_FULL; }
+    uint32_t uiBodyLength = std::min(stMetaData_.uiBinaryMsgLength, uiBufferSize_ - stMetaData_.uiHeaderLength);
     pucTempMessagePointer += stMetaData_.uiHeaderLength;
     // If the message is not in binary format, we need to ensure that it is encoded to binary so that it can be decompressed.
     if (eFormat != HEADER_FORMAT::BINARY)
@@ -768,6 +819,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
         pucTempMessagePointer = stMessageData.pucMessageBody;
+        uiBodyLength = stMessageData.uiMessageBodyLength - OEM4_BINARY_CRC_LENGTH;
     }
 
     // Convert the RANGECMP* message to a RANGE message.
@@ -776,11 +828,15 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         Range stRange;
         switch (stMetaData_.usMessageId)
         {
-        case RANGECMP_MSG_ID: RangeCmpToRange(LoadValueFromBuffer<rangecmp::RangeCmp>(pucTempMessagePointer), stRange); break;
-        case RANGECMP2_MSG_ID: RangeCmp2ToRange(LoadValueFromBuffer<rangecmp2::RangeCmp>(pucTempMessagePointer), stRange, stMetaData_); break;
+        case RANGECMP_MSG_ID:
+            RangeCmpToRange(LoadMessage<rangecmp::RangeCmp>(pucTempMessagePointer, uiBodyLength), uiBodyLength, stRange);
+            break;
+        case RANGECMP2_MSG_ID:
+            RangeCmp2ToRange(LoadMessage<rangecmp2::RangeCmp>(pucTempMessagePointer, uiBodyLength), uiBodyLength, stRange, stMetaData_);
+            break;
         case RANGECMP3_MSG_ID: [[fallthrough]];
-        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
-        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, stRange, stMetaData_); break;
+        case RANGECMP4_MSG_ID: RangeCmp4ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
+        case RANGECMP5_MSG_ID: RangeCmp5ToRange(pucTempMessagePointer, uiBodyLength, stRange, stMetaData_); break;
         default: return STATUS::UNSUPPORTED;
         }
 
-- 
2.43.0


From 8c296e3c9e803870ede881a68445483b7fd576b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 46/74] fix: do not write the decompressed RANGE message past
 the user's buffer

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index d99326e..008907b 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -823,9 +823,9 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     }
 
     // Convert the RANGECMP* message to a RANGE message.
+    Range stRange;
     try
     {
-        Range stRange;
         switch (stMetaData_.usMessageId)
         {
         case RANGECMP_MSG_ID:
@@ -843,7 +843,6 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
         // Set the binary message length in the metadata for decoding purposes.
         stMetaData_.uiBinaryMsgLength = sizeof(stRange.uiNumberOfObservations) + stRange.uiNumberOfObservations * sizeof(RangeData);
         stMetaData_.uiLength = stMetaData_.uiHeaderLength + stMetaData_.uiBinaryMsgLength;
-        memcpy(pucTempMessagePointer, &stRange, stMetaData_.uiBinaryMsgLength);
     }
     catch (...)
     {
@@ -859,7 +858,7 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     // The message should be returned in its original format.
     stMetaData_.eFormat = HEADER_FORMAT::BINARY;
     stMessage = {};
-    eStatus = clMyMessageDecoder.Decode(pucTempMessagePointer, stMessage, stMetaData_);
+    eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(&stRange), stMessage, stMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     stMetaData_.eFormat = eFormat;
-- 
2.43.0


From bbdb914df3f59b79f9a4c558a4bc69bd9860cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 47/74] fix: forget the RANGECMP4 reference blocks when the
 range decompressor is reset

---
 .../decoders/oem/rangecmp/range_decompressor.hpp             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
index 45eefcd..fce4bf9 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp
@@ -58,8 +58,9 @@ class RangeDecompressor
     //! Reset the decompressor to handle new datasets.
     void Reset()
     {
-        for (auto& it : mMyRangeCmp2LockTimes) { it.second = {}; }
-        for (auto& it : mMyRangeCmp4LockTimes) { it.second = {}; }
+        mMyRangeCmp2LockTimes.clear();
+        mMyRangeCmp4LockTimes.clear();
+        mMyReferenceBlocks.clear();
     }
 
     //! Decompresses a RANGECMP message provided in a buffer and overwrites it with the equivalent RANGE message.
-- 
2.43.0


From f31546409877e22e6699bd9d6ad08ebe692b52e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 48/74] fix: do not decompress against a cleared RANGECMP4
 reference block

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 008907b..2684fb8 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -538,9 +538,10 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiBod
     // Clear any dead reference blocks on the whole second. We should be storing new ones.
     if (std::abs(dSecondOffset) < std::numeric_limits<double>::epsilon())
     {
-        for (auto& it : mMyReferenceBlocks)
+        for (auto it = mMyReferenceBlocks.begin(); it != mMyReferenceBlocks.end();)
         {
-            if (static_cast<MEASUREMENT_SOURCE>(it.first & 1) == eSource) { it.second = {}; }
+            if (static_cast<MEASUREMENT_SOURCE>(it->first & 1) == eSource) { it = mMyReferenceBlocks.erase(it); }
+            else { ++it; }
         }
     }
 
-- 
2.43.0


From 5ee5a47613ea6de743a8ab8e51896e0a336fc82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 49/74] fix: keep the RANGECMP4 reference blocks of PRN 64
 apart

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..6ff9a69 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -763,8 +763,8 @@ struct LockTimeInfo
 
 constexpr uint64_t MakeKey(SYSTEM system, uint32_t satellite, SIGNAL_TYPE signal, MEASUREMENT_SOURCE source)
 {
-    assert(static_cast<uint64_t>(system) < 16 && satellite < 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
-    return static_cast<uint64_t>(system) << 11 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
+    assert(static_cast<uint64_t>(system) < 16 && satellite <= 64 && static_cast<uint64_t>(signal) < 16 && static_cast<uint64_t>(source) < 2);
+    return static_cast<uint64_t>(system) << 12 | satellite << 5 | static_cast<uint64_t>(signal) << 1 | static_cast<uint64_t>(source);
 }
 
 } // namespace rangecmp4
-- 
2.43.0


From 628b68d6467759dc3fff46b1363bd648bb29ca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 50/74] fix: extend the sign of RANGECMP5 Dopplers from their
 most significant bit

---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 6ff9a69..b55a9d8 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -379,7 +379,7 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
-- 
2.43.0


From 76b68a07faa8b83297da580a4ad6ebb3d0ccb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 51/74] fix: keep range lock times running over the end of a
 week

---
 .../oem/src/rangecmp/range_decompressor.cpp   | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 2684fb8..39e3c66 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -33,6 +33,13 @@ using namespace novatel::edie;
 using namespace novatel::edie::oem;
 
 namespace {
+//------------------------------------------------------------------------------
+// Get the time of a message, in milliseconds, which (unlike the time of week) increases from one week to the next.
+double GetGpsMilliseconds(const MetaDataStruct& stMetaData_)
+{
+    return static_cast<double>(stMetaData_.usWeek) * SECS_IN_WEEK * SEC_TO_MILLI_SEC + stMetaData_.dMilliseconds;
+}
+
 //------------------------------------------------------------------------------
 // Get the next unused observation of a RANGE message.
 RangeData& NextRangeData(Range& stRangeMessage_)
@@ -107,17 +114,18 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
 {
     using namespace rangecmp2;
 
+    const double dNow = GetGpsMilliseconds(stMetaData_);
     double dLockTimeMilliseconds = uiLockTimeBits_;
 
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp2LockTimes[key_];
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += stMetaData_.dMilliseconds - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
+        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += dNow - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
         // If the lock time is not already saturated, store this information if this observation is seen again.
         else
         {
-            stLockTimeInfo.dLockTimeSaturatedMilliseconds = stMetaData_.dMilliseconds;
+            stLockTimeInfo.dLockTimeSaturatedMilliseconds = dNow;
             stLockTimeInfo.bLockTimeSaturated = true;
         }
     }
@@ -199,6 +207,8 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
 
     using namespace rangecmp4;
 
+    const double dNow = GetGpsMilliseconds(stMetaData_);
+
     // Store the lock time if it is different from the once we have currently.
     LockTimeInfo& stLockTimeInfo = mMyRangeCmp4LockTimes[key_];
 
@@ -219,7 +229,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         }
 
         // Record the last bit change and the bitfield that was changed to.
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dNow;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
     // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
@@ -227,7 +237,7 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dNow;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
 
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
@@ -235,12 +245,12 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
     }
     // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
-             stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
+             dNow - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
     {
-        stLockTimeInfo.dLastBitfieldChangeMilliseconds = stMetaData_.dMilliseconds;
+        stLockTimeInfo.dLastBitfieldChangeMilliseconds = dNow;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    stLockTimeInfo.dMilliseconds = stMetaData_.dMilliseconds - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
+    stLockTimeInfo.dMilliseconds = dNow - stLockTimeInfo.dLastBitfieldChangeMilliseconds + lockTime[stLockTimeInfo.ucBits];
     return stLockTimeInfo.dMilliseconds / SEC_TO_MILLI_SEC;
 }
 
-- 
2.43.0


From 7b342cbd378eeb98f55554134025268d5ca04a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 52/74] fix: do not report negative lock times when the time of
 range logs goes backwards

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 39e3c66..0341816 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -121,8 +121,11 @@ double RangeDecompressor::GetRangeCmp2LockTime(const MetaDataStruct& stMetaData_
     if (uiLockTimeBits_ == SIG_LOCKTIME_MASK >> Lsb(SIG_LOCKTIME_MASK))
     {
         // If the lock time was already saturated, use the stored time to add the missing offset.
-        if (stLockTimeInfo.bLockTimeSaturated) { dLockTimeMilliseconds += dNow - stLockTimeInfo.dLockTimeSaturatedMilliseconds; }
-        // If the lock time is not already saturated, store this information if this observation is seen again.
+        if (stLockTimeInfo.bLockTimeSaturated && dNow >= stLockTimeInfo.dLockTimeSaturatedMilliseconds)
+        {
+            dLockTimeMilliseconds += dNow - stLockTimeInfo.dLockTimeSaturatedMilliseconds;
+        }
+        // If the lock time is not already saturated (or was saturated in the future), store this information if this observation is seen again.
         else
         {
             stLockTimeInfo.dLockTimeSaturatedMilliseconds = dNow;
@@ -232,8 +235,8 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         stLockTimeInfo.dLastBitfieldChangeMilliseconds = dNow;
         stLockTimeInfo.ucBits = ucLockTimeBits_;
     }
-    // If the lock time is absolute and the lock time bits have decreased, there was likely an outage.
-    else if (ucLockTimeBits_ < stLockTimeInfo.ucBits)
+    // If the lock time is absolute and the lock time bits (or the time itself) have decreased, there was likely an outage.
+    else if (ucLockTimeBits_ < stLockTimeInfo.ucBits || dNow < stLockTimeInfo.dLastBitfieldChangeMilliseconds)
     {
         // In the event of an outage of any kind, reset the lock time to relative.
         stLockTimeInfo.bAbsolute = false;
-- 
2.43.0


From ab842773224e4d8973be3ce25d983f4b803b9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 53/74] fix: use the reported lock time range when it did not
 change in the expected time

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 0341816..61ecd4a 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -246,10 +246,12 @@ double RangeDecompressor::GetRangeCmp4LockTime(const MetaDataStruct& stMetaData_
         pclMyLogger->warn("Detected a lock time slip (perhaps caused by an outage) of {}ms at time {}w, {}ms.",
                           stLockTimeInfo.dMilliseconds - lockTime[stLockTimeInfo.ucBits], stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-    // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the last change time
+    // If the lock time is absolute and the bitfield hasn't changed within the expected time, reset the lock time to relative.
     else if (stLockTimeInfo.bAbsolute && ucLockTimeBits_ < 15 &&
              dNow - stLockTimeInfo.dLastBitfieldChangeMilliseconds > lockTime[ucLockTimeBits_ + 1])
     {
+        stLockTimeInfo.bAbsolute = false;
+        stLockTimeInfo.ucBits = ucLockTimeBits_;
         stLockTimeInfo.dLastBitfieldChangeMilliseconds = dNow;
         pclMyLogger->warn("Expected a bit change much sooner at time {}w, {}ms.", stMetaData_.usWeek, stMetaData_.dMilliseconds);
     }
-- 
2.43.0


From 2262ca6b7732d62c377cb9d6512c6f34188f8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 54/74] fix: do not set the grouping bit of another PRN when
 RANGECMP4 signals are left out

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 61ecd4a..9073e7f 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -614,6 +614,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiBod
             }
 
             const uint32_t prn = PopLsb(satellites) + 1;
+            const uint32_t uiFirstObservation = stRangeMessage_.uiNumberOfObservations;
             const uint32_t uiIncludedSignalCount = PopCount(includedSignals[uiPrnIndex]);
             bool bPrimaryBlock = true;
             double primaryPseudorange{};
@@ -679,11 +680,11 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, uint32_t uiBod
             }
 
             // Update the grouping bit in the status word if multiple signals for this PRN are counted.
-            if (uiIncludedSignalCount > 1 && uiIncludedSignalCount <= stRangeMessage_.uiNumberOfObservations)
+            if (uiIncludedSignalCount > 1)
             {
-                for (uint32_t uiIndex = uiIncludedSignalCount; uiIndex > 0; uiIndex--)
+                for (uint32_t uiIndex = uiFirstObservation; uiIndex < stRangeMessage_.uiNumberOfObservations; uiIndex++)
                 {
-                    stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations - uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
+                    stRangeMessage_.astRangeData[uiIndex].uiChannelTrackingStatus |= CTS_GROUPING_MASK;
                 }
             }
         }
-- 
2.43.0


From 5411a8a32c35c06d2a82d46e13d172fdf2cf0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:15 +0000
Subject: [PATCH 55/74] fix: initialize the logger under the lock that
 registration and sink additions take

---
 include/novatel_edie/common/logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index 2326513..ce8be49 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -171,6 +171,7 @@ class CPPLoggerManager : public LoggerManager
     //----------------------------------------------------------------------------
     void InitLogger(const std::filesystem::path& configPath_ = "")
     {
+        std::lock_guard<std::mutex> lock(loggerMutex);
         if (rootLogger)
         {
             rootLogger->warn("Root logger already initialized. Configuration from '{}' ignored.", configPath_.string());
-- 
2.43.0


From df35b471b40982df7c2a3e24f1cb0fa9cb3684fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 56/74] fix: do not lose a level change for a logger that is
 being registered

---
 include/novatel_edie/common/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/novatel_edie/common/logger.hpp b/include/novatel_edie/common/logger.hpp
index ce8be49..4ba355c 100644
--- a/include/novatel_edie/common/logger.hpp
+++ b/include/novatel_edie/common/logger.hpp
@@ -162,7 +162,11 @@ class CPPLoggerManager : public LoggerManager
     //!
     //! \param[in] eLevel_ The logging level to set.
     //----------------------------------------------------------------------------
-    void SetLoggingLevel(spdlog::level::level_enum eLevel_) { spdlog::set_level(eLevel_); }
+    void SetLoggingLevel(spdlog::level::level_enum eLevel_)
+    {
+        std::lock_guard<std::mutex> lock(loggerMutex);
+        spdlog::set_level(eLevel_);
+    }
 
     //----------------------------------------------------------------------------
     //! \brief Initializes the logger with an optional configuration file.
-- 
2.43.0


From ccd44a7da711ef6cdc38bc3e9f2758f9b202858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 57/74] fix: refuse numbers that do not fit their place in a
 message database file

---
 src/decoders/common/src/json_db_reader.cpp | 33 +++++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 61b9bb2..61c914a 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -29,6 +29,7 @@
 #include <algorithm>
 #include <cassert>
 #include <future>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -73,14 +74,18 @@ std::string AsStringOrEmpty(element el_) { return el_.is_null() ? std::string()
 
 //! Read a JSON integer known to be unsigned, accepting either simdjson tag.
 //! simdjson stores a number that fits in int64 as INT64 and a larger one as UINT64, and get<T>()
-//! is strict about that tag, so both cases must be tried. Throws if the value is not an integer or is negative.
-uint64_t AsUint(element el_)
+//! is strict about that tag, so both cases must be tried. Throws if the value is not an integer, is negative or does not fit T.
+template <typename T> T AsUint(element el_)
 {
     uint64_t u;
-    if (el_.get(u) == simdjson::SUCCESS) { return u; }
-    int64_t i;
-    if (el_.get(i) == simdjson::SUCCESS && i >= 0) { return static_cast<uint64_t>(i); }
-    throw std::runtime_error("Expected an unsigned JSON integer value");
+    if (el_.get(u) != simdjson::SUCCESS)
+    {
+        int64_t i;
+        if (el_.get(i) != simdjson::SUCCESS || i < 0) { throw std::runtime_error("Expected an unsigned JSON integer value"); }
+        u = static_cast<uint64_t>(i);
+    }
+    if (u > std::numeric_limits<T>::max()) { throw std::runtime_error("JSON integer value out of range"); }
+    return static_cast<T>(u);
 }
 
 //! Read an optional string member, returning the default if the key is absent.
@@ -110,7 +115,7 @@ void ParseEnumerators(element j_, std::vector<EnumDataType>& vEnumerators_);
 //-----------------------------------------------------------------------
 void ParseEnumDataType(element j_, EnumDataType& f_)
 {
-    f_.value = static_cast<uint32_t>(AsUint(Member(j_, "value")));
+    f_.value = AsUint<uint32_t>(Member(j_, "value"));
     f_.name = AsString(Member(j_, "name"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
@@ -120,7 +125,7 @@ void ParseSimpleDataType(element j_, SimpleDataType& f_)
 {
     const auto itrDataTypeMapping = DataTypeEnumLookup.find(std::string(AsStringView(Member(j_, "name"))));
     f_.name = itrDataTypeMapping != DataTypeEnumLookup.end() ? itrDataTypeMapping->second : DATA_TYPE::UNKNOWN;
-    f_.length = static_cast<uint16_t>(AsUint(Member(j_, "length")));
+    f_.length = AsUint<uint16_t>(Member(j_, "length"));
     f_.description = AsStringOrEmpty(Member(j_, "description"));
 }
 
@@ -159,11 +164,11 @@ void ParseArrayField(element j_, ArrayField& fd_)
 {
     ParseBaseField(j_, fd_);
 
-    fd_.arrayLength = static_cast<uint32_t>(AsUint(Member(j_, "arrayLength")));
+    fd_.arrayLength = AsUint<uint32_t>(Member(j_, "arrayLength"));
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUint<uint8_t>(arrayLengthFieldSize) : 4;
 
     element arrayLengthRef;
     if (j_["arrayLengthRef"].get(arrayLengthRef) == simdjson::SUCCESS) { fd_.arrayLengthRef = AsStringOrEmpty(arrayLengthRef); }
@@ -175,11 +180,11 @@ void ParseFieldArrayField(element j_, FieldArrayField& fd_, const AlignFunction&
     ParseBaseField(j_, fd_);
 
     element arrayLength = Member(j_, "arrayLength");
-    fd_.arrayLength = arrayLength.is_null() ? 0 : static_cast<uint32_t>(AsUint(arrayLength));
+    fd_.arrayLength = arrayLength.is_null() ? 0 : AsUint<uint32_t>(arrayLength);
 
     element arrayLengthFieldSize;
     fd_.arrayLengthFieldSize =
-        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? static_cast<uint8_t>(AsUint(arrayLengthFieldSize)) : 4;
+        j_["arrayLengthFieldSize"].get(arrayLengthFieldSize) == simdjson::SUCCESS ? AsUint<uint8_t>(arrayLengthFieldSize) : 4;
 
     FieldInfo stFieldInfo{};
     fd_.fieldSize = fd_.arrayLength * ParseFields(Member(j_, "fields"), stFieldInfo, alignFn_);
@@ -251,7 +256,7 @@ uint32_t ParseFields(element j_, FieldInfo& vFields_, const AlignFunction& align
         {
             auto pstField = std::make_shared<ArrayField>();
             ParseArrayField(field, *pstField);
-            auto uiArrayLength = static_cast<uint32_t>(AsUint(Member(field, "arrayLength")));
+            auto uiArrayLength = AsUint<uint32_t>(Member(field, "arrayLength"));
             uiFieldSize += stDataType.length * uiArrayLength;
             if (sFieldType == "FIXED_LENGTH_ARRAY")
             {
@@ -304,7 +309,7 @@ std::vector<MessageDefinition::ConstPtr> ProcessMessageDefinitions(element jRoot
     {
         auto md = std::make_shared<MessageDefinition>();
         md->_id = AsString(Member(j_, "_id"));
-        md->logID = static_cast<uint32_t>(AsUint(Member(j_, "messageID"))); // this was "logID"
+        md->logID = AsUint<uint32_t>(Member(j_, "messageID")); // this was "logID"
         md->name = AsString(Member(j_, "name"));
         md->description = AsStringOrEmpty(Member(j_, "description"));
         md->latestMessageCrc = std::stoul(AsString(Member(j_, "latestMsgDefCrc")));
-- 
2.43.0


From 669f224f618011d39de6511895620932446bcd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 58/74] fix: refuse definition CRCs that are not decimal
 numbers

---
 src/decoders/common/src/json_db_reader.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/decoders/common/src/json_db_reader.cpp b/src/decoders/common/src/json_db_reader.cpp
index 61c914a..5b12757 100644
--- a/src/decoders/common/src/json_db_reader.cpp
+++ b/src/decoders/common/src/json_db_reader.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <future>
 #include <limits>
 #include <stdexcept>
@@ -88,6 +89,16 @@ template <typename T> T AsUint(element el_)
     return static_cast<T>(u);
 }
 
+//! Convert a string holding a decimal definition CRC. Throws if it holds anything else.
+uint32_t ParseCrc(std::string_view str_)
+{
+    uint32_t uiCrc = 0;
+    const char* pcEnd = str_.data() + str_.size();
+    const auto [pcPtr, eError] = std::from_chars(str_.data(), pcEnd, uiCrc);
+    if (eError != std::errc() || pcPtr != pcEnd) { throw std::runtime_error("Expected a definition CRC: " + std::string(str_)); }
+    return uiCrc;
+}
+
 //! Read an optional string member, returning the default if the key is absent.
 std::string StringOr(element obj_, std::string_view key_, std::string_view default_)
 {
@@ -312,13 +323,13 @@ std::vector<MessageDefinition::ConstPtr> ProcessMessageDefinitions(element jRoot
         md->logID = AsUint<uint32_t>(Member(j_, "messageID")); // this was "logID"
         md->name = AsString(Member(j_, "name"));
         md->description = AsStringOrEmpty(Member(j_, "description"));
-        md->latestMessageCrc = std::stoul(AsString(Member(j_, "latestMsgDefCrc")));
+        md->latestMessageCrc = ParseCrc(AsStringView(Member(j_, "latestMsgDefCrc")));
 
         object fields;
         if (Member(j_, "fields").get(fields) != simdjson::SUCCESS) { throw std::runtime_error("Expected 'fields' to be a JSON object"); }
         for (auto field : fields)
         {
-            uint32_t defCrc = std::stoul(std::string(field.key));
+            const uint32_t defCrc = ParseCrc(field.key);
             FieldInfo stFieldInfo{};
             ParseFields(field.value, stFieldInfo, alignFn_);
             md->fieldInfo[defCrc] = std::make_shared<FieldInfo>(std::move(stFieldInfo));
-- 
2.43.0


From 346df2b280760dad543bda99dc00d3ccf74adbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:31 +0000
Subject: [PATCH 59/74] fix: bound the decoding of the message embedded in an
 RXCONFIG log

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 2cf6ff6..6d7df17 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -419,8 +419,12 @@ STATUS RxConfigHandler::Encode(unsigned char* const* ppucBuffer_, uint32_t uiBuf
     const auto& fieldDefinitions = stMessage_.GetFieldInfo()->messageOrderedFields;
     if (fieldDefinitions.empty()) { return STATUS::MALFORMED_INPUT; }
     const auto fieldValue = stMessage_.GetFieldValue<std::vector<uint8_t>>(*fieldDefinitions.at(0));
+    if (fieldValue.empty()) { return STATUS::MALFORMED_INPUT; }
     const auto* pucEmbeddedDataBuffer = reinterpret_cast<const unsigned char*>(fieldValue.data());
 
+    // The decoders must not read past the end of the embedded message
+    stEmbeddedMetaData_ = MetaDataStruct{};
+    stEmbeddedMetaData_.uiLength = static_cast<uint32_t>(fieldValue.size());
     eStatus = clMyHeaderDecoder.Decode(pucEmbeddedDataBuffer, stEmbeddedHeader, stEmbeddedMetaData_);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
-- 
2.43.0


From 15b6aacf92385a9ac6af8e74f6f1a3d421379592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 60/74] fix: refuse RXCONFIG logs that are too short to carry a
 message

---
 .../oem/src/rxconfig/rxconfig_handler.cpp       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 6d7df17..1658635 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -123,6 +123,7 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
 
     const unsigned char* pucTempMessagePointer = pucMessage_;
     std::vector<uint8_t> stEmbeddedMessageData;
+    if (stRxConfigMetaData_.uiLength < stRxConfigMetaData_.uiHeaderLength) { return STATUS::MALFORMED_INPUT; }
     uint32_t uiTotalPayloadSize = stRxConfigMetaData_.uiLength - stRxConfigMetaData_.uiHeaderLength;
     stInterMessage_ = CompositeField(0, 1);
     stInterMessage_.SetFieldInfo(pclMyMsgDb != nullptr ? pclMyMsgDb->GetMsgDef(stRxConfigMetaData_.usMessageId) : nullptr,
@@ -135,21 +136,27 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     {
     case HEADER_FORMAT::ABB_ASCII: {
         // Fix embedded header indentation
-        const auto* pcTempBuffer = reinterpret_cast<const char*>(pucTempMessagePointer);
-        ConsumeAbbrevFormatting(&pcTempBuffer);
-        pucTempMessagePointer = reinterpret_cast<const unsigned char*>(pcTempBuffer);
+        const unsigned char* const pucMessageEnd = pucMessage_ + uiTotalPayloadSize;
+        while (pucTempMessagePointer < pucMessageEnd && std::string_view("< \r\n").find(static_cast<char>(*pucTempMessagePointer)) != std::string_view::npos)
+        {
+            pucTempMessagePointer++;
+        }
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(OEM4_ABBREV_ASCII_SYNC));
         uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - (pucTempMessagePointer - pucMessage_);
         break;
     }
     case HEADER_FORMAT::ASCII: {
         // Ignore {CRC}*{CRC}\r\n at end of buffer
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - OEM4_ASCII_CRC_LENGTH - 1 - OEM4_ASCII_CRC_LENGTH - 2;
+        constexpr uint32_t uiTrailerSize = OEM4_ASCII_CRC_LENGTH + 1 + OEM4_ASCII_CRC_LENGTH + 2;
+        if (uiTotalPayloadSize < uiTrailerSize) { return STATUS::MALFORMED_INPUT; }
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - uiTrailerSize;
         break;
     }
     case HEADER_FORMAT::BINARY: {
         // Ignore CRCs at end of buffer
-        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - 2 * OEM4_BINARY_CRC_LENGTH;
+        constexpr uint32_t uiTrailerSize = 2 * OEM4_BINARY_CRC_LENGTH;
+        if (uiTotalPayloadSize < uiTrailerSize) { return STATUS::MALFORMED_INPUT; }
+        uiCopyableEmbeddedMsgBytes = uiTotalPayloadSize - uiTrailerSize;
         break;
     }
     default: {
-- 
2.43.0


From 88f27b08edab74074f1815d2c3f26e631bee4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 61/74] fix: account for every part of an encoded RXCONFIG log
 in the space left

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 1658635..e3244b1 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -226,6 +226,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
     eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode RXConfig Body --
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, R"(,"body": )")) { return STATUS::BUFFER_FULL; }
@@ -236,6 +237,7 @@ STATUS RxConfigHandler::EncodeJSON(unsigned char* const* ppucBuffer_, uint32_t u
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::JSON);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
 
     if (!CopyToBuffer(&pucTempEncodeBuffer, uiBufferSize_, '}')) { return STATUS::BUFFER_FULL; }
@@ -261,6 +263,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Header --
     stEmbeddedMessageData_.pucMessage = pucTempEncodeBuffer;
@@ -275,6 +278,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                        ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageHeaderLength;
 
     // remove sync byte at start of embedded message header
     stEmbeddedMessageData_.pucMessageHeader[0] = ' ';
@@ -294,6 +298,7 @@ STATUS RxConfigHandler::EncodeAbbrevAscii(unsigned char* const* ppucBuffer_, uin
                                      stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ABBREV_ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageBodyLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageBodyLength;
 
     // -- Resolve Message Lengths --
     stMessageData_.uiMessageBodyLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody;
@@ -318,6 +323,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -325,6 +331,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
 
@@ -369,6 +376,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
         clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
+    uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
 
     // -- Encode Embedded Message --
     stMessageData_.pucMessageBody = pucTempEncodeBuffer;
@@ -376,6 +384,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
                                  stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stEmbeddedMessageData_.uiMessageLength;
+    uiBufferSize_ -= stEmbeddedMessageData_.uiMessageLength;
 
     // -- Write CRC --
     // Backtrack over CRC
-- 
2.43.0


From 313e2b973ad81a0f16c97e3252d45b7d18d2b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 62/74] fix: write the checksum of a decoded RXCONFIG message
 in message form

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index e3244b1..7a53086 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -179,19 +179,19 @@ STATUS RxConfigHandler::Decode(const unsigned char* pucMessage_, CompositeField&
     case HEADER_FORMAT::ASCII: {
         // invert ascii crc
         const uint32_t uiCRC = strtoul(reinterpret_cast<const char*>(pucTempMessagePointer), nullptr, 16) ^ 0xFFFFFFFF;
-        char pucCRC[OEM4_ASCII_CRC_LENGTH];
-        std::to_chars(pucCRC, pucCRC + OEM4_ASCII_CRC_LENGTH, uiCRC, 16);
-        for (auto c : pucCRC) { stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(c)); }
+        char acCrc[OEM4_ASCII_CRC_LENGTH + 1];
+        std::snprintf(acCrc, sizeof(acCrc), "%08x", uiCRC);
+        stEmbeddedMessageData.insert(stEmbeddedMessageData.end(), acCrc, acCrc + OEM4_ASCII_CRC_LENGTH);
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\r'));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>('\n'));
         break;
     }
     case HEADER_FORMAT::BINARY: {
         auto uiCRC = LoadValueFromBuffer<uint32_t>(pucTempMessagePointer) ^ 0xFFFFFFFF;
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
-        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
         stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 8));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 16));
+        stEmbeddedMessageData.emplace_back(static_cast<uint8_t>(uiCRC >> 24));
         break;
     }
     default: break;
-- 
2.43.0


From 6bcd16badcc23a3bc37b3dcc9c8abead9072cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 63/74] fix: encode RXCONFIG logs that carry a message with a
 short header

---
 src/decoders/oem/src/rxconfig/rxconfig_handler.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
index 7a53086..6c1896d 100644
--- a/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
+++ b/src/decoders/oem/src/rxconfig/rxconfig_handler.cpp
@@ -319,8 +319,7 @@ STATUS RxConfigHandler::EncodeAscii(unsigned char* const* ppucBuffer_, uint32_t
     // -- Encode RXConfig Header --
     // Abuse the fact that header format is only used for determining whether the header is long or short
     stMessageData_.pucMessageHeader = *ppucBuffer_;
-    eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::ASCII);
+    eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -372,8 +371,7 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
 
     // -- Encode RXConfig Header --
     stMessageData_.pucMessageHeader = *ppucBuffer_;
-    eStatus =
-        clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, stEmbeddedMetaData_.eFormat, ENCODE_FORMAT::BINARY);
+    eStatus = clMyEncoder.EncodeHeader(&pucTempEncodeBuffer, uiBufferSize_, stHeader_, stMessageData_, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
     pucTempEncodeBuffer += stMessageData_.uiMessageHeaderLength;
     uiBufferSize_ -= stMessageData_.uiMessageHeaderLength;
@@ -390,12 +388,6 @@ STATUS RxConfigHandler::EncodeBinary(unsigned char* const* ppucBuffer_, uint32_t
     // Backtrack over CRC
     pucTempEncodeBuffer -= OEM4_BINARY_CRC_LENGTH;
     uiBufferSize_ += OEM4_BINARY_CRC_LENGTH;
-    // Fill in Embedded Binary Header length
-    uint32_t uiEmbeddedBodyLength = pucTempEncodeBuffer - stEmbeddedMessageData_.pucMessageBody;
-    auto stEmbeddedHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stEmbeddedMessageData_.pucMessageHeader);
-    stEmbeddedHeader.usLength = static_cast<uint16_t>(uiEmbeddedBodyLength);
-    std::memcpy(stEmbeddedMessageData_.pucMessageHeader, &stEmbeddedHeader, sizeof(Oem4BinaryHeader));
-
     // Fill in Regular Binary Header length
     uint32_t uiRxLength = pucTempEncodeBuffer - stMessageData_.pucMessageBody + OEM4_BINARY_CRC_LENGTH;
     auto stRxHeader = LoadValueFromBuffer<Oem4BinaryHeader>(stMessageData_.pucMessageHeader);
-- 
2.43.0


From b673bd035eab7d91b3c8a752ccf8f24d31f33ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 64/74] fix: refuse commands longer than a message instead of
 overflowing the stack

---
 src/decoders/oem/src/commander.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 7974972..b0d9cf1 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -67,10 +67,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    char* pcCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
+    if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
     if (pclMyMsgDb == nullptr) { return STATUS::NO_DATABASE; }
 
@@ -87,7 +84,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<unsigned char*>(pcCmdParams), stIntermediateMessage, stMetaData);
+    STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
 
     // Prime the intermediate header with information we already know
@@ -124,10 +121,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
     const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
 
-    unsigned char acCmdParams[MAX_ASCII_MESSAGE_LENGTH];
-    unsigned char* pucCmdParams = acCmdParams;
-    std::copy(strCmdParams.begin(), strCmdParams.end(), acCmdParams);
-    acCmdParams[strCmdParams.size()] = '\0';
+    if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
     MessageDefinition::ConstPtr pclMessageDef = clJsonDb_.GetMsgDef(strCmdName);
     if (!pclMessageDef) { return STATUS::NO_DEFINITION; }
@@ -142,7 +136,8 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
     stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
 
-    const STATUS eDecoderStatus = clMessageDecoder_.Decode(pucCmdParams, stIntermediateMessage, stMetaData);
+    const STATUS eDecoderStatus =
+        clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eDecoderStatus != STATUS::SUCCESS) { return eDecoderStatus; }
 
     // Prime the intermediate header with information we already know
-- 
2.43.0


From a9a62f7cdfb8b1c7d7338cd6bff5ea05124ba714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:53 +0000
Subject: [PATCH 65/74] fix: do not take a command's name for its parameters

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index b0d9cf1..0db7c58 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -65,7 +65,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
@@ -119,7 +119,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     const auto strAbbrevAsciiCommand = std::string(pcAbbrevAsciiCommand_, uiAbbrevAsciiCommandLength_);
     const size_t ullPos = strAbbrevAsciiCommand.find_first_of(' ');
     const std::string strCmdName = strAbbrevAsciiCommand.substr(0, ullPos);
-    const std::string strCmdParams = strAbbrevAsciiCommand.substr(ullPos + 1);
+    const std::string strCmdParams = ullPos == std::string::npos ? std::string() : strAbbrevAsciiCommand.substr(ullPos + 1);
 
     if (strCmdParams.size() >= MAX_ASCII_MESSAGE_LENGTH) { return STATUS::MALFORMED_INPUT; }
 
-- 
2.43.0


From 730f6ee6d2a6048a5f87bd016482a92d407094cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:53 +0000
Subject: [PATCH 66/74] fix: pass a newly loaded database on to the commander's
 decoder and encoder

---
 src/decoders/oem/src/commander.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index 0db7c58..de1fcc5 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -41,6 +41,8 @@ Commander::Commander(MessageDatabase::Ptr pclMessageDb_) : clMyMessageDecoder(pc
 void Commander::LoadJsonDb(MessageDatabase::Ptr pclMessageDb_)
 {
     pclMyMsgDb = pclMessageDb_;
+    clMyMessageDecoder.LoadJsonDb(pclMessageDb_);
+    clMyEncoder.LoadJsonDb(pclMessageDb_);
     InitEnumDefinitions();
 }
 
-- 
2.43.0


From 5b11d75ca52c64c466d3ff4a5c970e3fb0e1b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:53 +0000
Subject: [PATCH 67/74] fix: encode a command with its latest definition

---
 src/decoders/oem/src/commander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/commander.cpp b/src/decoders/oem/src/commander.cpp
index de1fcc5..703ebad 100644
--- a/src/decoders/oem/src/commander.cpp
+++ b/src/decoders/oem/src/commander.cpp
@@ -84,7 +84,7 @@ STATUS Commander::Encode(const char* pcAbbrevAsciiCommand_, const uint32_t uiAbb
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     STATUS eStatus = clMyMessageDecoder.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
     if (eStatus != STATUS::SUCCESS) { return eStatus; }
@@ -136,7 +136,7 @@ STATUS Commander::Encode(const MessageDatabase& clJsonDb_, const MessageDecoder&
     // Prime the metadata with information we already know
     stMetaData.eFormat = HEADER_FORMAT::ABB_ASCII;
     stMetaData.usMessageId = static_cast<uint16_t>(pclMessageDef->logID);
-    stMetaData.uiMessageCrc = static_cast<uint32_t>(pclMessageDef->fieldInfo.begin()->first);
+    stMetaData.uiMessageCrc = pclMessageDef->latestMessageCrc;
 
     const STATUS eDecoderStatus =
         clMessageDecoder_.Decode(reinterpret_cast<const unsigned char*>(strCmdParams.c_str()), stIntermediateMessage, stMetaData);
-- 
2.43.0


From db9cf547d6995b256c6047153b361f42793db6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 68/74] fix: keep the definitions when changing the message
 family runs out of memory

---
 .../decoders/common/message_database.hpp             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 76f2e5e..ac13392 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -889,9 +889,17 @@ class MessageDatabase
         // Copies of this database share the metadata object
         pDbMetadata = pDbMetadata ? std::make_shared<DbMetadata>(*pDbMetadata) : std::make_shared<DbMetadata>();
         pDbMetadata->messageFamily = messageFamily_;
-        const auto previousMessageDefinitions = std::move(vMessageDefinitions);
+        auto previousMessageDefinitions = std::move(vMessageDefinitions);
         vMessageDefinitions.clear();
-        AppendMessages(previousMessageDefinitions); // Rebuild FieldInfo for all messages with the new message family
+        try
+        {
+            AppendMessages(previousMessageDefinitions); // Rebuild FieldInfo for all messages with the new message family
+        }
+        catch (...)
+        {
+            vMessageDefinitions = std::move(previousMessageDefinitions); // The definitions must not be lost
+            throw;
+        }
     }
 
     //----------------------------------------------------------------------------
-- 
2.43.0


From 134db130154ac662e20e02b08b9a7953da453911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 69/74] fix: removing a definition cannot lose the mapping of
 another one

---
 .../decoders/common/message_database.hpp      | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index ac13392..61d1ed6 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -1009,29 +1009,38 @@ class MessageDatabase
     }
 
     // Re-point the mappings of a definition that has been removed to the latest remaining definition with the same name or ID. Keys are
-    // views into the definitions, so they must never outlive the definition they were taken from.
+    // views into the definitions, so they must never outlive the definition they were taken from. The map's nodes are reused, so that
+    // this cannot fail once the definition is gone.
     void RemoveMessageMapping(const MessageDefinition& msg_)
     {
-        mMessageName.erase(msg_.name);
-        mMessageId.erase(msg_.logID);
-        for (const auto& msg : vMessageDefinitions)
+        auto nameNode = mMessageName.extract(msg_.name);
+        auto idNode = mMessageId.extract(msg_.logID);
+        for (auto iTer = vMessageDefinitions.rbegin(); iTer != vMessageDefinitions.rend(); ++iTer)
         {
-            if (msg->name == msg_.name) { mMessageName[msg->name] = msg; }
-            if (msg->logID == msg_.logID) { mMessageId[msg->logID] = msg; }
+            if (!nameNode.empty() && (*iTer)->name == msg_.name) { InsertMapping(mMessageName, std::move(nameNode), (*iTer)->name, *iTer); }
+            if (!idNode.empty() && (*iTer)->logID == msg_.logID) { InsertMapping(mMessageId, std::move(idNode), (*iTer)->logID, *iTer); }
         }
     }
 
     void RemoveEnumerationMapping(const EnumDefinition& enm_)
     {
-        mEnumName.erase(enm_.name);
-        mEnumId.erase(enm_._id);
-        for (const auto& enm : vEnumDefinitions)
+        auto nameNode = mEnumName.extract(enm_.name);
+        auto idNode = mEnumId.extract(enm_._id);
+        for (auto iTer = vEnumDefinitions.rbegin(); iTer != vEnumDefinitions.rend(); ++iTer)
         {
-            if (enm->name == enm_.name) { mEnumName[enm->name] = enm; }
-            if (enm->_id == enm_._id) { mEnumId[enm->_id] = enm; }
+            if (!nameNode.empty() && (*iTer)->name == enm_.name) { InsertMapping(mEnumName, std::move(nameNode), (*iTer)->name, *iTer); }
+            if (!idNode.empty() && (*iTer)->_id == enm_._id) { InsertMapping(mEnumId, std::move(idNode), (*iTer)->_id, *iTer); }
         }
     }
 
+    template <typename Map, typename Key, typename Value>
+    static void InsertMapping(Map& mMapping_, typename Map::node_type node_, const Key& key_, const Value& value_)
+    {
+        node_.key() = key_;
+        node_.mapped() = value_;
+        mMapping_.insert(std::move(node_));
+    }
+
     std::vector<MessageDefinition::ConstPtr>::iterator GetMessageIt(uint32_t iMsgId_)
     {
         return std::find_if(vMessageDefinitions.begin(), vMessageDefinitions.end(), //
-- 
2.43.0


From 18e6fbcebddef1c09360a108c298c60e33f85cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 70/74] fix: replace the key of a mapping together with its
 definition

---
 .../decoders/common/message_database.hpp        | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/novatel_edie/decoders/common/message_database.hpp b/include/novatel_edie/decoders/common/message_database.hpp
index 61d1ed6..2d1d2fb 100644
--- a/include/novatel_edie/decoders/common/message_database.hpp
+++ b/include/novatel_edie/decoders/common/message_database.hpp
@@ -794,8 +794,8 @@ class MessageDatabase
         {
             RemoveEnumeration(enmDef->name);
             vEnumDefinitions.push_back(enmDef);
-            mEnumName[enmDef->name] = enmDef;
-            mEnumId[enmDef->_id] = enmDef;
+            SetMapping(mEnumName, enmDef->name, enmDef);
+            SetMapping(mEnumId, enmDef->_id, enmDef);
         }
         GenerateMessageMappings(); // Messages already defined may refer to the new enumerations
     }
@@ -928,8 +928,8 @@ class MessageDatabase
     {
         for (auto& enm : vEnumDefinitions)
         {
-            mEnumName[enm->name] = enm;
-            mEnumId[enm->_id] = enm;
+            SetMapping(mEnumName, enm->name, enm);
+            SetMapping(mEnumId, enm->_id, enm);
         }
     }
 
@@ -949,12 +949,19 @@ class MessageDatabase
                 for (const auto& item : msg->fieldInfo) { MapMessageEnumFields(item.second->messageOrderedFields); }
             }
 
-            mMessageName[msg->name] = msg;
+            SetMapping(mMessageName, std::string_view(msg->name), msg);
             mMessageId[msg->logID] = msg;
         }
     }
 
   private:
+    // The keys are views into the mapped definitions: replace a mapping together with its key
+    template <typename Map, typename Value> static void SetMapping(Map& mMapping_, std::string_view svKey_, const Value& value_)
+    {
+        mMapping_.erase(svKey_);
+        mMapping_.emplace(svKey_, value_);
+    }
+
     FieldInfo::ConstPtr RebuildFieldInfo(const FieldInfo& fields_) const
     {
         // BaseFields were already deep-copied by the MessageDefinition copy constructor, but we need to
-- 
2.43.0


From 6769a2afa9797a2163b87936bad6c9579b7bb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:58 +0000
Subject: [PATCH 71/74] fix: a run of '*' kept an overlong ASCII message
 candidate alive forever

---
 src/decoders/oem/src/framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/oem/src/framer.cpp b/src/decoders/oem/src/framer.cpp
index ef9d844..b8d4d61 100644
--- a/src/decoders/oem/src/framer.cpp
+++ b/src/decoders/oem/src/framer.cpp
@@ -344,7 +344,7 @@ Framer::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameBufferSize_, Me
             break;
 
         case NovAtelFrameState::WAITING_FOR_ASCII_HEADER_AND_BODY:
-            if (ucDataByte == OEM4_ASCII_CRC_DELIMITER)
+            if (ucDataByte == OEM4_ASCII_CRC_DELIMITER && uiMyByteCount <= MAX_ASCII_MESSAGE_LENGTH)
             {
                 // Need to be able to check for *12345678CRLF
                 if (uiMyByteCount + OEM4_ASCII_CRC_LENGTH + 2 > clInternalFrameBuffer.size())
-- 
2.43.0


From 4432969ed98b13050724bb7c4f1b8d54fc8b9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:31 +0000
Subject: [PATCH 72/74] fix: short abbreviated ASCII observation logs were lost
 when decompressed

---
 src/decoders/oem/src/rangecmp/range_decompressor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index 9073e7f..549f8e9 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -884,10 +884,10 @@ STATUS RangeDecompressor::Decompress(unsigned char* pucBuffer_, uint32_t uiBuffe
     {
         eFormat_ = eFormat == HEADER_FORMAT::BINARY || eFormat == HEADER_FORMAT::SHORT_BINARY || eFormat == HEADER_FORMAT::PROPRIETARY_BINARY
                        ? ENCODE_FORMAT::BINARY
-                   : eFormat == HEADER_FORMAT::ASCII || eFormat == HEADER_FORMAT::SHORT_ASCII ? ENCODE_FORMAT::ASCII
-                   : eFormat == HEADER_FORMAT::ABB_ASCII                                      ? ENCODE_FORMAT::ABBREV_ASCII
-                   : eFormat == HEADER_FORMAT::JSON                                           ? ENCODE_FORMAT::JSON
-                                                                                              : ENCODE_FORMAT::ASCII; // Default to ASCII
+                   : eFormat == HEADER_FORMAT::ASCII || eFormat == HEADER_FORMAT::SHORT_ASCII         ? ENCODE_FORMAT::ASCII
+                   : eFormat == HEADER_FORMAT::ABB_ASCII || eFormat == HEADER_FORMAT::SHORT_ABB_ASCII ? ENCODE_FORMAT::ABBREV_ASCII
+                   : eFormat == HEADER_FORMAT::JSON                                                   ? ENCODE_FORMAT::JSON
+                                                                                                      : ENCODE_FORMAT::ASCII; // Default to ASCII
     }
 
     // Re-encode the data back into the range message buffer.
-- 
2.43.0


From 927fcdc916521c4b34174e0d2c803526cdac3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:31 +0000
Subject: [PATCH 73/74] fix: an overlong message changed how the parser treats
 later ones

---
 src/decoders/oem/src/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/oem/src/parser.cpp b/src/decoders/oem/src/parser.cpp
index 233d8cb..9624463 100644
--- a/src/decoders/oem/src/parser.cpp
+++ b/src/decoders/oem/src/parser.cpp
@@ -111,7 +111,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
         if (bDecodeIncompleteAbbreviated_ && eStatus == STATUS::INCOMPLETE &&
             (stMetaData_.eFormat == HEADER_FORMAT::ABB_ASCII || stMetaData_.eFormat == HEADER_FORMAT::SHORT_ABB_ASCII))
         {
-            uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiMyFrameBufferSize);
+            uint32_t uiFlushSize = clMyFramer.Flush(pucMyFrameBufferPointer, uiParserInternalBufferSize);
             if (uiFlushSize > 0)
             {
                 eStatus = STATUS::SUCCESS;
@@ -146,7 +146,7 @@ Parser::ReadIntermediate(MessageDataStruct& stMessageData_, IntermediateHeader&
                 // Should we decompress this?
                 if (clMyRangeCmpFilter.DoFiltering(stMetaData_) && bMyDecompressRangeCmp)
                 {
-                    eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiMyFrameBufferSize, stMetaData_);
+                    eStatus = clMyRangeDecompressor.Decompress(pucMyFrameBufferPointer, uiParserInternalBufferSize, stMetaData_);
                     if (eStatus == STATUS::SUCCESS) { stHeader_.usMessageId = stMetaData_.usMessageId; }
                     else
                     {
-- 
2.43.0


From 32fd6bad040d3aabbc8ca5349a4010fe2ce81dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:22 +0000
Subject: [PATCH 74/74] fix: escape backslashes and quotation marks of %s
 arrays in text messages

The decoder of ASCII messages treats a backslash as the start of an escape
sequence, but the encoder wrote the characters of %s arrays as they are, so
backslashes were lost or misread when the message was read again.
---
 src/decoders/oem/src/encoder.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoders/oem/src/encoder.cpp b/src/decoders/oem/src/encoder.cpp
index add3231..2432ede 100644
--- a/src/decoders/oem/src/encoder.cpp
+++ b/src/decoders/oem/src/encoder.cpp
@@ -100,9 +100,12 @@ void Encoder::InitFieldMaps()
 
     asciiFieldMap[CalculateBlockCrc32("s")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
                                                  const MessageDatabase&, size_t offset) {
-        return fd_.dataType.name == DATA_TYPE::UCHAR
-                   ? CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset)))
-                   : CopyToBuffer(ppcOutBuf_, uiBytesLeft_, static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset)));
+        const char cValue = fd_.dataType.name == DATA_TYPE::UCHAR ? static_cast<char>(cf_.GetFieldValue<uint8_t>(fd_, offset))
+                                                                  : static_cast<char>(cf_.GetFieldValue<int8_t>(fd_, offset));
+        // These have a meaning of their own within the quotes
+        if (cValue == '\\') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\\\"); }
+        if (cValue == '"') { return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, "\\x22"); }
+        return CopyToBuffer(ppcOutBuf_, uiBytesLeft_, cValue);
     };
 
     asciiFieldMap[CalculateBlockCrc32("m")] = [](const BaseField& fd_, const CompositeField& cf_, char** ppcOutBuf_, uint32_t& uiBytesLeft_,
-- 
2.43.0

