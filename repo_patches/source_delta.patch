From 1fe2cb345f5c4696c817f46a9b1213d773d45c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 1/5] fix: sign-extend RANGECMP5 Doppler fields from their own
 widths

The Doppler fields of RANGECMP5 blocks are 28 (primary) and 16 (secondary) bits wide,
but were sign-extended as the 26 and 14 bit fields of RANGECMP4: positive values with
bit 25 (13) set came out negative, large negative ones positive.
---
 include/novatel_edie/decoders/oem/rangecmp/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/novatel_edie/decoders/oem/rangecmp/common.hpp b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
index 03265ab..4a10603 100644
--- a/include/novatel_edie/decoders/oem/rangecmp/common.hpp
+++ b/include/novatel_edie/decoders/oem/rangecmp/common.hpp
@@ -379,7 +379,7 @@ constexpr uint32_t RBLK_PHR_SIGNEXT_MASK = 0xFF800000;
 constexpr std::array<uint32_t, 2> RBLK_PSR_BITS = {37, 20};
 constexpr uint32_t RBLK_PHR_BITS = 23;
 constexpr std::array<uint32_t, 2> RBLK_DOPPLER_BITS = {28, 16};
-constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xFC000000, 0xFFFFC000};
+constexpr std::array<uint32_t, 2> RBLK_DOPPLER_SIGNEXT_MASK = {0xF0000000, 0xFFFF0000};
 constexpr std::array<int64_t, 2> RBLK_INVALID_PSR = {137438953471, -524288};
 
 } // namespace rangecmp5
-- 
2.43.0


From 123d076235fcdafa2f0f8464170487c365618b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 2/5] fix: refuse compressed range messages that overrun the
 message or range record arrays

The observation count of RANGECMP and the data byte count of RANGECMP2, as well as
the number of signals in RANGECMP4/5, come from the received message and index
fixed-size arrays of 325 records; a larger count read and wrote past their ends.
---
 .../oem/src/rangecmp/range_decompressor.cpp        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decoders/oem/src/rangecmp/range_decompressor.cpp b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
index ffee0d2..aafe67d 100644
--- a/src/decoders/oem/src/rangecmp/range_decompressor.cpp
+++ b/src/decoders/oem/src/rangecmp/range_decompressor.cpp
@@ -371,6 +371,7 @@ void RangeDecompressor::RangeCmpToRange(const rangecmp::RangeCmp& stRangeCmpMess
     constexpr std::array<double, 16> stdDevPsrScaling = {0.050, 0.075, 0.113, 0.169, 0.253,  0.380,  0.570,  0.854,
                                                          1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
 
+    if (stRangeCmpMessage_.uiNumberOfObservations > RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations."); }
     stRangeMessage_.uiNumberOfObservations = stRangeCmpMessage_.uiNumberOfObservations;
 
     // Decompress each field from the RangeCmpData and put it into the respective RangeData.
@@ -429,6 +430,10 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
     uint32_t uiRangeDataBytesDecompressed = 0;
     while (uiRangeDataBytesDecompressed < stRangeCmpMessage_.uiNumberOfRangeDataBytes)
     {
+        if (uiRangeDataBytesDecompressed + sizeof(SatelliteBlock) > sizeof(stRangeCmpMessage_.aucRangeData))
+        {
+            throw std::runtime_error("Too many range data bytes.");
+        }
         auto stSatBlock = LoadValueFromBuffer<SatelliteBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
         const auto eSystem = GetBitfield<SYSTEM, SAT_SATELLITE_SYSTEM_ID_MASK>(stSatBlock.ulCombinedField);
@@ -444,6 +449,12 @@ void RangeDecompressor::RangeCmp2ToRange(const rangecmp2::RangeCmp& stRangeCmpMe
         // Decompress the Signal Blocks associated with the Satellite Block
         for (uint8_t ucSignalBlockIndex = 0; ucSignalBlockIndex < ucSignalBlockCount; ucSignalBlockIndex++)
         {
+            if (uiRangeDataBytesDecompressed + sizeof(SignalBlock) > sizeof(stRangeCmpMessage_.aucRangeData) ||
+                stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX)
+            {
+                throw std::runtime_error("Too many range data bytes.");
+            }
+
             // Decompress the signal block
             auto stSigBlock = LoadValueFromBuffer<SignalBlock>(&stRangeCmpMessage_.aucRangeData[uiRangeDataBytesDecompressed]);
 
@@ -581,6 +592,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                             }
                             else { DecompressDifferentialBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, stRb.second, dSecondOffset); }
 
+                            if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations."); }
                             ChannelTrackingStatus stCtStatus(system, signal, stBlock);
                             PopulateNextRangeData(stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++], stBlock, stMetaData_,
                                                   stCtStatus, prn, stRb.first.cGlonassFrequency);
@@ -603,6 +615,7 @@ void RangeDecompressor::RangeCmp4ToRange(unsigned char* pucData_, Range& stRange
                     }
                     else { DecompressReferenceBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
+                    if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations."); }
                     ChannelTrackingStatus stCtStatus(system, signal, stBlock);
                     RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
                     PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
@@ -721,6 +734,7 @@ void RangeDecompressor::RangeCmp5ToRange(unsigned char* pucData_, Range& stRange
                 }
                 else { DecompressBlock<true>(&pucData_, uiBytesLeft, uiBitOffset, stBlock, primaryPseudorange, primaryDoppler); }
 
+                if (stRangeMessage_.uiNumberOfObservations >= RANGE_RECORD_MAX) { throw std::runtime_error("Too many observations."); }
                 ChannelTrackingStatus stCtStatus(system, signal, stBlock);
                 RangeData& stRangeData = stRangeMessage_.astRangeData[stRangeMessage_.uiNumberOfObservations++];
                 PopulateNextRangeData(stRangeData, stBlock, stMetaData_, stCtStatus, prn, stMbHeader.cGlonassFrequency);
-- 
2.43.0


From ca6da6b0dc8b67c135590612bf7e06e7ad33551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:12 +0000
Subject: [PATCH 3/5] fix: hand out no more unknown bytes than the caller's
 frame buffer holds

---
 src/decoders/common/src/framer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/common/src/framer.cpp b/src/decoders/common/src/framer.cpp
index 66d3d06..054827c 100644
--- a/src/decoders/common/src/framer.cpp
+++ b/src/decoders/common/src/framer.cpp
@@ -40,6 +40,10 @@ using namespace novatel::edie;
     auto handleUnknown = [&](uint32_t length) -> STATUS {
         stMetaData_.eFormat = HEADER_FORMAT::UNKNOWN;
         stMetaData_.uiLength = length;
+        if (uiFrameBufferSize_ == 0) { return STATUS::BUFFER_FULL; }
+        // Take no more than the caller's buffer holds; the rest is reported by later calls
+        length = std::min(length, uiFrameBufferSize_);
+        stMetaData_.uiLength = length;
         if (!bMetadataOnly_) { HandleUnknownBytes(pucFrameBuffer_, length); }
         return STATUS::UNKNOWN;
     };
-- 
2.43.0


From 472e76d766ea0c653d38699e0a82854e46bddae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:12 +0000
Subject: [PATCH 4/5] fix: clamp the framer manager's unknown bytes to the
 caller's frame buffer

---
 src/decoders/common/src/framer_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoders/common/src/framer_manager.cpp b/src/decoders/common/src/framer_manager.cpp
index 8fb41bb..9a3f823 100644
--- a/src/decoders/common/src/framer_manager.cpp
+++ b/src/decoders/common/src/framer_manager.cpp
@@ -152,6 +152,8 @@ STATUS FramerManager::GetFrame(unsigned char* pucFrameBuffer_, uint32_t uiFrameB
         if (bestFramerIndex == registrySize)
         {
             assert(bestOffset > 0 && bestOffset <= static_cast<uint32_t>(pclMyFixedBuffer->size()));
+            if (uiFrameBufferSize_ == 0) { return STATUS::BUFFER_FULL; }
+            bestOffset = std::min(bestOffset, uiFrameBufferSize_); // Take no more than the caller's buffer holds
             HandleUnknownBytes(pucFrameBuffer_, bestOffset);
             stMyMetaData.uiLength = bestOffset;
             stMyMetaData.eFormat = HEADER_FORMAT::UNKNOWN;
-- 
2.43.0


From d3a17ca8fee842bc1a8611616fee1c26ada9bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:12 +0000
Subject: [PATCH 5/5] fix: wait for the separator and the line feed before
 deciding abbreviated ASCII frames

---
 src/decoders/oem/src/framer_abb_ascii.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/oem/src/framer_abb_ascii.cpp b/src/decoders/oem/src/framer_abb_ascii.cpp
index 6563a8b..159e076 100644
--- a/src/decoders/oem/src/framer_abb_ascii.cpp
+++ b/src/decoders/oem/src/framer_abb_ascii.cpp
@@ -69,9 +69,19 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
                                                                 : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, clFrameBuffer.size()};
     };
 
+    // A search also stops at a carriage return that is the last character searched, whose line feed may not have been received yet
+    auto midCrlfIncomplete = [&clFrameBuffer](size_t crIndex) -> Result {
+        return clFrameBuffer.size() > crIndex + 1 ? Result{ReturnStatus::INVALID, HEADER_FORMAT::UNKNOWN, OEM4_ASCII_SYNC_LENGTH}
+                                                  : Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, crIndex};
+    };
+
+    // The separator that tells a body line from a header may not have been received yet
+    if (clFrameBuffer.size() <= OEM4_ASCII_SYNC_LENGTH) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, start}; }
+
     // Step 1: Parse the first line (header/response line)
     const size_t headerCrlfIndex = clFrameBuffer.search_chars(crlf, 0, MAX_ASCII_MESSAGE_LENGTH);
     if (headerCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
+    if (!IsCrlf(static_cast<uint32_t>(headerCrlfIndex))) { return midCrlfIncomplete(headerCrlfIndex); }
 
     if (IsAbbrevAsciiResponse()) { return Result{ReturnStatus::RESPONSE, HEADER_FORMAT::ABB_ASCII, headerCrlfIndex + 2}; }
 
@@ -93,6 +103,8 @@ FramerAbbAscii::FramerAbbAscii(std::shared_ptr<UCharFixedBuffer> buffer) : Frame
 
     if (uiCrlfIndex == UCharFixedBuffer::npos) { return midLineIncomplete(); }
 
+    if (!IsCrlf(static_cast<uint32_t>(uiCrlfIndex))) { return midCrlfIncomplete(uiCrlfIndex); }
+
     if (clFrameBuffer.size() <= uiCrlfIndex + 3) { return Result{ReturnStatus::INCOMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex}; }
 
     return Result{ReturnStatus::COMPLETE, HEADER_FORMAT::ABB_ASCII, uiCrlfIndex + 2};
-- 
2.43.0

