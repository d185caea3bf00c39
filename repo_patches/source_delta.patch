From 89a00c2668d2ef23e3fc6672af93104ea8b13452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:30 +0000
Subject: [PATCH 01/15] fix: SimpleMarkov history was one entry short and
 shifted by negative amounts

The context of all ones indexed one past the end of the history array
(and was neither initialised nor reset), so coders m and M could read
garbage, predict an illegal probability and abort or produce archives
that do not decompress.  A negative counter shifted by a negative amount.
---
 probmodels/ProbabilityModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..bf206a5 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -116,14 +116,14 @@ template <typename UnsignedInt>
 Probability SimpleMarkov<UnsignedInt>::probabilityOfOne() const {
   Probability val = kProbabilityScale >> (kLogProbabilityScale/2);
   if (m_history[m_prev] > 0) return val << 2*m_history[m_prev];
-  else return val >> 2*m_history[m_prev];
+  else return val >> -2*m_history[m_prev];
 }
 
 template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From 8215b616d451a7d8104f6c85f5f7d5c4a5f0efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 02/15] fix: precompressing a block of one or two bytes aborted
 or ran past the block

PairReplacer requires more than two bytes, but the last block of a file
(or the whole file) may be shorter.
---
 preprocessors/Precompressor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..caa9490 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -82,7 +82,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
         useTempArray = true;
       }
 
-      if(c == 'p') {
+      // PairReplacer needs at least three bytes
+      if(c == 'p' && length > 2) {
         if(useTempArray) {
           PREPROCESSS(PairReplacer, verbosity > 1, src, dst);
         } else {
-- 
2.43.0


From d8511c4f44ec1df43ad2fbb5825702a324042d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:23 +0000
Subject: [PATCH 03/15] fix: in-place pair replacement dropped the last byte of
 a three-byte block

The final copy out of the circular buffer was limited to the index of the
last byte read instead of the number of bytes.
---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..59066ef 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, length);
   return filled;
 }
 
-- 
2.43.0


From 0eab9bf5a99f2a8b3e624ab3bb1b70c116fa9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:25 +0000
Subject: [PATCH 04/15] fix: FrequencyTable::increase read one past the end of
 the table

Hit whenever a special symbol was removed from a full table, i.e. in every
later round of pair replacement once special symbols exist.
---
 preprocessors/FrequencyTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index fab008c..961b326 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -132,7 +132,7 @@ void FrequencyTable::increase(byte key, size_t value) {
   assert(m_frequencies[freqIndex].first == key);
   std::pair<byte, size_t> pair = std::make_pair(key, value);
   
-  while (freqIndex < m_last && value > m_frequencies[freqIndex + 1].second)
+  while (freqIndex + 1 < m_last && value > m_frequencies[freqIndex + 1].second)
   {
     --m_location[m_frequencies[freqIndex + 1].first];
     m_frequencies[freqIndex] = m_frequencies[freqIndex + 1];
-- 
2.43.0


From 1c0a8931e387867cf16bc56f9010be562dcc24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:33 +0000
Subject: [PATCH 05/15] fix: pair replacement overcounted overlapping pairs and
 could grow the block

In runs of three equal bytes a pair was counted twice although only one
occurrence can be replaced.  With a full alphabet this made unprofitable
replacements look profitable, the replaced text grew past the end of the
block and overwrote the heap.  Counting also stopped early for blocks of
4 GB and more, because the loop bound was truncated to 32 bits.
---
 preprocessors/PairReplacer.cpp | 10 +++-------
 preprocessors/PairReplacer.hpp | 19 +++++++------------
 2 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 59066ef..9fb1cae 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -37,13 +37,13 @@
 namespace bwtc {
 
 PairReplacer::PairReplacer(Grammar& grammar)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
+    : m_grammar(grammar), m_prev(0), m_prevCounted(false), m_numOfReplacements(0),
       m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(false)
 {}
 
 PairReplacer::PairReplacer(Grammar& grammar, bool verbose)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
+    : m_grammar(grammar), m_prev(0), m_prevCounted(false), m_numOfReplacements(0),
       m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(verbose)
 {}
@@ -55,11 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
-    analyseData0(data[i]);
-    analyseData(data[++i]);
-  }
-  if((length & 0x1) == 0) analyseData0(data[i]);
+  for(; i < length; ++i) analyseData(data[i]);
 }
 
 void PairReplacer::finishAnalysation() {}
diff --git a/preprocessors/PairReplacer.hpp b/preprocessors/PairReplacer.hpp
index 2c9363d..aed312c 100644
--- a/preprocessors/PairReplacer.hpp
+++ b/preprocessors/PairReplacer.hpp
@@ -48,22 +48,14 @@ class PairReplacer {
     assert(m_analysationStarted);
     assert(m_pairFrequencies);
     assert(m_frequencies);
-    m_prev = (m_prev << 8) | next;
-    
-    ++m_pairFrequencies[m_prev];
-    ++m_frequencies[next];
-  }
-
-  inline void analyseData0(byte next) {
     ++m_frequencies[next];
     uint16 prev = m_prev;
     m_prev = (m_prev << 8) | next;
 
-    int pXc = prev ^ m_prev;
-    // compute min(pXc,1)
-    int min = 1 + ((pXc - 1) & ((pXc - 1) >> (sizeof(int)*__CHAR_BIT__ - 1)));
-    
-    m_pairFrequencies[m_prev] += min;
+    // Overlapping occurrences of a pair can't both be replaced, so in a run of
+    // equal bytes only every other pair is counted.
+    m_prevCounted = !(m_prevCounted && prev == m_prev);
+    if(m_prevCounted) ++m_pairFrequencies[m_prev];
   }
 
   void beginAnalysing(bool reset);
@@ -124,6 +116,9 @@ class PairReplacer {
   /**Used in the analysation phase. */
   uint16 m_prev;
 
+  /**Used in the analysation phase. Tells if the previous pair was counted. */
+  bool m_prevCounted;
+
   /** Stores the total number of replacements stored and to be executed. */
   uint16 m_numOfReplacements;
 
-- 
2.43.0


From 7d3d7e8d9899b7170440d6fd811c57481e4fbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:41 +0000
Subject: [PATCH 06/15] fix: write errors were ignored and reported as success

A full device, a file size limit or an error when closing the output left
a short output file behind while the programs exited with status 0.
---
 Streams.cpp | 34 +++++++++++++++++++++++-----------
 Streams.hpp |  4 ++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 7f9cd35..dc37bf5 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -62,29 +62,40 @@ RawOutStream::RawOutStream(const std::string& file_name)
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
-  if (m_filled > 0) {
-    flush();
-  }
-  if (m_fileptr != stdout) {
-    fclose(m_fileptr);
+  flush();
+  if (m_fileptr != stdout && fclose(m_fileptr) != 0) {
+    writeFailed();
   }
   delete[] m_buffer;
 }
 
+void RawOutStream::writeFailed() const {
+  perror(m_name != "" ? m_name.c_str() : "stdout");
+  exit(1);
+}
+
+void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (fwrite(data, 1, size, m_fileptr) != size) {
+    writeFailed();
+  }
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
 }
 
 void RawOutStream::flush() {
   if (m_filled > 0) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
-  fflush(m_fileptr);
+  if (fflush(m_fileptr) != 0) {
+    writeFailed();
+  }
 }
 
 long int RawOutStream::getPos() {
@@ -99,7 +110,7 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
     m_filled += size;
   } else {
     flush();
-    fwrite(begin, 1, size, m_fileptr);
+    writeToFile(begin, size);
   }
 }
 
@@ -109,10 +120,11 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   long int current = ftell(m_fileptr);
   // fseeking with negative offset from SEEK_CUR might be faster.
   fseek(m_fileptr, position, SEEK_SET);
+  byte bytes[6];
   for(int i = 5; i >= 0; --i) {
-    byte b = 0xFF & (to_written >> i*8);
-    fputc(b, m_fileptr);
+    bytes[5 - i] = 0xFF & (to_written >> i*8);
   }
+  writeToFile(bytes, 6);
   fseek(m_fileptr, current, SEEK_SET);
 }
 
diff --git a/Streams.hpp b/Streams.hpp
index 236c4c4..7507e6c 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,6 +103,10 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /** Writes data to file. Terminates the program if it isn't possible. */
+  void writeToFile(const byte *data, size_t size);
+  void writeFailed() const;
+
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 83f7f5cf25d4501b3662d83418fa8aef3ea5bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:05 +0000
Subject: [PATCH 07/15] fix: read errors and missing data were treated as data

A read error (an input that is a directory, for example) looked like the
end of an empty file, and the end of a truncated archive was read as an
endless sequence of 0xFF bytes, so decompression hung, crashed or wrote
garbage.
---
 Streams.cpp | 27 ++++++++++++++++++++++-----
 Streams.hpp |  7 +++++--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index dc37bf5..d96b3c6 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -132,7 +132,7 @@ uint64 RawInStream::read48bits() {
   uint64 result = 0;
   for(int i = 0; i < 6; ++i) {
     result <<= 8;
-    result |= static_cast<byte>(fetchByte());
+    result |= fetchDataByte();
   }
   return result;
 }
@@ -178,18 +178,35 @@ size_t RawInStream::readBlock(byte* to, size_t max_block_size) {
 
 int32 RawInStream::fetchByte() {
   if (m_bigbuf_left <= 0) {
-    m_bigbuf_pos = 0;
-    m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    fillBuffer();
     if (m_bigbuf_left <= 0) return EOF;
   }
   --m_bigbuf_left;
   return m_bigbuf[m_bigbuf_pos++];
 }
 
+byte RawInStream::fetchDataByte() {
+  int32 c = fetchByte();
+  if (c == EOF) {
+    fprintf(stderr, "%s: unexpected end of data\n",
+            m_name != "" ? m_name.c_str() : "stdin");
+    exit(1);
+  }
+  return static_cast<byte>(c);
+}
+
+void RawInStream::fillBuffer() {
+  m_bigbuf_pos = 0;
+  m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+  if (ferror(m_fileptr)) {
+    perror(m_name != "" ? m_name.c_str() : "stdin");
+    exit(1);
+  }
+}
+
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
-    m_bigbuf_pos = 0;
-    m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    fillBuffer();
     if (m_bigbuf_left <= 0) return EOF;
   }
   return m_bigbuf[m_bigbuf_pos];
diff --git a/Streams.hpp b/Streams.hpp
index 7507e6c..d9c6899 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -123,7 +123,7 @@ class RawInStream : public InStream {
 
   virtual inline bool readBit() {
     if (m_bitsInBuffer == 0) {
-      m_buffer = static_cast<byte>(fetchByte());
+      m_buffer = fetchDataByte();
       m_bitsInBuffer = 8;
     }
     return (m_buffer >> --m_bitsInBuffer) & 1;
@@ -131,7 +131,7 @@ class RawInStream : public InStream {
 
   virtual inline byte readByte() {
     assert(m_bitsInBuffer < 8);
-    byte nextByte = static_cast<byte>(fetchByte());
+    byte nextByte = fetchDataByte();
     m_buffer = (m_buffer << 8) | nextByte;
     return (m_buffer >> m_bitsInBuffer) & 0xff;
   }
@@ -169,6 +169,9 @@ class RawInStream : public InStream {
 
   int fetchByte();
   int peekByte();
+  /** As fetchByte(), but terminates the program at the end of data. */
+  byte fetchDataByte();
+  void fillBuffer();
   RawInStream& operator=(const RawInStream& os);
   RawInStream(const RawInStream& os);
 };
-- 
2.43.0


From 5e842532eb68d882be56efe4fa8172610271348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:05 +0000
Subject: [PATCH 08/15] fix: archives cut at a block boundary were accepted

The decoders silently skipped a block when the archive ended before it and
postprocess relied on an assertion to notice missing data.
---
 HuffmanCoders.cpp      | 1 -
 PrecompressorBlock.cpp | 6 +++++-
 WaveletCoders.cpp      | 1 -
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..fea4e32 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -337,7 +337,6 @@ readBlockHeader(BWTBlock& block, std::vector<uint64>* stats, InStream* in) {
 
 void HuffmanDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("HuffmanDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e74b5db..cef50bc 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -31,6 +31,7 @@
 
 #include <cassert>
 #include <cstdlib>
+#include <iostream>
 
 namespace bwtc {
 
@@ -113,7 +114,10 @@ readBlockHeader(InStream* in, MetaData metadata) {
     if(compressedSize != 0) {
       pb->grammar().readGrammar(in);
       uint64 read = in->readBlock(pb->begin(), compressedSize);
-      assert(read == compressedSize);
+      if(read != compressedSize) {
+        std::cerr << "Unexpected end of data" << std::endl;
+        exit(1);
+      }
       pb->setSize(read);
     }
     return pb;
diff --git a/WaveletCoders.cpp b/WaveletCoders.cpp
index d647adc..1f89f2c 100644
--- a/WaveletCoders.cpp
+++ b/WaveletCoders.cpp
@@ -245,7 +245,6 @@ WaveletDecoder::readBlockHeader(BWTBlock& block, std::vector<uint64>* stats,
 
 void WaveletDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("WaveletDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
-- 
2.43.0


From 3c1347dbf5bd5a6be392dc327305047850cab10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 09/15] fix: archives written to a pipe were corrupt

The length of each block is written into its header afterwards by seeking
back, which silently did nothing on a pipe and misplaced the bytes on a
target opened for appending (compress -c | ..., compress -c >> file).
---
 Streams.cpp | 43 +++++++++++++++++++++++++++++++++++++++----
 Streams.hpp |  9 +++++++++
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index d96b3c6..d074632 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -25,7 +25,10 @@
  * Implementation for InStream and OutStream.
  */
 
+#include <fcntl.h>
+
 #include <cassert>
+#include <cstdlib>
 
 #include <fstream>
 #include <iostream>
@@ -58,11 +61,16 @@ RawOutStream::RawOutStream(const std::string& file_name)
   }
   m_filled = 0;
   assert(m_fileptr);
+  m_seekable = ftell(m_fileptr) != -1 &&
+      (fcntl(fileno(m_fileptr), F_GETFL) & O_APPEND) == 0;
+  m_holding = false;
+  m_written = 0;
 }
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
   flush();
+  releaseHeld();
   if (m_fileptr != stdout && fclose(m_fileptr) != 0) {
     writeFailed();
   }
@@ -75,11 +83,27 @@ void RawOutStream::writeFailed() const {
 }
 
 void RawOutStream::writeToFile(const byte *data, size_t size) {
+  if (m_holding) {
+    m_held.insert(m_held.end(), data, data + size);
+    return;
+  }
+  m_written += size;
   if (fwrite(data, 1, size, m_fileptr) != size) {
     writeFailed();
   }
 }
 
+void RawOutStream::releaseHeld() {
+  if (!m_holding) return;
+  m_holding = false;
+  std::vector<byte> held;
+  held.swap(m_held);
+  if (!held.empty()) writeToFile(&held[0], held.size());
+  if (fflush(m_fileptr) != 0) {
+    writeFailed();
+  }
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
@@ -100,6 +124,11 @@ void RawOutStream::flush() {
 
 long int RawOutStream::getPos() {
   flush();
+  if (!m_seekable) {
+    releaseHeld();
+    m_holding = true;
+    return m_written;
+  }
   return ftell(m_fileptr);
 }
 
@@ -117,15 +146,21 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
 void RawOutStream::write48bits(uint64 to_written, long int position) {
   assert((to_written & (((uint64)0xFFFF) << 48)) == 0);
   flush();
-  long int current = ftell(m_fileptr);
-  // fseeking with negative offset from SEEK_CUR might be faster.
-  fseek(m_fileptr, position, SEEK_SET);
   byte bytes[6];
   for(int i = 5; i >= 0; --i) {
     bytes[5 - i] = 0xFF & (to_written >> i*8);
   }
+  if (!m_seekable) {
+    assert(m_holding && position >= m_written);
+    std::copy(bytes, bytes + 6, m_held.begin() + (position - m_written));
+    releaseHeld();
+    return;
+  }
+  long int current = ftell(m_fileptr);
+  // fseeking with negative offset from SEEK_CUR might be faster.
+  if (fseek(m_fileptr, position, SEEK_SET) != 0) writeFailed();
   writeToFile(bytes, 6);
-  fseek(m_fileptr, current, SEEK_SET);
+  if (fseek(m_fileptr, current, SEEK_SET) != 0) writeFailed();
 }
 
 uint64 RawInStream::read48bits() {
diff --git a/Streams.hpp b/Streams.hpp
index d9c6899..7ab4d2e 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,6 +103,15 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /* If the target isn't seekable (e.g. pipe) the data written after call to
+   * getPos() is held back until the following call to write48bits() or
+   * getPos(). */
+  bool m_seekable;
+  bool m_holding;
+  std::vector<byte> m_held;
+  long int m_written;
+
+  void releaseHeld();
   /** Writes data to file. Terminates the program if it isn't possible. */
   void writeToFile(const byte *data, size_t size);
   void writeFailed() const;
-- 
2.43.0


From 464d7917dfc43cdab99db09c42ae048b1954c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:31 +0000
Subject: [PATCH 10/15] fix: resetting a probability model kept its current
 state

FSM6, FSM8, FSM9, SimpleMarkov and two unused models kept the current state
or context over resetModel(), so the encoding of a block depended on the
block before it although blocks are meant to be compressed independently.
---
 probmodels/BitPredictors.hpp    | 1 +
 probmodels/FSM.hpp              | 9 ++++++++-
 probmodels/ProbabilityModel.cpp | 1 +
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/probmodels/BitPredictors.hpp b/probmodels/BitPredictors.hpp
index 6ba7dd3..f380a0a 100644
--- a/probmodels/BitPredictors.hpp
+++ b/probmodels/BitPredictors.hpp
@@ -286,6 +286,7 @@ class AggressiveOnePredictor : public ProbabilityModel {
 
   void resetModel() {
     m_probabilityOfOne = kHalfProbability;
+    m_step = kHalfProbability;
   }
 
  private:
diff --git a/probmodels/FSM.hpp b/probmodels/FSM.hpp
index 11ba0da..df95f0c 100644
--- a/probmodels/FSM.hpp
+++ b/probmodels/FSM.hpp
@@ -150,6 +150,7 @@ class FSM6 : public ProbabilityModel {
     o1.resetModel();
     o2.resetModel();
     o3.resetModel();
+    m_currentState = 3;
   }
   
   
@@ -211,6 +212,7 @@ class FSM8 : public ProbabilityModel {
     o2.resetModel();
     o3.resetModel();
     o4.resetModel();
+    m_currentState = 4;
   }
   
   
@@ -275,6 +277,7 @@ class FSM9 : public ProbabilityModel {
     o2.resetModel();
     o3.resetModel();
     o4.resetModel();
+    m_currentState = 4;
   }
 
  private:
@@ -311,7 +314,11 @@ class LimitedHistoryModel : public ProbabilityModel {
   void updateState(bool bit) {
     m_history = ((m_history << 1) + (bit?1:0))&s_mask;
   }
-  
+
+  void resetModel() {
+    for(size_t i = 0; i < m_predictors.size(); ++i) m_predictors[i].resetModel();
+    m_history = 0xAAAAAAAA & s_mask;
+  }
 
  private:
   std::vector<BitPredictor> m_predictors;
diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index bf206a5..1974e88 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -125,6 +125,7 @@ void SimpleMarkov<UnsignedInt>::resetModel() {
    * contexts. */
   uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
+  m_prev = 0;
 }
 
 } //namespace bwtc
-- 
2.43.0


From 550813df7b5fc1267fe80b89d0281028443a4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 11/15] fix: memory limits of about 11.6 GB or more aborted
 compression

The cap for the block size was one larger than the largest block size that
sliceIntoBlocks() accepts.
---
 Compressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Compressor.cpp b/Compressor.cpp
index 0ca118a..3503e88 100644
--- a/Compressor.cpp
+++ b/Compressor.cpp
@@ -76,7 +76,7 @@ size_t Compressor::compress(size_t threads) {
    * enough to be on the safe side). */
   size_t pbBlockSize = static_cast<size_t>(m_options.memLimit*0.74);
   size_t bwtBlockSize = std::min(static_cast<size_t>(m_options.memLimit*0.185),
-                                 static_cast<size_t>(0x7fffffff - 1));
+                                 static_cast<size_t>(0x7fffffff - 2));
 
   if(m_precompressor.options().size() == 0) pbBlockSize = bwtBlockSize;
   
@@ -94,7 +94,7 @@ size_t Compressor::compress(size_t threads) {
      */
     if(pbBlockSize != bwtBlockSize) {
       size_t s = (m_options.memLimit - pb->size())/4.5;
-      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 1));
+      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 2));
     }
     
     pb->sliceIntoBlocks(bwtBlockSize);
-- 
2.43.0


From 5912f01390f334e0acfcf76524009ff322db66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:36 +0000
Subject: [PATCH 12/15] fix: the decoder leaked the initial root of every
 wavelet tree

---
 WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 6b3fa7b..67949d6 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -422,6 +422,7 @@ size_t WaveletTree<BitVector>::readShape(Input& input) {
     codeLengths.push_back(std::make_pair(len, alphabet[i]));
   }
 
+  destroy(m_root);
   assignPrefixCodes(codeLengths);
   collectCodes(m_codes, m_root);
   
-- 
2.43.0


From 9504bd6c895c30986c8356c7f33f2c959ff01210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:38 +0000
Subject: [PATCH 13/15] fix: choosing run-length codes dereferenced the end of
 the candidate list

---
 WaveletTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 67949d6..5ddd288 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -1594,7 +1594,8 @@ uint64 WaveletTree<BitVector>::bitsForIntegers(
   // We need at least 'depthForFixedCodes' integers to Huffman tree
   if(depthForFixedCodes > codeLengths.size()) {
     std::map<uint64, uint32>::const_reverse_iterator it = notRemoved.rbegin();
-    for(int i = 0; i< (int)(depthForFixedCodes-codeLengths.size()); ++i, ++it){
+    for(int i = 0; it != notRemoved.rend() &&
+            i< (int)(depthForFixedCodes-codeLengths.size()); ++i, ++it){
       removed[it->second] = true;
       codeLengths.push_back(integerFrequencies[it->second]);
       if(minFreq == 0 || minFreq > it->first) {
-- 
2.43.0


From d97c9b6832eb1d764844c81a0971f7ddb6e6cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 14/15] fix: preprocess reports a garbage total size for empty
 input

---
 preprocess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocess.cpp b/preprocess.cpp
index 8514858..064f6bf 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -72,7 +72,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   bwtc::RawOutStream out(output_name);
 
   unsigned blocks = 0;
-  bwtc::uint64 last_s = 0;
+  bwtc::uint64 total = 0;
   while(bwtc::PrecompressorBlock* block = preprocessor.readBlock(block_size, &in)) {
     if(block->originalSize() == 0) {
       delete block;
@@ -84,7 +84,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
     block->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); 
     out.writeBlock(block->begin(), block->end());
 
-    last_s = block->originalSize();
+    total += block->originalSize();
     delete block;
   }
 
@@ -92,7 +92,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   
   if (verbosity > 0) {
     std::clog << "Read " << blocks << " block" << ((blocks < 2)?"":"s") << "\n";
-    std::clog << "Total size: " << (blocks-1)*block_size + last_s << "B\n";
+    std::clog << "Total size: " << total << "B\n";
   }
 }
 
-- 
2.43.0


From d35b1970b4326243672dff93cf787a3e8a89fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:45 +0000
Subject: [PATCH 15/15] fix: symbol counts of 4 GiB blocks were truncated to 32
 bits

FrequencyTable keeps size_t counts but handed them out as uint32, so a symbol
occurring 2^32 times counted as unused and precompression ran past the end of
the table (or would have taken the symbol for a variable).
---
 preprocessors/FrequencyTable.cpp | 4 ++--
 preprocessors/FrequencyTable.hpp | 4 ++--
 preprocessors/PairReplacer.cpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index 961b326..ed157ad 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -75,12 +75,12 @@ void FrequencyTable::initialize(size_t* frequencies) {
   initLocations();
 }
 
-uint32 FrequencyTable::getFrequency(int i) const {
+size_t FrequencyTable::getFrequency(int i) const {
   assert(i >= 0 && i < m_last);
   return m_frequencies[i].second;
 }
 
-uint32 FrequencyTable::getFrequencyWithKey(byte key) const {
+size_t FrequencyTable::getFrequencyWithKey(byte key) const {
   return m_frequencies[m_location[key]].second;
 }
 
diff --git a/preprocessors/FrequencyTable.hpp b/preprocessors/FrequencyTable.hpp
index d948438..52a4c7c 100644
--- a/preprocessors/FrequencyTable.hpp
+++ b/preprocessors/FrequencyTable.hpp
@@ -48,9 +48,9 @@ class FrequencyTable {
   void initialize(size_t* frequencies);
 
   /** Returns the i:th lowest freq*/
-  uint32 getFrequency(int i) const; 
+  size_t getFrequency(int i) const; 
 
-  uint32 getFrequencyWithKey(byte key) const;
+  size_t getFrequencyWithKey(byte key) const;
 
   /** Returns the key which has i:th lowest freq*/
   byte getKey(int i) const; 
diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 9fb1cae..15f4f41 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -150,7 +150,7 @@ int64 PairReplacer::findReplaceables(size_t startingPair,
     }
     assert(!m_grammar.isSpecial(freqs.getKey(currentSymbol)));
 
-    uint32 fr = freqs.getFrequency(currentSymbol);
+    size_t fr = freqs.getFrequency(currentSymbol);
 
     if(fr + 1003 >= pairs[currentPair].first || withoutNew == 0) {
       hope = false;
@@ -215,7 +215,7 @@ int64 PairReplacer::findReplaceables(size_t startingPair,
       }
       assert(!m_grammar.isSpecial(freqs.getKey(currentSymbol)));
 
-      uint32 fr = freqs.getFrequency(currentSymbol);
+      size_t fr = freqs.getFrequency(currentSymbol);
       
       if(fr + 1003 >= pairs[currentPair].first) {
         hope = false;
-- 
2.43.0

