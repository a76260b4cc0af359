From 5cff6216af048ab1d9a033bf9a1cb2faddce8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 01/64] fix: bit-level readers read past the end of the input
 buffer

BitStream_ReadBit, BitStream_PeekBit and BitStream_ReadPartialByte dereferenced
buf[count] on truncated input and only then reported the failure.
---
 asn1crt/asn1crt_encoding.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..9ea8583 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -229,6 +229,8 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -242,6 +244,8 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 }
 
@@ -497,6 +501,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
@@ -510,6 +516,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 		totalBitsForNextByte = totalBits - 8;
 		*v = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << totalBitsForNextByte);
 		bitstream_fetch_data_if_required(pBitStrm);
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBitsForNextByte));
 		*v &= masksb[nbits];
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 3e760b29675f41720306f5a1a96713edf31bfd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 02/64] fix: BitStream_ReadByteArray reads one byte past the
 buffer and ignores refills

When byte aligned it read the byte following the requested ones; when streaming
it kept reading through a pointer that a refill had made stale.
---
 asn1crt/asn1crt_encoding.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 9ea8583..416a4c2 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -392,7 +392,6 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     int cb = pBitStrm->currentBit;
     int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
 	byte* wb = arr;
 
 #ifndef ASN1SCC_STREAMING
@@ -401,13 +400,17 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
+		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
 		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
+		if (cb > 0) {
+			if (pBitStrm->currentByte >= pBitStrm->count)
+				return FALSE;
+			*wb |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
+		}
 		wb++;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
-- 
2.43.0


From af3fd79d3fb76db5b6bd876931a74b146b43bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 03/64] fix: BitStream_AppendByteArray touches the byte after
 the data and merges stale bits

Byte aligned calls accessed the byte following the written ones (past the buffer
when it is exactly full), and the middle bytes were OR-ed into whatever the buffer
held before instead of replacing it.
---
 asn1crt/asn1crt_encoding.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 416a4c2..056fbd4 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -335,17 +335,23 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
 
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        }
     }
 
     for (int i = 1; i < arr_len - 1; i++) {
         byte v = arr[i];
         byte v1 = (byte)(v >> cb);
         byte v2 = (byte)(v << ncb);
+        pBitStrm->buf[pBitStrm->currentByte] &= mask;
         pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        }
     }
     if (arr_len - 1 > 0) {
         byte v = arr[arr_len - 1];
-- 
2.43.0


From 0a9f3411360ae695201e594bf0da5045af978e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 04/64] fix: streaming mode corrupts octet strings longer than
 the remaining buffer

With ASN1SCC_STREAMING every batch of an octet string was copied from/to the start
of the array, unaligned octet strings crossing a block were refused and so were
unaligned bytes crossing a block. Running out of buffer without a callback looped
forever.
---
 asn1crt/asn1crt_encoding.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 056fbd4..fc2ce77 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -326,8 +326,10 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
     byte mask = (byte)~masksb[ncb];
     byte nmask = (byte)~mask;
     //if (pBitStrm->currentByte + (int)arr_len + (cb > 0 ? 1 : 0) >= pBitStrm->count)
+#ifndef ASN1SCC_STREAMING
     if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
         return FALSE;
+#endif
 
     if (arr_len> 0) {
         byte v = arr[0];
@@ -376,6 +378,11 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 	int requiredBytes = (cb > 0) ? 2 : 1;
 	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
 
+#ifdef ASN1SCC_STREAMING
+	//the second byte may come with the next block of data
+	if (pBitStrm->fetchDataPrm != NULL)
+		requiredBytes = 1;
+#endif
 	if (availableBytes < requiredBytes) {
 		return FALSE;
 	}
@@ -1417,7 +1424,9 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 				remainingBytesToSend :
 				pBitStrm->count - pBitStrm->currentByte;
 
-			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
+			if (currentBatch <= 0)
+				return FALSE;
+			memcpy(&pBitStrm->buf[pBitStrm->currentByte], &arr[nCount - remainingBytesToSend], currentBatch);
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
 			remainingBytesToSend -= currentBatch;
@@ -1458,7 +1467,9 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
                 remainingBytesToRead :
                 pBitStrm->count - pBitStrm->currentByte;
 
-            memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
+            if (currentBatch <= 0)
+                return FALSE;
+            memcpy(&arr[nCount - remainingBytesToRead], &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
             remainingBytesToRead -= currentBatch;
-- 
2.43.0


From de16cee936cfe380eb73f9a046fbf38e16ef4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 05/64] fix: BitStream_AppendNBitZero did not write the zero
 bits

It only moved the position, so a buffer that is not all zero (a streaming buffer
after its first push, a reused or attached buffer) leaked old data into the
encoding; when the bits did not fit it silently restarted near the buffer start.
---
 asn1crt/asn1crt_encoding.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index fc2ce77..3a72ba9 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -163,19 +163,14 @@ void BitStream_AppendBitZero(BitStream* pBitStrm)
 
 void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 {
-	int totalBits = pBitStrm->currentBit + nbits;
-	int totalBytes = totalBits / 8;
-	pBitStrm->currentBit = totalBits % 8;
-	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
-		pBitStrm->currentByte = pBitStrm->count;
-		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+	int i;
+
+	while (nbits >= 8) {
+		BitStream_AppendByte(pBitStrm, 0x00, FALSE);
+		nbits -= 8;
 	}
+	for (i = 0; i<nbits; i++)
+		BitStream_AppendBitZero(pBitStrm);
 }
 
 void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
-- 
2.43.0


From 39736a350e9e2fb12f73ff47d60e50f69d416950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 06/64] fix: truncated OCTET STRING accepted by
 BitStream_DecodeOctetString

The result of reading the contents was ignored (the value was left undefined and
success was reported) and an undefined count was stored when reading the length
failed.
---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 3a72ba9..8271b7a 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1651,10 +1651,10 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 			ret = TRUE;
 			nCountL = asn1SizeMin;
 		}
-		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			*nCount = (int)nCountL;
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From aa78dd47cbbef7d4ade92092a41c03972175be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 07/64] fix: fragmented OCTET/BIT STRING decoders reject empty
 and accept too short values

An empty value whose SIZE constraint allows it was encoded but could not be decoded
again, while values shorter than the lower bound were accepted.
---
 asn1crt/asn1crt_encoding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 8271b7a..0c70234 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1603,7 +1603,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1659,6 +1659,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 	}
 	else {
 		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax);
+		ret = ret && (*nCount >= asn1SizeMin);
 	}
 	return ret;
 }
@@ -1791,7 +1792,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= asn1SizeMin) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From e0afae7cebfec96b15fb6892b2a11be40b84715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 08/64] fix: signed overflow when encoding extreme integers

The smallest integer, and ranges wider than half of the native range, made the
encoders (and the range computation of the decoder) overflow a signed integer,
which is undefined behaviour.
---
 asn1crt/asn1crt.c              |  2 +-
 asn1crt/asn1crt_encoding.c     | 22 +++++++++++-----------
 asn1crt/asn1crt_encoding_acn.c | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..2132b7b 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -26,7 +26,7 @@ const asn1SccUint32 ber_aux[] = {
 asn1SccUint int2uint(asn1SccSint v) {
     asn1SccUint ret = 0;
     if (v < 0) {
-        ret = (asn1SccUint)(-v - 1);
+        ret = (asn1SccUint)(-(v + 1));
         ret = ~ret;
     }
     else {
diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 0c70234..36f4397 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -780,7 +780,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v)
 	if (v >= 0)
 		return GetLengthSIntHelper((asn1SccUint)v);
 
-	return GetLengthSIntHelper((asn1SccUint)(-v - 1));
+	return GetLengthSIntHelper((asn1SccUint)(-(v + 1)));
 }
 
 
@@ -791,13 +791,13 @@ void BitStream_EncodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint v, a
 	int nBits;
 	asn1SccUint range;
 	assert(min <= max);
-	range = (asn1SccUint)(max - min);
+	range = (asn1SccUint)max - (asn1SccUint)min;
 	if (!range)
 		return;
 	nRangeBits = GetNumberOfBitsForNonNegativeInteger(range);
-	nBits = GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(v - min));
+	nBits = GetNumberOfBitsForNonNegativeInteger((asn1SccUint)v - (asn1SccUint)min);
 	BitStream_AppendNBitZero(pBitStrm, nRangeBits - nBits);
-	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)(v - min));
+	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)v - (asn1SccUint)min);
 }
 
 void BitStream_EncodeConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUint v, asn1SccUint min, asn1SccUint max)
@@ -821,7 +821,7 @@ flag BitStream_DecodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v,
 {
 	asn1SccUint uv;
 	int nRangeBits;
-	asn1SccUint range = (asn1SccUint)(max - min);
+	asn1SccUint range = (asn1SccUint)max - (asn1SccUint)min;
 
 	ASSERT_OR_RETURN_FALSE(min <= max);
 
@@ -839,7 +839,7 @@ flag BitStream_DecodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v,
 	{
 		if (uv > range)
 			return FALSE;
-		*v = ((asn1SccSint)uv) + min;
+		*v = (asn1SccSint)(uv + (asn1SccUint)min);
 		return TRUE;
 	}
 	return FALSE;
@@ -936,14 +936,14 @@ void BitStream_EncodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint
 {
 	int nBytes;
 	assert(v >= min);
-	nBytes = GetLengthInBytesOfUInt((asn1SccUint)(v - min));
+	nBytes = GetLengthInBytesOfUInt((asn1SccUint)v - (asn1SccUint)min);
 
 	/* encode length */
 	BitStream_EncodeConstraintWholeNumber(pBitStrm, nBytes, 0, 255); /*8 bits, first bit is always 0*/
 																	 /* put required zeros*/
-	BitStream_AppendNBitZero(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(v - min)));
+	BitStream_AppendNBitZero(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)v - (asn1SccUint)min));
 	/*Encode number */
-	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)(v - min));
+	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)v - (asn1SccUint)min);
 }
 
 void BitStream_EncodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUint v, asn1SccUint min)
@@ -1012,8 +1012,8 @@ void BitStream_EncodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint v)
 		BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)(v));
 	}
 	else {
-		BitStream_AppendNBitOne(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-v - 1)));
-		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-v - 1), 1);
+		BitStream_AppendNBitOne(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-(v + 1))));
+		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-(v + 1)), 1);
 	}
 }
 
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..efe64cf 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -322,8 +322,8 @@ void Acn_Enc_Int_TwosComplement_ConstSize(BitStream* pBitStrm, asn1SccSint intVa
 		BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)intVal);
 	}
 	else {
-		BitStream_AppendNBitOne(pBitStrm, encodedSizeInBits - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-intVal - 1)));
-		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-intVal - 1), 1);
+		BitStream_AppendNBitOne(pBitStrm, encodedSizeInBits - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-(intVal + 1))));
+		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-(intVal + 1)), 1);
 	}
 	CHECK_BIT_STREAM(pBitStrm);
 
@@ -465,7 +465,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm,
 static asn1SccUint To_UInt(asn1SccSint intVal) {
 	asn1SccUint ret = 0;
 	if (intVal <0) {
-		ret = (asn1SccUint)(-intVal - 1);
+		ret = (asn1SccUint)(-(intVal + 1));
 		ret = ~ret;
 	}
 	else {
@@ -673,7 +673,7 @@ void Acn_Enc_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int e
 
 void Acn_Enc_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint intVal, int encodedSizeInBytes)
 {
-	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)(-intVal);
+	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)0 - (asn1SccUint)intVal;
 
 	/* encode sign */
 	BitStream_AppendByte0(pBitStrm, intVal >= 0 ? '+' : '-');
@@ -767,7 +767,7 @@ void Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccSint
 	byte digitsArray100[100];
 	int i = 0;
 	byte nChars;
-	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)(-intVal);
+	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)0 - (asn1SccUint)intVal;
 	getIntegerDigits(absIntVal, digitsArray100, &nChars);
 
 	/* encode length, plus 1 for sign */
@@ -843,7 +843,7 @@ void Acn_Enc_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint
 
 void Acn_Enc_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint intVal, const byte null_characters[], size_t null_characters_size)
 {
-	asn1SccUint absValue = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)(-intVal);
+	asn1SccUint absValue = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)0 - (asn1SccUint)intVal;
 	BitStream_AppendByte0(pBitStrm, intVal >= 0 ? '+' : '-');
 
 	Acn_Enc_UInt_ASCII_VarSize_NullTerminated(pBitStrm, absValue, null_characters, null_characters_size);
-- 
2.43.0


From a68fecbee3abb8076d8d3af7913048ef084cf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 09/64] fix: integer decoders overflow and wrap on hostile
 input

Negative values were left-shifted, semi-constrained values beyond the native range
silently wrapped around to values below the declared lower bound, and the sign of a
zero-octet integer was taken from the bit that follows it.
---
 asn1crt/asn1crt_encoding.c     | 19 ++++++++++++++-----
 asn1crt/asn1crt_encoding_acn.c |  9 +++++----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 36f4397..34e51ee 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -964,6 +964,7 @@ void BitStream_EncodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v, asn1SccSint min)
 {
 	asn1SccSint nBytes;
+	asn1SccUint uv = 0;
 	int i;
 	*v = 0;
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
@@ -974,9 +975,12 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*v = (*v << 8) | b;
+		uv = (uv << 8) | b;
 	}
-	*v += min;
+	/* min + uv must be representable */
+	if (uv > (asn1SccUint)(MAX_INT >> 1) - (asn1SccUint)min)
+		return FALSE;
+	*v = (asn1SccSint)(uv + (asn1SccUint)min);
 	return TRUE;
 }
 
@@ -995,6 +999,9 @@ flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 			return FALSE;
 		*v = (*v << 8) | b;
 	}
+	/* min + *v must be representable */
+	if (*v > (asn1SccUint)MAX_INT - min)
+		return FALSE;
 	*v += min;
 	return TRUE;
 }
@@ -1020,6 +1027,7 @@ void BitStream_EncodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint v)
 flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v)
 {
 	asn1SccSint nBytes;
+	asn1SccUint uv;
 	int i;
 	flag valIsNegative;
 
@@ -1029,16 +1037,17 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 	if (nBytes > WORD_SIZE)
 		return FALSE;
 
-	valIsNegative = BitStream_PeekBit(pBitStrm);
+	valIsNegative = nBytes > 0 && BitStream_PeekBit(pBitStrm);
 
-	*v = valIsNegative ? MAX_INT : 0;
+	uv = valIsNegative ? MAX_INT : 0;
 
 	for (i = 0; i<nBytes; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*v = (*v << 8) | b;
+		uv = (uv << 8) | b;
 	}
+	*v = (asn1SccSint)uv;
 
 	return TRUE;
 }
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index efe64cf..0698c92 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -379,20 +379,21 @@ flag Acn_Dec_Int_TwosComplement_ConstSize(BitStream* pBitStrm, asn1SccSint* pInt
 	int nBytes = encodedSizeInBits / 8;
 	int rstBits = encodedSizeInBits % 8;
 	byte b = 0;
+	asn1SccUint v = valIsNegative ? MAX_INT : 0;
 
-	*pIntVal = valIsNegative ? MAX_INT : 0;
 	for (i = 0; i<nBytes; i++) {
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*pIntVal = (*pIntVal << 8) | b;
+		v = (v << 8) | b;
 	}
 
 	if (rstBits>0)
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &b, (byte)rstBits))
 			return FALSE;
-		*pIntVal = (*pIntVal << rstBits) | b;
+		v = (v << rstBits) | b;
 	}
+	*pIntVal = (asn1SccSint)v;
 	return TRUE;
 }
 
@@ -514,7 +515,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1
 		v = (v << 8) | b;
 	}
 	if (isNegative) {
-		*pIntVal = -((asn1SccSint)(~v)) - 1;
+		*pIntVal = -(asn1SccSint)(~v) - 1;
 	}
 	else {
 		*pIntVal = (asn1SccSint)v;
-- 
2.43.0


From 42ff2850071bcce02f1862f2d50296f5b6afead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 10/64] fix: Acn_Dec_String_Ascii_Null_Terminated_mult writes
 past the string buffer

A string without terminator stored max + 1 characters and then the final zero at
strVal[max + 1]; the buffer has max + 1 characters.
---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 0698c92..345e2b1 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1335,7 +1335,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From 0735de9f226abe11342bbffcdb720dd7c555a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 11/64] fix: ACN ASCII and BCD decoders abort on or misread
 malformed numbers

Characters that are no digit or sign tripped an assertion or (null terminated ASCII,
BCD) were taken as part of the number, and numbers beyond the native range wrapped
around instead of being rejected.
---
 asn1crt/asn1crt_encoding_acn.c | 55 ++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 345e2b1..99be9fa 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -565,6 +565,17 @@ void Acn_Enc_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int enco
 
 
 
+//appends a decimal digit to pVal, fails if it is not a digit or the result is not representable
+static flag Acn_Append_Digit(asn1SccUint* pVal, byte digit)
+{
+	if (digit > 9)
+		return FALSE;
+	if (*pVal > ((asn1SccUint)MAX_INT - digit) / 10)
+		return FALSE;
+	*pVal = *pVal * 10 + digit;
+	return TRUE;
+}
+
 flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int encodedSizeInNibbles)
 {
 	byte digit;
@@ -576,8 +587,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Digit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInNibbles--;
 	}
@@ -638,8 +649,8 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 		if (digit>9)
 			break;
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Digit(&ret, digit))
+			return FALSE;
 
 	}
 	*pIntVal = ret;
@@ -695,11 +706,10 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
 		digit = (byte)((int)digit - '0');
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Digit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInBytes--;
 	}
@@ -708,6 +718,18 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	return TRUE;
 }
 
+//fails if the signed value is not representable
+static flag Acn_Apply_Sign(asn1SccSint* pIntVal, asn1SccUint absVal, flag isNegative)
+{
+	if (absVal <= (MAX_INT >> 1))
+		*pIntVal = isNegative ? -(asn1SccSint)absVal : (asn1SccSint)absVal;
+	else if (isNegative && absVal == (MAX_INT >> 1) + 1)
+		*pIntVal = -(asn1SccSint)(MAX_INT >> 1) - 1;
+	else
+		return FALSE;
+	return TRUE;
+}
+
 flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int encodedSizeInBytes)
 {
 	byte digit;
@@ -721,7 +743,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	else if (digit == '-')
 		sign = -1;
 	else {
-		ASSERT_OR_RETURN_FALSE(0);
+		return FALSE;
 	}
 	encodedSizeInBytes--;
 
@@ -730,10 +752,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)ret;
-
-	*pIntVal = sign*(*pIntVal);
-	return TRUE;
+	return Acn_Apply_Sign(pIntVal, ret, sign < 0);
 
 }
 
@@ -874,8 +893,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 
 		digit = (byte)((int)digit - '0');
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Digit(&ret, digit))
+			return FALSE;
 	}
 
 	*pIntVal = ret;
@@ -892,17 +911,15 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)ret;
-	if (isNegative)
-		*pIntVal = -(*pIntVal);
-	return TRUE;
+	return Acn_Apply_Sign(pIntVal, ret, isNegative);
 }
 
 
-- 
2.43.0


From 365cd29641da43dfc115b9438f81f1d16d789c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 12/64] fix: BCD integers above 16 digits could be encoded but
 not decoded

Acn_Dec_Int_BCD_VarSize_LengthEmbedded refused the 17 to 20 nibbles its encoder
produces for values of 10^16 and above.
---
 asn1crt/asn1crt_encoding_acn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 99be9fa..2b770c6 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -616,7 +616,8 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
+	/* the largest native integer has 20 (10) decimal digits */
+	if (nNibbles > (WORD_SIZE == 8 ? 20 : 10))
 		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
-- 
2.43.0


From 8ecbd37c826d25d480441cbbe7c7cf32cecc6d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 13/64] fix: narrow integer decoders truncate wire values and
 read undefined data

The ...Int8/UInt8/.../UInt32 decoders stored an undefined value when decoding failed
and silently dropped the upper bits of a number that does not fit (65 537 on the wire
became 1 and passed the constraint check) instead of reporting it.
---
 asn1crt/asn1crt_encoding.c     |  26 +--
 asn1crt/asn1crt_encoding_acn.c | 292 ++++++++++++++++-----------------
 2 files changed, 159 insertions(+), 159 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 34e51ee..5894cea 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -847,58 +847,58 @@ flag BitStream_DecodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v,
 
 flag BitStream_DecodeConstraintWholeNumberInt8(BitStream* pBitStrm, int8_t* v, int8_t min, int8_t max)
 {
-    asn1SccSint bv;
+    asn1SccSint bv = 0;
     flag ret;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &bv, min, max);
     *v = (int8_t)bv;
-    return ret;
+    return ret && *v == bv;
 }
 
 flag BitStream_DecodeConstraintWholeNumberInt16(BitStream* pBitStrm, int16_t* v, int16_t min, int16_t max)
 {
-    asn1SccSint bv;
+    asn1SccSint bv = 0;
     flag ret;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &bv, min, max);
     *v = (int16_t)bv;
-    return ret;
+    return ret && *v == bv;
 }
 
 flag BitStream_DecodeConstraintWholeNumberInt32(BitStream* pBitStrm, int32_t* v, int32_t min, int32_t max)
 {
-    asn1SccSint bv;
+    asn1SccSint bv = 0;
     flag ret;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &bv, min, max);
     *v = (int32_t)bv;
-    return ret;
+    return ret && *v == bv;
 }
 
 
 flag BitStream_DecodeConstraintPosWholeNumberUInt8(BitStream* pBitStrm, uint8_t* v, uint8_t min, uint8_t max)
 {
-    asn1SccUint bv;
+    asn1SccUint bv = 0;
     flag ret;
     ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, &bv, min, max);
     *v = (uint8_t)bv;
-    return ret;
+    return ret && *v == bv;
 }
 
 flag BitStream_DecodeConstraintPosWholeNumberUInt16(BitStream* pBitStrm, uint16_t* v, uint16_t min, uint16_t max)
 {
-    asn1SccUint bv;
+    asn1SccUint bv = 0;
     flag ret;
     ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, &bv, min, max);
     *v = (uint16_t)bv;
-    return ret;
+    return ret && *v == bv;
 }
 
 
 flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_t* v, uint32_t min, uint32_t max)
 {
-    asn1SccUint bv;
+    asn1SccUint bv = 0;
     flag ret;
     ret = BitStream_DecodeConstraintPosWholeNumber(pBitStrm, &bv, min, max);
     *v = (uint32_t)bv;
-    return ret;
+    return ret && *v == bv;
 }
 
 
@@ -1835,7 +1835,7 @@ void bitstream_push_data_if_required(BitStream* pStrm) {
 
 flag BitStream_DecodeReal_fp32(BitStream* pBitStrm, float* v)
 {
-	asn1Real rv;
+	asn1Real rv = 0.0;
 	flag ret = BitStream_DecodeReal(pBitStrm, &rv);
 	*v = (float)rv;
 	return ret;
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 2b770c6..e5e7674 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1494,586 +1494,586 @@ asn1SccSint milbus_decode(asn1SccSint val)
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
-- 
2.43.0


From 0c6f4d765953c75fcc263af61be2fd2073cc31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 14/64] fix: REAL decoder overflows, stalls on large exponents
 and loses small numbers

The wire exponent was shifted and multiplied as a signed integer (overflow), drove a
loop of up to 2^33 steps, and 2^1024 as intermediate result turned every number below
2^-971 into zero.
---
 asn1crt/asn1crt_encoding.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 5894cea..1da468e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1142,25 +1142,24 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
+	asn1Real ret = (asn1Real)mantissa;
 	if (mantissa == 0)
 		return 0.0;
 
+	/* once the value is infinite (zero) the remaining steps do not change it */
 	if (exponent >= 0) {
-		while (exponent) {
+		while (exponent && ret * 2.0 != ret) {
 			ret = ret * 2.0;
 			exponent--;
 		}
-		return (asn1Real)mantissa*ret;
 	}
 	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
+		while (exponent && ret != 0.0) {
+			ret = ret / 2.0;
+			exponent++;
 		}
-		return ((asn1Real)mantissa) / ret;
 	}
+	return ret;
 #endif
 }
 
@@ -1296,6 +1295,7 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	unsigned factor = 1;
 	int expLen;
 	int exponent;
+	asn1SccUint32 uexponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
 	asn1SccUint N = 0;
@@ -1320,13 +1320,19 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	if (expLen>length)
 		return FALSE;
 	expIsNegative = BitStream_PeekBit(pBitStrm);
-	exponent = expIsNegative ? 0xFFFFFFFF : 0;
+	uexponent = expIsNegative ? 0xFFFFFFFF : 0;
 	for (i = 0; i<expLen; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		exponent = exponent << 8 | b;
-	}
+		uexponent = uexponent << 8 | b;
+	}
+	exponent = (int)uexponent;
+	/* beyond this the result is zero or infinite anyhow */
+	if (exponent > 100000)
+		exponent = 100000;
+	if (exponent < -100000)
+		exponent = -100000;
 
 	length -= expLen;
 
-- 
2.43.0


From 5cbb33b0db7bbf6505383feae5e9a5b3de6feb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 15/64] fix: BIT STRING encoder reports success when the
 contents do not fit

The refusal of the octet part was dropped, so the encoding silently lacked the
contents.
---
 asn1crt/asn1crt_encoding.c | 17 ++++++++++-------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 1da468e..59eaee2 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -186,19 +186,21 @@ void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
 
 }
 
-void BitStream_AppendBits(BitStream* pBitStrm, const byte* srcBuffer, int nbits)
+flag BitStream_AppendBits(BitStream* pBitStrm, const byte* srcBuffer, int nbits)
 {
 	byte lastByte = 0;
 
     int bytesToEncode = nbits / 8;
     int remainingBits = nbits % 8;
     
-    BitStream_EncodeOctetString_no_length(pBitStrm, srcBuffer, bytesToEncode);
+    if (!BitStream_EncodeOctetString_no_length(pBitStrm, srcBuffer, bytesToEncode))
+        return FALSE;
 
     if (remainingBits > 0) {
 		lastByte = (byte)(srcBuffer[bytesToEncode] >> (8 - remainingBits));
 		BitStream_AppendPartialByte(pBitStrm, lastByte, (byte)remainingBits, FALSE);
 	}
+    return TRUE;
 }
 
 void BitStream_AppendBit(BitStream* pBitStrm, flag v)
@@ -1681,11 +1683,12 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 
 
 flag BitStream_EncodeBitString(BitStream* pBitStrm, const byte* arr, int nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
+	flag ret = TRUE;
 	if (asn1SizeMax < 65536) {
 		if (asn1SizeMin != asn1SizeMax) {
 			BitStream_EncodeConstraintWholeNumber(pBitStrm, nCount, asn1SizeMin, asn1SizeMax);
 		}
-		BitStream_AppendBits(pBitStrm, arr, nCount);
+		ret = BitStream_AppendBits(pBitStrm, arr, nCount);
 	}
 	else {
 		asn1SccSint nRemainingItemsVar1;
@@ -1694,7 +1697,7 @@ flag BitStream_EncodeBitString(BitStream* pBitStrm, const byte* arr, int nCount,
 		nRemainingItemsVar1 = nCount;
 		nCurBlockSize1 = 0;
 		nCurOffset1 = 0;
-		while (nRemainingItemsVar1 >= 0x4000 )
+		while (nRemainingItemsVar1 >= 0x4000 && ret)
 		{
 			if (nRemainingItemsVar1 >= 0x10000)
 			{
@@ -1717,7 +1720,7 @@ flag BitStream_EncodeBitString(BitStream* pBitStrm, const byte* arr, int nCount,
 				BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC1, 0, 0xFF);
 			}
 
-			BitStream_AppendBits(pBitStrm, &arr[nCurOffset1 / 8], (int)nCurBlockSize1);
+			ret = BitStream_AppendBits(pBitStrm, &arr[nCurOffset1 / 8], (int)nCurBlockSize1);
 			nCurOffset1 += nCurBlockSize1;
 			nRemainingItemsVar1 -= nCurBlockSize1;
 		}
@@ -1730,10 +1733,10 @@ flag BitStream_EncodeBitString(BitStream* pBitStrm, const byte* arr, int nCount,
 			BitStream_EncodeConstraintWholeNumber(pBitStrm, nRemainingItemsVar1, 0, 0x7FFF);
 		}
 
-		BitStream_AppendBits(pBitStrm, &arr[nCurOffset1 / 8], (int)nRemainingItemsVar1);
+		ret = ret && BitStream_AppendBits(pBitStrm, &arr[nCurOffset1 / 8], (int)nRemainingItemsVar1);
 	}
 
-	return TRUE;
+	return ret;
 
 }
 
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..6e45436 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -46,7 +46,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 void BitStream_Init(BitStream* pBitStrm, unsigned char* buf, long count);
 void BitStream_AttachBuffer(BitStream* pBitStrm, unsigned char* buf, long count);
 void BitStream_AppendBit(BitStream* pBitStrm, flag v);
-void BitStream_AppendBits(BitStream* pBitStrm, const byte* srcBuffer, int nBitsToWrite);
+flag BitStream_AppendBits(BitStream* pBitStrm, const byte* srcBuffer, int nBitsToWrite);
 void BitStream_AppendByte(BitStream* pBitStrm, byte v, flag negate);
 flag BitStream_AppendByte0(BitStream* pBitStrm, byte v);
 
-- 
2.43.0


From 3a46790398519c16a15f34c354904ee4ff3e4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 16/64] fix: AppendPartialByte clears the bits after the field
 and merges stale ones

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 59eaee2..2f4eb0f 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -498,7 +498,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];	//keep only the bits that follow the field
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From e1644a44954f7a7cfb8e6c34d0261d0d6ce8a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 17/64] fix: terminator that follows immediately is not
 recognised when no bits may precede it

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 2f4eb0f..668a5d2 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1400,7 +1400,7 @@ int BitStream_checkBitPatternPresent(BitStream* pBitStrm, const byte bit_termina
 flag BitStream_ReadBits_nullterminated(BitStream* pBitStrm, const byte bit_terminated_pattern[], size_t bit_terminated_pattern_size_in_bits, byte* BuffToWrite, int nMaxReadBits, int *bitsRead)
 {
 
-	int checkBitPatternPresentResult = 0;
+	int checkBitPatternPresentResult = 1;
 	*bitsRead = 0;
 	int ret = TRUE;
 	flag bitVal;
-- 
2.43.0


From db45de682df5863b348190daf50ebba90f066ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 18/64] fix: subnormal REAL values are encoded as different
 numbers

---
 asn1crt/asn1crt_encoding.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 668a5d2..edeae58 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1130,12 +1130,18 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #if FP_WORD_SIZE==8
 	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
+	if (ll & ExpoBitMask)
+		(*mantissa) |= MantisaExtraBit;
+	else
+		(*exponent)++;		/* subnormal number */
 #else
 	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
 
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
+	if (ll & ExpoBitMask)
+		(*mantissa) |= MantisaExtraBit;
+	else
+		(*exponent)++;		/* subnormal number */
 #endif
 }
 
-- 
2.43.0


From bbf88642683117c380a32e9ac20d5b92316d3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 19/64] fix: signed ASCII decoder takes the sign from outside
 an empty number

---
 asn1crt/asn1crt_encoding_acn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index e5e7674..648b3f0 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -737,6 +737,8 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	asn1SccUint ret = 0;
 	int sign = 1;
 
+	if (encodedSizeInBytes <= 0)
+		return FALSE;
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
 	if (digit == '+')
-- 
2.43.0


From 13ca8bedb38f18ae5a248afeeef3e999b3ff234b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 20/64] fix: BER byte access goes one byte past the end of the
 buffer

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4355355..c11d1ee 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -13,7 +13,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v);
 
 static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 
 	pStrm->buf[pStrm->currentByte] = v;
@@ -22,7 +22,7 @@ static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 }
 
 static flag ByteStream_GetByte(ByteStream* pStrm, byte* v) {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 	*v = pStrm->buf[pStrm->currentByte];
 	pStrm->currentByte++;
-- 
2.43.0


From e3decb4d666d1705bf327c04afab9084435db799 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 21/64] fix: BER length octets beyond the native range are
 taken as another length

---
 asn1crt/asn1crt_encoding_ber.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index c11d1ee..c755d9d 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -4,6 +4,7 @@
 #include <math.h>
 #include <float.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "asn1crt_encoding_ber.h"
@@ -154,6 +155,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 			*value = -1;
 			return TRUE;
 		}
+		if (lenlen > sizeof(ret)) {
+			*pErrCode = ERR_BER_LENGTH_MISMATCH;
+			return FALSE;
+		}
 	}
 
 	for (i = 0; i<lenlen; i++) {
@@ -165,6 +170,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 		ret <<= 8;
 		ret |= curByte;
 	}
+	if (ret > (unsigned int)INT_MAX) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 	*value = (int)ret;
 	return TRUE;
 }
-- 
2.43.0


From 7a91b33084f791f0bf918384cd1fd70fb1974974 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 22/64] fix: BER INTEGER accepts lengths the native integer
 cannot hold

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index c755d9d..8d7496c 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -258,6 +258,10 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 1 || length > WORD_SIZE) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length; i++) {
 		byte curByte;
-- 
2.43.0


From ea357ee3a6d442b257afa76d9ad57e7ef4f7ae47 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 23/64] fix: BER string decoders accept the indefinite length
 and report negative counts

---
 asn1crt/asn1crt_encoding_ber.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 8d7496c..1864ff4 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -405,6 +405,10 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 
 	for (i = 0; i<length; i++) {
@@ -494,11 +498,19 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 1) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	if (!ByteStream_GetByte(pByteStrm, &lastByteUnusedBits)) {
 		*pErrCode = ERR_INSUFFICIENT_DATA;
 		return FALSE;
 	}
+	if (lastByteUnusedBits > 7 || (length == 1 && lastByteUnusedBits != 0)) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length - 1; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
@@ -553,6 +565,10 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	if (octCount != NULL)
 		*octCount = length <= maxOctCount ? length : maxOctCount;
-- 
2.43.0


From 5570109d0ac20729c3c70149de65e1bc2a444985 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 24/64] fix: BER tags of more than four octets shift an int out
 of range

---
 asn1crt/asn1crt_encoding_ber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 1864ff4..f1f43fa 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -93,7 +93,7 @@ flag BerDecodeTag(ByteStream* pByteStrm, BerTag tag, int *pErrCode) {
 		tgCopy >>= 8;
 		tagSize++;
 	}
-	PrimitiveBit = (BerTag)(0x20 << ((tagSize - 1) * 8));
+	PrimitiveBit = (BerTag)0x20 << ((tagSize - 1) * 8);
 
 	while (tagSize>0) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
-- 
2.43.0


From cfa92bd7b1485cab8c6cd8dfea00f6b9afe8d70e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 25/64] fix: XER number encoders share static text buffers
 between calls

---
 asn1crt/asn1crt_encoding_xer.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c248cbd..4746522 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -9,25 +9,22 @@
 
 #include "asn1crt_encoding_xer.h"
 
-char* Int2String(asn1SccSint v) {
-	static char tmp[256];
-	snprintf(tmp, sizeof(tmp), "%" ASN1SCC_PRId, v);
+static const char* Int2String(asn1SccSint v, char* tmp, size_t size) {
+	snprintf(tmp, size, "%" ASN1SCC_PRId, v);
 	return tmp;
 }
 
-char* UInt2String(asn1SccUint v) {
-	static char tmp[256];
-	snprintf(tmp, sizeof(tmp), "%" ASN1SCC_PRIu, v);
+static const char* UInt2String(asn1SccUint v, char* tmp, size_t size) {
+	snprintf(tmp, size, "%" ASN1SCC_PRIu, v);
 	return tmp;
 }
 
-char* Double2String(double v) {
+static const char* Double2String(double v, char* tmp, size_t size) {
+	int exponent = 0;
+
 	if (fabs(v) < 1e-17)
 		return "0";
 
-	static char tmp[256];
-	int exponent = 0;
-
 	while (fabs(v) >= 10) {
 		v /= 10;
 		exponent++;
@@ -39,10 +36,10 @@ char* Double2String(double v) {
 	}
 
 	if (fabs(fabs(v) - llabs((asn1SccSint)v)) < 1e-17) {
-		snprintf(tmp, sizeof(tmp), "%.1fE%d", v, exponent);
+		snprintf(tmp, size, "%.1fE%d", v, exponent);
 	}
 	else {
-		snprintf(tmp, sizeof(tmp), "%.17gE%d", v, exponent);
+		snprintf(tmp, size, "%.17gE%d", v, exponent);
 	}
 
 	return tmp;
@@ -544,12 +541,14 @@ flag Xer_EncodeNull(ByteStream* pByteStrm, const char* elementTag, NullType valu
 
 flag Xer_EncodeInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccSint value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Int2String(value), pErrCode, level);
+	char tmp[32];
+	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Int2String(value, tmp, sizeof(tmp)), pErrCode, level);
 }
 
 flag Xer_EncodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccUint value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, UInt2String(value), pErrCode, level);
+	char tmp[32];
+	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, UInt2String(value, tmp, sizeof(tmp)), pErrCode, level);
 }
 
 flag Xer_EncodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag value, int *pErrCode, int level) {
@@ -599,7 +598,8 @@ flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const c
 
 flag Xer_EncodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Double2String(value), pErrCode, level);
+	char tmp[64];
+	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, Double2String(value, tmp, sizeof(tmp)), pErrCode, level);
 }
 
 flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
-- 
2.43.0


From e8dd0889f50797a9217060480520d89b2dd05e36 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 26/64] fix: XER OBJECT IDENTIFIER decoder repeats the first
 arc, leaves the count unset and uses strtok

---
 asn1crt/asn1crt_encoding_xer.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 4746522..c3d034d 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -881,7 +881,7 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 	int len = 0;
 	int i;
 	int j = 0;
-	char delim[] = ".";
+	char *ptr = tmp;
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
@@ -895,14 +895,18 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 	}
 
 	len = j;
+	tmp[len] = 0x0;
 
-	char *ptr = strtok(tmp, delim);
-	i = 0;
-	while (ptr != NULL && i < OBJECT_IDENTIFIER_MAX_LENGTH)
+	pVal->nCount = 0;
+	while (*ptr != 0x0)
 	{
-		pVal->values[i++] = atoll(tmp);
-
-		ptr = strtok(NULL, delim);
+		if (!isdigit((unsigned char)*ptr) || pVal->nCount >= OBJECT_IDENTIFIER_MAX_LENGTH) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
+		pVal->values[pVal->nCount++] = (asn1SccUint)strtoull(ptr, &ptr, 10);
+		if (*ptr == '.')
+			ptr++;
 	}
 
 	return TRUE;
-- 
2.43.0


From a8508c79cf44fe4f195cb307e93863506e3114ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 27/64] fix: XER bit and octet string decoders go past the
 destination

---
 asn1crt/asn1crt_encoding_xer.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c3d034d..32b0605 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -854,8 +854,12 @@ flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte v
 	}
 
 	len = j;
+	if (len / 2 + len % 2 > bufferMaxSize) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 
-	for (i = 0; i<len && i / 2 < bufferMaxSize; i++) {
+	for (i = 0; i<len; i++) {
 		byte nibble;
 		if (!CharToNibble(tmp[i], &nibble))
 			return FALSE;
@@ -954,13 +958,21 @@ flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte val
 	bytes = len / 8;
 	if (len % 8)
 		bytes++;
+	if (bytes > bufferMaxSize) {
+		*pErrCode = ERR_INVALID_XML_FILE;
+		return FALSE;
+	}
 
 	memset(value, 0x0, (size_t)bytes);
 
 
-	for (i = 0; i<len && i / 8 < bufferMaxSize; i++) {
+	for (i = 0; i<len; i++) {
 		byte curVal = (byte)(tmp[i] - '0');
 		int curBit = 7 - i % 8;
+		if (curVal > 1) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 		value[i / 8] |= (byte)(curVal << curBit);
 	}
 	if (nCount != NULL)
-- 
2.43.0


From c2ddc2bcd287ecd62b04d68c1e2ebc2d702151e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 28/64] fix: XER attributes overflow the attribute array,
 abort, or go through a null pointer

---
 asn1crt/asn1crt_encoding_xer.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 32b0605..1acea8a 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -204,13 +204,20 @@ Token LA(ByteStream* pByteStrm) {
 
 
 
-void AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
+static flag AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
 {
-	assert(((unsigned)pAttrArray->nCount) < (sizeof(XmlAttributeArray) - sizeof(int)) / sizeof(XmlAttribute));
+	if (pAttrArray == NULL)
+		return TRUE;	/* the caller is not interested in the attributes */
+
+	if (pAttrArray->nCount < 0 || (size_t)pAttrArray->nCount >= sizeof(pAttrArray->attrs) / sizeof(pAttrArray->attrs[0]))
+		return FALSE;
+	if (strlen(attr) >= sizeof(pAttrArray->attrs[0].Name) || strlen(val) >= sizeof(pAttrArray->attrs[0].Value))
+		return FALSE;
 
 	strcpy(pAttrArray->attrs[pAttrArray->nCount].Name, attr);
 	strcpy(pAttrArray->attrs[pAttrArray->nCount].Value, val);
 	pAttrArray->nCount++;
+	return TRUE;
 }
 
 /*
@@ -388,7 +395,10 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
 		}
-		AddAttribute(pAttrs, t1.Value, t2.Value);
+		if (!AddAttribute(pAttrs, t1.Value, t2.Value)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 	}
 	return TRUE;
 }
-- 
2.43.0


From f367a46f1cef55bbec2aa5397986ffac1880b93d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 29/64] fix: XER passes negative characters to the ctype
 functions

---
 asn1crt/asn1crt_encoding_xer.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 1acea8a..3f7796d 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -108,9 +108,9 @@ flag ByteStream_AppendString(ByteStream* pStrm, const char* v)
 #define WORD_ID 1000
 
 flag isPartOfID(char c) {
-	if (isalpha(c))
+	if (isalpha((unsigned char)c))
 		return TRUE;
-	if (isdigit(c))
+	if (isdigit((unsigned char)c))
 		return TRUE;
 	if (c == '.')
 		return TRUE;
@@ -858,7 +858,7 @@ flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte v
 	len = (int)strlen(tmp);
 
 	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+		if (isspace((unsigned char)tmp[i]))
 			continue;
 		tmp[j++] = tmp[i];
 	}
@@ -903,7 +903,7 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 	len = (int)strlen(tmp);
 
 	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+		if (isspace((unsigned char)tmp[i]))
 			continue;
 		tmp[j++] = tmp[i];
 	}
@@ -959,7 +959,7 @@ flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte val
 
 	len = (int)strlen(tmp);
 	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
+		if (isspace((unsigned char)tmp[i]))
 			continue;
 		tmp[j++] = tmp[i];
 	}
-- 
2.43.0


From 8ccbe89ec8939e8dfbb93678f8df41d54296ebd2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 30/64] fix: XER text encoders append behind the position or
 past the buffer

---
 asn1crt/asn1crt_encoding_xer.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 3f7796d..816b6a9 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -98,7 +98,7 @@ flag ByteStream_AppendString(ByteStream* pStrm, const char* v)
 	if (pStrm->currentByte + len >= pStrm->count)
 		return FALSE;
 
-	strcat((char*)&pStrm->buf[pStrm->currentByte], v);
+	memcpy(&pStrm->buf[pStrm->currentByte], v, (size_t)len + 1);
 	pStrm->currentByte += len;
 	return TRUE;
 }
@@ -578,12 +578,6 @@ flag Xer_EncodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag value
 
 flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	char tmp[256];
-	memset(tmp, 0x0, sizeof(tmp));
-	strcat(tmp, "<");
-	strcat(tmp, value);
-	strcat(tmp, "/>");
-
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return Xer_EncodePrimitiveElement(pByteStrm, value, "", pErrCode, level);
 
@@ -1127,7 +1121,9 @@ void Xer_EncodeXmlHeader(ByteStream* pByteStrm, const char* xmlHeader)
 	if (xmlHeader != NULL)
 		hdr = xmlHeader;
 
-	strcpy((char*)pByteStrm->buf, hdr);
+	if ((long)strlen(hdr) + 1 > pByteStrm->count)
+		return;
+	memcpy(pByteStrm->buf, hdr, strlen(hdr));
 	pByteStrm->currentByte = (long)strlen(hdr);
 	pByteStrm->buf[pByteStrm->currentByte++] = '\n';
 }
-- 
2.43.0


From 9246e6a443b30411ec42fda961e21d7f29a9952c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 31/64] fix: XER REAL encoder does not end for infinities

---
 asn1crt/asn1crt_encoding_xer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 816b6a9..aab8b71 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -22,6 +22,10 @@ static const char* UInt2String(asn1SccUint v, char* tmp, size_t size) {
 static const char* Double2String(double v, char* tmp, size_t size) {
 	int exponent = 0;
 
+	if (isnan(v))
+		return "NaN";
+	if (isinf(v))
+		return v > 0 ? "INF" : "-INF";
 	if (fabs(v) < 1e-17)
 		return "0";
 
-- 
2.43.0


From 930c423c5aa0a322df6201b942bd93be745c43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 32/64] fix: narrow decoders of 64-bit fields skip the upper
 octets without checking the input (WORD_SIZE=4)

---
 asn1crt/asn1crt_encoding_acn.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 648b3f0..a8917d3 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -213,7 +213,14 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        byte b;
+        if (!BitStream_ReadByte(pBitStrm, &b))
+            return FALSE;
+    }
+#endif
 
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
@@ -255,7 +262,13 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
 {
     flag ret;
 	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; ret && i < 8 - WORD_SIZE; i++) {
+        byte b;
+        ret = BitStream_ReadByte(pBitStrm, &b);
+    }
+#endif
     return ret;
 }
 
-- 
2.43.0


From 3cbc6206fff91e186048e7b9326ccbf621419055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 33/64] fix: 64-bit signed fields are encoded as unsigned or
 short when WORD_SIZE is 4

---
 asn1crt/asn1crt_encoding_acn.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a8917d3..43e5b18 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -362,7 +362,15 @@ void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 
 void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+    }
+    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, int2uint(intVal), WORD_SIZE);
+#else
     Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#endif
 }
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(BitStream* pBitStrm, asn1SccSint intVal)
@@ -377,7 +385,15 @@ void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
+#if WORD_SIZE!=8
+	int i;
+	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, int2uint(intVal), WORD_SIZE);
+	for (i = 0; i < 8 - WORD_SIZE; i++) {
+		BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	}
+#else
 	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, int2uint(intVal));
+#endif
 }
 
 
-- 
2.43.0


From 05d6d85d80a5cefe0f145ae5c410aa84523a76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 34/64] fix: REAL mantissas are truncated to 32 bits when
 WORD_SIZE is 4

---
 asn1crt/asn1crt_encoding.c | 14 +++++++-------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index edeae58..1e4191f 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -741,12 +741,10 @@ int GetLengthInBytesOfUInt(asn1SccUint64 v)
 {
 	int ret = 0;
 	asn1SccUint32 v32 = (asn1SccUint32)v;
-#if WORD_SIZE==8
 	if (v>0xFFFFFFFF) {
 		ret = 4;
 		v32 = (asn1SccUint32)(v >> 32);
 	}
-#endif
 
 	if (v32<0x100)
 		return ret + 1;
@@ -1145,7 +1143,7 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #endif
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
@@ -1245,9 +1243,11 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 	}
 
 
-	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
+	/* encode mantissa (it may be wider than asn1SccUint) */
+	while (nManLen > 0) {
+		nManLen--;
+		BitStream_AppendByte0(pBitStrm, (byte)(mantissa >> (8 * nManLen)));
+	}
 
 }
 
@@ -1306,7 +1306,7 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	asn1SccUint32 uexponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
 	int i;
 
 	if (header & 0x40)
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 6e45436..0bb8dea 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From 358b2b79359a746535fe4554484a1d95a1713b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 35/64] fix: generated decoders ignore a truncated 32-bit
 little endian REAL

---
 StgC/acn_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..f24eb5e 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -344,7 +344,7 @@ ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, <p>);
 
 Real_32_little_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, <p>);"
 Real_32_little_endian_decode(p, sSuffix, sErrCode) ::= <<
-Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
+ret = Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
 <A(sErrCode)>
 >>
 
-- 
2.43.0


From 2af862c88e620d79510794d64ac9737d657e286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 36/64] fix: generated ACN decoders fail without an error code
 (external lengths, NULL patterns)

---
 StgC/acn_c.stg | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index f24eb5e..7bd3f79 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -413,6 +413,7 @@ Null_pattern_encode(p, arruNullValueAsByteArray, nSize, arrsBits, sErrCode, bSav
 Null_pattern_decode(p, arruNullValueAsByteArray, nSize, arrsBits, sErrCode, bSavePosition) ::= <<
 <if(bSavePosition)>
 ret = BitStream_ReadBitPattern_ignore_value(pBitStrm, <nSize>);
+<A(sErrCode)>
 
 <else>
 <if(arruNullValueAsByteArray)>
@@ -599,6 +600,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 oct_external_field_decode(sTypedefName, p, sAcc, noSizeMin, noSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 <if(noSizeMin)>
 ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -607,6 +609,7 @@ if (ret) {
 <else>
 <if(noSizeMax)>
 ret = (<sExtFld>\<=<noSizeMax>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -627,6 +630,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 
 oct_external_field_fix_size_decode(sTypedefName, p, sAcc, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 	<A(sErrCode)>
@@ -653,6 +657,7 @@ sqf_external_field_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nS
 
 sqf_external_field_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize=[p,sAcc, "nCount"])>
@@ -666,6 +671,7 @@ sqf_external_field_fix_size_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSi
 
 sqf_external_field_fix_size_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize=[nSizeMax])>
 }
@@ -709,6 +715,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
 bit_string_external_field_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, noSizeMax, sExtFld) ::= <<
 <if(noSizeMin)>
 ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -717,6 +724,7 @@ if (ret) {
 <else>
 <if(noSizeMax)>
 ret = (<sExtFld>\<=<noSizeMax>);
+<A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
@@ -736,6 +744,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <nSizeMax>);
 
 bit_string_external_field_fixed_size_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, nSizeMax, sExtFld) ::= <<
 ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+<A(sErrCode)>
 if (ret) {
     ret = BitStream_ReadBits(pBitStrm, <p><sAcc>arr, <nSizeMax>);
     *pErrCode = ret ? 0 : <sErrCode>;
-- 
2.43.0


From 218585d8cfc2dc217d23bbcfff02e7026d47979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 37/64] fix: generated decoders of CONTAINING types fail
 without an error code

---
 StgC/acn_c.stg  | 5 +++++
 StgC/uper_c.stg | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 7bd3f79..7f347e6 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1445,6 +1445,7 @@ bit_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEncodi
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		ret = BitStream_ReadBits(pBitStrm, arr, (int)<sExtField>);
+		<A(sErrCode)>
 		if (ret) {
 			ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 		}
@@ -1502,6 +1503,7 @@ octet_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, nBits
 	}
 
 	<endif>
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
@@ -1543,6 +1545,7 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, sReqBit
 
 	<if(bFixedSize)>
 	ret = BitStream_ReadBits(pBitStrm, arr, <nMinSize>);
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
@@ -1550,8 +1553,10 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForAcnEncoding, sReqBit
 	<else>
 	asn1SccSint nCount;
 	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nMinSize>, <nMaxSize>);
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
 		ret = BitStream_ReadBits(pBitStrm, arr, nCount);
+		*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 		if (ret) {
 			ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 		}
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b020e43..cdb03f8 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -880,6 +880,7 @@ octet_string_containing_func_decode(p, sFuncName, sReqBytesForUperEncoding, nBit
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	int nCount;
 	ret = BitStream_DecodeOctetString(pBitStrm, arr, &nCount, <nMinSize>, <nMaxSize>);
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
@@ -911,6 +912,7 @@ bit_string_containing_func_decode(p, sFuncName, sReqBytesForUperEncoding, sReqBi
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
 	int nCount;
 	ret = BitStream_DecodeBitString(pBitStrm, arr, &nCount, <nMinSize>, <nMaxSize>);
+	*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 	if (ret) {
 		ret = <sFuncName>(<p>, &bitStrm, pErrCode);
 	}
-- 
2.43.0


From 318b89589d8964610faf304d85fcea94741980d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 38/64] fix: generated uPER string decoders use a length that
 could not be decoded or fail without an error code

---
 StgC/uper_c.stg | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index cdb03f8..bf7b654 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -472,8 +472,11 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, nStringLength, <nSizeMin>, <nSiz
 
 str_VarSize_decode(p, sPIden, sTasName, i, sInternalItem, nSizeMin, nSizeMax, nSizeInBits, nIntItemMinSize, nIntItemMaxSize, nAlignSize, soInitExpr, soCallAux) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nStringLength, <nSizeMin>, <nSizeMax>);
-<loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize="nStringLength")>
-<p>[nStringLength] = 0x0;
+*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
+if (ret) {
+    <loopFixedItem(i=i, sInternalItem=sInternalItem, fixedSize="nStringLength")>
+    <p>[nStringLength] = 0x0;
+}
 >>
 
 
@@ -507,6 +510,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nFixedSize>
 
 octet_FixedSize_decode(sTypeDefName, p, sAcc, nFixedSize) ::= <<
 ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <nFixedSize>);
+*pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
 >>
 
 octet_VarSize_encode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sErrCode) ::= <<
@@ -517,8 +521,11 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 octet_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sErrCode) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
 *pErrCode = ret ? 0 : <sErrCode>;
-<p><sAcc>nCount = (long)nCount;
-ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+if (ret) {
+    <p><sAcc>nCount = (long)nCount;
+    ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+    *pErrCode = ret ? 0 : <sErrCode>;
+}
 >>
 
 
@@ -540,6 +547,7 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, <p><sAcc>nCount, <nSizeMin>, <nS
 
 bitString_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, sErrCode, nSizeInBits) ::= <<
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
 	<p><sAcc>nCount = (long)nCount;
 	<bitString_FixSize_decode(sTypeDefName=sTypeDefName, p=p, sAcc=sAcc, nFixedSize=[p,sAcc, "nCount"], sErrCode=sErrCode)>
-- 
2.43.0


From 92bfd6cf1e39b23897d77870268566e368fc9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 39/64] fix: generated decoders of large fixed size types go on
 after an item has failed

---
 StgC/uper_c.stg | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index bf7b654..0fb6845 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -693,7 +693,7 @@ for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
         *pErrCode = ret ? 0 : <sErrCodeName>;
 
 	    <else>
-	    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+	    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 		    <sInternalItem>
 	    }
 
@@ -716,7 +716,7 @@ if (ret) {
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 	    <sInternalItem>
     }
 
@@ -736,13 +736,14 @@ ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0,
 ret = ret && ((0x8000 & <sRemainingItemsVar>) > 0) && ( (0x7FFF & <sRemainingItemsVar>) == <nRemainingItemsVar>);
 
 <endif>
+*pErrCode = ret ? 0 : <sErrCodeName>;
 if (ret) {
     <if(bIsBitStringType)>
     ret = BitStream_ReadBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<nRemainingItemsVar>);
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>)); <sBLI>++)
     {
 	    <sInternalItem>
     }
-- 
2.43.0


From 9e05bd467779f25aa2179c148665cc151e2569fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 40/64] fix: generated XER CHOICE decoders lose the failure of
 the chosen alternative

---
 StgC/xer_c.stg | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index dc2ad4d..36c2ca3 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -433,8 +433,10 @@ ret = Xer_DecodeComplexElementStart(pByteStrm, <sTag>, NULL, pErrCode);
 *pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <sMainBody>
-    ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
-	*pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
+        *pErrCode = ret ? 0 : <sErrCode>;
+    }
 }
 >>
 
-- 
2.43.0


From 630457817f740d255a8f800603cf9e9dc1356a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 41/64] fix: generated XER decoders accept unknown enumeration
 values

---
 StgC/xer_c.stg | 1 +
 1 file changed, 1 insertion(+)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index 36c2ca3..bfbd3c6 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -203,6 +203,7 @@ Enumerated_decode(p, sTag, nLevel, arrsItems, soCheckExp, sErrCode) ::= <<
         <arrsItems; separator="\n">
 	    else {
 		    *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
+		    ret = FALSE;            /*COVERAGE_IGNORE*/
 	    }
     } else {
         *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
-- 
2.43.0


From de1403be59a6317f7cce21328fbed73f49d003b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 42/64] fix: generated XER decoders fail without an error code

---
 StgC/xer_c.stg | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index bfbd3c6..0b16d06 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -298,6 +298,7 @@ Sequence_mandatory_child_encode(sChName, sChildContent, sChildTag) ::= <<
 Sequence_mandatory_child_decode(sChName, sChildContent, sChildTag) ::= <<
 /*Decode <sChName> */
 ret = Xer_NextStartElementIs(pByteStrm, "<sChildTag>");
+*pErrCode = ret ? 0 : ERR_INVALID_XML_FILE;
 if (ret) {
 	<sChildContent>
 }
@@ -404,6 +405,7 @@ CHOICE_no_tag_decode(p, sAcc, arrsChildren, sErrCode) ::=<<
 {
 	char nextTag[256];
 	ret = Xer_LA_NextElementTag(pByteStrm, nextTag);
+	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		<arrsChildren; separator="\n">
         else {
-- 
2.43.0


From f53eb4577d786c3b88c87bbdefb6d970dc57cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 43/64] fix: generated decoders accept null-terminated lists
 without the terminator

---
 StgC/acn_c.stg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 7f347e6..f5b0c9a 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -696,10 +696,10 @@ if (ret && (<i> == <nSizeMax>) && (checkBitPatternPresentResult == 1)) {
 }
 
 
-if (ret && (checkBitPatternPresentResult == 0)) {
+if (ret && (checkBitPatternPresentResult != 2)) {
 	ret = FALSE;			/*COVERAGE_IGNORE*/
 	*pErrCode = <sErrCode>;	/*COVERAGE_IGNORE*/
-} else if (ret && (checkBitPatternPresentResult == 2)) {
+} else if (ret) {
 	<p><sAcc>nCount = <i>;
 	ret = true;
 	*pErrCode = 0;
-- 
2.43.0


From 3a9dda883964e46a199ce0990b58b08778e07c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 44/64] fix: generated decoders of CONTAINING types in deferred
 mode read past the input

---
 StgC/acn_c.stg | 101 +++++++++++++++++++++++++++++++------------------
 1 file changed, 65 insertions(+), 36 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index f5b0c9a..1de257b 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1250,13 +1250,18 @@ octet_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatch
 /* CONTAINING with deferred patching: limit stream view, decode directly */
 octet_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
 {
+    long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
     long acn_saved_count = pBitStrm->count;
-    long acn_expected_end = pBitStrm->currentByte + (long)<sDetParamName>->value;
-    pBitStrm->count = acn_expected_end;
-    ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_expected_end;
-    pBitStrm->currentBit = 0;
+    ret = (asn1SccUint)<sDetParamName>->value \<= (asn1SccUint)(acn_saved_count * 8L - acn_start_bits) / 8;
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value * 8L;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+        pBitStrm->count = acn_saved_count;
+        pBitStrm->currentByte = acn_end_bits / 8;
+        pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    }
 }
 >>
 
@@ -1290,14 +1295,20 @@ octet_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nM
 {
     asn1SccSint acn_nCount;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &acn_nCount, <nMinSize>, <nMaxSize>);
+    *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
     if (ret) {
+        long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
         long acn_saved_count = pBitStrm->count;
-        long acn_expected_end = pBitStrm->currentByte + (long)acn_nCount;
-        pBitStrm->count = acn_expected_end;
-        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-        pBitStrm->count = acn_saved_count;
-        pBitStrm->currentByte = acn_expected_end;
-        pBitStrm->currentBit = 0;
+        ret = (asn1SccUint)acn_nCount \<= (asn1SccUint)(acn_saved_count * 8L - acn_start_bits) / 8;
+        *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
+        if (ret) {
+            long acn_end_bits = acn_start_bits + (long)acn_nCount * 8L;
+            pBitStrm->count = (acn_end_bits + 7) / 8;
+            ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+            pBitStrm->count = acn_saved_count;
+            pBitStrm->currentByte = acn_end_bits / 8;
+            pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        }
     }
 }
 >>
@@ -1320,13 +1331,18 @@ octet_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFunc
 
 octet_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
 {
+    long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
     long acn_saved_count = pBitStrm->count;
-    long acn_expected_end = pBitStrm->currentByte + (long)<sDetParamName>->value;
-    pBitStrm->count = acn_expected_end;
-    <sBody>
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_expected_end;
-    pBitStrm->currentBit = 0;
+    ret = (asn1SccUint)<sDetParamName>->value \<= (asn1SccUint)(acn_saved_count * 8L - acn_start_bits) / 8;
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value * 8L;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        <sBody>
+        pBitStrm->count = acn_saved_count;
+        pBitStrm->currentByte = acn_end_bits / 8;
+        pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    }
 }
 >>
 
@@ -1349,13 +1365,17 @@ bit_string_containing_deferred_func_encode(p, sFuncName, sDetParamName, sPatchFu
 bit_string_containing_deferred_func_decode(p, sFuncName, sDetParamName, sPatchFuncName, sErrCode) ::= <<
 {
     long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
-    long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
     long acn_saved_count = pBitStrm->count;
-    pBitStrm->count = (acn_end_bits + 7) / 8;
-    ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_end_bits / 8;
-    pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    ret = (asn1SccUint)<sDetParamName>->value \<= (asn1SccUint)(acn_saved_count * 8L - acn_start_bits);
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+        pBitStrm->count = acn_saved_count;
+        pBitStrm->currentByte = acn_end_bits / 8;
+        pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    }
 }
 >>
 
@@ -1389,15 +1409,20 @@ bit_string_containing_deferred_embedded_func_decode(p, sFuncName, nMinSize, nMax
 {
     asn1SccSint acn_nCount;
     ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &acn_nCount, <nMinSize>, <nMaxSize>);
+    *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
     if (ret) {
         long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
-        long acn_end_bits = acn_start_bits + (long)acn_nCount;
         long acn_saved_count = pBitStrm->count;
-        pBitStrm->count = (acn_end_bits + 7) / 8;
-        ret = <sFuncName>(<p>, pBitStrm, pErrCode);
-        pBitStrm->count = acn_saved_count;
-        pBitStrm->currentByte = acn_end_bits / 8;
-        pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        ret = (asn1SccUint)acn_nCount \<= (asn1SccUint)(acn_saved_count * 8L - acn_start_bits);
+        *pErrCode = ret ? 0 : ERR_INSUFFICIENT_DATA;
+        if (ret) {
+            long acn_end_bits = acn_start_bits + (long)acn_nCount;
+            pBitStrm->count = (acn_end_bits + 7) / 8;
+            ret = <sFuncName>(<p>, pBitStrm, pErrCode);
+            pBitStrm->count = acn_saved_count;
+            pBitStrm->currentByte = acn_end_bits / 8;
+            pBitStrm->currentBit = (int)(acn_end_bits % 8);
+        }
     }
 }
 >>
@@ -1420,13 +1445,17 @@ bit_string_containing_deferred_wrapper_encode(sBody, sDetParamName, sPatchFuncNa
 bit_string_containing_deferred_wrapper_decode(sBody, sDetParamName, sPatchFuncName, sErrCode) ::= <<
 {
     long acn_start_bits = pBitStrm->currentByte * 8L + pBitStrm->currentBit;
-    long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
     long acn_saved_count = pBitStrm->count;
-    pBitStrm->count = (acn_end_bits + 7) / 8;
-    <sBody>
-    pBitStrm->count = acn_saved_count;
-    pBitStrm->currentByte = acn_end_bits / 8;
-    pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    ret = (asn1SccUint)<sDetParamName>->value \<= (asn1SccUint)(acn_saved_count * 8L - acn_start_bits);
+    *pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        long acn_end_bits = acn_start_bits + (long)<sDetParamName>->value;
+        pBitStrm->count = (acn_end_bits + 7) / 8;
+        <sBody>
+        pBitStrm->count = acn_saved_count;
+        pBitStrm->currentByte = acn_end_bits / 8;
+        pBitStrm->currentBit = (int)(acn_end_bits % 8);
+    }
 }
 >>
 
-- 
2.43.0


From dd8b315f17ffbb006d31e15393cb454f3288b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 45/64] fix: the mapping function of a 16-bit twos-complement
 field is not applied by generated decoders

---
 StgC/acn_c.stg         | 1 +
 StgScala/acn_scala.stg | 1 +
 2 files changed, 2 insertions(+)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 1de257b..6119277 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -225,6 +225,7 @@ ret = Acn_Dec_Int_TwosComplement_ConstSize_8<sSsuffix>(pBitStrm, <p>);
 TwosComplement_ConstSize_big_endian_16_encode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax) ::= "Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, <if(soMF)><soMF>_encode(<p>)<else><p><endif>);"
 TwosComplement_ConstSize_big_endian_16_decode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax) ::= <<
 ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16<sSsuffix>(pBitStrm, <p>);
+<MF(soMF)>
 <A(sErrCode)>
 >>
 
diff --git a/StgScala/acn_scala.stg b/StgScala/acn_scala.stg
index ad25cd9..9fa2de8 100644
--- a/StgScala/acn_scala.stg
+++ b/StgScala/acn_scala.stg
@@ -223,6 +223,7 @@ val <p> = codec.dec_Int_TwosComplement_ConstSize_8<sSsuffix>()
 TwosComplement_ConstSize_big_endian_16_encode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax) ::= "codec.enc_Int_TwosComplement_ConstSize_big_endian_16(<if(soMF)><soMF>_encode(<p>)<else><p><endif>)"
 TwosComplement_ConstSize_big_endian_16_decode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax) ::= <<
 val <p> = codec.dec_Int_TwosComplement_ConstSize_big_endian_16<sSsuffix>()
+<MF(soMF)>
 >>
 
 TwosComplement_ConstSize_big_endian_32_encode(p, sSsuffix, sErrCode, soMF, soMFM, nUperMin, nUperMax) ::= "codec.enc_Int_TwosComplement_ConstSize_big_endian_32(<if(soMF)><soMF>_encode(<p>)<else><p><endif>)"
-- 
2.43.0


From a168339ab6f4e24593945522dfe7a0f34e9ba825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 46/64] fix: initialisers of DATE-TIME values lose the time
 zone

---
 StgAda/init_a.stg       | 2 +-
 StgC/init_c.stg         | 2 +-
 StgScala/init_scala.stg | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/StgAda/init_a.stg b/StgAda/init_a.stg
index 743988b..2ea8f2b 100644
--- a/StgAda/init_a.stg
+++ b/StgAda/init_a.stg
@@ -111,7 +111,7 @@ init_Asn1Date_UtcTime(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <
 
 init_Asn1Date_LocalTimeWithTimeZone(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
 <init_Asn1Date(p=p, sAcc=sAcc, dt=dt)>
-<init_Asn1UtcTime(p=p, sAcc=sAcc, tv=tv, tz=tz)>
+<init_Asn1LocalTimeWithTimeZone(p=p, sAcc=sAcc, tv=tv, tz=tz)>
 >>
 
 
diff --git a/StgC/init_c.stg b/StgC/init_c.stg
index 75e7c78..af33603 100644
--- a/StgC/init_c.stg
+++ b/StgC/init_c.stg
@@ -73,7 +73,7 @@ init_Asn1Date_UtcTime(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <
 
 init_Asn1Date_LocalTimeWithTimeZone(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
 <init_Asn1Date(p=p, sAcc=sAcc, dt=dt)>
-<init_Asn1UtcTime(p=p, sAcc=sAcc, tv=tv, tz=tz)>
+<init_Asn1LocalTimeWithTimeZone(p=p, sAcc=sAcc, tv=tv, tz=tz)>
 >>
 
 assignAny(p, sValue, sTypeDecl) ::= "<p> = (<sTypeDecl>)<sValue>;"
diff --git a/StgScala/init_scala.stg b/StgScala/init_scala.stg
index 4bd318e..22bebff 100644
--- a/StgScala/init_scala.stg
+++ b/StgScala/init_scala.stg
@@ -82,7 +82,7 @@ init_Asn1Date_UtcTime(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <
 
 init_Asn1Date_LocalTimeWithTimeZone(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
 <init_Asn1Date(p=p, sAcc=sAcc, dt=dt)>
-<init_Asn1UtcTime(p=p, sAcc=sAcc, tv=tv, tz=tz)>
+<init_Asn1LocalTimeWithTimeZone(p=p, sAcc=sAcc, tv=tv, tz=tz)>
 >>
 
 assignAny(p, sValue, sTypeDecl) ::= "<p> = <sValue>"
-- 
2.43.0


From 228120e2a26debdc422d8e4ddeda1172843f6e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 47/64] fix: generated XER decoders accept too short SEQUENCE
 OF types of fixed size

---
 StgC/xer_c.stg | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index 0b16d06..d0bf79b 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -278,7 +278,8 @@ if (ret) {
     }
 }
 <if(bFixedSize)>
-*pErrCode = (ret && <sI> == <nSizeMax>) ? 0 : <sErrCode>;
+ret = ret && (<sI> == <nSizeMax>);
+*pErrCode = ret ? 0 : <sErrCode>;
 
 <else>
 <if(soCheckExp)><soCheckExp><endif>
-- 
2.43.0


From 312e3c6d2cb2ab827a9650b0fb71f5dc73444178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 48/64] fix: generated decoders of integers without a lower
 bound ignore a failed check

---
 StgC/uper_c.stg | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 0fb6845..8906735 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -170,7 +170,10 @@ ret = BitStream_DecodeUnConstraintWholeNumber(pBitStrm, <p>);   <if(bCoverageIgn
 IntUnconstrainedMax_encode(p, nMax, soCheckExp, sErrCode) ::= "BitStream_EncodeUnConstraintWholeNumber(pBitStrm, <p>);"
 IntUnconstrainedMax_decode(p, nMax, soCheckExp, sErrCode) ::= <<
 ret = BitStream_DecodeUnConstraintWholeNumber(pBitStrm, <p>);
-*pErrCode = (ret <if(soCheckExp)>&&(<soCheckExp>)<endif>) ? 0 : <sErrCode>;
+<if(soCheckExp)>
+ret = ret && (<soCheckExp>);
+<endif>
+*pErrCode = ret ? 0 : <sErrCode>;
 >>
 
 
-- 
2.43.0


From 102e6a65d8d4fb96767576a9c3ba399537e4a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 49/64] fix: external length of a contained type is compared
 unsigned before it is narrowed

An external length of 2^31 or more became negative when cast to int, passed
the capacity check and reached memcpy as a negative size.
---
 StgC/acn_c.stg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 6119277..2281b80 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1217,7 +1217,7 @@ octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEnco
     BitStream* pBitStrm_save = pBitStrm;
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
-	ret = (int)<sExtField> \<= <sReqBytesForUperEncoding>;
+	ret = (asn1SccUint)<sExtField> \<= <sReqBytesForUperEncoding>;
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		/*decode to the temporary bitstream buffer */
@@ -1471,7 +1471,7 @@ bit_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEncodi
 	static byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
-	ret = (int)<sExtField> \<= <sReqBitsForUperEncoding>;
+	ret = (asn1SccUint)<sExtField> \<= <sReqBitsForUperEncoding>;
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		ret = BitStream_ReadBits(pBitStrm, arr, (int)<sExtField>);
-- 
2.43.0


From f390bcede20372f1267e9e385a6f403f82437bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 50/64] fix: generated ACN decoders did not bound an external
 length by the capacity of the type

The size check was dropped whenever the range of the determinant fits the type,
but ACN decoders of the determinant do not enforce that range: an INTEGER (0..10)
field of 8 bits yields up to 255, which was copied into arr[10]. A negative
signed determinant passed the remaining check too.
---
 BackendAst/Acn/AcnOctetBitStrings.fs | 16 ++++++++--------
 StgC/acn_c.stg                       | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index b6c9502..71ef5fd 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -53,10 +53,10 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
                 let detMaxOpt =
                     match tp with
                     | Some (AcnInsertedType.AcnInteger int) ->
-                        match int.uperRange with
-                        | Concrete (_, detMax) -> Some detMax
-                        | NegInf detMax        -> Some detMax
-                        | _                    -> None
+                        // only the uPER decoder enforces the range of the determinant
+                        match int.acnEncodingClass, int.uperRange with
+                        | Asn1AcnAst.Integer_uPER, Concrete (detMin, detMax) when detMin >= 0I -> Some detMax
+                        | _                                                                    -> None
                     | _ -> None
                 let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
                 let noSizeMax =
@@ -110,10 +110,10 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                 let detMaxOpt =
                     match tp with
                     | Some (AcnInsertedType.AcnInteger int) ->
-                        match int.uperRange with
-                        | Concrete (_, detMax) -> Some detMax
-                        | NegInf detMax        -> Some detMax
-                        | _                    -> None
+                        // only the uPER decoder enforces the range of the determinant
+                        match int.acnEncodingClass, int.uperRange with
+                        | Asn1AcnAst.Integer_uPER, Concrete (detMin, detMax) when detMin >= 0I -> Some detMax
+                        | _                                                                    -> None
                     | _ -> None
                 let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
                 let noSizeMax =
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 2281b80..43c2384 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -600,7 +600,7 @@ ret = BitStream_EncodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCo
 
 oct_external_field_decode(sTypedefName, p, sAcc, noSizeMin, noSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode) ::= <<
 <if(noSizeMin)>
-ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && (asn1SccUint)<sExtFld>\<=<noSizeMax><endif>);
 <A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
@@ -609,7 +609,7 @@ if (ret) {
 }
 <else>
 <if(noSizeMax)>
-ret = (<sExtFld>\<=<noSizeMax>);
+ret = ((asn1SccUint)<sExtFld>\<=<noSizeMax>);
 <A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
@@ -657,7 +657,7 @@ sqf_external_field_encode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nS
 
 
 sqf_external_field_decode(sTypeDefName, p, sAcc, i, sInternalItem, noSizeMin, nSizeMax, sExtFld, bIsUnsigned, nAlignSize, sErrCode, nIntItemMinSize, nIntItemMaxSize, sChildInitExpr, bIntroSnap, soCallAux) ::= <<
-ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>(<sExtFld>\<=<nSizeMax>));
+ret = (<if(noSizeMin)>(<noSizeMin>\<=<sExtFld>) && <endif>((asn1SccUint)<sExtFld>\<=<nSizeMax>));
 <A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
@@ -715,7 +715,7 @@ BitStream_AppendBits(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
 
 bit_string_external_field_decode(sTypeDefName, p, sErrCode, sAcc, noSizeMin, noSizeMax, sExtFld) ::= <<
 <if(noSizeMin)>
-ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && <sExtFld>\<=<noSizeMax><endif>);
+ret = (<noSizeMin>\<=<sExtFld><if(noSizeMax)> && (asn1SccUint)<sExtFld>\<=<noSizeMax><endif>);
 <A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
@@ -724,7 +724,7 @@ if (ret) {
 }
 <else>
 <if(noSizeMax)>
-ret = (<sExtFld>\<=<noSizeMax>);
+ret = ((asn1SccUint)<sExtFld>\<=<noSizeMax>);
 <A(sErrCode)>
 if (ret) {
     <p><sAcc>nCount = (int)<sExtFld>;
-- 
2.43.0


From af3a6173cf81b4fe93f72801755a8a26d9be2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 51/64] fix: second alternative of a constraint union was
 checked with ret already FALSE

In C, Ada and Scala validity checks the statement of the second alternative
ran with ret == FALSE, so its loop over the elements never executed and the
check of an absent component left ret FALSE: valid values were rejected.
---
 StgAda/isvalid_a.stg       | 4 +++-
 StgC/isvalid_c.stg         | 2 ++
 StgScala/isvalid_scala.stg | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index eec41b2..a4176fd 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -70,13 +70,15 @@ ret.Success := <sExp1>;
 StatementOrStatement(sStat1, sStat2) ::= <<
 <sStat1>
 if not ret.Success then
+    ret.Success := true;
     <sStat2>
 end if;
 >>
 
 ExpressionOrStatement(sExp1, sStat2) ::= <<
-ret := <sExp1>;
+ret.Success := <sExp1>;
 if not ret.Success then
+    ret.Success := true;
     <sStat2>
 end if;
 >>
diff --git a/StgC/isvalid_c.stg b/StgC/isvalid_c.stg
index 5bf8a6c..db4405a 100644
--- a/StgC/isvalid_c.stg
+++ b/StgC/isvalid_c.stg
@@ -130,6 +130,7 @@ ret = <sExp1>;
 StatementOrStatement(sStat1, sStat2) ::= <<
 <sStat1>
 if (!ret) {
+    ret = TRUE;
     <sStat2>
 }
 >>
@@ -138,6 +139,7 @@ if (!ret) {
 ExpressionOrStatement(sExp1, sStat2) ::= <<
 ret = <sExp1>;
 if (!ret) {
+    ret = TRUE;
     <sStat2>
 }
 >>
diff --git a/StgScala/isvalid_scala.stg b/StgScala/isvalid_scala.stg
index e6062b1..b2ce996 100644
--- a/StgScala/isvalid_scala.stg
+++ b/StgScala/isvalid_scala.stg
@@ -104,12 +104,14 @@ ret = <sExp1>
 StatementOrStatement(sStat1, sStat2) ::= <<
 <sStat1>
 if ret.isLeft then
+    ret = Right(0)
     <sStat2>
 >>
 
 ExpressionOrStatement(sExp1, sStat2) ::= <<
 ret = <sExp1>
 if ret.isLeft then
+    ret = Right(0)
     <sStat2>
 >>
 
-- 
2.43.0


From 5a2f44fb228f36bed611e710a5e2a96cf6a57549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 52/64] fix: Ada validity checks combined a statement and an
 expression with a double semicolon

---
 StgAda/isvalid_a.stg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index a4176fd..86c98f0 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -84,7 +84,7 @@ end if;
 >>
 
 StatementOrExpression(sStat1, sExp2) ::= <<
-<sStat1>;
+<sStat1>
 if not ret.Success then
     ret.Success := <sExp2>;
 end if;
@@ -105,14 +105,14 @@ end if;
 >>
 
 StatementAndExpression(sStat1, sExp2) ::= <<
-<sStat1>;
+<sStat1>
 if ret.Success then
     ret.Success := <sExp2>;
 end if;
 >>
 
 StatementNot(sStat) ::= <<
-<sStat>;
+<sStat>
 ret.Success := not ret.Success;
 >>
 
@@ -133,7 +133,7 @@ end if;
 >>
 
 StatementExceptExpression(sStat1, sExp2) ::= <<
-<sStat1>;
+<sStat1>
 if ret.Success then
     ret.Success := not (<sExp2>);
 end if;
-- 
2.43.0


From 38d42b191bcb4fd64f8d39908c3ee9c46e0720ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 53/64] fix: Ada loop over the elements of a SEQUENCE OF did
 not check the WITH COMPONENT constraint

---
 StgAda/isvalid_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index 86c98f0..0f5ba1c 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -145,7 +145,7 @@ StatementForLoop(p, sAcc, i, bIsFixedSize, nFixedSize, sInnerStatement) ::= <<
 <i> := <p>.Data'First;
 while ret.Success and <i> \<= <if(bIsFixedSize)><nFixedSize><else><p>.Length<endif> loop
     pragma Loop_Invariant (<i> \>= <p>.Data'First and <i> \<= <if(bIsFixedSize)><nFixedSize><else><p>.Length<endif>);
-    <soInnerStatement>
+    <sInnerStatement>
     <i> := <i>+1;
 end loop;
 >>
-- 
2.43.0


From 4d5b14569c4da37a1aee6da8d925234041406c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:46 +0000
Subject: [PATCH 54/64] fix: XER boolean and enumeration coders report an error
 code for every failure

---
 asn1crt/asn1crt_encoding_xer.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index aab8b71..d6c929a 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -585,8 +585,10 @@ flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const c
 	if (elementTag == NULL || strlen(elementTag) == 0)
 		return Xer_EncodePrimitiveElement(pByteStrm, value, "", pErrCode, level);
 
-	if (!ByteStream_PutSpace(pByteStrm, level))
+	if (!ByteStream_PutSpace(pByteStrm, level)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
 		return FALSE;
@@ -597,8 +599,10 @@ flag Xer_EncodeEnumerated(ByteStream* pByteStrm, const char* elementTag, const c
 	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
 		return FALSE;
 
-	if (!ByteStream_PutNL(pByteStrm))
+	if (!ByteStream_PutNL(pByteStrm)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 
 	return TRUE;
@@ -765,8 +769,10 @@ flag Xer_DecodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag* valu
 		if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
 			return FALSE;
 
-	if (!Xer_LA_NextElementTag(pByteStrm, tmp))
+	if (!Xer_LA_NextElementTag(pByteStrm, tmp)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	if (strcmp(tmp, "true") == 0) {
 		*value = TRUE;
@@ -796,8 +802,10 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 		if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
 			return FALSE;
 
-	if (!Xer_LA_NextElementTag(pByteStrm, value))
+	if (!Xer_LA_NextElementTag(pByteStrm, value)) {
+		*pErrCode = ERR_INVALID_XML_FILE;
 		return FALSE;
+	}
 
 	if (!Xer_DecodePrimitiveElement(pByteStrm, value, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-- 
2.43.0


From ccd1e2e0c82b303f70663235a508acee013f5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 55/64] fix: uPER encoders of fragmented lists lost the failure
 of an element

---
 StgC/uper_c.stg | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 8906735..1994b40 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -562,13 +562,13 @@ FixedSize_Fragmentation_sqf_64K_encode(p, sAcc,sCurOffset, sCurBlockSize, sBlock
 //encode <nBlocks64K> x 64K Blocks
 <sCurBlockSize> = 0x10000;
 <sCurOffset> = 0;
-for(<sBlockIndex> = 0; <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
+for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
 	BitStream_EncodeConstraintWholeNumber(pBitStrm, 0xC4, 0, 0xFF);
 	<if(bIsBitStringType)>
 	BitStream_AppendBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<sCurBlockSize>);
 
 	<else>
-	for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++)
+	for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++)
 	{
 		<sInternalItem>
 	}
@@ -586,7 +586,7 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, <sBlockId>, 0, 0xFF);
 BitStream_AppendBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<sCurBlockSize>);
 
 <else>
-for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++)
+for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++)
 {
 	<sInternalItem>
 }
@@ -609,7 +609,7 @@ BitStream_EncodeConstraintWholeNumber(pBitStrm, <nRemainingItemsVar>, 0, 0x7FFF)
 BitStream_AppendBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<nRemainingItemsVar>);
 
 <else>
-for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
+for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
 {
 	<sInternalItem>
 }
@@ -626,7 +626,7 @@ Fragmentation_sqf_encode(p, sAcc, sInternalItem, nIntItemMaxSize, nSizeMin, nSiz
 <sCurBlockSize> = 0;
 <sCurOffset> = 0;
 <sBlockIndex> = 0;
-while (<sRemainingItemsVar> >= 0x4000 && <sBlockIndex> \< <if(bIsAsciiString)>(asn1SccSint)strlen(<p>)<else><if(bIsVariableSize)><p><sAcc>nCount<else><nSizeMax><endif><endif>)
+while (ret && <sRemainingItemsVar> >= 0x4000 && <sBlockIndex> \< <if(bIsAsciiString)>(asn1SccSint)strlen(<p>)<else><if(bIsVariableSize)><p><sAcc>nCount<else><nSizeMax><endif><endif>)
 {
 	if (<sRemainingItemsVar> >= 0x10000)
 	{
@@ -652,7 +652,7 @@ while (<sRemainingItemsVar> >= 0x4000 && <sBlockIndex> \< <if(bIsAsciiString)>(a
 	<if(bIsBitStringType)>
 	BitStream_AppendBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<sCurBlockSize>);
 	<else>
-	for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++)
+	for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++)
 	{
 		<sInternalItem>
 	}
@@ -673,7 +673,7 @@ else
 <if(bIsBitStringType)>
 BitStream_AppendBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<sRemainingItemsVar>);
 <else>
-for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <sRemainingItemsVar>); <sBLI>++)
+for(<sBLI>=(int)<sCurOffset>; ret && <sBLI> \< (int)(<sCurOffset> + <sRemainingItemsVar>); <sBLI>++)
 {
 	<sInternalItem>
 }
-- 
2.43.0


From 8947a9fd24c6fdba91b40181a023b5aafa530683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 56/64] fix: named bits of C BIT STRING initial values used a
 hexadecimal mask as decimal

---
 StgC/init_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/init_c.stg b/StgC/init_c.stg
index af33603..ba2ccbd 100644
--- a/StgC/init_c.stg
+++ b/StgC/init_c.stg
@@ -234,7 +234,7 @@ initChildWithInitFunc(p, sChildInitFuncName) ::= <<
 initBitStringAtPos(sVarName, sStar, sFuncName, sTypeDefName, sNamedBit, nZeroBasedByteIndex, sHexByteMax, nZeroBasedBitIndex) ::= <<
 void <sFuncName>_set_<sNamedBit>(<sTypeDefName><sStar> <sVarName>) /*COVERAGE_IGNORE*/
 {
-    <sVarName>->arr[<nZeroBasedByteIndex>] |= <sHexByteMax>; /*COVERAGE_IGNORE*/
+    <sVarName>->arr[<nZeroBasedByteIndex>] |= 0x<sHexByteMax>; /*COVERAGE_IGNORE*/
 }
 >>
 
-- 
2.43.0


From e6f193c1559a988359605f5f041002354fb06825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 57/64] fix: literals and initial values of variable size BIT
 STRINGs counted octets, or the least size, instead of their bits

---
 BackendAst/DAstInitialize.fs | 8 ++++----
 BackendAst/DAstVariables.fs  | 2 +-
 StgC/variables_c.stg         | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 9095f0f..73e1a87 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -483,15 +483,15 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes =
+        let bytes, nBits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList
-            | OctetStringValue iv   -> iv
+            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, BigInteger iv.Length
+            | OctetStringValue iv   -> iv, min (8I * BigInteger iv.Length) o.maxSize.uper
             | _                     -> raise(BugErrorException "UnexpectedValue")
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger arrsBytes.Length) arrsBytes
+        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) nBits arrsBytes
 
     let anonyms =
         o.AllCons |>
diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index 3f69700..e764062 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -32,7 +32,7 @@ let printBitStringValueAsCompoundLiteral  (lm:LanguageMacros) curProgramUnitName
     let printOct =  lm.vars.PrintBitOrOctetStringValueAsCompoundLiteral
     let td = (lm.lg.getSizeableTypeDefinition o.typeDef).longTypedefName2 lm.lg.hasModules curProgramUnitName
     let bytes = lm.lg.bitStringValueToByteArray v
-    printOct td (o.minSize.uper = o.maxSize.uper) bytes o.minSize.uper
+    printOct td (o.minSize.uper = o.maxSize.uper) bytes (BigInteger v.Length)
 
 let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v:StringValue) =
     let (parts,_) = v
diff --git a/StgC/variables_c.stg b/StgC/variables_c.stg
index 678c752..07e117a 100644
--- a/StgC/variables_c.stg
+++ b/StgC/variables_c.stg
@@ -53,7 +53,7 @@ PrintOctetStringValue(td/*:FE_SizeableTypeDefinition*/,bIsFixedSize, arruBytes,
 >>
 
 PrintBitStringValue(td/*:FE_SizeableTypeDefinition*/,bIsFixedSize, arrsBits, nCount, arruBytes, nBytesCount) ::= <<
-<PrintBitOrOctetStringValue(bIsFixedSize=bIsFixedSize, arruBytes=arruBytes, nCount=nBytesCount)>
+<PrintBitOrOctetStringValue(bIsFixedSize=bIsFixedSize, arruBytes=arruBytes, nCount=nCount)>
 >>
 
 
-- 
2.43.0


From 1fb084b0a91fe58c93108f807475c74eb9db348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 58/64] fix: quotes and backslashes of string values were not
 escaped in C and Scala literals

---
 BackendAst/DAstVariables.fs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index e764062..457bf30 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -34,6 +34,11 @@ let printBitStringValueAsCompoundLiteral  (lm:LanguageMacros) curProgramUnitName
     let bytes = lm.lg.bitStringValueToByteArray v
     printOct td (o.minSize.uper = o.maxSize.uper) bytes (BigInteger v.Length)
 
+let escapeStringLiteral (lm:LanguageMacros) (sv:string) =
+    match lm.lg.hasModules with
+    | true  -> sv.Replace("\"","\"\"")
+    | false -> sv.Replace("\\","\\\\").Replace("\"","\\\"")
+
 let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v:StringValue) =
     let (parts,_) = v
     let vStr = CommonTypes.StringValue2String parts
@@ -42,7 +47,7 @@ let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v
         parts |>
         List.map(fun s ->
             match s with
-            | CStringValue  sv -> lm.vars.PrintSingleStringValue (sv.Replace("\"","\"\""))
+            | CStringValue  sv -> lm.vars.PrintSingleStringValue (escapeStringLiteral lm sv)
             | SpecialCharacter  CarriageReturn -> lm.vars.PrintCR ()
             | SpecialCharacter  LineFeed       -> lm.vars.PrintLF ()
             | SpecialCharacter  HorizontalTab  -> lm.vars.PrintHT ()
-- 
2.43.0


From 38a0d9c6158406463c67b93f037acca38755ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 59/64] fix: Ada zero initialiser of IA5String test values left
 its if statement open

---
 StgAda/init_a.stg | 1 +
 1 file changed, 1 insertion(+)

diff --git a/StgAda/init_a.stg b/StgAda/init_a.stg
index 2ea8f2b..8939188 100644
--- a/StgAda/init_a.stg
+++ b/StgAda/init_a.stg
@@ -43,6 +43,7 @@ while <i>\<= <nMaxSizePlusOne> loop
         <p>(<i>) := <sInitChar>;
     else
         <p>(<i>) := <rtlModuleName()>.NUL;
+    end if;
 
     <else>
     if <i> \<= <nSize> then
-- 
2.43.0


From 10f7f4a98deb776819f2217915f1b4b75993412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:11 +0000
Subject: [PATCH 60/64] fix: C values of date and time types named members that
 do not exist, flattened dates and lost the fraction

---
 StgC/init_c.stg      | 54 +++++++++++++++++++++++++++++---------------
 StgC/variables_c.stg | 20 ++++++++--------
 2 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/StgC/init_c.stg b/StgC/init_c.stg
index ba2ccbd..4c17e24 100644
--- a/StgC/init_c.stg
+++ b/StgC/init_c.stg
@@ -33,23 +33,23 @@ initObjectIdentifier(p, sAcc, nSize, arrsValues) ::= <<
 init_Asn1LocalTime(p, sAcc, tv/*:Asn1TimeValue*/) ::= <<
 <p><sAcc>hours = <tv.hours>;
 <p><sAcc>mins = <tv.mins>;
-<p><sAcc>sec = <tv.secs>;
-<p><sAcc>fraction = <tv.secsFraction>;
+<p><sAcc>secs = <tv.secs>;
+<p><sAcc>fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>;
 >>
 
 init_Asn1UtcTime(p, sAcc, tv/*:Asn1TimeValue*/) ::= <<
 <p><sAcc>hours = <tv.hours>;
 <p><sAcc>mins = <tv.mins>;
-<p><sAcc>sec = <tv.secs>;
-<p><sAcc>fraction = <tv.secsFraction>;
+<p><sAcc>secs = <tv.secs>;
+<p><sAcc>fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>;
 >>
 
 
 init_Asn1LocalTimeWithTimeZone(p, sAcc, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
 <p><sAcc>hours = <tv.hours>;
 <p><sAcc>mins = <tv.mins>;
-<p><sAcc>sec = <tv.secs>;
-<p><sAcc>fraction = <tv.secsFraction>;
+<p><sAcc>secs = <tv.secs>;
+<p><sAcc>fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>;
 <p><sAcc>tz.sign = <tz.sign>;
 <p><sAcc>tz.hours = <tz.hours>;
 <p><sAcc>tz.mins = <tz.mins>;
@@ -62,18 +62,36 @@ init_Asn1Date(p, sAcc, dt/*:Asn1DateValue*/) ::= <<
 >>
 
 init_Asn1Date_LocalTime(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <<
-<init_Asn1Date(p=p, sAcc=sAcc, dt=dt)>
-<init_Asn1LocalTime(p=p, sAcc=sAcc, tv=tv)>
+<p><sAcc>date.years = <dt.years>;
+<p><sAcc>date.months = <dt.months>;
+<p><sAcc>date.days = <dt.days>;
+<p><sAcc>time.hours = <tv.hours>;
+<p><sAcc>time.mins = <tv.mins>;
+<p><sAcc>time.secs = <tv.secs>;
+<p><sAcc>time.fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>;
 >>
 
 init_Asn1Date_UtcTime(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <<
-<init_Asn1Date(p=p, sAcc=sAcc, dt=dt)>
-<init_Asn1UtcTime(p=p, sAcc=sAcc, tv=tv)>
+<p><sAcc>date.years = <dt.years>;
+<p><sAcc>date.months = <dt.months>;
+<p><sAcc>date.days = <dt.days>;
+<p><sAcc>time.hours = <tv.hours>;
+<p><sAcc>time.mins = <tv.mins>;
+<p><sAcc>time.secs = <tv.secs>;
+<p><sAcc>time.fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>;
 >>
 
 init_Asn1Date_LocalTimeWithTimeZone(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
-<init_Asn1Date(p=p, sAcc=sAcc, dt=dt)>
-<init_Asn1LocalTimeWithTimeZone(p=p, sAcc=sAcc, tv=tv, tz=tz)>
+<p><sAcc>date.years = <dt.years>;
+<p><sAcc>date.months = <dt.months>;
+<p><sAcc>date.days = <dt.days>;
+<p><sAcc>time.hours = <tv.hours>;
+<p><sAcc>time.mins = <tv.mins>;
+<p><sAcc>time.secs = <tv.secs>;
+<p><sAcc>time.fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>;
+<p><sAcc>time.tz.sign = <tz.sign>;
+<p><sAcc>time.tz.hours = <tz.hours>;
+<p><sAcc>time.tz.mins = <tz.mins>;
 >>
 
 assignAny(p, sValue, sTypeDecl) ::= "<p> = (<sTypeDecl>)<sValue>;"
@@ -271,16 +289,16 @@ initObjectIdentifierAsExpr() ::= <<
 >>
 
 init_Asn1LocalTimeExpr() ::= <<
-{.hours = 0, .mins = 0, .sec = 0, .fraction = 0}
+{.hours = 0, .mins = 0, .secs = 0, .fraction = 0}
 >>
 
 init_Asn1UtcTimeExpr() ::= <<
-{.hours = 0, .mins = 0, .sec = 0, .fraction = 0}
+{.hours = 0, .mins = 0, .secs = 0, .fraction = 0}
 >>
 
 
 init_Asn1LocalTimeWithTimeZoneExpr() ::= <<
-{.hours = 0, .mins = 0, .sec = 0, .fraction = 0, .tz.sign = 0, .tz.hours = 0, .tz.mins = 0}
+{.hours = 0, .mins = 0, .secs = 0, .fraction = 0, .tz = {.sign = 0, .hours = 0, .mins = 0}}
 >>
 
 init_Asn1DateExpr() ::= <<
@@ -288,15 +306,15 @@ init_Asn1DateExpr() ::= <<
 >>
 
 init_Asn1Date_LocalTimeExpr() ::= <<
-{.years = 0, .months = 0, .days = 0, .hours = 0, .mins = 0, .sec = 0, .fraction = 0}
+{.date = {.years = 0, .months = 0, .days = 0}, .time = {.hours = 0, .mins = 0, .secs = 0, .fraction = 0}}
 >>
 
 init_Asn1Date_UtcTimeExpr() ::= <<
-{.years = 0, .months = 0, .days = 0, .hours = 0, .mins = 0, .sec = 0, .fraction = 0}
+{.date = {.years = 0, .months = 0, .days = 0}, .time = {.hours = 0, .mins = 0, .secs = 0, .fraction = 0}}
 >>
 
 init_Asn1Date_LocalTimeWithTimeZoneExpr() ::= <<
-{.years = 0, .months = 0, .days = 0, .hours = 0, .mins = 0, .sec = 0, .fraction = 0, .tz.sign = 0, .tz.hours = 0, .tz.mins = 0 }
+{.date = {.years = 0, .months = 0, .days = 0}, .time = {.hours = 0, .mins = 0, .secs = 0, .fraction = 0, .tz = {.sign = 0, .hours = 0, .mins = 0}}}
 >>
 
 initSequenceChildExpr(sChildName, sChildExpr, bIsOptional, bIsAbsent) ::= ".<sChildName> = <sChildExpr>"
diff --git a/StgC/variables_c.stg b/StgC/variables_c.stg
index 07e117a..d2aafc9 100644
--- a/StgC/variables_c.stg
+++ b/StgC/variables_c.stg
@@ -86,16 +86,16 @@ PrintObjectIdentifierValueAsCompoundLiteral(arrnValues, nCount) ::= <<
 
 
 PrintTimeValueAsCompoundLiteral_Asn1LocalTime(td/*:FE_PrimitiveTypeDefinition*/, tv/*:Asn1TimeValue*/) ::= <<
-(Asn1LocalTime){ .hours = <tv.hours>, .mins = <tv.mins>, .secs = <tv.secs>, .secsFraction = <tv.secsFraction>}
+(Asn1LocalTime){ .hours = <tv.hours>, .mins = <tv.mins>, .secs = <tv.secs>, .fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>}
 >>
 
 PrintTimeValueAsCompoundLiteral_Asn1UtcTime(td/*:FE_PrimitiveTypeDefinition*/, tv/*:Asn1TimeValue*/) ::= <<
-(Asn1UtcTime){ .hours = <tv.hours>, .mins = <tv.mins>, .secs = <tv.secs>, .secsFraction = <tv.secsFraction>}
+(Asn1UtcTime){ .hours = <tv.hours>, .mins = <tv.mins>, .secs = <tv.secs>, .fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>}
 >>
 
 
 PrintTimeValueAsCompoundLiteral_Asn1LocalTimeWithTimeZone(td/*:FE_PrimitiveTypeDefinition*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
-(Asn1TimeWithTimeZone){ .hours = <tv.hours>, .mins = <tv.mins>, .secs = <tv.secs>, .secsFraction = <tv.secsFraction>, .tz= {<tz.sign>, <tz.hours>, <tz.mins>}}
+(Asn1TimeWithTimeZone){ .hours = <tv.hours>, .mins = <tv.mins>, .secs = <tv.secs>, .fraction = <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>, .tz= {<tz.sign>, <tz.hours>, <tz.mins>}}
 >>
 
 PrintTimeValueAsCompoundLiteral_Asn1Date(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/) ::= <<
@@ -111,7 +111,7 @@ PrintTimeValueAsCompoundLiteral_Asn1Date_UtcTime(td/*:FE_PrimitiveTypeDefinition
 >>
 
 PrintTimeValueAsCompoundLiteral_Asn1Date_LocalTimeWithTimeZone(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
-(Asn1DateTimeWithTimeZone){ .date = <PrintTimeValueAsCompoundLiteral_Asn1Date(td=td,dt=dt)>, .time = <PrintTimeValueAsCompoundLiteral_Asn1LocalTimeWithTimeZone(td=td,tv=tv)>}
+(Asn1DateTimeWithTimeZone){ .date = <PrintTimeValueAsCompoundLiteral_Asn1Date(td=td,dt=dt)>, .time = <PrintTimeValueAsCompoundLiteral_Asn1LocalTimeWithTimeZone(td=td,tv=tv,tz=tz)>}
 >>
 
 
@@ -120,16 +120,16 @@ PrintTimeValueAsCompoundLiteral_Asn1Date_LocalTimeWithTimeZone(td/*:FE_Primitive
 
 
 PrintTimeValue_Asn1LocalTime(td/*:FE_PrimitiveTypeDefinition*/, tv/*:Asn1TimeValue*/) ::= <<
-{ <tv.hours>, <tv.mins>, <tv.secs>, <tv.secsFraction>}
+{ <tv.hours>, <tv.mins>, <tv.secs>, <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>}
 >>
 
 PrintTimeValue_Asn1UtcTime(td/*:FE_PrimitiveTypeDefinition*/, tv/*:Asn1TimeValue*/) ::= <<
-{ <tv.hours>, <tv.mins>, <tv.secs>, <tv.secsFraction>}
+{ <tv.hours>, <tv.mins>, <tv.secs>, <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>}
 >>
 
 
 PrintTimeValue_Asn1LocalTimeWithTimeZone(td/*:FE_PrimitiveTypeDefinition*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
-{ <tv.hours>, <tv.mins>, <tv.secs>, <tv.secsFraction>, {<tz.sign>, <tz.hours>, <tz.mins>} }
+{ <tv.hours>, <tv.mins>, <tv.secs>, <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>, {<tz.sign>, <tz.hours>, <tz.mins>} }
 >>
 
 PrintTimeValue_Asn1Date(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/) ::= <<
@@ -137,15 +137,15 @@ PrintTimeValue_Asn1Date(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/)
 >>
 
 PrintTimeValue_Asn1Date_LocalTime(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <<
-{ {<dt.years>, <dt.months>, <dt.days>}, { <tv.hours>, <tv.mins>, <tv.secs>, <tv.secsFraction>}}
+{ {<dt.years>, <dt.months>, <dt.days>}, { <tv.hours>, <tv.mins>, <tv.secs>, <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>}}
 >>
 
 PrintTimeValue_Asn1Date_UtcTime(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/) ::= <<
-{ {<dt.years>, <dt.months>, <dt.days>}, { <tv.hours>, <tv.mins>, <tv.secs>, <tv.secsFraction>}}
+{ {<dt.years>, <dt.months>, <dt.days>}, { <tv.hours>, <tv.mins>, <tv.secs>, <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>}}
 >>
 
 PrintTimeValue_Asn1Date_LocalTimeWithTimeZone(td/*:FE_PrimitiveTypeDefinition*/, dt/*:Asn1DateValue*/, tv/*:Asn1TimeValue*/, tz/*:Asn1TimeZoneValue*/) ::= <<
-{ {<dt.years>, <dt.months>, <dt.days>}, { <tv.hours>, <tv.mins>, <tv.secs>, <tv.secsFraction>, {<tz.sign>, <tz.hours>, <tz.mins>} } }
+{ {<dt.years>, <dt.months>, <dt.days>}, { <tv.hours>, <tv.mins>, <tv.secs>, <if(tv.secsFraction)><tv.secsFraction.Value.Item1><else>0<endif>, {<tz.sign>, <tz.hours>, <tz.mins>} } }
 >>
 
 
-- 
2.43.0


From a4202f09bf1558a9fd9720c00a55aef7fb5f6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 61/64] fix: initial values of Ada BIT STRINGs assigned octets
 to the bits

---
 BackendAst/DAstInitialize.fs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 73e1a87..91b3f46 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -483,15 +483,18 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes, nBits =
+        let bits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, BigInteger iv.Length
-            | OctetStringValue iv   -> iv, min (8I * BigInteger iv.Length) o.maxSize.uper
+            | BitStringValue iv     -> iv
+            | OctetStringValue iv   ->
+                let allBits = byteArrayToBitStringValue iv
+                allBits.Substring(0, min allBits.Length (int o.maxSize.uper))
             | _                     -> raise(BugErrorException "UnexpectedValue")
+        let bytes = lm.lg.bitStringValueToByteArray bits |> Seq.toList
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) nBits arrsBytes
+        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger bits.Length) arrsBytes
 
     let anonyms =
         o.AllCons |>
-- 
2.43.0


From 9900a2e038accd1eae621ba54e4eadcea5f0b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:56 +0000
Subject: [PATCH 62/64] fix: BerDecodeBitString could report more bits than the
 maximum when it ends inside an octet

---
 asn1crt/asn1crt_encoding_ber.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index f1f43fa..9ca7b32 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -527,6 +527,8 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	}
 
 	nbitCnt -= lastByteUnusedBits;
+	if (nbitCnt > maxBitCount)
+		nbitCnt = maxBitCount;
 
 	if (bitCount != NULL)
 		*bitCount = nbitCnt;
-- 
2.43.0


From 23ba256ab168498fc547c2a570ebb20ee5646de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:56 +0000
Subject: [PATCH 63/64] fix: real numbers below 1e-17 were written as 0 in XER

---
 asn1crt/asn1crt_encoding_xer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index d6c929a..dd816fd 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -26,7 +26,7 @@ static const char* Double2String(double v, char* tmp, size_t size) {
 		return "NaN";
 	if (isinf(v))
 		return v > 0 ? "INF" : "-INF";
-	if (fabs(v) < 1e-17)
+	if (!(fabs(v) > 0))
 		return "0";
 
 	while (fabs(v) >= 10) {
-- 
2.43.0


From 596a5184db51b3a5c868e649ba82052ecfa2beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:56 +0000
Subject: [PATCH 64/64] fix: the XER start tag was written without a space in
 front of its attributes

---
 asn1crt/asn1crt_encoding_xer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index dd816fd..508575d 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -425,6 +425,8 @@ flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag
 		return FALSE;
 	if (pAttrs != NULL) {
 		for (i = 0; i<pAttrs->nCount; i++) {
+			if (!ByteStream_AppendString(pByteStrm, " "))
+				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, pAttrs->attrs[i].Name))
 				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, "="))
-- 
2.43.0

