From 47ba8a6af67872309a3cd52394fdea60624c3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:30 +0000
Subject: [PATCH 01/56] fix: Base58/Base43 decoding of values with leading
 zeros

The buffer for the decoded number had no room for the leading zero bytes, so
values with many of them lost some ("1111" decoded to 3 bytes) or failed; the
8-bit zero and shift counters wrapped above 255, and an embedded NUL matched
the terminator of the alphabet and was taken as a digit.
---
 src/Conversion.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 7a37261..8ce7b46 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -358,11 +358,15 @@ String toBase58Check(const uint8_t * array, size_t arraySize){
 #endif
 
 
-// TODO: add zero count, fix wrong length
 size_t fromBase58Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 361 / 493 + 1;
-    return size;
+    // every leading zero digit is a zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE58_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 361 / 493 + 1;
+    return size + zeroCount;
 }
 
 size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -373,7 +377,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE58_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == '\0'){ // char not in the alphabet
             break;
         }
     }
@@ -382,7 +386,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE58_CHARS[0]){
             zeroCount++;
@@ -408,7 +412,7 @@ size_t fromBase58(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
@@ -555,11 +559,15 @@ String toBase43(const uint8_t * array, size_t arraySize){
     return s;
 }
 #endif
-// TODO: add zero count, fix wrong length
 size_t fromBase43Length(const char * array, size_t arraySize){
     if(array == NULL){ return 0; }
-    size_t size = arraySize * 68 / 100 + 1;
-    return size;
+    // every leading zero digit is a zero byte
+    size_t zeroCount = 0;
+    while(zeroCount < arraySize && array[zeroCount] == BASE43_CHARS[0]){
+        zeroCount++;
+    }
+    size_t size = (arraySize - zeroCount) * 68 / 100 + 1;
+    return size + zeroCount;
 }
 
 size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, size_t outputSize){
@@ -570,7 +578,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     // looking for the end of char array
     for(l=0; l<encodedSize; l++){
         const char * pch = strchr(BASE43_CHARS, encoded[l]);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || encoded[l] == '\0'){ // char not in the alphabet
             break;
         }
     }
@@ -579,7 +587,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
     uint8_t * tmp = (uint8_t *) calloc(size, sizeof(uint8_t));
     if(tmp == NULL){ return 0; }
 
-    uint8_t zeroCount = 0;
+    size_t zeroCount = 0;
     for(size_t i = 0; i<encodedSize; i++){
         if(encoded[i] == BASE43_CHARS[0]){
             zeroCount++;
@@ -605,7 +613,7 @@ size_t fromBase43(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
     }
     // shifting array
-    uint8_t shift = 0;
+    size_t shift = 0;
     for(size_t i = zeroCount; i < size; i++){
         if(tmp[i] == 0){
             shift++;
-- 
2.43.0


From 5d945c42b39cb6b3afcb6c7e4cb78f53c607c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:58 +0000
Subject: [PATCH 02/56] fix: toBase58Check string form read past the end of its
 input

The length of the encoding was estimated by passing arraySize + 4 with the
caller's array, which has no checksum appended.
---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 8ce7b46..d30e847 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -347,7 +347,7 @@ size_t toBase58Check(const uint8_t * array, size_t arraySize, char * output, siz
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String toBase58Check(const uint8_t * array, size_t arraySize){
     if(array == NULL){ return String(); }
-    size_t len = toBase58Length(array, arraySize + 4) + 1; // +4 checksum +1 for null terminator
+    size_t len = toBase58Length(array, arraySize) + 6 + 1; // +6 for 4 bytes of checksum +1 for null terminator
     char * buf = (char *)malloc(len);
     if(buf == NULL){ return String(); }
     toBase58Check(array, arraySize, buf, len);
-- 
2.43.0


From 478e7a263aba1458f6156cc081f1024c5050a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:59 +0000
Subject: [PATCH 03/56] fix: fromHex ignored the size of the output array

Longer text overflowed the caller's buffer.
---
 src/Conversion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index d30e847..88e6056 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -111,6 +111,10 @@ size_t fromHex(const char * hex, size_t hexLen, uint8_t * array, size_t arraySiz
         if((v1 > 0x0F) || (v2 > 0x0F)){ // if invalid char stop parsing
             return i;
         }
+        if(i >= arraySize){ // doesn't fit
+            memzero(array, arraySize);
+            return 0;
+        }
         array[i] = (v1<<4) | v2;
     }
     return hexLen/2;
-- 
2.43.0


From 3dc6e4d60eba48e5a8f115813dce1c024db8a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:17:00 +0000
Subject: [PATCH 04/56] fix: fromBin wrapped its byte counter after 256 bytes

---
 src/Conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index 88e6056..cc621c8 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -149,7 +149,7 @@ size_t fromBin(const char * bin, size_t binLen, uint8_t * array, size_t arraySiz
     for(size_t i = 0; i < binLen; i++){
         // we go in reverse order (from the end of the string)
         uint8_t exp = (i%8); // shift
-        uint8_t n = (i/8); // current byte from the end
+        size_t n = (i/8); // current byte from the end
         char c = bin[binLen-i-1];
         if(c == '1'){
             // set bit
-- 
2.43.0


From 16669bce1aef39b43ccd31cd850da4adc553c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:17:02 +0000
Subject: [PATCH 05/56] fix: integers written to fields wider than 8 bytes were
 repeated

Shifting a 64-bit value by 64 bits or more is undefined and repeats the bytes
on common processors, so ECScalar(5) for example was not 5. readVarInt of an
empty array read a byte outside it.
---
 src/Conversion.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index cc621c8..d29e05e 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -838,7 +838,8 @@ uint64_t littleEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToLittleEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[i] = ((num >> (8*i)) & 0xFF);
+        // shifting by 64 bits or more is undefined
+        array[i] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -853,7 +854,8 @@ uint64_t bigEndianToInt(const uint8_t * array, size_t arraySize){
 
 void intToBigEndian(uint64_t num, uint8_t * array, size_t arraySize){
     for(size_t i = 0; i < arraySize; i++){
-        array[arraySize-i-1] = ((num >> (8*i)) & 0xFF);
+        // shifting by 64 bits or more is undefined
+        array[arraySize-i-1] = (i < sizeof(num)) ? ((num >> (8*i)) & 0xFF) : 0;
     }
 }
 
@@ -872,6 +874,9 @@ uint8_t lenVarInt(uint64_t num){
     return 9;
 }
 uint64_t readVarInt(const uint8_t * array, size_t arraySize){
+    if(arraySize == 0){
+        return 0;
+    }
     if(array[0] < 0xfd){
         return array[0];
     }else{
-- 
2.43.0


From 99be02eb28db15359beef6c4d538bc5b54640410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:17:03 +0000
Subject: [PATCH 06/56] fix: Base64 out-of-bounds reads and acceptance of
 malformed text

Empty input and input without padding that is not NUL-terminated were read
outside the buffer. NUL characters were decoded as if they were digits, and a
padding character in the middle silently truncated the result.
---
 src/Conversion.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Conversion.cpp b/src/Conversion.cpp
index d29e05e..4a19c2f 100644
--- a/src/Conversion.cpp
+++ b/src/Conversion.cpp
@@ -662,7 +662,7 @@ size_t toBase64(const uint8_t * array, size_t arraySize, char * output, size_t o
     if(array == NULL || output == NULL){ return 0; }
     memzero(output, outputSize);
     size_t cur = 0;
-    if(outputSize < toBase64Length(array, arraySize, flags)){
+    if(arraySize == 0 || outputSize < toBase64Length(array, arraySize, flags)){
         return 0;
     }
     while(3 * cur + 3 < arraySize){
@@ -720,6 +720,7 @@ String toBase64(const uint8_t * array, size_t arraySize, uint8_t flags){
 #endif
 size_t fromBase64Length(const char * array, size_t arraySize, uint8_t flags){
     if(array == NULL){ return 0; }
+    if(arraySize == 0){ return 0; }
     if(arraySize % 4 != 0 && (flags & BASE64_NOPADDING) == 0){ return 0; }
     size_t v = (arraySize / 4) * 3;
     if(flags & BASE64_NOPADDING){
@@ -750,7 +751,9 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
         }
         uint32_t val = 0;
         for(size_t i=0; i<4; i++){
-            char c = encoded[cur*4+i];
+            size_t pos = cur*4+i;
+            bool end = (pos >= encodedSize); // only without padding
+            char c = end ? 0 : encoded[pos];
             // replace characters for urlsafe version
             if(c=='-' && (flags & BASE64_URLSAFE)){
                 c = '+';
@@ -759,9 +762,10 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
                 c = '/';
             }
             const char * pch = strchr(BASE64_CHARS, c);
-            if(pch==NULL || ((flags & BASE64_NOPADDING) && (c == 0))){
-                if((encoded[cur*4+i] == '=') || (c == 0 && (flags & BASE64_NOPADDING))){
-                    if(i==3){
+            if(pch==NULL || c == 0){
+                // padding or end of the text is only allowed in the last two places
+                if(end || c == '='){
+                    if(i==3 && (end || pos+1 == encodedSize)){
                         val = (val >> 2);
                         if(outputSize < 3*cur+2){
                             memzero(output, outputSize);
@@ -770,7 +774,7 @@ size_t fromBase64(const char * encoded, size_t encodedSize, uint8_t * output, si
                         intToBigEndian(val, output+3*cur, 2);
                         return 3*cur + 2;
                     }
-                    if(i==2){
+                    if(i==2 && (end || (pos+2 == encodedSize && encoded[pos+1] == '='))){
                         val = (val >> 4);
                         if(outputSize < 3*cur+1){
                             memzero(output, outputSize);
-- 
2.43.0


From f1e0cef17bb66b00553fccc556fcbf6a2df8732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:12 +0000
Subject: [PATCH 07/56] fix: scalar negation of 0 and arithmetic with integers
 from 2^30

-ECScalar(0) was n, which compares unequal to 0 and fails as a scalar, and
adding or subtracting an integer of 2^30 or more overflowed a bignum limb.
---
 src/BitcoinCurve.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 941b47f..b6f7d05 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -206,30 +206,21 @@ ECScalar ECScalar::operator+(const ECScalar& other) const{
 	return sum;
 }
 ECScalar ECScalar::operator+(const uint32_t& i) const{
-	bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_addi(&a, i);
-	bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	// bn_addi only works with numbers below 2^30
+	return (*this+ECScalar(i));
 }
 ECScalar ECScalar::operator-() const{
     bignum256 a, b;
 	bn_read_be(this->num, &a);
 	bn_subtract(&secp256k1.order, &a, &b);
+	bn_mod(&b, &secp256k1.order); // -0 = 0
 	ECScalar neg;
 	bn_write_be(&b, neg.num);
 	return neg;
 }
 ECScalar ECScalar::operator-(const uint32_t& i) const{
-    bignum256 a;
-	bn_read_be(this->num, &a);
-	bn_subi(&a, i, &secp256k1.order);
-    bn_mod(&a, &secp256k1.order);
-	ECScalar sum;
-	bn_write_be(&a, sum.num);
-	return sum;
+	// bn_subi only works with numbers below 2^30
+	return (*this-ECScalar(i));
 }
 ECScalar ECScalar::operator-(const ECScalar& other) const{
 	return (*this+(-other));
-- 
2.43.0


From f5904cdc95e7fc15c9413f6dbaa15325b8cc24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:13 +0000
Subject: [PATCH 08/56] fix: ordering of points was reversed

operator< is documented as the comparison of SEC encodings used to sort
multisig keys, but a < b held when a's encoding was the larger one.
---
 src/BitcoinCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index b6f7d05..69bc4b4 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -257,7 +257,7 @@ bool ECPoint::operator<(const ECPoint& other) const{
 	uint8_t sec2[65];
 	sec(sec1, sizeof(sec1));
 	other.sec(sec2, sizeof(sec2));
-	return memcmp(sec1, sec2, sizeof(sec1)) > 0;
+	return memcmp(sec1, sec2, sizeof(sec1)) < 0;
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
-- 
2.43.0


From cb06b7d9f751f05a20155bffecf40bf8e754d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:15 +0000
Subject: [PATCH 09/56] fix: parsing of compressed points

The result of the decompression was not checked, so an x that is not on the
curve copied uninitialised memory, often the previous key, into the point. The
parity of a point parsed in pieces was kept in a variable shared between all
points. Parsing from an array left the object uninitialised on failure.
---
 src/BitcoinCurve.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 69bc4b4..7e17360 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -8,7 +8,6 @@ const ECPoint InfinityPoint;
 const ECPoint GeneratorPoint("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
 
 size_t ECPoint::from_stream(ParseStream *s){
-	static uint8_t first_byte;
 	if(status == PARSING_FAILED){
 		return 0;
 	}
@@ -29,7 +28,7 @@ size_t ECPoint::from_stream(ParseStream *s){
 				bytes_parsed += bytes_read;
 				return bytes_read;
 			}
-			first_byte = c;
+			point[63] = c; // keep parity until x is known
 			if(c == 0x04){ // uncompressed
 				bytes_to_read += 32;
 				compressed = false;
@@ -45,10 +44,14 @@ size_t ECPoint::from_stream(ParseStream *s){
 	if(bytes_to_read==0){
 		if(compressed){
 			uint8_t buf[33];
-			buf[0] = first_byte;
+			buf[0] = point[63];
 			memcpy(buf+1, point, 32);
             uint8_t arr[65];
-            ecdsa_uncompress_pubkey(&secp256k1, buf, arr);
+            if(!ecdsa_uncompress_pubkey(&secp256k1, buf, arr)){ // not on the curve
+				status = PARSING_FAILED;
+				bytes_parsed += bytes_read;
+				return bytes_read;
+            }
             memcpy(point, arr+1, 64);
 		}
 		status = PARSING_DONE;
@@ -93,6 +96,7 @@ ECPoint::ECPoint(const uint8_t pubkeyArr[64], bool use_compressed){
 	compressed = use_compressed;
 };
 ECPoint::ECPoint(const uint8_t * secArr){ 
+	reset();
 	if(secArr[0] == 0x04){
 		ECPoint::fromSec(secArr, 65);
 	}else{
-- 
2.43.0


From c432384528bec194b0df96de4f6db6f3ffd64ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:49 +0000
Subject: [PATCH 10/56] fix: multiplication by zero and of the point at
 infinity

The scalar multiplication does not support infinity: it inverted zero, reading
outside an array, and 0*G left the result with a failed parsing status.
---
 src/BitcoinCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 7e17360..918169c 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -265,6 +265,10 @@ bool ECPoint::operator<(const ECPoint& other) const{
 }
 ECPoint operator*(const ECScalar& scalar, const ECPoint& point){
 	ECPoint r;
+	// 0*P and k*infinity
+	if(!scalar.ECScalar::isValid() || point == InfinityPoint){
+		return r;
+	}
 	uint8_t num[32];
 	scalar.getSecret(num);
 	if(point == GeneratorPoint){
-- 
2.43.0


From 8484d1c366e634e9acf8787bc3851a86ba4b6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:20 +0000
Subject: [PATCH 11/56] fix: invalid hex characters were parsed as 0xFF bytes

Reading stopped advancing at the first invalid character but went on returning
-1, so every parser took the rest of the object for 0xFF bytes. Hex data now
ends there, as in fromHex, and the object stays incomplete. Reading from an
empty hex stream no longer underflows.
---
 src/BaseClasses.cpp | 15 ++++++++++++++-
 src/BaseClasses.h   |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index ccc51b1..a6f81fa 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -22,6 +22,7 @@ ParseByteStream::ParseByteStream(const uint8_t * arr, size_t length, encoding_fo
     cursor = 0;
     len = (arr == NULL) ? 0 : length;
     buf = arr;
+    trimHex();
 }
 // TODO: call prev constructor
 ParseByteStream::ParseByteStream(const char * arr, encoding_format f){
@@ -30,6 +31,18 @@ ParseByteStream::ParseByteStream(const char * arr, encoding_format f){
     cursor = 0;
     len = (arr == NULL) ? 0 : strlen(arr);
     buf = (const uint8_t *) arr;
+    trimHex();
+}
+// hex data ends at the first character that is not hex
+void ParseByteStream::trimHex(){
+    if(format != HEX_ENCODING){
+        return;
+    }
+    size_t l = 0;
+    while(l + 1 < len && hexToVal(buf[l]) < 0x10 && hexToVal(buf[l+1]) < 0x10){
+        l += 2;
+    }
+    len = l;
 }
 ParseByteStream::~ParseByteStream(){
     buf = NULL;
@@ -43,7 +56,7 @@ size_t ParseByteStream::available(){
 };
 int ParseByteStream::read(){
     if(format == HEX_ENCODING){
-        if(cursor < len-1){
+        if(cursor + 1 < len){
             uint8_t c1 = hexToVal(buf[cursor]);
             uint8_t c2 = hexToVal(buf[cursor+1]);
             if(c1 < 0x10 && c2 < 0x10){
diff --git a/src/BaseClasses.h b/src/BaseClasses.h
index 5587c53..817ffd5 100644
--- a/src/BaseClasses.h
+++ b/src/BaseClasses.h
@@ -39,6 +39,7 @@ private:
     size_t len;
     encoding_format format;
     int last;
+    void trimHex();
 public:
     ParseByteStream(const uint8_t * arr, size_t length, encoding_format f=RAW);
     ParseByteStream(const char * arr, encoding_format f=HEX_ENCODING);
-- 
2.43.0


From 09f1bd51028e346f095648cdb541d0b7e703e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:17 +0000
Subject: [PATCH 12/56] fix: ECDSA verification with an extended public key
 always failed

---
 src/Bitcoin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 419a2fe..7758362 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -437,8 +437,8 @@ Script PublicKey::script(ScriptType type) const{
 bool PublicKey::verify(const Signature sig, const uint8_t hash[32]) const{
     uint8_t signature[64] = {0};
     sig.bin(signature, 64);
-    uint8_t pub[65];
-    serialize(pub, 65);
+    uint8_t pub[65] = { 0 };
+    sec(pub, sizeof(pub)); // not serialize(): a derived class may serialize to something else
     return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
 }
 bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32]) const{
-- 
2.43.0


From 014740d10872afa5f57d510bd5d08ffdf65cf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:50 +0000
Subject: [PATCH 13/56] fix: Schnorr verification accepted signatures that
 BIP-340 rejects

---
 src/Bitcoin.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 7758362..303f2b5 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -450,6 +450,12 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     sig.serialize(rs, sizeof(rs));
     PublicKey R;
     R.from_x(rs, 32);
+    // r has to be an x coordinate of a point, and s should be less than the order
+    bignum256 sn;
+    bn_read_be(rs+32, &sn);
+    if(!pub.isValid() || !R.isValid() || !bn_is_less(&sn, &secp256k1.order)){
+        return false;
+    }
     // calculate hash using tagged hash with "BIP0340/challenge" prefix
     uint8_t e[32];
     uint8_t tmp[32];
@@ -464,10 +470,8 @@ bool PublicKey::schnorr_verify(const SchnorrSignature sig, const uint8_t hash[32
     tch.end(e);
     PrivateKey challenge(e);
     PublicKey S = challenge*pub + R;
-    S.x(tmp, sizeof(tmp));
     PrivateKey s(rs+32);
-    s.publicKey().x(e, 32);
-    return memcmp(tmp, e, 32) == 0;
+    return S == s.publicKey(); // whole points: x only would accept n-s as well
 };
 
 // ---------------------------------------------------------------- PrivateKey class
-- 
2.43.0


From f02b9f6b56ba50b5b6d2f139cc09167bad101715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:34 +0000
Subject: [PATCH 14/56] fix: strictness of DER signature parsing, chunked input
 and small output buffers

---
 src/Bitcoin.cpp | 34 ++++++++++++++++++++++------------
 src/Bitcoin.h   |  1 +
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 303f2b5..4bd10da 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -119,6 +119,13 @@ Signature::Signature(const char * der){
     ParseByteStream s(der);
     Signature::from_stream(&s);
 }
+// nothing is left of a signature that is refused
+size_t Signature::parsing_failed(size_t bytes_read){
+    status = PARSING_FAILED;
+    memzero(r, 32);
+    memzero(s, 32);
+    return bytes_read;
+}
 size_t Signature::from_stream(ParseStream *stream){
     // der encoding is probably the most uneffective way to encode signatures...
     // Format: 0x30 [total-length] 0x02 [R-length] [R] 0x02 [S-length] [S]
@@ -145,58 +152,58 @@ size_t Signature::from_stream(ParseStream *stream){
         c = stream->read();
         bytes_read++;
         if(c!=0x30){
-            status = PARSING_FAILED;
-            return bytes_read;
+            return parsing_failed(bytes_read);
         }
     }
     if(stream->available() && bytes_parsed+bytes_read < 2){
         tot[0] = stream->read();
         bytes_read++;
-        if(tot[0] > 70){ status = PARSING_FAILED; return bytes_read; }
+        if(tot[0] > 70){ return parsing_failed(bytes_read); }
     }
     // r
     if(stream->available() && bytes_parsed+bytes_read < 3){
         c = stream->read();
         bytes_read++;
-        if(c != 0x02){ status = PARSING_FAILED; return bytes_read; }
+        if(c != 0x02){ return parsing_failed(bytes_read); }
     }
     if(stream->available() && bytes_parsed+bytes_read < 4){
         tot[1] = stream->read();
         bytes_read++;
-        if(tot[1] > 33){ status = PARSING_FAILED; return bytes_read; }
+        if(tot[1] == 0 || tot[1] > 33){ return parsing_failed(bytes_read); }
     }
     if(stream->available() && tot[1]==33 && bytes_parsed+bytes_read < 5){
         c = stream->read();
         bytes_read++;
-        if(c != 0){ status = PARSING_FAILED; return bytes_read; }
+        if(c != 0){ return parsing_failed(bytes_read); }
     }
     while(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]){
         r[bytes_parsed+bytes_read-4+32-tot[1]] = stream->read();
         bytes_read++;
     }
-    if(rlen() != tot[1]){ status = PARSING_FAILED; return bytes_read; }
+    // check the encoding of r when it is complete
+    if(bytes_parsed+bytes_read >= 4 && bytes_parsed+bytes_read >= (size_t)4+tot[1] && rlen() != tot[1]){ return parsing_failed(bytes_read); }
     // s
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+1){
         c = stream->read();
         bytes_read++;
-        if(c != 0x02){ status = PARSING_FAILED; return bytes_read; }
+        if(c != 0x02){ return parsing_failed(bytes_read); }
     }
     if(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2){
         tot[2] = stream->read();
         bytes_read++;
-        if(tot[2] > 33){ status = PARSING_FAILED; return bytes_read; }
+        if(tot[2] == 0 || tot[2] > 33 || tot[0] != tot[1]+tot[2]+4){ return parsing_failed(bytes_read); }
     }
     if(stream->available() && tot[2]==33 && bytes_parsed+bytes_read < (size_t)4+tot[1]+3){
         c = stream->read();
         bytes_read++;
-        if(c != 0){ status = PARSING_FAILED; return bytes_read; }
+        if(c != 0){ return parsing_failed(bytes_read); }
     }
     while(stream->available() && bytes_parsed+bytes_read < (size_t)4+tot[1]+2+tot[2]){
         s[bytes_parsed+bytes_read-4-tot[1]-2-tot[2]+32] = stream->read();
         bytes_read++;
     }
-    if(slen() != tot[2]){ status = PARSING_FAILED; return bytes_read; }
-    if(bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
+    if(tot[2] > 0 && bytes_parsed+bytes_read == (size_t)4+tot[1]+2+tot[2]){
+        if(slen() != tot[2]){ return parsing_failed(bytes_read); }
         status = PARSING_DONE;
     }
     bytes_parsed+=bytes_read;
@@ -253,6 +260,9 @@ size_t Signature::fromDer(const uint8_t * raw, size_t rawLen){
 }
 size_t Signature::der(uint8_t * bytes, size_t len) const{
     memzero(bytes, len);
+    if(len < Signature::length()){
+        return 0;
+    }
     uint8_t _rlen = rlen();
     uint8_t _slen = slen();
     bytes[0] = 0x30;
diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 2fcc15d..b7ef8e2 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -418,6 +418,7 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     size_t rlen() const;
     size_t slen() const;
+    size_t parsing_failed(size_t bytes_read);
     uint8_t tot[3]; // temporary thingy for parsing
 public:
     Signature();
-- 
2.43.0


From 43295b07b2e8f89703a63066eca8c8f1a703c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:00 +0000
Subject: [PATCH 15/56] fix: malformed WIF was imported or left parts of the
 previous key

---
 src/Bitcoin.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 4bd10da..56eecce 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -573,12 +573,19 @@ String PrivateKey::wif() const{
 int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
     uint8_t arr[40] = { 0 };
     size_t l = fromBase58Check(wifArr, wifSize, arr, sizeof(arr));
-    if( (l < 33) || (l > 34) ){
-        memzero(num, 32);
+    // nothing is left of the previous key if the string is refused
+    memzero(num, 32);
+    pubKey = PublicKey();
+    network = &DEFAULT_NETWORK;
+    if( (l < 33) || (l > 34) || (l == 34 && arr[33] != 0x01) ){
+        memzero(arr, 40);
         return 0;
     }
-    bool compressed;
-    network = &DEFAULT_NETWORK;
+    bignum256 secret;
+    bn_read_be(arr+1, &secret);
+    bool in_range = !bn_is_zero(&secret) && bn_is_less(&secret, &secp256k1.order);
+    memzero(&secret, sizeof(secret));
+    bool compressed = (l == 34);
     bool found = false;
     for(int i=0; i<networks_len; i++){
         if(arr[0] == networks[i]->wif){
@@ -587,16 +594,12 @@ int PrivateKey::fromWIF(const char * wifArr, size_t wifSize){
             break;
         }
     }
-    if(!found){
+    if(!found || !in_range){
+        network = &DEFAULT_NETWORK;
+        memzero(arr, 40);
         return 0;
     }
 
-    if(l == 34){
-        compressed = (arr[33] > 0);
-    }
-    if(l == 33){
-        compressed = false;
-    }
     memcpy(num, arr+1, 32);
     memzero(arr, 40); // clear memory
 
@@ -714,10 +717,12 @@ SchnorrSignature PrivateKey::schnorr_sign(const uint8_t hash[32]) const{
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 PrivateKey::PrivateKey(const String wifString){
+    reset();
     fromWIF(wifString.c_str());
 }
 #else
 PrivateKey::PrivateKey(const char * wifArr){
+    reset();
     fromWIF(wifArr);
 }
 #endif
-- 
2.43.0


From 26cf6c0b97c5b1e7d9ad7263bd247890628886ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:19 +0000
Subject: [PATCH 16/56] fix: 15- and 21-word mnemonics were refused

---
 src/utility/trezor/bip39.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/trezor/bip39.c b/src/utility/trezor/bip39.c
index e02422f..bbb2a66 100755
--- a/src/utility/trezor/bip39.c
+++ b/src/utility/trezor/bip39.c
@@ -116,7 +116,7 @@ int mnemonic_to_entropy(const char *mnemonic, uint8_t *entropy)
 	n++;
 
 	// check number of words
-	if (n != 12 && n != 18 && n != 24) {
+	if (n != 12 && n != 15 && n != 18 && n != 21 && n != 24) {
 		return 0;
 	}
 
@@ -167,7 +167,7 @@ int mnemonic_check(const char *mnemonic)
 {
 	uint8_t bits[32 + 1];
 	int seed_len = mnemonic_to_entropy(mnemonic, bits);
-	if (seed_len != (12 * 11) && seed_len != (18 * 11) && seed_len != (24 * 11)) {
+	if (seed_len == 0) {
 		return 0;
 	}
 	int words = seed_len / 11;
@@ -176,8 +176,12 @@ int mnemonic_check(const char *mnemonic)
 	sha256_Raw(bits, words * 4 / 3, bits);
 	if (words == 12) {
 		return (bits[0] & 0xF0) == (checksum & 0xF0); // compare first 4 bits
+	} else if (words == 15) {
+		return (bits[0] & 0xF8) == (checksum & 0xF8); // compare first 5 bits
 	} else if (words == 18) {
 		return (bits[0] & 0xFC) == (checksum & 0xFC); // compare first 6 bits
+	} else if (words == 21) {
+		return (bits[0] & 0xFE) == (checksum & 0xFE); // compare first 7 bits
 	} else if (words == 24) {
 		return bits[0] == checksum; // compare 8 bits
 	}
-- 
2.43.0


From 8fba814cf0a541794ea0e8e5640773f330dea4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:53 +0000
Subject: [PATCH 17/56] fix: mnemonicToEntropy read past the stated length of
 the phrase

---
 src/Bitcoin.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 56eecce..1f3750e 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -41,18 +41,23 @@ const char * mnemonicFromEntropy(const uint8_t * entropy_data, size_t dataLen){
     return mnemonic_from_data(entropy_data, dataLen);
 }
 size_t mnemonicToEntropy(const char * mnemonic, size_t mnemonicLen, uint8_t * output, size_t outputLen){
+    // the phrase is not necessarily zero-terminated
+    char phrase[24*10];
+    if(mnemonicLen >= sizeof(phrase)){
+        return 0;
+    }
+    memcpy(phrase, mnemonic, mnemonicLen);
+    phrase[mnemonicLen] = 0;
     int num_words = 1;
-    for (size_t i = 0; i < strlen(mnemonic); i++){
-        if(mnemonic[i] == ' '){
+    for (size_t i = 0; i < strlen(phrase); i++){
+        if(phrase[i] == ' '){
             num_words ++;
         }
     }
     size_t entropy_len = (num_words*4)/3;
-    if(outputLen < entropy_len){
-        return 0;
-    }
     uint8_t res[33] = {0};
-    int r = mnemonic_to_entropy(mnemonic, res);
+    int r = (outputLen < entropy_len) ? 0 : mnemonic_to_entropy(phrase, res);
+    memzero(phrase, sizeof(phrase));
     if(r == 0){
         return 0;
     }
-- 
2.43.0


From e6c5f10ac76f747189745bc3405c3ccb9bb62438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:30 +0000
Subject: [PATCH 18/56] fix: malformed derivation paths and hardened public
 derivation gave other keys

---
 src/HDWallet.cpp | 143 +++++++++++++++++++++--------------------------
 1 file changed, 65 insertions(+), 78 deletions(-)

diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f822fc4..f6957e8 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -16,6 +16,60 @@ using std::string;
 #define String string
 #endif
 
+// parses derivation path like "m/84h/1'/0/5/", "m" and "m/" are empty paths
+// returns an array that should be freed, or NULL if the path is malformed
+static uint32_t * parse_path(const char * path, size_t * derivationLen){
+    size_t len = strlen(path);
+    if(path[0] == 'm'){ // remove leading "m/"
+        if(len > 1 && path[1] != '/'){
+            return NULL;
+        }
+        size_t l = (len > 1) ? 2 : 1;
+        path += l;
+        len -= l;
+    }
+    size_t num = 0;
+    if(len > 0){
+        if(path[len-1] == '/'){ // remove trailing "/"
+            len--;
+        }
+        num = 1;
+        for(size_t i=0; i<len; i++){
+            if(path[i] == '/'){
+                num++;
+            }
+        }
+    }
+    uint32_t * derivation = (uint32_t *)calloc(num+1, sizeof(uint32_t));
+    if(derivation == NULL){ return NULL; }
+    size_t i = 0;
+    for(size_t current=0; current<num; current++){
+        uint64_t val = 0;
+        size_t digits = 0;
+        while(i < len && path[i] >= '0' && path[i] <= '9' && val < 0x100000000ULL){
+            val = val*10 + (path[i]-'0');
+            digits++;
+            i++;
+        }
+        if(i < len && (path[i] == 'h' || path[i] == '\'')){ // hardened
+            if(val >= HARDENED_INDEX){
+                digits = 0; // too large
+            }
+            val += HARDENED_INDEX;
+            i++;
+        }
+        // should be followed by "/" or by the end of the path
+        if(digits == 0 || val > 0xFFFFFFFFULL || (i < len && path[i] != '/')){
+            free(derivation);
+            return NULL;
+        }
+        derivation[current] = (uint32_t)val;
+        i++;
+    }
+    *derivationLen = num;
+    return derivation;
+}
+
 // ---------------------------------------------------------------- HDPrivateKey class
 
 void HDPrivateKey::init(){
@@ -384,6 +438,9 @@ HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
         hardened = true;
     }
     HDPrivateKey child;
+    if(!isValid()){
+        return child;
+    }
 
     uint8_t sec[65] = { 0 };
     PublicKey p = publicKey();
@@ -475,48 +532,10 @@ HDPrivateKey HDPrivateKey::derive(uint32_t * index, size_t len) const{
     return pk;
 }
 HDPrivateKey HDPrivateKey::derive(const char * path) const{
-    static const char VALID_CHARS[] = "0123456789/'h";
-    size_t len = strlen(path);
-    const char * cur = path;
-    if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
-    }
-    if(cur[len-1] == '/'){ // remove trailing "/"
-        len--;
-    }
     HDPrivateKey pk; // invalid private key to return if something failed
-    size_t derivationLen = 1;
-    // checking if all chars are valid and counting derivation length
-    for(size_t i=0; i<len; i++){
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        if(pch == NULL){ // wrong character
-            return pk;
-        }
-        if(cur[i] == '/'){
-            derivationLen++;
-        }
-    }
-    uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
+    size_t derivationLen = 0;
+    uint32_t * derivation = parse_path(path, &derivationLen);
     if(derivation == NULL){ return pk; }
-    size_t current = 0;
-    for(size_t i=0; i<len; i++){
-        if(cur[i] == '/'){ // next
-            current++;
-            continue;
-        }
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        uint32_t val = pch-VALID_CHARS;
-        if(derivation[current] >= HARDENED_INDEX){ // can't have anything after hardened
-            free(derivation);
-            return pk;
-        }
-        if(val < 10){
-            derivation[current] = derivation[current]*10 + val;
-        }else{ // h or ' -> hardened
-            derivation[current] += HARDENED_INDEX;
-        }
-    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
@@ -775,6 +794,9 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
+    if(index >= HARDENED_INDEX || !isValid()){ // only normal children can be derived
+        return child;
+    }
 
     uint8_t secArr[65] = { 0 };
     int l = sec(secArr, sizeof(secArr));
@@ -814,46 +836,11 @@ HDPublicKey HDPublicKey::derive(uint32_t * index, size_t len) const{
     return pk;
 }
 HDPublicKey HDPublicKey::derive(const char * path) const{
-    static const char VALID_CHARS[] = "0123456789/";
-    size_t len = strlen(path);
-    const char * cur = path;
-    if(path[0] == 'm'){ // remove leading "m/"
-        cur+=2;
-        len-=2;
-    }
-    if(cur[len-1] == '/'){ // remove trailing "/"
-        len--;
-    }
-    HDPublicKey pk; // dummy to return if something failed
-    size_t derivationLen = 1;
-    // checking if all chars are valid and counting derivation length
-    for(size_t i=0; i<len; i++){
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        if(pch == NULL){ // wrong character
-            return pk;
-        }
-        if(cur[i] == '/'){
-            derivationLen++;
-        }
-    }
-    uint32_t * derivation = (uint32_t *)calloc(derivationLen, sizeof(uint32_t));
+    HDPublicKey pk; // invalid public key to return if something failed
+    size_t derivationLen = 0;
+    uint32_t * derivation = parse_path(path, &derivationLen);
     if(derivation == NULL){ return pk; }
-    size_t current = 0;
-    for(size_t i=0; i<len; i++){
-        if(cur[i] == '/'){ // next
-            if(derivation[current] >= HARDENED_INDEX){ // can't be hardened
-                free(derivation);
-                return pk;
-            }
-            current++;
-            continue;
-        }
-        const char * pch = strchr(VALID_CHARS, cur[i]);
-        uint32_t val = pch-VALID_CHARS;
-        derivation[current] = derivation[current]*10 + val;
-    }
     pk = derive(derivation, derivationLen);
     free(derivation);
     return pk;
 }
-
-- 
2.43.0


From c3a05c0f8a7b5ffdeb634bcebacbc807cdbd9bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:08 +0000
Subject: [PATCH 19/56] fix: malformed extended keys were accepted or left the
 previous key

---
 src/Bitcoin.h    |  2 +-
 src/HDWallet.cpp | 55 +++++++++++++++++++++++++++---------------------
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index b7ef8e2..b522948 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -357,7 +357,7 @@ public:
         other.parentFingerprint, other.childNumber, other.network, other.type){};
 */
 #if USE_ARDUINO_STRING
-    HDPublicKey(String pub){ reset(); from_str(pub.c_str(), pub.length()); };
+    HDPublicKey(String pub):HDPublicKey(){ from_str(pub.c_str(), pub.length()); };
 #endif
     ~HDPublicKey();
     /** \brief Length of the key (78). */
diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index f6957e8..8bd1368 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -76,6 +76,7 @@ void HDPrivateKey::init(){
     reset();
     memzero(chainCode, 32);
     memzero(num, 32);
+    pubKey = PublicKey();
     pubKey.compressed = true;
     depth = 0;
     memzero(parentFingerprint, 4);
@@ -188,6 +189,9 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
     }
     if(status == PARSING_DONE){
         bytes_parsed = 0;
+        // nothing is left of the previous key if parsing fails
+        memzero(num, 32);
+        pubKey = PublicKey();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -267,16 +271,16 @@ size_t HDPrivateKey::from_stream(ParseStream *s){
         bytes_read++;
     }
     if(bytes_parsed+bytes_read == 78){
-        status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
-        bn_mod(&n, &secp256k1.order);
-        bn_write_be(&n, num);
-        pubKey = *this * GeneratorPoint;
+        if(bn_is_zero(&n) || !bn_is_less(&n, &secp256k1.order)){
+            status = PARSING_FAILED;
+            memzero(num, 32);
+        }else{
+            status = PARSING_DONE;
+            pubKey = *this * GeneratorPoint;
+        }
+        memzero(&n, sizeof(n));
         pubKey.compressed = true;
     }
     bytes_parsed += bytes_read;
@@ -286,10 +290,11 @@ size_t HDPrivateKey::from_str(const char * xprvArr, size_t xprvLen){
     init();
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xprvArr, xprvLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
+        status = PARSING_FAILED;
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPrivateKey::from_stream(&s);
     return xprvLen;
 }
@@ -590,6 +595,9 @@ size_t HDPublicKey::from_stream(ParseStream *s){
     }
     if(status == PARSING_DONE){
         bytes_parsed = 0;
+        // nothing is left of the previous key if parsing fails
+        memzero(point, 64);
+        compressed = true;
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
@@ -661,26 +669,29 @@ size_t HDPublicKey::from_stream(ParseStream *s){
     }
     // uncompressing the pubkey
     if(bytes_parsed+bytes_read == 78){
-        status = PARSING_DONE;
-        uint8_t arr[33];
-        memcpy(arr, point, 33);
-        uint8_t buf[65];
-        ecdsa_uncompress_pubkey(&secp256k1, arr, buf);
-        memcpy(point, buf+1, 64);
-        if(!isValid()){
+        ECPoint p;
+        p.fromSec(point, 33);
+        if(p.isValid()){
+            status = PARSING_DONE;
+            memcpy(point, p.point, 64);
+        }else{
             status = PARSING_FAILED;
+            memzero(point, 64);
         }
     }
     bytes_parsed += bytes_read;
     return bytes_read;
 }
 size_t HDPublicKey::from_str(const char * xpubArr, size_t xpubLen){
+    reset();
+    memzero(point, 64);
     uint8_t arr[85] = { 0 };
     size_t l = fromBase58Check(xpubArr, xpubLen, arr, sizeof(arr));
-    if(l == 0){
+    if(l != 78){
+        status = PARSING_FAILED;
         return 0; // decoding error
     }
-    ParseByteStream s(arr, sizeof(arr));
+    ParseByteStream s(arr, l);
     HDPublicKey::from_stream(&s);
     return xpubLen;
 }
@@ -729,11 +740,7 @@ HDPublicKey &HDPublicKey::operator=(const HDPublicKey &other){
     memcpy(parentFingerprint, other.parentFingerprint, 4);
     return *this;
 };*/
-HDPublicKey::HDPublicKey(const char * xpubArr){
-    reset();
-    memzero(prefix, 4);
-    childNumber = 0;
-    network = &DEFAULT_NETWORK;
+HDPublicKey::HDPublicKey(const char * xpubArr):HDPublicKey(){
     from_str(xpubArr, strlen(xpubArr));
 }
 HDPublicKey::~HDPublicKey(void) {
-- 
2.43.0


From 46a3b4ac4712797c946aea3af79672d04bcf5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:27 +0000
Subject: [PATCH 20/56] fix: parsing of bech32 addresses (regtest, wrong
 scripts, overlong strings)

---
 src/Script.cpp            | 9 +++++++--
 src/utility/segwit_addr.c | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4fb5eb5..1a85864 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -147,7 +147,9 @@ void Script::fromAddress(const char * address){
     ScriptType type = UNKNOWN_TYPE;
     const Network * network;
     for(int i=0; i<networks_len; i++){
-        if(memcmp(address, networks[i]->bech32, strlen(networks[i]->bech32))==0){
+        // the prefix ends with the separator: "bcrt1..." is not an address of "bc"
+        size_t l = strlen(networks[i]->bech32);
+        if(strncmp(address, networks[i]->bech32, l)==0 && address[l] == '1'){
             type = P2WPKH;
             network = networks[i];
             break;
@@ -156,12 +158,15 @@ void Script::fromAddress(const char * address){
     // segwit
     if(type == P2WPKH){
         int ver = 0;
-        uint8_t prog[32];
+        uint8_t prog[40];
         size_t prog_len = 0;
         int r = segwit_addr_decode(&ver, prog, &prog_len, network->bech32, address);
         if(r != 1){ // decoding failed
             return;
         }
+        if(ver != 0){ // versions from 1 use bech32m, which is not supported
+            return;
+        }
         scriptLen = prog_len + 2;
         scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
         if(scriptArray == NULL){ scriptLen = 0; return; }
diff --git a/src/utility/segwit_addr.c b/src/utility/segwit_addr.c
index 337968f..62b72e4 100755
--- a/src/utility/segwit_addr.c
+++ b/src/utility/segwit_addr.c
@@ -178,6 +178,7 @@ int segwit_addr_decode(int* witver, uint8_t* witdata, size_t* witdata_len, const
     uint8_t data[84];
     char hrp_actual[84];
     size_t data_len;
+    if (strlen(addr) > 90) return 0; // longest possible address, fits in the buffers
     if (!bech32_decode(hrp_actual, data, &data_len, addr)) return 0;
     if (data_len == 0 || data_len > 65) return 0;
     if (strncmp(hrp, hrp_actual, 84) != 0) return 0;
-- 
2.43.0


From 4f9580567a4d63f983b037c4af36010b5319a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:29 +0000
Subject: [PATCH 21/56] fix: script of a public key for nested segwit was empty

---
 src/Script.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Script.cpp b/src/Script.cpp
index 1a85864..c612f19 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -237,6 +237,9 @@ Script::Script(const PublicKey pubkey, ScriptType type){
         int l = pubkey.sec(sec_arr, sizeof(sec_arr));
         hash160(sec_arr, l, scriptArray+2);
     }
+    if(type == P2SH_P2WPKH){
+        *this = sh(wpkh(pubkey));
+    }
 }
 Script::Script(const Script &other, ScriptType type){
     init();
-- 
2.43.0


From 767aeeae39b8e829ea5fe7893e57bd1b25ae7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:31 +0000
Subject: [PATCH 22/56] fix: segwitAddress returned 76 instead of the length of
 the address

---
 src/Bitcoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index 1f3750e..dc0e999 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -415,7 +415,7 @@ int PublicKey::segwitAddress(char address[], size_t len, const Network * network
     int l = sec(sec_arr, sizeof(sec_arr));
     hash160(sec_arr, l, hash);
     segwit_addr_encode(address, network->bech32, 0, hash, 20);
-    return 76;
+    return strlen(address);
 }
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String PublicKey::segwitAddress(const Network * network) const{
-- 
2.43.0


From 9fa9c8220b06fb2de4c2d491ed37c4c99b9d8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:14 +0000
Subject: [PATCH 23/56] fix: sortedmulti did not sort the keys

---
 src/Script.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index c612f19..63124af 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -104,8 +104,15 @@ static void quickSort(PublicKey array[], int low, int high) {
 
 Script sortedmulti(uint8_t threshold, const PublicKey * pubkeys, uint8_t pubkeys_len){
     // sort first
-    PublicKey * sortedkeys = (PublicKey *) pubkeys;
-    // TODO: the most
+    PublicKey sortedkeys[16];
+    if(pubkeys_len > 16){
+        // returning empty script
+        return Script();
+    }
+    for(int i=0; i<pubkeys_len; i++){
+        sortedkeys[i] = pubkeys[i];
+    }
+    quickSort(sortedkeys, 0, pubkeys_len-1);
     return multi(threshold, sortedkeys, pubkeys_len);
 }
 
-- 
2.43.0


From 3ad50d7d01cdca8c679273399d9c69e0ddbf1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:16 +0000
Subject: [PATCH 24/56] fix: pushes of long scripts and beyond the script size
 limit

---
 src/Script.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 63124af..4145212 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -451,10 +451,13 @@ size_t Script::push(uint8_t code){
     return scriptLen;
 }
 size_t Script::push(const uint8_t * data, size_t len){
-    if(scriptLen+len > MAX_SCRIPT_SIZE){
+    if(len > MAX_SCRIPT_SIZE || scriptLen+len > MAX_SCRIPT_SIZE){
         clear();
         return 0;
     }
+    if(len == 0){
+        return scriptLen;
+    }
     if(scriptLen == 0){
         scriptArray = (uint8_t *) calloc( len, sizeof(uint8_t));
     }else{
@@ -470,25 +473,39 @@ size_t Script::push(const uint8_t * data, size_t len){
 size_t Script::push(const PublicKey pubkey){
     uint8_t sec[65];
     uint8_t len = pubkey.sec(sec, sizeof(sec));
-    push(len);
+    if(push(len) == 0){ return 0; } // too long, script is empty
     push(sec, len);
     return scriptLen;
 }
 size_t Script::push(const Signature sig, SigHashType sigType){
     uint8_t der[75];
     uint8_t len = sig.der(der, sizeof(der));
-    push(len+1);
-    push(der, len);
+    if(push(len+1) == 0 || push(der, len) == 0){ return 0; } // too long, script is empty
     push(sigType);
     return scriptLen;
 }
 size_t Script::push(const Script sc){
-    size_t len = sc.length();
-    uint8_t * tmp;
-    tmp = (uint8_t *)calloc(len, sizeof(uint8_t));
-    if(tmp == NULL){ return 0; }
-    sc.serialize(tmp, len);
-    push(tmp, len);
+    size_t len = sc.scriptLen;
+    uint8_t prefix[3];
+    size_t prefix_len = 1;
+    if(len < OP_PUSHDATA1){
+        prefix[0] = len;
+    }else if(len <= 0xff){
+        prefix[0] = OP_PUSHDATA1;
+        prefix[1] = len;
+        prefix_len = 2;
+    }else{
+        prefix[0] = OP_PUSHDATA2;
+        prefix[1] = len & 0xff;
+        prefix[2] = (len >> 8) & 0xff;
+        prefix_len = 3;
+    }
+    if(len > MAX_SCRIPT_SIZE){
+        clear();
+        return 0;
+    }
+    if(push(prefix, prefix_len) == 0){ return 0; } // too long, script is empty
+    push(sc.scriptArray, len);
     return scriptLen;
 }
 Script Script::scriptPubkey(ScriptType type) const{
-- 
2.43.0


From fdbc149669b03aad1e7ac422685e788af47861ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 25/56] fix: clearing a witness left a dangling pointer that
 was freed again

---
 src/Script.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/Script.cpp b/src/Script.cpp
index 4145212..9b57f54 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -269,12 +269,10 @@ Script::Script(const Script &other, ScriptType type){
     }
 }
 void Script::clear(){
-    if(scriptLen > 0 && scriptArray != NULL){
-        free(scriptArray);
-        scriptArray = NULL;
-        scriptLen = 0;
-        lenLen = 0;
-    }
+    free(scriptArray);
+    scriptArray = NULL;
+    scriptLen = 0;
+    lenLen = 0;
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -538,10 +536,9 @@ Script::Script(const Script &other){
 
 void Witness::clear(){
     numElements = 0;
-    if(witnessLen > 0){
-        free(witnessArray);
-        witnessLen = 0;
-    }
+    witnessLen = 0;
+    free(witnessArray);
+    witnessArray = NULL;
 }
 void Witness::init(){
     numElements = 0;
@@ -690,7 +687,7 @@ size_t Witness::push(const uint8_t * data, size_t len){
         if(witnessArray == NULL){ witnessLen = 0; return 0; }
     }else{
         uint8_t * ptr = (uint8_t *) realloc( witnessArray, (witnessLen + len + lenVarInt(len)) * sizeof(uint8_t));
-        if(ptr == NULL){ free(witnessArray); witnessLen = 0; return 0; }
+        if(ptr == NULL){ clear(); return 0; }
         witnessArray = ptr;
     }
     writeVarInt(len, witnessArray+witnessLen, lenVarInt(len));
@@ -735,12 +732,13 @@ Witness::Witness(const Witness &other){
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
+    reset();
     clear();
     numElements = other.numElements;
     if(other.witnessLen > 0){
         witnessLen = other.witnessLen;
         witnessArray = (uint8_t *) calloc( witnessLen, sizeof(uint8_t));
-        if(witnessArray == NULL){ witnessLen = 0; return *this;}
+        if(witnessArray == NULL){ witnessLen = 0; numElements = 0; return *this;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
     return *this;
-- 
2.43.0


From 9118536970e9044904eafe0f5a44ca28c2535dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:55 +0000
Subject: [PATCH 26/56] fix: wtxid of transactions without witnesses

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 39d74b9..df9fe3c 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -540,6 +540,9 @@ int Tx::hash(uint8_t * h) const{
     return 32;
 }
 int Tx::whash(uint8_t * h) const{
+    if(!isSegwit()){ // without witnesses both hashes are the same (BIP-141)
+        return hash(h);
+    }
     DoubleSha s;
     s.begin();
 
-- 
2.43.0


From 257abc23405a0f4eb932b6064d224a8f882e2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:14 +0000
Subject: [PATCH 27/56] fix: chunked parsing of scripts and scripts with long
 or malformed lengths

---
 src/Bitcoin.h  |  1 +
 src/Script.cpp | 35 ++++++++++++++++++-----------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index b522948..373ee19 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -478,6 +478,7 @@ protected:
     virtual size_t from_stream(ParseStream *s);
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     uint8_t lenLen; // for parsing only, length of the varint
+    uint64_t parsedLen; // for parsing only, value of the varint
     void fromAddress(const char * address);
     void init();
 public:
diff --git a/src/Script.cpp b/src/Script.cpp
index 9b57f54..b6d45f6 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -136,6 +136,7 @@ void Script::init(){
     scriptLen = 0;
     scriptArray = NULL;
     lenLen = 0;
+    parsedLen = 0;
 }
 Script::Script(void){
     init();
@@ -289,38 +290,38 @@ size_t Script::from_stream(ParseStream *s){
         lenLen = s->read();
         bytes_read++;
         if(lenLen < 0xfd){
-            scriptLen = lenLen;
-            if(scriptLen > 0){
-                scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-            }
+            parsedLen = lenLen;
             lenLen = 1;
         }else{
-            scriptLen = 0;
+            parsedLen = 0;
             lenLen = 1+(1 << (lenLen - 0xfc));
-            scriptArray = (uint8_t *) calloc( 255, sizeof(uint8_t));
         }
-        if(scriptArray == NULL && scriptLen > 0){ status = PARSING_FAILED; scriptLen = 0; return 0; }
     }
     while(s->available() > 0 && bytes_parsed+bytes_read < lenLen){
-        scriptLen += (s->read() << (8*(bytes_parsed+bytes_read-1)));
+        parsedLen += (((uint64_t)s->read()) << (8*(bytes_parsed+bytes_read-1)));
         bytes_read++;
     }
-    if(bytes_parsed+bytes_read == lenLen && scriptLen > 0){
+    // length is known as soon as the last byte of the varint is read
+    if(bytes_read > 0 && bytes_parsed < lenLen && bytes_parsed+bytes_read == lenLen){
+        scriptLen = parsedLen;
         free(scriptArray);
-        scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
-        if(scriptArray == NULL){ status = PARSING_FAILED; scriptLen = 0; return 0; }
-    }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(scriptLen) != lenLen){
-        status = PARSING_FAILED;
-        bytes_parsed+=bytes_read;
-        return bytes_read;
+        scriptArray = NULL;
+        if(scriptLen > 0){
+            scriptArray = (uint8_t *) calloc( scriptLen, sizeof(uint8_t));
+        }
+        if(lenVarInt(parsedLen) != lenLen || scriptLen != parsedLen || (scriptArray == NULL && scriptLen > 0)){
+            clear();
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
     }
     // reading the script
     while(s->available() > 0 && bytes_parsed+bytes_read < scriptLen+lenLen){
         scriptArray[bytes_parsed+bytes_read-lenLen] = s->read();
         bytes_read++;
     }
-    if(bytes_parsed+bytes_read == scriptLen+lenLen){
+    if(lenLen > 0 && bytes_parsed+bytes_read == scriptLen+lenLen){
         status = PARSING_DONE;
     }
     bytes_parsed += bytes_read;
-- 
2.43.0


From 90d794e46c86bfd8c316c636d9ae5818e399a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:37 +0000
Subject: [PATCH 28/56] fix: chunked parsing of witnesses and witnesses with
 long or malformed lengths

---
 src/Bitcoin.h  |  2 +-
 src/Script.cpp | 61 +++++++++++++++++++++-----------------------------
 2 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index 373ee19..bf034e1 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -558,7 +558,7 @@ class Witness : public Streamable{
     uint32_t numElements;
     // used for parsing only:
     uint32_t cur_element; // index of current element
-    size_t cur_element_len; // length of current element
+    uint64_t cur_element_len; // length of current element
     size_t cur_bytes_parsed; // number of bytes read from current element
     uint8_t curLen; // for parsing only, length of the varint
     uint8_t lenLen; // for parsing, length of the varint
diff --git a/src/Script.cpp b/src/Script.cpp
index b6d45f6..e162bdc 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -274,6 +274,7 @@ void Script::clear(){
     scriptArray = NULL;
     scriptLen = 0;
     lenLen = 0;
+    reset();
 }
 size_t Script::from_stream(ParseStream *s){
     if(status == PARSING_FAILED){
@@ -540,6 +541,7 @@ void Witness::clear(){
     witnessLen = 0;
     free(witnessArray);
     witnessArray = NULL;
+    reset();
 }
 void Witness::init(){
     numElements = 0;
@@ -591,15 +593,8 @@ size_t Witness::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    if(bytes_parsed+bytes_read == lenLen && lenVarInt(numElements) != lenLen){
-        status = PARSING_FAILED;
-        bytes_parsed+=bytes_read;
-        return bytes_read;
-    }
     // reading elements
     while(s->available() && cur_element<numElements){
-        // beginning of the element
-        size_t offset = bytes_parsed+bytes_read-lenVarInt(numElements)-cur_bytes_parsed;
         size_t cur_bytes_read = 0;
         // reading scriptLen varint
         if(s->available() && cur_bytes_parsed == 0){ 
@@ -614,46 +609,42 @@ size_t Witness::from_stream(ParseStream *s){
             }
         }
         while(s->available() && cur_bytes_parsed+cur_bytes_read < curLen){
-            cur_element_len += (s->read() << (8*(cur_bytes_parsed+cur_bytes_read-1)));
+            cur_element_len += (((uint64_t)s->read()) << (8*(cur_bytes_parsed+cur_bytes_read-1)));
             cur_bytes_read++;
         }
-        if(lenVarInt(cur_element_len) != curLen && cur_bytes_parsed+cur_bytes_read == curLen){
-            status = PARSING_FAILED;
-            cur_bytes_parsed+=cur_bytes_read;
-            bytes_read+=cur_bytes_read;
-            bytes_parsed+=bytes_read;
-            return bytes_read;
-        }
-        if(cur_bytes_parsed+cur_bytes_read == curLen && cur_bytes_read>0){
-            if(witnessLen==0){
-                witnessLen = cur_element_len+lenVarInt(cur_element_len);
-                witnessArray = (uint8_t *)calloc(witnessLen, sizeof(uint8_t));
-                if(witnessArray == NULL){ witnessLen = 0; status=PARSING_FAILED; return 0;}
-                writeVarInt(cur_element_len, witnessArray, lenVarInt(cur_element_len));
-            }else{
-                uint8_t * ptr = (uint8_t *)realloc( witnessArray, (witnessLen + cur_element_len + lenVarInt(cur_element_len)) * sizeof(uint8_t));
-                if(ptr == NULL){ free(witnessArray); witnessLen = 0; status=PARSING_FAILED; return 0;}
-                witnessArray = ptr;
-                witnessLen += cur_element_len+lenVarInt(cur_element_len);
-                writeVarInt(cur_element_len, witnessArray+offset, lenVarInt(cur_element_len));
+        // length is known as soon as the last byte of the varint is read
+        if(cur_bytes_parsed < curLen && cur_bytes_parsed+cur_bytes_read == curLen){
+            uint8_t * ptr = NULL;
+            size_t len = witnessLen + curLen + cur_element_len;
+            if(lenVarInt(cur_element_len) == curLen && len > cur_element_len){
+                ptr = (uint8_t *)realloc(witnessArray, len * sizeof(uint8_t));
+            }
+            if(ptr == NULL){
+                clear();
+                status = PARSING_FAILED;
+                bytes_read+=cur_bytes_read;
+                bytes_parsed+=bytes_read;
+                return bytes_read;
             }
+            witnessArray = ptr;
+            memset(witnessArray+witnessLen, 0, len-witnessLen);
+            writeVarInt(cur_element_len, witnessArray+witnessLen, curLen);
+            witnessLen = len;
         }
-        while(s->available() > 0 && cur_bytes_parsed+cur_bytes_read < cur_element_len+lenVarInt(cur_element_len)){
-            witnessArray[offset+cur_bytes_parsed+cur_bytes_read] = s->read();
-            // s->read();
+        while(s->available() > 0 && cur_bytes_parsed+cur_bytes_read < cur_element_len+curLen){
+            witnessArray[witnessLen-cur_element_len-curLen+cur_bytes_parsed+cur_bytes_read] = s->read();
             cur_bytes_read++;
         }
-        if(cur_bytes_parsed+cur_bytes_read==cur_element_len+lenVarInt(cur_element_len)){
+        cur_bytes_parsed += cur_bytes_read;
+        bytes_read += cur_bytes_read;
+        if(cur_bytes_parsed >= curLen && cur_bytes_parsed == cur_element_len+curLen){
             curLen = 0;
             cur_element_len = 0;
             cur_element++;
             cur_bytes_parsed=0;
-        }else{
-            cur_bytes_parsed += cur_bytes_read;
         }
-        bytes_read += cur_bytes_read;
     }
-    if(cur_element==numElements){
+    if(bytes_parsed+bytes_read > 0 && cur_element==numElements){
         status = PARSING_DONE;
     }
     bytes_parsed += bytes_read;
-- 
2.43.0


From 5cddbbc26bb0e9268ab153c6bb05b05d4b44afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:28 +0000
Subject: [PATCH 29/56] fix: string serialization from an offset beyond the end
 crashed

---
 src/BaseClasses.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BaseClasses.cpp b/src/BaseClasses.cpp
index a6f81fa..46245ca 100644
--- a/src/BaseClasses.cpp
+++ b/src/BaseClasses.cpp
@@ -166,10 +166,14 @@ String Readable::toString() const{
 
 #if USE_ARDUINO_STRING || USE_STD_STRING
 String Streamable::serialize(size_t offset, size_t len) const{
+    if(offset > length()){ // nothing left to serialize
+        return String("");
+    }
     if(len == 0){
         len = (length()-offset);
     }
     char * arr = (char *)calloc(2*len+1, sizeof(char));
+    if(arr == NULL){ return String(""); }
     serialize(arr, 2*len, offset, HEX_ENCODING);
     String s = arr;
     free(arr);
-- 
2.43.0


From 2f26be94a24824deb5d195ab2f07e4d92e81f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:25 +0000
Subject: [PATCH 30/56] fix: PSBTs with more than 254 inputs and outputs

---
 src/PSBT.cpp | 16 ++++++++--------
 src/PSBT.h   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index a262a08..ca0afe2 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -198,7 +198,7 @@ size_t PSBT::from_stream(ParseStream *s){
         }
         last_key_pos += key.length()+value.length();
     }
-    uint8_t sections_number = 0;
+    size_t sections_number = 0;
     if(last_key_pos > 5){ // tx is already parsed
         sections_number = 1+tx.inputsNumber+tx.outputsNumber;
     }
@@ -248,7 +248,7 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
-int PSBT::add(uint8_t section, const Script * k, const Script * v){
+int PSBT::add(size_t section, const Script * k, const Script * v){
     if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
     }
@@ -262,7 +262,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
-        uint8_t input = section-1;
+        size_t input = section-1;
         switch(key_code){
             case 0: { // PSBT_IN_NON_WITNESS_UTXO
                 // we need to verify that tx hashes to prevtx_hash
@@ -402,7 +402,7 @@ int PSBT::add(uint8_t section, const Script * k, const Script * v){
             }
         }
     }else{ // output section
-        uint8_t output = section-1-tx.inputsNumber;
+        size_t output = section-1-tx.inputsNumber;
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
@@ -481,11 +481,11 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
         bytes_written += s->serialize(&tx, offset+bytes_written-cur);
     }
     cur+=tx.length();
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
-    uint8_t section = 0;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t section = 0;
     while(s->available() && section < sections_number){
         if(section > 0 && section < tx.inputsNumber+1){
-            uint8_t input = section-1;
+            size_t input = section-1;
             for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
                 uint8_t key_arr[67];
                 key_arr[1] = 0x02; // PSBT_IN_PARTIAL_SIG
@@ -516,7 +516,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
 }
 
 size_t PSBT::length() const{
-    uint8_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
+    size_t sections_number = 1 + tx.inputsNumber + tx.outputsNumber;
     size_t len = 7 + lenVarInt(tx.length()) + tx.length() + sections_number;
     for(size_t input=0; input<tx.inputsNumber; input++){
         for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
diff --git a/src/PSBT.h b/src/PSBT.h
index 60073a2..e89cd64 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -72,7 +72,7 @@ protected:
     virtual size_t to_stream(SerializeStream *s, size_t offset = 0) const;
     Script key; // key for parsing
     Script value; // value for parsing
-    uint8_t current_section;
+    size_t current_section;
     size_t last_key_pos;
 public:
     virtual size_t length() const;
@@ -84,7 +84,7 @@ public:
     PSBTOutputMetadata * txOutsMeta;
 
     /** \brief adds key-value pair to section */
-    int add(uint8_t section, const Script * k, const Script * v);
+    int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
     uint8_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
-- 
2.43.0


From 8e6720bb82878db0a4ed525f4cf5889aeadb615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 31/56] fix: sighash byte of partial signatures was replaced in
 serialized PSBTs

---
 src/PSBT.cpp | 6 ++++--
 src/PSBT.h   | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index ca0afe2..00b0a96 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -316,10 +316,12 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 psig.signature.parse(val_arr+1, v->length()-1);
-                if(psig.signature.getStatus() != PARSING_DONE){
+                // the value is the signature followed by one byte of sighash type
+                if(psig.signature.getStatus() != PARSING_DONE || v->length() != psig.signature.length()+2){
                     res = -2;
                     break;
                 }
+                psig.sigHash = val_arr[v->length()-1];
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
@@ -499,7 +501,7 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 uint8_t val_arr[100];
                 uint8_t val_len = 1+txInsMeta[input].signatures[i].signature.serialize(val_arr+1, 98);
                 val_arr[0] = val_len;
-                val_arr[val_len] = SIGHASH_ALL;
+                val_arr[val_len] = txInsMeta[input].signatures[i].sigHash;
                 while(s->available() && bytes_written+offset-cur < (size_t)val_len+1){
                     s->write(val_arr[bytes_written+offset-cur]);
                     bytes_written++;
diff --git a/src/PSBT.h b/src/PSBT.h
index e89cd64..5f72aab 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -24,6 +24,8 @@ typedef struct{
     PublicKey pubkey;
     /** \brief Signature we generated */
     Signature signature;
+    /** \brief Sighash type of the signature */
+    uint8_t sigHash;
 } PSBTPartialSignature;
 
 /** \brief Data required for input signing */
-- 
2.43.0


From 119165a47f1594de48f70002ac4ba0024e13300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:21 +0000
Subject: [PATCH 32/56] fix: signing a PSBT twice added the same signatures
 again

---
 src/PSBT.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 00b0a96..be05c27 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -322,6 +322,16 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 psig.sigHash = val_arr[v->length()-1];
+                // a new signature of the same key replaces the previous one
+                for(size_t i=0; i<txInsMeta[input].signaturesLen; i++){
+                    if(txInsMeta[input].signatures[i].pubkey == psig.pubkey && txInsMeta[input].signatures[i].pubkey.compressed == psig.pubkey.compressed){
+                        txInsMeta[input].signatures[i] = psig;
+                        res = 1;
+                    }
+                }
+                if(res == 1){
+                    break;
+                }
                 if(txInsMeta[input].signaturesLen == 0){
                     txInsMeta[input].signaturesLen = 1;
                     txInsMeta[input].signatures = new PSBTPartialSignature[txInsMeta[input].signaturesLen];
-- 
2.43.0


From c3204a1aaab38a397d1fba94871f23444a3a2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:58 +0000
Subject: [PATCH 33/56] fix: PSBT values of 252 and 65533 to 65535 bytes were
 misread

---
 src/PSBT.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index be05c27..f501661 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -177,7 +177,7 @@ size_t PSBT::from_stream(ParseStream *s){
         arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
         if(arr == NULL){ status = PARSING_FAILED; return 0; }
         value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.length());
+        size_t l = lenVarInt(value.scriptLen);
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
@@ -258,7 +258,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
     uint8_t * val_arr = (uint8_t *)calloc(v->length(), sizeof(uint8_t));
     if(val_arr == NULL){ free(key_arr); return 0; }
     v->serialize(val_arr, v->length());
-    uint8_t key_code = key_arr[lenVarInt(k->length())];
+    uint8_t key_code = key_arr[lenVarInt(k->scriptLen)];
     int res = 0;
 
     if(section < 1+tx.inputsNumber){ // input section
@@ -272,7 +272,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     break;
                 }
                 Tx tempTx;
-                tempTx.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                tempTx.parse(val_arr+lenVarInt(v->scriptLen), v->length()-lenVarInt(v->scriptLen));
                 if(tempTx.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -296,7 +296,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->length()), v->length()-lenVarInt(v->length()));
+                txInsMeta[input].txOut.parse(val_arr+lenVarInt(v->scriptLen), v->length()-lenVarInt(v->scriptLen));
                 if(txInsMeta[input].txOut.getStatus() != PARSING_DONE){
                     res = -2;
                     break;
@@ -394,12 +394,12 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
+                der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
                 }
                 res = 1;
                 break;
@@ -456,12 +456,12 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                     res = -1;
                     break;
                 }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->length()), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->length())-4)/sizeof(uint32_t);
+                memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
+                der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
                 der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
                 if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
                 for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->length())+4*(i+1),4);
+                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
                 }
                 res = 1;
                 break;
-- 
2.43.0


From 282ead1875bf3172ea0236befc0beee2d0956cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:40 +0000
Subject: [PATCH 34/56] fix: signing a PSBT read past the end of shorter
 derivation paths

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index f501661..3513ce8 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -638,7 +638,7 @@ uint8_t PSBT::sign(const HDPrivateKey root){
                     }
                     PrivateKey pk;
                     // checking if cached key is ok
-                    if(memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
+                    if(txInsMeta[i].derivations[j].derivationLen >= first_derivation_len && memcmp(first_derivation, txInsMeta[i].derivations[j].derivation, first_derivation_len*sizeof(uint32_t))==0){
                         pk = account.derive(txInsMeta[i].derivations[j].derivation+first_derivation_len, txInsMeta[i].derivations[j].derivationLen - first_derivation_len);
                     }else{
                         pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
-- 
2.43.0


From 3238c0aea58be538e443c3feebc754e6b0d5fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:49 +0000
Subject: [PATCH 35/56] fix: PSBT derivations, copies and re-parsing used
 uninitialised or freed memory

---
 src/PSBT.cpp | 300 ++++++++++++++++-----------------------------------
 src/PSBT.h   |   1 +
 2 files changed, 96 insertions(+), 205 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 3513ce8..01c3b3a 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -90,37 +90,10 @@ size_t PSBT::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        // free memory
-        if(tx.inputsNumber > 0){
-            for(size_t i=0; i<tx.inputsNumber; i++){
-                if(txInsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                        if(txInsMeta[i].derivations[j].derivationLen > 0){
-                            free(txInsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txInsMeta[i].derivations;
-                }
-                if(txInsMeta[i].signaturesLen > 0){
-                    delete [] txInsMeta[i].signatures;
-                }
-            }
-            delete [] txInsMeta;
-        }
-        if(tx.outputsNumber > 0){
-            for(size_t i=0; i<tx.outputsNumber; i++){
-                if(txOutsMeta[i].derivationsLen > 0){
-                    for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                        if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                            free(txOutsMeta[i].derivations[j].derivation);
-                        }
-                    }
-                    delete [] txOutsMeta[i].derivations;
-                }
-            }
-            delete [] txOutsMeta;
-        }
-        tx.reset();
+        clear();
+        tx = Tx();
+        key = Script();
+        value = Script();
         bytes_parsed = 0;
         current_section = 0;
         last_key_pos = 5;
@@ -181,6 +154,7 @@ size_t PSBT::from_stream(ParseStream *s){
         tx.parse(arr+l, value.length()-l);
         if(tx.getStatus() != PARSING_DONE){
             status = PARSING_FAILED;
+            tx = Tx(); // there is no metadata for it
         }
         free(arr);
         if(status == PARSING_FAILED){
@@ -189,11 +163,14 @@ size_t PSBT::from_stream(ParseStream *s){
         }
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i].derivations = NULL;
             txInsMeta[i].derivationsLen = 0;
+            txInsMeta[i].signatures = NULL;
             txInsMeta[i].signaturesLen = 0;
         }
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
+            txOutsMeta[i].derivations = NULL;
             txOutsMeta[i].derivationsLen = 0;
         }
         last_key_pos += key.length()+value.length();
@@ -248,6 +225,39 @@ size_t PSBT::from_stream(ParseStream *s){
     return bytes_read;
 }
 
+/** adds bip32 derivation `<type><pubkey>: <fingerprint><index>...` to the array */
+static int addDerivation(PSBTDerivation ** derivations, uint8_t * derivationsLen, const Script * k, const Script * v){
+    PSBTDerivation der;
+    if(k->scriptLen != 34 && k->scriptLen != 66){
+        return -1;
+    }
+    if(der.pubkey.parse(k->scriptArray+1, k->scriptLen-1) != k->scriptLen-1 || der.pubkey.getStatus() != PARSING_DONE){
+        return -1;
+    }
+    // fingerprint and indexes, 4 bytes each
+    if(v->scriptLen < 4 || v->scriptLen % 4 != 0 || v->scriptLen/4-1 > 0xff || *derivationsLen == 0xff){
+        return -1;
+    }
+    memcpy(der.fingerprint, v->scriptArray, 4);
+    der.derivationLen = v->scriptLen/4-1;
+    der.derivation = (uint32_t *)calloc(der.derivationLen, sizeof(uint32_t));
+    if(der.derivation == NULL && der.derivationLen > 0){
+        return -1;
+    }
+    for(size_t i=0; i<der.derivationLen; i++){
+        der.derivation[i] = littleEndianToInt(v->scriptArray+4*(i+1), 4);
+    }
+    PSBTDerivation * arr = new PSBTDerivation[*derivationsLen+1];
+    for(size_t i=0; i<*derivationsLen; i++){
+        arr[i] = (*derivations)[i];
+    }
+    arr[*derivationsLen] = der;
+    delete [] *derivations;
+    *derivations = arr;
+    (*derivationsLen)++;
+    return 1;
+}
+
 int PSBT::add(size_t section, const Script * k, const Script * v){
     if(section == 0 || section > 1+tx.inputsNumber+tx.outputsNumber){
         return 0;
@@ -371,37 +381,7 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
                 break;
             }
             case 6: { // PSBT_IN_BIP32_DERIVATION
-                // TODO: move to function
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
-                if(txInsMeta[input].derivationsLen == 0){
-                    txInsMeta[input].derivationsLen = 1;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txInsMeta[input].derivations;
-                    txInsMeta[input].derivations = new PSBTDerivation[txInsMeta[input].derivationsLen+1];
-                    for(size_t i=0; i<txInsMeta[input].derivationsLen; i++){
-                        txInsMeta[input].derivations[i] = p[i];
-                    }
-                    txInsMeta[input].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txInsMeta[input].derivations[txInsMeta[input].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txInsMeta[input].derivations, &txInsMeta[input].derivationsLen, k, v);
                 break;
             }
             case 7: { // PSBT_IN_FINAL_SCRIPTSIG
@@ -418,7 +398,8 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
         switch(key_code){
             case 0: { // PSBT_OUT_REDEEM_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].redeemScript.parse(val_arr, v->length());
                 res = 1;
@@ -426,44 +407,15 @@ int PSBT::add(size_t section, const Script * k, const Script * v){
             }
             case 1: { // PSBT_OUT_WITNESS_SCRIPT
                 if(k->length() != 2){
-                    return -1;
+                    res = -1;
+                    break;
                 }
                 txOutsMeta[output].witnessScript.parse(val_arr, v->length());
                 res = 1;
                 break;
             }
             case 2: { // PSBT_OUT_BIP32_DERIVATION
-                // TODO: move to function
-                if(k->length() != 35 && k->length() != 67){
-                    res = -1;
-                    break;
-                }
-                if(txOutsMeta[output].derivationsLen == 0){
-                    txOutsMeta[output].derivationsLen = 1;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen];
-                }else{
-                    PSBTDerivation * p = txOutsMeta[output].derivations;
-                    txOutsMeta[output].derivations = new PSBTDerivation[txOutsMeta[output].derivationsLen+1];
-                    for(int i=0; i<txOutsMeta[output].derivationsLen; i++){
-                        txOutsMeta[output].derivations[i] = p[i];
-                    }
-                    txOutsMeta[output].derivationsLen++;
-                    delete [] p;
-                }
-                PSBTDerivation * der = &txOutsMeta[output].derivations[txOutsMeta[output].derivationsLen-1];
-                der->pubkey.parse(key_arr+2, k->length()-2);
-                if(der->pubkey.getStatus() != PARSING_DONE){
-                    res = -1;
-                    break;
-                }
-                memcpy(der->fingerprint, val_arr+lenVarInt(v->scriptLen), 4);
-                der->derivationLen = (v->length()-lenVarInt(v->scriptLen)-4)/sizeof(uint32_t);
-                der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
-                if(der->derivation == NULL){ der->derivationLen = 0; res = -1; break; }
-                for(size_t i=0; i<der->derivationLen; i++){
-                    der->derivation[i] = littleEndianToInt(val_arr+lenVarInt(v->scriptLen)+4*(i+1),4);
-                }
-                res = 1;
+                res = addDerivation(&txOutsMeta[output].derivations, &txOutsMeta[output].derivationsLen, k, v);
                 break;
             }
         }
@@ -539,75 +491,56 @@ size_t PSBT::length() const{
     return len;
 }
 
-PSBT::PSBT(PSBT const &other){
-    reset();
-    txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0;
-    tx = other.tx;
-    status = other.status;
-    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-    for(size_t i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-        txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-        for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-            txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-            txInsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txInsMeta[i].derivations[j].derivation == NULL){
-                txInsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
-        txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
-        for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
-            txInsMeta[i].signatures[j] = other.txInsMeta[i].signatures[j];
+static void copyDerivations(PSBTDerivation ** derivations, const PSBTDerivation * other, size_t len){
+    *derivations = NULL;
+    if(len == 0){
+        return;
+    }
+    *derivations = new PSBTDerivation[len];
+    for(size_t j=0; j<len; j++){
+        PSBTDerivation * der = &(*derivations)[j];
+        *der = other[j];
+        der->derivation = (uint32_t *)calloc(der->derivationLen, sizeof(uint32_t));
+        if(der->derivation == NULL){
+            der->derivationLen = 0;
+        }else{
+            memcpy(der->derivation, other[j].derivation, der->derivationLen*sizeof(uint32_t));
         }
     }
-    for(size_t i=0; i<tx.outputsNumber; i++){
-        txOutsMeta[i] = other.txOutsMeta[i];
-        txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-        for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-            txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-            txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-            if(txOutsMeta[i].derivations[j].derivation == NULL){
-                txOutsMeta[i].derivations[j].derivationLen = 0;
-            }else{
-                memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-            }
-        }
+}
+
+static void freeDerivations(PSBTDerivation * derivations, size_t len){
+    for(size_t j=0; j<len; j++){
+        free(derivations[j].derivation);
     }
+    delete [] derivations;
+}
+
+PSBT::PSBT(PSBT const &other){
+    txInsMeta = NULL;
+    txOutsMeta = NULL;
+    *this = other;
 }
 
 PSBT::~PSBT(){
-    // free memory
-    if(tx.inputsNumber > 0){
+    clear();
+}
+
+void PSBT::clear(){
+    if(txInsMeta != NULL){
         for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
+            freeDerivations(txInsMeta[i].derivations, txInsMeta[i].derivationsLen);
+            delete [] txInsMeta[i].signatures;
         }
         delete [] txInsMeta;
+        txInsMeta = NULL;
     }
-    if(tx.outputsNumber > 0){
+    if(txOutsMeta != NULL){
         for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
+            freeDerivations(txOutsMeta[i].derivations, txOutsMeta[i].derivationsLen);
         }
         delete [] txOutsMeta;
+        txOutsMeta = NULL;
     }
 }
 
@@ -751,55 +684,21 @@ bool PSBT::isMine(uint8_t outputNumber, const HDPrivateKey xprv) const{
 
 PSBT& PSBT::operator=(PSBT const &other){
     if (this == &other){ return *this; } // self-assignment
-    // free memory
-    if(tx.inputsNumber > 0){
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            if(txInsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    if(txInsMeta[i].derivations[j].derivationLen > 0){
-                        free(txInsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txInsMeta[i].derivations;
-            }
-            if(txInsMeta[i].signaturesLen > 0){
-                delete [] txInsMeta[i].signatures;
-            }
-        }
-        delete [] txInsMeta;
-    }
-    if(tx.outputsNumber > 0){
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            if(txOutsMeta[i].derivationsLen > 0){
-                for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                    if(txOutsMeta[i].derivations[j].derivationLen > 0){
-                        free(txOutsMeta[i].derivations[j].derivation);
-                    }
-                }
-                delete [] txOutsMeta[i].derivations;
-            }
-        }
-        delete [] txOutsMeta;
-    }
+    clear();
     // copy
     tx = other.tx;
+    key = other.key;
+    value = other.value;
     status = other.status;
-    if(tx.inputsNumber > 0){
+    bytes_parsed = other.bytes_parsed;
+    current_section = other.current_section;
+    last_key_pos = other.last_key_pos;
+    if(other.txInsMeta != NULL){
         txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
         for(size_t i=0; i<tx.inputsNumber; i++){
             txInsMeta[i] = other.txInsMeta[i];
-            if(txInsMeta[i].derivationsLen > 0){
-                txInsMeta[i].derivations = new PSBTDerivation[txInsMeta[i].derivationsLen];
-                for(size_t j=0; j<txInsMeta[i].derivationsLen; j++){
-                    txInsMeta[i].derivations[j] = other.txInsMeta[i].derivations[j];
-                    txInsMeta[i].derivations[j].derivation = (uint32_t*)calloc(txInsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                    if(txInsMeta[i].derivations[j].derivation == NULL){
-                        txInsMeta[i].derivations[j].derivationLen = 0;
-                    }else{
-                        memcpy(txInsMeta[i].derivations[j].derivation, other.txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                    }
-                }
-            }
+            copyDerivations(&txInsMeta[i].derivations, other.txInsMeta[i].derivations, txInsMeta[i].derivationsLen);
+            txInsMeta[i].signatures = NULL;
             if(txInsMeta[i].signaturesLen > 0){
                 txInsMeta[i].signatures = new PSBTPartialSignature[txInsMeta[i].signaturesLen];
                 for(size_t j=0; j<txInsMeta[i].signaturesLen; j++){
@@ -808,20 +707,11 @@ PSBT& PSBT::operator=(PSBT const &other){
             }
         }
     }
-    if(tx.outputsNumber > 0){
+    if(other.txOutsMeta != NULL){
         txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
         for(size_t i=0; i<tx.outputsNumber; i++){
             txOutsMeta[i] = other.txOutsMeta[i];
-            txOutsMeta[i].derivations = new PSBTDerivation[txOutsMeta[i].derivationsLen];
-            for(size_t j=0; j<txOutsMeta[i].derivationsLen; j++){
-                txOutsMeta[i].derivations[j] = other.txOutsMeta[i].derivations[j];
-                txOutsMeta[i].derivations[j].derivation = (uint32_t *)calloc(txOutsMeta[i].derivations[j].derivationLen, sizeof(uint32_t));
-                if(txOutsMeta[i].derivations[j].derivation == NULL){
-                    txOutsMeta[i].derivations[j].derivationLen = 0;
-                }else{
-                    memcpy(txOutsMeta[i].derivations[j].derivation, other.txOutsMeta[i].derivations[j].derivation, txOutsMeta[i].derivations[j].derivationLen*sizeof(uint32_t));
-                }
-            }
+            copyDerivations(&txOutsMeta[i].derivations, other.txOutsMeta[i].derivations, txOutsMeta[i].derivationsLen);
         }
     }
     return *this;
diff --git a/src/PSBT.h b/src/PSBT.h
index 5f72aab..e374a4e 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -76,6 +76,7 @@ protected:
     Script value; // value for parsing
     size_t current_section;
     size_t last_key_pos;
+    void clear(); // frees metadata
 public:
     virtual size_t length() const;
     PSBT(){ txInsMeta = NULL; txOutsMeta = NULL; status = PARSING_DONE; current_section = 0; last_key_pos = 0; };
-- 
2.43.0


From e764bff355f62a339c1749b38ef9ac183bcf9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:25 +0000
Subject: [PATCH 36/56] fix: chunked parsing and windowed serialization of
 PSBTs

---
 src/PSBT.cpp | 159 +++++++++++++++++++--------------------------------
 src/PSBT.h   |   1 +
 2 files changed, 61 insertions(+), 99 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 01c3b3a..8cd1203 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -111,120 +111,79 @@ size_t PSBT::from_stream(ParseStream *s){
             return bytes_read;
         }
     }
-    // global scope
-    if(bytes_read+bytes_parsed == last_key_pos){
-        bytes_read += s->parse(&key);
-        bytes_read += s->parse(&value);
-    }
-    while(s->available() && key.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&key);
-    }
-    if(key.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_KEY;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    while(s->available() && value.getStatus() == PARSING_INCOMPLETE){
-        bytes_read += s->parse(&value);
-    }
-    if(value.getStatus() == PARSING_FAILED){
-        status = PARSING_FAILED;
-        ubtc_errno = UBTC_ERR_PSBT_VALUE;
-        bytes_parsed += bytes_read;
-        return bytes_read;
-    }
-    if(last_key_pos == 5 && value.getStatus() == PARSING_DONE && key.getStatus() == PARSING_DONE){
-        uint8_t * arr = (uint8_t *)calloc(key.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        key.serialize(arr, key.length());
-        if(key.length() != 2 || arr[0] != 1 || arr[1] != 0){
-            status = PARSING_FAILED;
-            ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        arr = (uint8_t *)calloc(value.length(), sizeof(uint8_t));
-        if(arr == NULL){ status = PARSING_FAILED; return 0; }
-        value.serialize(arr, value.length());
-        size_t l = lenVarInt(value.scriptLen);
-        tx.parse(arr+l, value.length()-l);
-        if(tx.getStatus() != PARSING_DONE){
-            status = PARSING_FAILED;
-            tx = Tx(); // there is no metadata for it
-        }
-        free(arr);
-        if(status == PARSING_FAILED){
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
-        for(size_t i=0; i<tx.inputsNumber; i++){
-            txInsMeta[i].derivations = NULL;
-            txInsMeta[i].derivationsLen = 0;
-            txInsMeta[i].signatures = NULL;
-            txInsMeta[i].signaturesLen = 0;
-        }
-        txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
-        for(size_t i=0; i<tx.outputsNumber; i++){
-            txOutsMeta[i].derivations = NULL;
-            txOutsMeta[i].derivationsLen = 0;
-        }
-        last_key_pos += key.length()+value.length();
-    }
-    size_t sections_number = 0;
-    if(last_key_pos > 5){ // tx is already parsed
-        sections_number = 1+tx.inputsNumber+tx.outputsNumber;
-    }
-    // parsing keys and values
-    while(s->available() && current_section < sections_number){
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
+    // parsing keys and values, the transaction comes first
+    while(s->available()){
+        // position in the current key-value pair
+        size_t pos = bytes_parsed+bytes_read-last_key_pos;
+        if(pos == 0 || key.getStatus() == PARSING_INCOMPLETE){
             bytes_read += s->parse(&key);
-        }
-        if(key.getStatus() == PARSING_DONE){
-            if(key.length() == 1){ // delimiter
-                current_section ++;
+            if(key.getStatus() == PARSING_FAILED){
+                status = PARSING_FAILED;
+                ubtc_errno = UBTC_ERR_PSBT_KEY;
+                break;
+            }
+            if(key.getStatus() == PARSING_DONE && key.length() == 1){ // delimiter
+                if(last_key_pos == 5){ // there must be a transaction
+                    status = PARSING_FAILED;
+                    ubtc_errno = UBTC_ERR_PSBT_SCOPE;
+                    break;
+                }
                 last_key_pos += key.length();
-                continue;
-            }else{
-                bytes_read += s->parse(&value);
+                current_section ++;
+                if(current_section == 1+tx.inputsNumber+tx.outputsNumber){
+                    status = PARSING_DONE;
+                    key = Script();
+                    value = Script();
+                    break;
+                }
             }
+            continue;
         }
-        if(key.getStatus() == PARSING_FAILED || value.getStatus() == PARSING_FAILED){
+        bytes_read += s->parse(&value);
+        if(value.getStatus() == PARSING_FAILED){
             status = PARSING_FAILED;
-            ubtc_errno = (key.getStatus() == PARSING_FAILED) ? UBTC_ERR_PSBT_KEY : UBTC_ERR_PSBT_VALUE;
-            bytes_parsed += bytes_read;
-            return bytes_read;
-        }
-        if(key.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&key);
-        }
-        if(value.getStatus() == PARSING_INCOMPLETE){
-            bytes_read += s->parse(&value);
+            ubtc_errno = UBTC_ERR_PSBT_VALUE;
+            break;
         }
-        if(key.getStatus() == PARSING_DONE && value.getStatus() == PARSING_DONE){
-            int res = add(current_section, &key, &value);
+        if(value.getStatus() == PARSING_DONE){
+            int res = (last_key_pos == 5) ? addTx() : add(current_section, &key, &value);
             if(res < 0){
                 status = PARSING_FAILED;
                 ubtc_errno = UBTC_ERR_PSBT_SCOPE;
-                bytes_parsed += bytes_read;
-                return bytes_read;
+                break;
             }
             last_key_pos += key.length() + value.length();
         }
     }
-    if(current_section == sections_number && sections_number > 0){
-        status = PARSING_DONE;
-        key = Script();
-        value = Script();
-    }
     bytes_parsed += bytes_read;
     return bytes_read;
 }
 
+/** parses global transaction from the first key-value pair */
+int PSBT::addTx(){
+    if(key.scriptLen != 1 || key.scriptArray[0] != 0){
+        return -1;
+    }
+    tx.parse(value.scriptArray, value.scriptLen);
+    if(tx.getStatus() != PARSING_DONE){
+        tx = Tx(); // there is no metadata for it
+        return -1;
+    }
+    txInsMeta = new PSBTInputMetadata[tx.inputsNumber];
+    for(size_t i=0; i<tx.inputsNumber; i++){
+        txInsMeta[i].derivations = NULL;
+        txInsMeta[i].derivationsLen = 0;
+        txInsMeta[i].signatures = NULL;
+        txInsMeta[i].signaturesLen = 0;
+    }
+    txOutsMeta = new PSBTOutputMetadata[tx.outputsNumber];
+    for(size_t i=0; i<tx.outputsNumber; i++){
+        txOutsMeta[i].derivations = NULL;
+        txOutsMeta[i].derivationsLen = 0;
+    }
+    return 1;
+}
+
 /** adds bip32 derivation `<type><pubkey>: <fingerprint><index>...` to the array */
 static int addDerivation(PSBTDerivation ** derivations, uint8_t * derivationsLen, const Script * k, const Script * v){
     PSBTDerivation der;
@@ -471,8 +430,10 @@ size_t PSBT::to_stream(SerializeStream *s, size_t offset) const{
                 cur += val_len+1;
             }
         }
-        s->write(0);
-        bytes_written++;
+        if(s->available() && bytes_written+offset < cur+1){
+            s->write(0);
+            bytes_written++;
+        }
         section++;
         cur++;
     }
diff --git a/src/PSBT.h b/src/PSBT.h
index e374a4e..4eacc1a 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -76,6 +76,7 @@ protected:
     Script value; // value for parsing
     size_t current_section;
     size_t last_key_pos;
+    int addTx(); // parses global transaction
     void clear(); // frees metadata
 public:
     virtual size_t length() const;
-- 
2.43.0


From 37a46570e86f48afbf7f5b5650356d5e617c0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:39 +0000
Subject: [PATCH 37/56] fix: inputs constructed with a script used
 uninitialised memory for invalid ids

---
 src/Transaction.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index df9fe3c..e996607 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -35,6 +35,7 @@ TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, uint32_t sequence_num
     }
 }
 TxIn::TxIn(const uint8_t prev_id[32], uint32_t prev_index, const Script script, uint32_t sequence_number){
+    init();
     outputIndex = prev_index;
     sequence = sequence_number;
     for(int i=0; i<32; i++){
@@ -50,19 +51,20 @@ TxIn::TxIn(const char * prev_id, uint32_t prev_index, uint32_t sequence_number){
     }
     outputIndex = prev_index;
     sequence = sequence_number;
-    uint8_t arr[32];
+    uint8_t arr[32] = { 0 };
     fromHex(prev_id, 64, arr, 32);
     for(int i=0; i<32; i++){
         hash[i] = arr[31-i];
     }
 }
 TxIn::TxIn(const char * prev_id, uint32_t prev_index, const Script script, uint32_t sequence_number){
-    outputIndex = prev_index;
-    sequence = sequence_number;
+    init();
     if(strlen(prev_id) < 64){
         return;
     }
-    uint8_t tmp[32];
+    outputIndex = prev_index;
+    sequence = sequence_number;
+    uint8_t tmp[32] = { 0 };
     fromHex(prev_id, 64, tmp, 32);
     for(int i=0; i<32; i++){
         hash[i] = tmp[31-i];
-- 
2.43.0


From 5784197ee1d72bd894f55601b1697ac53a8f6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:41 +0000
Subject: [PATCH 38/56] fix: parsing an input again kept its previous witness

---
 src/Transaction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index e996607..06f0d2d 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -80,6 +80,7 @@ size_t TxIn::from_stream(ParseStream *s){
         outputIndex = 0;
         sequence = 0;
         scriptSig = Script();
+        witness = Witness();
     }
     status = PARSING_INCOMPLETE;
     size_t bytes_read = 0;
-- 
2.43.0


From d78359da0d28026a2199f8e368fc8ef404c42275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:43 +0000
Subject: [PATCH 39/56] fix: empty arrays of inputs and outputs were leaked

---
 src/Transaction.cpp | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 06f0d2d..453d0d0 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -233,12 +233,8 @@ Tx::Tx(const Tx & other){
 Tx& Tx::operator=(Tx const &other){ // copy-paste =(
     if (this == &other){ return *this; } // self-assignment
     version = other.version;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txIns;
+    delete [] txOuts;
     inputsNumber = other.inputsNumber;
     outputsNumber = other.outputsNumber;
     txIns = new TxIn[inputsNumber];
@@ -259,16 +255,13 @@ Tx::~Tx(){
     clear();
 }
 void Tx::clear(){
-    if(inputsNumber > 0){
-        inputsNumber = 0;
-        delete [] txIns;
-        txIns = NULL;
-    }
-    if(outputsNumber > 0){
-        outputsNumber = 0;
-        delete [] txOuts;
-        txOuts = NULL;
-    }
+    // empty arrays are also allocated
+    inputsNumber = 0;
+    delete [] txIns;
+    txIns = NULL;
+    outputsNumber = 0;
+    delete [] txOuts;
+    txOuts = NULL;
 }
 size_t Tx::length() const{
     bool is_segwit = isSegwit();
@@ -610,9 +603,7 @@ uint8_t Tx::addInput(const TxIn txIn){
         arr[i] = txIns[i];
     }
     arr[inputsNumber] = txIn;
-    if(inputsNumber > 0){
-        delete [] txIns;
-    }
+    delete [] txIns;
     txIns = arr;
     inputsNumber++;
     return inputsNumber;
@@ -623,9 +614,7 @@ uint8_t Tx::addOutput(const TxOut txOut){
         arr[i] = txOuts[i];
     }
     arr[outputsNumber] = txOut;
-    if(outputsNumber > 0){
-        delete [] txOuts;
-    }
+    delete [] txOuts;
     txOuts = arr;
     outputsNumber++;
     return outputsNumber;
-- 
2.43.0


From 95871d3776cb52bff4f5b70824b2296c925a9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:45 +0000
Subject: [PATCH 40/56] fix: transactions with 253 or more inputs or outputs
 were misread

---
 src/Transaction.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 453d0d0..791e988 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -368,6 +368,10 @@ size_t Tx::from_stream(ParseStream *s){
         bytes_read++;
         if(c == 0x00){ // segwit!
             segwit_flag = 1;
+        }else if(c >= 0xfd){ // multibyte counters are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
         }else{
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
             txIns = new TxIn[inputsNumber];
@@ -386,8 +390,14 @@ size_t Tx::from_stream(ParseStream *s){
         }
     }
     if(s->available() && segwit_flag > 0 && bytes_read+bytes_parsed == 6){
-        inputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multibyte counters are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        inputsNumber = c;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -408,8 +418,14 @@ size_t Tx::from_stream(ParseStream *s){
         current_offset += txIns[i].length();
     }
     if(s->available() && bytes_read+bytes_parsed == current_offset){
-        outputsNumber = s->read();
+        uint8_t c = s->read();
         bytes_read++;
+        if(c >= 0xfd){ // multibyte counters are not supported
+            status = PARSING_FAILED;
+            bytes_parsed+=bytes_read;
+            return bytes_read;
+        }
+        outputsNumber = c;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From 994e779157e5d2f081f79ed9bdb635488bacf0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:47 +0000
Subject: [PATCH 41/56] fix: parsing a transaction went on after a malformed
 input, output or witness

---
 src/Transaction.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 791e988..c1a179d 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -377,6 +377,9 @@ size_t Tx::from_stream(ParseStream *s){
             txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
                 bytes_read += s->parse(&txIns[i]);
+                if(txIns[i].getStatus() == PARSING_FAILED){
+                    break;
+                }
             }
         }
     }
@@ -401,6 +404,9 @@ size_t Tx::from_stream(ParseStream *s){
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
+            if(txIns[i].getStatus() == PARSING_FAILED){
+                break;
+            }
         }
     }
     for(unsigned int i=0; i<inputsNumber; i++){
@@ -429,6 +435,9 @@ size_t Tx::from_stream(ParseStream *s){
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
+            if(txOuts[i].getStatus() == PARSING_FAILED){
+                break;
+            }
         }
     }
     for(unsigned int i=0; i<outputsNumber; i++){
@@ -448,6 +457,9 @@ size_t Tx::from_stream(ParseStream *s){
     if(segwit_flag > 0 && bytes_read+bytes_parsed == current_offset){
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins witnesses to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i].witness);
+            if(txIns[i].witness.getStatus() == PARSING_FAILED){
+                break;
+            }
         }
     }
     if(segwit_flag > 0){
-- 
2.43.0


From 3f448e0e1f3d4fc8770b3dd30452a48899600ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:05 +0000
Subject: [PATCH 42/56] fix: metadata of Electrum transactions was missing,
 leaked or used before parsing

---
 src/Electrum.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 13bdd26..548f448 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -1,24 +1,20 @@
 #include "Electrum.h"
 
 ElectrumTx::ElectrumTx(ElectrumTx const &other){
-    tx = other.tx;
-    is_segwit = false;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
-    }
-    status = other.status;
-    bytes_parsed = other.bytes_parsed;
+    txInsMeta = NULL;
+    *this = other;
 }
 ElectrumTx& ElectrumTx::operator=(ElectrumTx const &other){
     if (this == &other){ return *this; } // self-assignment
-    if(tx.inputsNumber > 0){
-        delete [] txInsMeta;
-    }
+    delete [] txInsMeta;
+    txInsMeta = NULL;
     tx = other.tx;
-    txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
-    for(unsigned int i=0; i<tx.inputsNumber; i++){
-        txInsMeta[i] = other.txInsMeta[i];
+    is_segwit = other.is_segwit;
+    if(other.txInsMeta != NULL){ // there is no metadata until the transaction is parsed
+        txInsMeta = new ElectrumInputMetadata[tx.inputsNumber];
+        for(unsigned int i=0; i<tx.inputsNumber; i++){
+            txInsMeta[i] = other.txInsMeta[i];
+        }
     }
     status = other.status;
     bytes_parsed = other.bytes_parsed;
@@ -30,9 +26,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
         return 0;
     }
     if(status == PARSING_DONE){
-        if(tx.inputsNumber > 0){
-            delete [] txInsMeta;
-        }
+        delete [] txInsMeta;
         txInsMeta = NULL;
         tx = Tx();
         bytes_parsed = 0;
@@ -146,6 +140,9 @@ ElectrumTx::~ElectrumTx(){
 }
 uint8_t ElectrumTx::sign(const HDPrivateKey account){
     uint8_t res = 0; // number of signed inputs
+    if(!isValid() || txInsMeta == NULL){
+        return 0;
+    }
     for(unsigned int i=0; i<tx.inputsNumber; i++){
         HDPublicKey pub = account.xpub();
         ScriptType type = txInsMeta[i].hd.type;
@@ -165,6 +162,9 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
 
 uint64_t ElectrumTx::fee() const{
     uint64_t inputs_amount = 0;
+    if(!isValid() || txInsMeta == NULL){
+        return 0;
+    }
     for(unsigned int i=0; i < tx.inputsNumber; i++){
         if(txInsMeta[i].amount == 0){
             return 0;
-- 
2.43.0


From ee16568960ba26341104554900e3011a77e3b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 43/56] fix: fee of legacy Electrum transactions used
 uninitialised amounts

---
 src/Electrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 548f448..5150e2f 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -64,6 +64,7 @@ size_t ElectrumTx::from_stream(ParseStream *s){
                         bytes_parsed+=bytes_read;
                         return bytes_read;
                     }
+                    txInsMeta[i].amount = 0; // unknown
                     txInsMeta[i].derivation[0] = arr[84] + (arr[85] << 8);
                     txInsMeta[i].derivation[1] = arr[86] + (arr[87] << 8);
                     tx.txIns[i].scriptSig = Script();
-- 
2.43.0


From ce886a8288b7d61d8ef3e29976aa9ad8f063dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:08 +0000
Subject: [PATCH 44/56] fix: endless loop on invalid extended keys in Electrum
 transactions

---
 src/Electrum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 5150e2f..35347b6 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -113,6 +113,11 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             start += 7;
             while(s->available() && bytes_parsed+bytes_read < start + 78){
                 bytes_read+=s->parse(&txInsMeta[i].hd);
+                if(txInsMeta[i].hd.getStatus() == PARSING_FAILED){
+                    status = PARSING_FAILED;
+                    bytes_parsed += bytes_read;
+                    return bytes_read;
+                }
             }
             start += 78;
             while(s->available() && bytes_parsed+bytes_read < start + 4){
-- 
2.43.0


From deb6e127e191e2e893408fa6df39492d88a7f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:17 +0000
Subject: [PATCH 45/56] fix: malformed witnesses were read as unsigned Electrum
 inputs

---
 src/Electrum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index 35347b6..ef84317 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -77,6 +77,12 @@ size_t ElectrumTx::from_stream(ParseStream *s){
             for(unsigned int i=0; i<tx.inputsNumber; i++){
                 tx.txIns[i].witness = Witness();
             }
+            // witness has to fail on the first byte - the marker of unsigned inputs
+            if(bytes_parsed+bytes_read != 6+tx.length()+2-4+1){
+                status = PARSING_FAILED;
+                bytes_parsed += bytes_read;
+                return bytes_read;
+            }
             tx.setStatus(PARSING_DONE);
             tx.locktime = 0;
             is_segwit = true;
-- 
2.43.0


From 7ff8b5075a8a1164c724f071c6f50e38d72ecf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:57 +0000
Subject: [PATCH 46/56] fix: descriptor checksum accepted zero characters

---
 src/PSBT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 8cd1203..57ece0e 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -55,7 +55,7 @@ size_t descriptorChecksum(const char * span, size_t spanLen, char * output, size
     for(size_t i=0; i<spanLen; i++){
         char ch = span[i];
         const char * pch = strchr(INPUT_CHARSET, ch);
-        if(pch==NULL){ // char not in the alphabet
+        if(pch==NULL || ch == '\0'){ // char not in the alphabet
             return 0;
         }
         size_t pos = pch - INPUT_CHARSET;
-- 
2.43.0


From 850a216371dcadec7cbba0c500af8c4307196290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 47/56] fix: copies of unfinished scripts and witnesses could
 not be parsed further

---
 src/Bitcoin.h  |  1 +
 src/Script.cpp | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index bf034e1..cb83a3f 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -564,6 +564,7 @@ class Witness : public Streamable{
     uint8_t lenLen; // for parsing, length of the varint
     virtual void reset(){ status = PARSING_DONE; bytes_parsed = 0; cur_element_len=0; cur_bytes_parsed=0; cur_element=0; lenLen=0; };
     void init();
+    void copyParsingState(const Witness &other);
 public:
     void clear();
     virtual size_t length() const;
diff --git a/src/Script.cpp b/src/Script.cpp
index e162bdc..b3a1a7f 100644
--- a/src/Script.cpp
+++ b/src/Script.cpp
@@ -522,6 +522,11 @@ Script &Script::operator=(const Script &other){
         if(scriptArray == NULL){ scriptLen = 0; return *this; }
         memcpy(scriptArray, other.scriptArray, scriptLen);
     }
+    // state of an unfinished parsing
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    lenLen = other.lenLen;
+    parsedLen = other.parsedLen;
     return *this;
 };
 Script::Script(const Script &other){
@@ -532,6 +537,11 @@ Script::Script(const Script &other){
         if(scriptArray == NULL){ scriptLen = 0; return; }
         memcpy(scriptArray, other.scriptArray, scriptLen);
     }
+    // state of an unfinished parsing
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    lenLen = other.lenLen;
+    parsedLen = other.parsedLen;
 };
 
 //------------------------------------------------------------ Witness
@@ -551,6 +561,15 @@ void Witness::init(){
     reset();
     clear();
 }
+void Witness::copyParsingState(const Witness &other){
+    status = other.status;
+    bytes_parsed = other.bytes_parsed;
+    cur_element = other.cur_element;
+    cur_element_len = other.cur_element_len;
+    cur_bytes_parsed = other.cur_bytes_parsed;
+    curLen = other.curLen;
+    lenLen = other.lenLen;
+}
 Witness::Witness(void){
     init();
 }
@@ -721,6 +740,7 @@ Witness::Witness(const Witness &other){
         if(witnessArray == NULL){ witnessLen = 0; return;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
+    copyParsingState(other);
 };
 Witness &Witness::operator=(Witness const &other){
     if (this == &other){ return *this; } // self-assignment
@@ -733,5 +753,6 @@ Witness &Witness::operator=(Witness const &other){
         if(witnessArray == NULL){ witnessLen = 0; numElements = 0; return *this;}
         memcpy(witnessArray, other.witnessArray, witnessLen);
     }
+    copyParsingState(other);
     return *this;
 };
-- 
2.43.0


From a7199ca34bf868cafd1d79bab2aca59107be69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 48/56] fix: parsing on in a copy of an unfinished transaction
 leaked its empty arrays

---
 src/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index c1a179d..12a25a5 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -374,6 +374,7 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }else{
             inputsNumber = c; // FIXME: should be varint, but 255 inputs will kill the MCU...
+            delete [] txIns; // copies of unfinished transactions have empty arrays
             txIns = new TxIn[inputsNumber];
             for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
                 bytes_read += s->parse(&txIns[i]);
@@ -401,6 +402,7 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
         inputsNumber = c;
+        delete [] txIns;
         txIns = new TxIn[inputsNumber];
         for(unsigned int i=0; i<inputsNumber; i++){ // this will at least set all txins to PARSING_INCOMPLETE
             bytes_read += s->parse(&txIns[i]);
@@ -432,6 +434,7 @@ size_t Tx::from_stream(ParseStream *s){
             return bytes_read;
         }
         outputsNumber = c;
+        delete [] txOuts;
         txOuts = new TxOut[outputsNumber];
         for(unsigned int i=0; i<outputsNumber; i++){ // this will at least set all txouts to PARSING_INCOMPLETE
             bytes_read += s->parse(&txOuts[i]);
-- 
2.43.0


From 0574e5f8500d8bca95db48d8727b5e7be66b2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:31 +0000
Subject: [PATCH 49/56] fix: serialization of a transaction with more than 252
 inputs or outputs read outside of the counter

---
 src/Transaction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 12a25a5..0d216f0 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -304,7 +304,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
     }
     size_t cur_offset = 4+2*is_segwit;
     size_t l = writeVarInt(inputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
@@ -317,7 +317,7 @@ size_t Tx::to_stream(SerializeStream *s, size_t offset) const{
         cur_offset+=l;
     }
     l = writeVarInt(outputsNumber, arr, 10);
-    if(s->available() && bytes_written+offset < cur_offset+l){
+    while(s->available() && bytes_written+offset < cur_offset+l){
         s->write(arr[bytes_written+offset-cur_offset]);
         bytes_written++;
     }
-- 
2.43.0


From f93d37fb0f934b435b6973405bfbb9667b412223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:50 +0000
Subject: [PATCH 50/56] fix: number of witness elements was reported modulo 256

---
 src/Bitcoin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Bitcoin.h b/src/Bitcoin.h
index cb83a3f..7204bb5 100644
--- a/src/Bitcoin.h
+++ b/src/Bitcoin.h
@@ -574,7 +574,7 @@ public:
     Witness(const Witness &other); // copy
     ~Witness(){ if(witnessArray){ free(witnessArray); } };
     /** \brief returns number of elements in the witness */
-    uint8_t count() const{ return numElements; };
+    uint32_t count() const{ return numElements; };
     /** \brief adds `<len><data>` to the witness */
     size_t push(const uint8_t * data, size_t len);
     /** \brief adds `<len><sec>` to the witness */
-- 
2.43.0


From 6e5b7394ba40156a2f6ccc42de4a0827a203d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:13 +0000
Subject: [PATCH 51/56] fix: 256 partial signatures of one PSBT input
 overflowed the heap

---
 src/PSBT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PSBT.h b/src/PSBT.h
index 4eacc1a..3e82b58 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -43,7 +43,7 @@ typedef struct{
     Script witnessScript;
     /** \brief Signatures we will generate. In most cases will be just one. */
     PSBTPartialSignature * signatures;
-    uint8_t signaturesLen;
+    size_t signaturesLen;
 } PSBTInputMetadata;
 
 /** \brief Data required to confirm ownership of the output */
-- 
2.43.0


From b69269037996b8e491f9cf4e4ddab50648930bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:29 +0000
Subject: [PATCH 52/56] fix: number of signatures made in a PSBT was reported
 modulo 256

---
 src/PSBT.cpp | 4 ++--
 src/PSBT.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PSBT.cpp b/src/PSBT.cpp
index 57ece0e..ba7e7ff 100644
--- a/src/PSBT.cpp
+++ b/src/PSBT.cpp
@@ -505,10 +505,10 @@ void PSBT::clear(){
     }
 }
 
-uint8_t PSBT::sign(const HDPrivateKey root){
+size_t PSBT::sign(const HDPrivateKey root){
     uint8_t fingerprint[4];
     root.fingerprint(fingerprint);
-    uint8_t counter = 0;
+    size_t counter = 0;
     // in most cases only one account key is required, so we can cache it
     uint32_t * first_derivation = NULL;
     uint8_t first_derivation_len = 0;
diff --git a/src/PSBT.h b/src/PSBT.h
index 3e82b58..795a76b 100644
--- a/src/PSBT.h
+++ b/src/PSBT.h
@@ -90,7 +90,7 @@ public:
     /** \brief adds key-value pair to section */
     int add(size_t section, const Script * k, const Script * v);
     /** \brief Signes everything it can with keys derived from root HD private key */
-    uint8_t sign(const HDPrivateKey root);
+    size_t sign(const HDPrivateKey root);
     /** \brief parses psbt transaction from base64 encoded string */
 #if USE_ARDUINO_STRING
     size_t parseBase64(String b64);
-- 
2.43.0


From 1ea86e3a1597766fc71a330942c825b13841e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:46 +0000
Subject: [PATCH 53/56] fix: refuse a scalar or private key equal to the curve
 order like a zero one

---
 src/Bitcoin.cpp      | 7 +++----
 src/BitcoinCurve.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/Bitcoin.cpp b/src/Bitcoin.cpp
index dc0e999..9d317d2 100644
--- a/src/Bitcoin.cpp
+++ b/src/Bitcoin.cpp
@@ -506,14 +506,13 @@ size_t PrivateKey::from_stream(ParseStream *s){
     }
     if(bytes_parsed+bytes_read == 32){
         status = PARSING_DONE;
-        uint8_t zero[32] = { 0 };
-        if(memcmp(num, zero, 32)==0){ // should we add something else here?
-            status = PARSING_FAILED;
-        }
         bignum256 n;
         bn_read_be(num, &n);
         bn_mod(&n, &secp256k1.order);
         bn_write_be(&n, num);
+        if(bn_is_zero(&n)){ // should we add something else here?
+            status = PARSING_FAILED;
+        }
         pubKey = *this * GeneratorPoint;
     }
     bytes_parsed += bytes_read;
diff --git a/src/BitcoinCurve.cpp b/src/BitcoinCurve.cpp
index 918169c..399b485 100644
--- a/src/BitcoinCurve.cpp
+++ b/src/BitcoinCurve.cpp
@@ -179,14 +179,13 @@ size_t ECScalar::from_stream(ParseStream *s){
 	}
 	if(bytes_parsed+bytes_read == 32){
 		status = PARSING_DONE;
-		uint8_t zero[32] = { 0 };
-		if(memcmp(num, zero, 32)==0){ // should we add something else here?
-		status = PARSING_FAILED;
-		}
 		bignum256 n;
 		bn_read_be(num, &n);
 		bn_mod(&n, &secp256k1.order);
 		bn_write_be(&n, num);
+		if(bn_is_zero(&n)){ // should we add something else here?
+		status = PARSING_FAILED;
+		}
 	}
 	bytes_parsed += bytes_read;
 	return bytes_read;
-- 
2.43.0


From c487819521373423a72bb55febcb50c7932fa005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:18 +0000
Subject: [PATCH 54/56] fix: SIGHASH_NONE and SIGHASH_SINGLE digests, and the
 signature carries the sighash type it was made for

---
 src/Transaction.cpp | 48 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/Transaction.cpp b/src/Transaction.cpp
index 0d216f0..9b7885e 100644
--- a/src/Transaction.cpp
+++ b/src/Transaction.cpp
@@ -512,6 +512,19 @@ size_t Tx::from_stream(ParseStream *s){
     return bytes_read;
 }
 int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, SigHashType sighash) const{
+    // SIGHASH_NONE doesn't commit to the outputs, SIGHASH_SINGLE - only to the one with the same index
+    size_t outputsSigned = outputsNumber;
+    if(sighash == SIGHASH_NONE){
+        outputsSigned = 0;
+    }
+    if(sighash == SIGHASH_SINGLE){
+        if(inputIndex >= outputsNumber){ // no such output, the hash is 1 by consensus
+            memset(h, 0, 32);
+            h[0] = 1;
+            return 32;
+        }
+        outputsSigned = (size_t)inputIndex + 1;
+    }
     Script empty;
     DoubleSha s;
     s.begin();
@@ -528,13 +541,21 @@ int Tx::sigHash(uint8_t h[32], uint8_t inputIndex, const Script scriptPubkey, Si
             t.scriptSig = scriptPubkey;
         }else{
             t.scriptSig = empty;
+            if(sighash == SIGHASH_NONE || sighash == SIGHASH_SINGLE){
+                t.sequence = 0;
+            }
         }
         s.serialize(&t, 0);
     }
-    l = writeVarInt(outputsNumber, arr, 10);
+    l = writeVarInt(outputsSigned, arr, 10);
     s.write(arr, l);
-    for(size_t i=0; i<outputsNumber; i++){
-        s.serialize(&txOuts[i], 0);
+    for(size_t i=0; i<outputsSigned; i++){
+        if(sighash == SIGHASH_SINGLE && i != inputIndex){
+            TxOut blank(0xFFFFFFFFFFFFFFFFULL, empty);
+            s.serialize(&blank, 0);
+        }else{
+            s.serialize(&txOuts[i], 0);
+        }
     }
     intToLittleEndian(locktime, arr, 4);
     s.write(arr, 4);
@@ -696,7 +717,11 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     hashPrevouts(h);
     s.write(h, 32);
 
-    hashSequence(h);
+    if(sighash == SIGHASH_NONE || sighash == SIGHASH_SINGLE){
+        memset(h, 0, 32);
+    }else{
+        hashSequence(h);
+    }
     s.write(h, 32);
 
     s.write(txIns[inputIndex].hash, 32);
@@ -709,7 +734,16 @@ int Tx::sigHashSegwit(uint8_t h[32], uint8_t inputIndex, const Script scriptPubK
     intToLittleEndian(txIns[inputIndex].sequence, arr, 4);
     s.write(arr, 4);
 
-    hashOutputs(h);
+    if(sighash == SIGHASH_SINGLE && inputIndex < outputsNumber){
+        DoubleSha out;
+        out.begin();
+        out.serialize(&txOuts[inputIndex], 0);
+        out.end(h);
+    }else if(sighash == SIGHASH_NONE || sighash == SIGHASH_SINGLE){
+        memset(h, 0, 32);
+    }else{
+        hashOutputs(h);
+    }
     s.write(h, 32);
 
     intToLittleEndian(locktime, arr, 4);
@@ -729,7 +763,7 @@ Signature Tx::signInput(uint8_t inputIndex, const PrivateKey pk, const Script re
     Signature sig = pk.sign(h);
 
     Script sc;
-    sc.push(sig);
+    sc.push(sig, sighash);
     sc.push(pubkey);
     // push script itself for timelocks and other single-key things if P2SH
     if(redeemScript.type() != P2PKH){
@@ -769,7 +803,7 @@ Signature Tx::signSegwitInput(uint8_t inputIndex, const PrivateKey pk, const Scr
     }
 
     Witness w;
-    w.push(sig);
+    w.push(sig, sighash);
     w.push(pubkey);
     if(redeem_type != P2WPKH){
         w.push(redeemScript);
-- 
2.43.0


From b5c716a74a1b4b76271f47463330ff61e9742dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:19 +0000
Subject: [PATCH 55/56] fix: keys of depth 255 have no children instead of ones
 of depth 0

---
 src/Electrum.cpp | 3 +++
 src/HDWallet.cpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index ef84317..b96dd84 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -161,6 +161,9 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
         pub.type = type;
         if(pub == txInsMeta[i].hd){
             PrivateKey pk = account.child(txInsMeta[i].derivation[0]).child(txInsMeta[i].derivation[1]);
+            if(!pk.isValid()){ // account key is too deep
+                continue;
+            }
             if(type == P2PKH || type == P2SH || type == UNKNOWN_TYPE || type == DIRECT_SCRIPT){
                 tx.signInput(i, pk);
             }else{
diff --git a/src/HDWallet.cpp b/src/HDWallet.cpp
index 8bd1368..f6a52e5 100644
--- a/src/HDWallet.cpp
+++ b/src/HDWallet.cpp
@@ -443,7 +443,7 @@ HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
         hardened = true;
     }
     HDPrivateKey child;
-    if(!isValid()){
+    if(!isValid() || depth == 0xFF){ // depth is one byte, there is nothing below 255
         return child;
     }
 
@@ -801,7 +801,7 @@ String HDPublicKey::fingerprint() const{
 
 HDPublicKey HDPublicKey::child(uint32_t index) const{
     HDPublicKey child;
-    if(index >= HARDENED_INDEX || !isValid()){ // only normal children can be derived
+    if(index >= HARDENED_INDEX || !isValid() || depth == 0xFF){ // only normal children can be derived, down to depth 255
         return child;
     }
 
-- 
2.43.0


From 87b415e4b1b5f573d12bbe1b25cd4489d445ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:31 +0000
Subject: [PATCH 56/56] fix: Electrum transactions are signed only with the
 very extended key of the input, chain code included

---
 src/Electrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Electrum.cpp b/src/Electrum.cpp
index b96dd84..19630d9 100644
--- a/src/Electrum.cpp
+++ b/src/Electrum.cpp
@@ -159,7 +159,7 @@ uint8_t ElectrumTx::sign(const HDPrivateKey account){
         HDPublicKey pub = account.xpub();
         ScriptType type = txInsMeta[i].hd.type;
         pub.type = type;
-        if(pub == txInsMeta[i].hd){
+        if(pub == txInsMeta[i].hd && memcmp(account.chainCode, txInsMeta[i].hd.chainCode, sizeof(account.chainCode)) == 0){
             PrivateKey pk = account.child(txInsMeta[i].derivation[0]).child(txInsMeta[i].derivation[1]);
             if(!pk.isValid()){ // account key is too deep
                 continue;
-- 
2.43.0

