From 33f07bc2a38f0d8c691302c67606df407a37ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:10 +0000
Subject: [PATCH 01/21] fix: derive 24 byte keys for AES-192 instead of 32
 bytes

---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index b890cd5..f4b445e 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -138,7 +138,8 @@ func derivationKey(key []byte, derivationData *keyDerivationData) ([]byte, error
 		derivationData.KeyBlockCounter++
 	}
 
-	return derivedKey, nil
+	// The derived key is the leftmost bits of the generated blocks (AES-192 uses one and a half blocks)
+	return derivedKey[:derivedKeyLen], nil
 }
 
 // Create key derivation data
-- 
2.43.0


From 1380bb0b23216e235e896976bc0f6c2788839113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 02/21] fix: report exhaustion after the last valid AES
 transaction counter

---
 pkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/util.go b/pkg/util.go
index 5e04b4d..a2c6c14 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -73,6 +73,10 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 		tc += lsbSetBit
 	}
 
+	if tc > tcMax {
+		return nil, errors.New("transaction already counter exhausted")
+	}
+
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-- 
2.43.0


From b363ddae7f4438cb3cd807caa0ae31110b1a5750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 03/21] fix: do not overwrite the given KSN when generating the
 next one

---
 pkg/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/util.go b/pkg/util.go
index a2c6c14..74898f9 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -80,8 +80,8 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	tcMsb := make([]byte, 4)
 	binary.BigEndian.PutUint32(tcMsb, tc)
 
-	result := append(ksn[:8], tcMsb...)
-	return result, nil
+	result := append([]byte{}, ksn[:8]...)
+	return append(result, tcMsb...), nil
 }
 
 func GetDesTcFromKsn(ksn []byte) uint32 {
@@ -126,6 +126,9 @@ func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 	}
 
 	{
+		// Never change the key serial number of the caller
+		ksn = append([]byte{}, ksn...)
+
 		length := len(ksn)
 		ksn[length-1] = byte(tc)
 		ksn[length-2] = byte(tc >> 8)
-- 
2.43.0


From 256144cadf28c8e9209ea275c2853c10d93e79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 04/21] fix: reject malformed KSNs instead of panicking or
 repeating counters

---
 pkg/util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/util.go b/pkg/util.go
index 74898f9..f69d7d5 100644
--- a/pkg/util.go
+++ b/pkg/util.go
@@ -50,6 +50,11 @@ func GetAesTcFromKsn(ksn []byte) uint32 {
 
 func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 	var tcMax uint32 = 0xFFFF0000
+
+	if len(ksn) != 12 {
+		return nil, errors.New("key serial number length must be 12 bytes")
+	}
+
 	tc := GetAesTcFromKsn(ksn)
 
 	if tc > tcMax {
@@ -87,7 +92,7 @@ func GenerateNextAesKsn(ksn []byte) ([]byte, error) {
 func GetDesTcFromKsn(ksn []byte) uint32 {
 	var tc uint32
 
-	if len(ksn) > 3 {
+	if len(ksn) >= 3 {
 		length := len(ksn)
 		tc = uint32(ksn[length-1]) | uint32(ksn[length-2])<<8 | (uint32(ksn[length-3])&0x1f)<<16
 	}
@@ -97,6 +102,11 @@ func GetDesTcFromKsn(ksn []byte) uint32 {
 
 func GenerateNextDesKsn(ksn []byte) ([]byte, error) {
 	var tcMax uint32 = 0x1FF800
+
+	if len(ksn) < 3 || len(ksn) > 10 {
+		return nil, errors.New("key serial number length must be between 3 and 10 bytes")
+	}
+
 	tc := GetDesTcFromKsn(ksn)
 
 	if tc > tcMax {
-- 
2.43.0


From ce8920709947e601a26a1fa2187133c913e498b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:16 +0000
Subject: [PATCH 05/21] fix: do not write working counters into the KSN of the
 caller

---
 pkg/aes/aes_internal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index f4b445e..dfe22c6 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -188,7 +188,8 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	default:
 		tcBuf := make([]byte, 4)
 		binary.BigEndian.PutUint32(tcBuf, tc)
-		data.InitialKeyID = append(initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength], tcBuf...)
+		data.InitialKeyID = append(data.InitialKeyID, initialKeyID[derivationKeyIdLength:derivationKeyIdLength+derivationIdLength]...)
+		data.InitialKeyID = append(data.InitialKeyID, tcBuf...)
 	}
 
 	return &data, nil
-- 
2.43.0


From 4dd336e1b2153476fce16e9f7f26e28bfe175a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:49 +0000
Subject: [PATCH 06/21] fix: return an error for AES key serial numbers of the
 wrong length

---
 pkg/aes/aes.go          | 10 ++++++++++
 pkg/aes/aes_internal.go | 13 +++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 783fbae..6b21dbc 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"crypto/hmac"
 	"crypto/sha256"
+	"errors"
 	"fmt"
 
 	"github.com/chmike/cmac-go"
@@ -45,6 +46,11 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	// The initial key only depends on the initial key id, the transaction counter is optional
+	if len(ksn) != initialKeyIdLength && len(ksn) != keySerialNumberLength {
+		return nil, errors.New("initial key id length must be 8 bytes (or 12 bytes key serial number)")
+	}
+
 	derivationData, err := createDerivationData(usageForKeyInitialKey, keyType, ksn[:8], 0)
 	if err != nil {
 		return nil, err
@@ -71,6 +77,10 @@ func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if err := checkKeySerialNumber(ksn); err != nil {
+		return nil, err
+	}
+
 	transactionKey := make([]byte, len(ik))
 	copy(transactionKey, ik)
 
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index dfe22c6..88d7441 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -14,6 +14,7 @@ const (
 	derivationIdLength       = 4
 	initialKeyIdLength       = derivationKeyIdLength + derivationIdLength
 	transactionCounterLength = 4
+	keySerialNumberLength    = initialKeyIdLength + transactionCounterLength
 )
 
 // Key types and bits for AES
@@ -195,6 +196,14 @@ func createDerivationData(keyUsage uint16, keyType string, initialKeyID []byte,
 	return &data, nil
 }
 
+// The key serial number is the initial key id followed by the transaction counter
+func checkKeySerialNumber(ksn []byte) error {
+	if len(ksn) != keySerialNumberLength {
+		return errors.New("key serial number length must be 12 bytes")
+	}
+	return nil
+}
+
 func checkWorkingKeyLengthHmac(keyLen int, keyType string) error {
 	// Validate transaction/intermediate key length
 	if keyLen != keyHMAC128Bits/8 &&
@@ -250,6 +259,10 @@ func checkWorkingKeyLength(keyLen int, keyType string) error {
 }
 
 func generateDerivationKey(params derivationParams) ([]byte, error) {
+	if err := checkKeySerialNumber(params.Ksn); err != nil {
+		return nil, err
+	}
+
 	tc := pkg.GetAesTcFromKsn(params.Ksn)
 	derivationData, err := createDerivationData(params.KeyUsage, params.KeyType, params.Ksn, tc)
 	if err != nil {
-- 
2.43.0


From 0bd62eb09dfbdc37c8d98050ac58b542f7a9f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:51 +0000
Subject: [PATCH 07/21] fix: accept the same initial vectors for data
 encryption and decryption

---
 pkg/aes/aes.go          | 19 ++-----------------
 pkg/aes/aes_internal.go |  7 +++++++
 pkg/des/des.go          | 17 ++---------------
 pkg/des/des_internal.go |  7 +++++++
 4 files changed, 18 insertions(+), 32 deletions(-)

diff --git a/pkg/aes/aes.go b/pkg/aes/aes.go
index 6b21dbc..4754ad4 100644
--- a/pkg/aes/aes.go
+++ b/pkg/aes/aes.go
@@ -332,13 +332,7 @@ func EncryptData(currentKey, ksn, iv []byte, plaintext, keyType, action string)
 		return nil, err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	}
+	iv = serializeInitialVector(iv)
 
 	repeatCnt := len(plaintext) / aes.BlockSize
 	if len(plaintext)%aes.BlockSize > 0 {
@@ -400,16 +394,7 @@ func DecryptData(currentKey, ksn, ciphertext, iv []byte, keyType, action string)
 		return "", err
 	}
 
-	if iv == nil {
-		// default null
-		iv = make([]byte, aes.BlockSize)
-	}
-
-	if len(iv) < aes.BlockSize {
-		iv = append(iv, make([]byte, aes.BlockSize-len(iv))...)
-	} else if len(iv) > aes.BlockSize {
-		iv = iv[:aes.BlockSize]
-	}
+	iv = serializeInitialVector(iv)
 
 	repeatCnt := len(ciphertext) / aes.BlockSize
 	if len(ciphertext)%aes.BlockSize > 0 {
diff --git a/pkg/aes/aes_internal.go b/pkg/aes/aes_internal.go
index 88d7441..c16aa69 100644
--- a/pkg/aes/aes_internal.go
+++ b/pkg/aes/aes_internal.go
@@ -258,6 +258,13 @@ func checkWorkingKeyLength(keyLen int, keyType string) error {
 	return nil
 }
 
+// Serialize initial vector to one block, missing bytes are zero
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, aes.BlockSize)
+	copy(ivBytes, iv)
+	return ivBytes
+}
+
 func generateDerivationKey(params derivationParams) ([]byte, error) {
 	if err := checkKeySerialNumber(params.Ksn); err != nil {
 		return nil, err
diff --git a/pkg/des/des.go b/pkg/des/des.go
index 1d07bd6..60fb682 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -311,13 +311,7 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 	ciphertext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-	if len(iv) < desBlockLen {
-		iv = append(iv, make([]byte, desBlockLen-len(iv))...)
-	}
+	iv = serializeInitialVector(iv)
 
 	mode := cipher.NewCBCEncrypter(dataCipher.GetBlock(), iv)
 	mode.CryptBlocks(ciphertext, serializePlaintext)
@@ -382,14 +376,7 @@ func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, erro
 	plaintext := make([]byte, len(serializePlaintext))
 	// A.4.1 Variants of the Current Key
 	// 	Encryption of the data should use T-DEA in CBC mode.
-	if iv == nil {
-		// default null
-		iv = make([]byte, desBlockLen)
-	}
-
-	if len(iv) > desBlockLen {
-		iv = iv[:desBlockLen]
-	}
+	iv = serializeInitialVector(iv)
 
 	mode := cipher.NewCBCDecrypter(dataCipher.GetBlock(), iv)
 	mode.CryptBlocks(plaintext, serializePlaintext)
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index ad12432..6eee601 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -28,6 +28,13 @@ func serializeKeySerialNumber(ksn []byte) []byte {
 	return ksnBytes
 }
 
+// Serialize initial vector to one block, missing bytes are zero
+func serializeInitialVector(iv []byte) []byte {
+	ivBytes := make([]byte, desBlockLen)
+	copy(ivBytes, iv)
+	return ivBytes
+}
+
 // Extract transaction counter value from KSN. The transaction counter is the last 21 bits of the KSN.
 func removeTransactionCounter(ksn []byte) {
 	if len(ksn) != keySerialLen {
-- 
2.43.0


From 67aae97ff986609e7b7eaca746ffce87771eb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:53 +0000
Subject: [PATCH 08/21] fix: reject TDES keys and key serial numbers of the
 wrong length

---
 pkg/des/des.go          | 24 ++++++++++++++++++++++++
 pkg/des/des_internal.go | 15 +++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 60fb682..55dfd4f 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -31,6 +31,10 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 		return nil, fmt.Errorf("base derivative key length must be %d bytes", keyLen)
 	}
 
+	if err := checkKeySerialNumber(ksn); err != nil {
+		return nil, err
+	}
+
 	ksnBytes := serializeKeySerialNumber(ksn)
 	removeTransactionCounter(ksnBytes)
 
@@ -66,6 +70,14 @@ func DerivationOfInitialKey(bdk, ksn []byte) ([]byte, error) {
 //   - result is 16 bytes transaction key
 //   - err
 func DeriveCurrentTransactionKey(ik, ksn []byte) ([]byte, error) {
+	if err := checkKeyLength(ik, "initial key"); err != nil {
+		return nil, err
+	}
+
+	if err := checkKeySerialNumber(ksn); err != nil {
+		return nil, err
+	}
+
 	keyBytes := make([]byte, keyLen)
 	copy(keyBytes, ik)
 	ksnBytes := make([]byte, keySerialLen)
@@ -195,6 +207,10 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 //   - result is generated mac (use the first 4 bytes of this result)
 //   - err
 func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
+	if err := checkKeyLength(currentKey, "current key"); err != nil {
+		return nil, err
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -270,6 +286,10 @@ func GenerateMac(currentKey []byte, plainText, action string) ([]byte, error) {
 //   - result is encrypted data
 //   - err
 func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error) {
+	if err := checkKeyLength(currentKey, "current key"); err != nil {
+		return nil, err
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
@@ -336,6 +356,10 @@ func EncryptData(currentKey, iv []byte, plainText, action string) ([]byte, error
 //   - result is transaction request data ( must be a multiple of tdes block length [8])
 //   - err
 func DecryptData(currentKey, ciphertext, iv []byte, action string) (string, error) {
+	if err := checkKeyLength(currentKey, "current key"); err != nil {
+		return "", err
+	}
+
 	dataKey := make([]byte, keyLen)
 	copy(dataKey, currentKey)
 
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index 6eee601..2b820b3 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -28,6 +28,21 @@ func serializeKeySerialNumber(ksn []byte) []byte {
 	return ksnBytes
 }
 
+func checkKeyLength(key []byte, name string) error {
+	if len(key) != keyLen {
+		return fmt.Errorf("%s length must be %d bytes", name, keyLen)
+	}
+	return nil
+}
+
+// A key serial number contains at least the transaction counter and is padded to 10 bytes
+func checkKeySerialNumber(ksn []byte) error {
+	if len(ksn) < (tcBits+7)/8 || len(ksn) > keySerialLen {
+		return fmt.Errorf("key serial number length must be between %d and %d bytes", (tcBits+7)/8, keySerialLen)
+	}
+	return nil
+}
+
 // Serialize initial vector to one block, missing bytes are zero
 func serializeInitialVector(iv []byte) []byte {
 	ivBytes := make([]byte, desBlockLen)
-- 
2.43.0


From 7f887c4ca045545a265fa31b76561a4dc46482c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 09/21] fix: decrypt VISA3 pin blocks

---
 pkg/des/des.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index 55dfd4f..dc1105f 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -184,7 +184,8 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 		return "", err
 	}
 
-	pinstr, err := formatter.Decode(pkg.HexEncode(pinBlock), pan)
+	// VISA3 formatter expects upper case hexadecimal digits as they are encoded
+	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 1b94bd789f8f20d5bc85d27e911e5c6be7e77c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 10/21] fix: return an error if a decrypted pin block can not
 be decoded

---
 pkg/des/des.go          |  2 +-
 pkg/des/des_internal.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/des/des.go b/pkg/des/des.go
index dc1105f..ecc7682 100644
--- a/pkg/des/des.go
+++ b/pkg/des/des.go
@@ -185,7 +185,7 @@ func DecryptPin(currentKey, ciphertext []byte, pan string, format string) (strin
 	}
 
 	// VISA3 formatter expects upper case hexadecimal digits as they are encoded
-	pinstr, err := formatter.Decode(strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
+	pinstr, err := decodePinblock(formatter, strings.ToUpper(pkg.HexEncode(pinBlock)), pan)
 	if err != nil {
 		return "", err
 	}
diff --git a/pkg/des/des_internal.go b/pkg/des/des_internal.go
index 2b820b3..e46765c 100644
--- a/pkg/des/des_internal.go
+++ b/pkg/des/des_internal.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"crypto/des" //nolint:gosec
 	"fmt"
+
 	"github.com/moov-io/dukpt/encryption"
+	"github.com/moov-io/pinblock/formats"
 )
 
 const (
@@ -145,6 +147,17 @@ func encryptPinblock(currentKey, pinblock []byte) ([]byte, error) {
 	return cipher.Encrypt(pinblock)
 }
 
+// Decode formatted pin block, formatters panic if the length field of a decrypted block is out of range
+func decodePinblock(formatter formats.Format, pinblock, pan string) (pin string, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			pin, err = "", fmt.Errorf("unable to decode pin block: %v", r)
+		}
+	}()
+
+	return formatter.Decode(pinblock, pan)
+}
+
 func decryptPinblock(currentKey, ciphertext []byte) ([]byte, error) {
 	if len(currentKey) != keyLen {
 		return nil, fmt.Errorf("current key length must be %d bytes", keyLen)
-- 
2.43.0


From b785dea7647c2d269d8bb66ad368a81afdec2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 11/21] fix: decrypt in the decrypt_pin and decrypt_data
 endpoints

---
 pkg/server/handlers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index 2913645..ef8a0d4 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -274,7 +274,7 @@ func decryptPinEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptPinResponse{}
-		decrypted, err := s.EncryptPin(req.ik, req.encrypted, req.pan, req.format)
+		decrypted, err := s.DecryptPin(req.ik, req.encrypted, req.pan, req.format)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
@@ -445,7 +445,7 @@ func decryptDataEndpoint(s Service) endpoint.Endpoint {
 		}
 
 		resp := decryptDataResponse{}
-		decrypted, err := s.EncryptData(req.ik, req.data, req.action, req.iv)
+		decrypted, err := s.DecryptData(req.ik, req.data, req.action, req.iv)
 		if err != nil {
 			resp.Err = err
 			return resp, nil
-- 
2.43.0


From 385f4e0fb10f9edb1bb8fe5960888c880cee0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 12/21] fix: report failed operations with an HTTP error status
 and message

---
 pkg/server/handlers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/server/handlers.go b/pkg/server/handlers.go
index ef8a0d4..88c7a34 100644
--- a/pkg/server/handlers.go
+++ b/pkg/server/handlers.go
@@ -34,6 +34,8 @@ type getMachinesResponse struct {
 	Err      error      `json:"error"`
 }
 
+func (r getMachinesResponse) error() error { return r.Err }
+
 func decodeGetMachinesRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	return getMachinesRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -59,6 +61,8 @@ type findMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r findMachineResponse) error() error { return r.Err }
+
 func decodeFindMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := findMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -98,6 +102,8 @@ type createMachineResponse struct {
 	Err     error    `json:"error"`
 }
 
+func (r createMachineResponse) error() error { return r.Err }
+
 func decodeCreateMachineRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := createMachineRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -143,6 +149,8 @@ type generateKSNResponse struct {
 	Err error  `json:"error"`
 }
 
+func (r generateKSNResponse) error() error { return r.Err }
+
 func decodeGenerateKSNRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateKSNRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -184,6 +192,8 @@ type encryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptPinResponse) error() error { return r.Err }
+
 func decodeEncryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -241,6 +251,8 @@ type decryptPinResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r decryptPinResponse) error() error { return r.Err }
+
 func decodeDecryptPinRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptPinRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -298,6 +310,8 @@ type generateMacResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r generateMacResponse) error() error { return r.Err }
+
 func decodeGenerateMacRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := generateMacRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -355,6 +369,8 @@ type encryptDataResponse struct {
 	Err       error  `json:"error"`
 }
 
+func (r encryptDataResponse) error() error { return r.Err }
+
 func decodeEncryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := encryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
@@ -412,6 +428,8 @@ type decryptDataResponse struct {
 	Err  error  `json:"error"`
 }
 
+func (r decryptDataResponse) error() error { return r.Err }
+
 func decodeDecryptDataRequest(_ context.Context, request *http.Request) (interface{}, error) {
 	req := decryptDataRequest{
 		requestID: moovhttp.GetRequestID(request),
-- 
2.43.0


From 00ce023c7de081f54953ff1a1464a8f8972a2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:32 +0000
Subject: [PATCH 13/21] fix: answer 404 for every operation on an unknown
 machine

---
 pkg/server/routing.go |  6 +++---
 pkg/server/service.go | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 92eba46..777a868 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -252,10 +252,10 @@ func codeFrom(err error) int {
 		return http.StatusBadRequest
 	}
 
-	switch err {
-	case ErrNotFound:
+	switch {
+	case errors.Is(err, ErrNotFound):
 		return http.StatusNotFound
-	case ErrAlreadyExists:
+	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
 		return http.StatusInternalServerError
diff --git a/pkg/server/service.go b/pkg/server/service.go
index 0392333..6964557 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -94,7 +94,7 @@ func (s *service) GetMachines() []*Machine {
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return nil, fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	var nextKsn []byte
@@ -134,7 +134,7 @@ func (s *service) DeleteMachine(ik string) error {
 func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -158,7 +158,7 @@ func (s *service) EncryptPin(ik, pin, pan, format string) (string, error) {
 func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -182,7 +182,7 @@ func (s *service) DecryptPin(ik, ciphertext, pan, format string) (string, error)
 func (s *service) GenerateMac(ik, data, action, macType string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -215,7 +215,7 @@ func (s *service) GenerateMac(ik, data, action, macType string) (string, error)
 func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
@@ -235,7 +235,7 @@ func (s *service) EncryptData(ik, data, action, iv string) (string, error) {
 func (s *service) DecryptData(ik, ciphertext, action, iv string) (string, error) {
 	m, err := s.GetMachine(ik)
 	if err != nil {
-		return "", fmt.Errorf("make next ksn: %v(%s)", err, ik)
+		return "", fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
 	params := UnifiedParams{
-- 
2.43.0


From 0717a590f73b1653601073af66d3d1b65f65ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:34 +0000
Subject: [PATCH 14/21] fix: serialize updates of machines and hand out copies
 only

---
 pkg/server/service.go | 44 +++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index 6964557..cc7a777 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -3,6 +3,7 @@ package server
 import (
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/moov-io/dukpt/pkg"
 	"github.com/moov-io/dukpt/pkg/aes"
@@ -30,6 +31,9 @@ type Service interface {
 // service a concrete implementation of the service.
 type service struct {
 	store Repository
+
+	// mtx protects the stored machines, callers only get copies of them
+	mtx sync.RWMutex
 }
 
 // NewService creates a new concrete service
@@ -70,7 +74,8 @@ func (s *service) CreateMachine(m *Machine) error {
 		return err
 	}
 
-	if err = s.store.StoreMachine(m); err != nil {
+	stored := *m
+	if err = s.store.StoreMachine(&stored); err != nil {
 		return err
 	}
 
@@ -79,21 +84,38 @@ func (s *service) CreateMachine(m *Machine) error {
 
 // GetMachine returns a machine based on the supplied initial key
 func (s *service) GetMachine(ik string) (*Machine, error) {
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
 	f, err := s.store.FindMachine(ik)
 	if err != nil {
 		return nil, ErrNotFound
 	}
-	return f, nil
+	found := *f
+	return &found, nil
 }
 
 func (s *service) GetMachines() []*Machine {
-	return s.store.FindAllMachines()
+	s.mtx.RLock()
+	defer s.mtx.RUnlock()
+
+	stored := s.store.FindAllMachines()
+	machines := make([]*Machine, 0, len(stored))
+	for i := range stored {
+		found := *stored[i]
+		machines = append(machines, &found)
+	}
+	return machines
 }
 
 // MakeNextKSN does to generate next ksn
 func (s *service) MakeNextKSN(ik string) (*Machine, error) {
-	m, err := s.GetMachine(ik)
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
+	m, err := s.store.FindMachine(ik)
 	if err != nil {
+		err = ErrNotFound
 		return nil, fmt.Errorf("make next ksn: %w(%s)", err, ik)
 	}
 
@@ -110,21 +132,23 @@ func (s *service) MakeNextKSN(ik string) (*Machine, error) {
 		}
 	}
 
-	// update machine
-	m.CurrentKSN = pkg.HexEncode(nextKsn)
-
 	params := UnifiedParams{
 		Algorithm:    m.Algorithm,
 		AlgorithmKey: m.AlgorithmKey,
-		KSN:          m.CurrentKSN,
+		KSN:          pkg.HexEncode(nextKsn),
 		IK:           ik,
 	}
-	m.TransactionKey, err = TransactionKey(params)
+	transactionKey, err := TransactionKey(params)
 	if err != nil {
 		return nil, err
 	}
 
-	return m, err
+	// update machine
+	m.CurrentKSN = params.KSN
+	m.TransactionKey = transactionKey
+
+	next := *m
+	return &next, nil
 }
 
 func (s *service) DeleteMachine(ik string) error {
-- 
2.43.0


From 4a190e327dd3e4b1014b48155c4362a6187eaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:19 +0000
Subject: [PATCH 15/21] fix: start new machines at the KSN their transaction
 key belongs to

---
 pkg/server/service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/server/service.go b/pkg/server/service.go
index cc7a777..d12ed7c 100644
--- a/pkg/server/service.go
+++ b/pkg/server/service.go
@@ -66,6 +66,8 @@ func (s *service) CreateMachine(m *Machine) error {
 	}
 
 	m.InitialKey = ik
+	// the transaction key below belongs to the initial key serial number
+	m.CurrentKSN = m.KeySerialNumber
 
 	// getting transaction key
 	params.IK = ik
-- 
2.43.0


From 90f225650c380e1f3c1641eab71b3ddbe32d338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 16/21] fix: reject initial vectors and ciphertexts that are
 not hexadecimal

---
 pkg/server/wrapper.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index 0039e42..bb17fb5 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -31,6 +31,15 @@ func (p UnifiedParams) ValidateAlgorithm() error {
 	return nil
 }
 
+// decodeHexParam is used for optional hexadecimal parameters, invalid strings must not be handled like empty strings
+func decodeHexParam(name, value string) ([]byte, error) {
+	decoded := pkg.HexDecode(value)
+	if decoded == nil && value != "" {
+		return nil, errors.New("invalid hexadecimal string of " + name)
+	}
+	return decoded, nil
+}
+
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
@@ -123,12 +132,16 @@ func GenerateMac(params UnifiedParams) (string, error) {
 
 func EncryptData(params UnifiedParams) (string, error) {
 	var buf []byte
-	var err error
+
+	iv, err := decodeHexParam("initial vector", params.IV)
+	if err != nil {
+		return "", err
+	}
 
 	if params.Algorithm == pkg.AlgorithmAes {
-		buf, err = aes.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.IV), params.Plaintext, params.AlgorithmKey, params.Action)
+		buf, err = aes.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), iv, params.Plaintext, params.AlgorithmKey, params.Action)
 	} else {
-		buf, err = des.EncryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.IV), params.Plaintext, params.Action)
+		buf, err = des.EncryptData(pkg.HexDecode(params.TK), iv, params.Plaintext, params.Action)
 	}
 
 	if err != nil {
@@ -139,12 +152,21 @@ func EncryptData(params UnifiedParams) (string, error) {
 
 func DecryptData(params UnifiedParams) (string, error) {
 	var buf string
-	var err error
+
+	iv, err := decodeHexParam("initial vector", params.IV)
+	if err != nil {
+		return "", err
+	}
+
+	ciphertext, err := decodeHexParam("encrypted data", params.Ciphertext)
+	if err != nil {
+		return "", err
+	}
 
 	if params.Algorithm == pkg.AlgorithmAes {
-		buf, err = aes.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.AlgorithmKey, params.Action)
+		buf, err = aes.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.KSN), ciphertext, iv, params.AlgorithmKey, params.Action)
 	} else {
-		buf, err = des.DecryptData(pkg.HexDecode(params.TK), pkg.HexDecode(params.Ciphertext), pkg.HexDecode(params.IV), params.Action)
+		buf, err = des.DecryptData(pkg.HexDecode(params.TK), ciphertext, iv, params.Action)
 	}
 
 	if err != nil {
-- 
2.43.0


From e7c4175e4fa0af9a09f1bd5fc19bc77b077420ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 17/21] fix: accept the documented key types in dukptcli

---
 cmd/dukptcli/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 04b0244..99a793b 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/moov-io/dukpt"
 	"github.com/moov-io/dukpt/pkg"
@@ -78,7 +79,7 @@ func main() {
 	}
 
 	params.Algorithm = *flagAlgorithm
-	params.AlgorithmKey = *flagAlgorithmKeyType
+	params.AlgorithmKey = strings.ToUpper(*flagAlgorithmKeyType)
 
 	// checking ik params
 	if *flagInitialKey {
-- 
2.43.0


From 26565dbe51a6de7f079efb6c8d971eeb58c86f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:24 +0000
Subject: [PATCH 18/21] fix: generate hmac with the documented key types in
 dukptcli

---
 cmd/dukptcli/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/dukptcli/main.go b/cmd/dukptcli/main.go
index 99a793b..020d317 100644
--- a/cmd/dukptcli/main.go
+++ b/cmd/dukptcli/main.go
@@ -223,6 +223,11 @@ func main() {
 		params.MacType = *flagGenerateMacType
 		params.KSN = *flagGenerateMacKSN
 
+		// hmac keys have their own key types
+		if *flagGenerateMacType == pkg.MaxTypeHmac && *flagAlgorithm == pkg.AlgorithmAes {
+			params.AlgorithmKey = strings.Replace(params.AlgorithmKey, "AES", "HMAC", 1)
+		}
+
 		makeFuncCall(server.GenerateMac, params)
 		return
 	}
-- 
2.43.0


From 12e99baa522ae3c66e6d77acbdf588c62d86f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 19/21] fix: reject unknown algorithms in the unified functions

---
 pkg/server/wrapper.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/server/wrapper.go b/pkg/server/wrapper.go
index bb17fb5..4a34045 100644
--- a/pkg/server/wrapper.go
+++ b/pkg/server/wrapper.go
@@ -43,6 +43,10 @@ func decodeHexParam(name, value string) ([]byte, error) {
 type WrapperCall func(params UnifiedParams) (string, error)
 
 func InitialKey(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf []byte
 	var err error
 
@@ -60,6 +64,10 @@ func InitialKey(params UnifiedParams) (string, error) {
 }
 
 func TransactionKey(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf []byte
 	var err error
 
@@ -76,6 +84,10 @@ func TransactionKey(params UnifiedParams) (string, error) {
 }
 
 func EncryptPin(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf []byte
 	var err error
 
@@ -92,6 +104,10 @@ func EncryptPin(params UnifiedParams) (string, error) {
 }
 
 func DecryptPin(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf string
 	var err error
 
@@ -108,6 +124,10 @@ func DecryptPin(params UnifiedParams) (string, error) {
 }
 
 func GenerateMac(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf []byte
 	var err error
 
@@ -131,6 +151,10 @@ func GenerateMac(params UnifiedParams) (string, error) {
 }
 
 func EncryptData(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf []byte
 
 	iv, err := decodeHexParam("initial vector", params.IV)
@@ -151,6 +175,10 @@ func EncryptData(params UnifiedParams) (string, error) {
 }
 
 func DecryptData(params UnifiedParams) (string, error) {
+	if err := params.ValidateAlgorithm(); err != nil {
+		return "", err
+	}
+
 	var buf string
 
 	iv, err := decodeHexParam("initial vector", params.IV)
-- 
2.43.0


From 64a93599ec4060d64efa13d853a8ef66b4ad42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 20/21] fix: report an unusable admin address instead of
 crashing on a nil admin server

---
 cmd/server/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index f920498..9d19ede 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -96,7 +96,11 @@ func main() {
 	}
 
 	// Admin server (metrics and debugging)
-	adminServer, _ := admin.New(admin.Opts{Addr: *adminAddr})
+	adminServer, err := admin.New(admin.Opts{Addr: *adminAddr})
+	if err != nil {
+		logger.LogError(fmt.Errorf("problem starting admin http: %v", err))
+		os.Exit(1)
+	}
 	adminServer.AddVersionHandler(dukpt.Version) // Setup 'GET /version'
 	go func() {
 		logger.Logf("admin listening on %s", adminServer.BindAddr())
-- 
2.43.0


From b1329ee8897205b6ace4d945bd8d66ddec10e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 21/21] fix: answer 404 for every unknown machine

The status of an error was chosen by searching its text, which repeats the
name in the URL: a request for a machine named 'invalid dukpt machine' that
does not exist was answered with 400.
---
 pkg/server/routing.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/server/routing.go b/pkg/server/routing.go
index 777a868..fb17a6c 100644
--- a/pkg/server/routing.go
+++ b/pkg/server/routing.go
@@ -247,14 +247,12 @@ func codeFrom(err error) int {
 		errString = el.Error()
 	}
 	switch {
+	// the text of an error may contain the name of an unknown machine, which is up to the client
+	case errors.Is(err, ErrNotFound):
+		return http.StatusNotFound
 	case
 		strings.Contains(errString, errInvalidMachine.Error()):
 		return http.StatusBadRequest
-	}
-
-	switch {
-	case errors.Is(err, ErrNotFound):
-		return http.StatusNotFound
 	case errors.Is(err, ErrAlreadyExists):
 		return http.StatusBadRequest
 	default:
-- 
2.43.0

