From c20574cc01a0340f8c4676e3dfb51864a9da9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 01/15] fix: refuse to derive a child below depth 255 instead
 of wrapping to depth 0

---
 bip32/bip32.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 4e3c220..6d16a71 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -72,6 +72,10 @@ var (
 	ErrInvalidPublicKey = errors.New("invalid public key")
 
 	ErrEmptyKey = errors.New("key is empty")
+
+	// ErrMaxDepthReached is returned when trying to create a child of a key
+	// whose depth is already 255, the largest depth that can be serialized
+	ErrMaxDepthReached = errors.New("can't create child of a key at the maximum depth")
 )
 
 // NewMasterKey creates a new master extended key from a seed
@@ -111,6 +115,9 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if !key.IsPrivate() && childIdx >= FirstHardenedChild {
 		return childKey, ErrHardenedChildPublicKey
 	}
+	if key[DepthStartIndex] == 0xff {
+		return childKey, ErrMaxDepthReached
+	}
 	intermediary, err := key.getIntermediary(childIdx)
 	if err != nil {
 		return childKey, err
-- 
2.43.0


From f81cd9220324a32839526fd2dfc0a540100f798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 02/15] fix: DeriveBIP32Result reports a failed derivation step
 instead of returning zero keys

---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 4e31e0f..838c200 100644
--- a/util/util.go
+++ b/util/util.go
@@ -116,7 +116,10 @@ func (g *Generator) DeriveBIP32Result(p bip32.Path) ([]KeyPath, error) {
 			if val >= bip32.FirstHardenedChild {
 				derivedPath += "'"
 			}
-			currentKey, _ = currentKey.NewChildKey(val)
+			currentKey, err = currentKey.NewChildKey(val)
+			if err != nil {
+				return nil, err
+			}
 			keyPaths = append(keyPaths, KeyPath{
 				Path: Path(derivedPath).Formatted(),
 				Key:  currentKey,
-- 
2.43.0


From 5b4301eb025f69e5e793ebdd1afa46173c06ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 03/15] fix: GenerateRange refuses a reversed range

---
 util/key_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 3795f01..a0254ba 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -77,7 +77,7 @@ func (k *KeyPathRange) GenerateRange() error {
 	startIndex := k.StartIndex
 	endIndex := k.EndIndex
 
-	if endIndex-startIndex < 1 {
+	if endIndex <= startIndex {
 		return ErrInvalidRangeProvided
 	}
 	if !k.Key.IsValid() {
-- 
2.43.0


From 8e209a04a9941b6f638fbaba3fb3820c4e1dde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 04/15] fix: GenerateRange reports a failed derivation step
 instead of returning zero keys

---
 util/key_path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index a0254ba..515812d 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -90,12 +90,16 @@ func (k *KeyPathRange) GenerateRange() error {
 	currentKey := k.Key
 	derivedPath := k.Path.String()
 	keyPaths := make([]KeyPath, 0)
+	var err error
 	for i := startIndex; i < endIndex; i++ {
 		derivedPath = fmt.Sprintf("%s/%d", derivedPath, i%bip32.FirstHardenedChild)
 		if i >= bip32.FirstHardenedChild {
 			derivedPath += "'"
 		}
-		currentKey, _ = currentKey.NewChildKey(i)
+		currentKey, err = currentKey.NewChildKey(i)
+		if err != nil {
+			return err
+		}
 		keyPaths = append(keyPaths, KeyPath{
 			Path: Path(derivedPath).Formatted(),
 			Key:  currentKey,
-- 
2.43.0


From a4d130cc18486b5921894a62b6309c856ded0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 05/15] fix: refuse path components that do not fit an index
 instead of truncating them

---
 bip32/path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip32/path.go b/bip32/path.go
index 691e40a..56fa218 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -3,6 +3,7 @@ package bip32
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -59,7 +60,7 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			if err != nil {
 				return pathArr, err
 			}
-			if uint32(val) >= FirstHardenedChild {
+			if uint64(val) >= uint64(FirstHardenedChild) {
 				return pathArr, ErrUnSupportedOrInvalidPath
 			}
 			pathArr = append(pathArr, uint32(val)+FirstHardenedChild)
@@ -68,6 +69,9 @@ func (p Path) ValuesAtDepth() ([]uint32, error) {
 			if err != nil {
 				return pathArr, err
 			}
+			if uint64(val) > math.MaxUint32 {
+				return pathArr, ErrUnSupportedOrInvalidPath
+			}
 			pathArr = append(pathArr, uint32(val))
 		}
 	}
-- 
2.43.0


From df8c5804560671e7650398a692e0b907f6c24eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 06/15] fix: do not truncate the number of path components when
 checking a depth

---
 bip32/path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/path.go b/bip32/path.go
index 56fa218..a4f530b 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -87,7 +87,7 @@ func (p Path) ValueAtDepth(b byte) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if !(b < byte(len(vals))) {
+	if !(int(b) < len(vals)) {
 		return 0, ErrUnSupportedOrInvalidPath
 	}
 	return vals[b], nil
@@ -98,7 +98,7 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	if err != nil {
 		return newPath, err
 	}
-	if !(b < byte(len(vals))) {
+	if !(int(b) < len(vals)) {
 		return newPath, ErrUnSupportedOrInvalidPath
 	}
 	valsArr := strings.Split(newPath.String(), "/")
-- 
2.43.0


From 61b35a83c59c328ed7a5116006111c24e2b7aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 07/15] fix: ReplaceValueAtDepth never returns a path that does
 not parse

---
 bip32/path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip32/path.go b/bip32/path.go
index a4f530b..4ce97a7 100644
--- a/bip32/path.go
+++ b/bip32/path.go
@@ -107,5 +107,9 @@ func (p Path) ReplaceValueAtDepth(b byte, val uint32) (Path, error) {
 	} else {
 		valsArr[b] = fmt.Sprintf("%d", val)
 	}
-	return Path(strings.Join(valsArr, "/")), nil
+	replaced := Path(strings.Join(valsArr, "/"))
+	if !replaced.IsValid() {
+		return newPath, ErrUnSupportedOrInvalidPath
+	}
+	return replaced, nil
 }
-- 
2.43.0


From b0052f3900d00c1ab265ee94475c20734a09c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 08/15] fix: size the checksummed mnemonic bytes by words, not
 by spaces

---
 bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index df29b82..be35dd8 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -216,7 +216,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice   = strings.Split(mnemonic, " ")
+		mnemonicSlice   = strings.Fields(mnemonic)
 		entropyBitSize  = len(mnemonicSlice) * 11
 		checksumBitSize = entropyBitSize % 32
 		fullByteSize    = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 55152002fe9aad262869dc432932533fc1844050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 09/15] fix: RootKeyFromSeed reports a seed without a valid
 master key

---
 util/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 838c200..a8c9bfe 100644
--- a/util/util.go
+++ b/util/util.go
@@ -62,7 +62,11 @@ func RootKeyFromSeed(seed string) (*bip32.Key, error) {
 	if len(seedBs) < 16 {
 		return rootKey, ErrInvalidBIP39Seed
 	}
-	rootKey, err = bip32.NewMasterKey(seedBs)
+	masterKey, err := bip32.NewMasterKey(seedBs)
+	if err != nil {
+		return rootKey, err
+	}
+	rootKey = masterKey
 	ser, err := rootKey.Serialize()
 	if err != nil {
 		return rootKey, err
-- 
2.43.0


From 4f28b17fdf5714d640bc5b856c4afd54d4326e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 10/15] fix: hash both point coordinates left-padded to 32
 bytes in AddrHex

---
 util/key_path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/key_path.go b/util/key_path.go
index 515812d..478a8a8 100644
--- a/util/key_path.go
+++ b/util/key_path.go
@@ -19,7 +19,9 @@ func (b KeyPath) AddrHex() string {
 		return ""
 	}
 	x, y := bip32.ExpandPublicKey(pbs)
-	addrBs := append(x.Bytes(), y.Bytes()...)
+	addrBs := make([]byte, 64)
+	x.FillBytes(addrBs[:32])
+	y.FillBytes(addrBs[32:])
 	kckHash := sha3.NewLegacyKeccak256()
 	kckHash.Write(addrBs)
 	return hex.EncodeToString(kckHash.Sum(nil)[12:])
-- 
2.43.0


From 2187af2e774aebe5f39dccd987c06068b4817261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 11/15] fix: do not write into the spare capacity of the
 caller's slice

---
 bip32/bip32.go | 2 +-
 bip32/utils.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 6d16a71..f25e533 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -301,7 +301,7 @@ func Deserialize(data []byte) (Key, error) {
 	if len(data) != 82 {
 		if len(data) < 82 {
 			exData := make([]byte, 82-len(data))
-			data = append(data, exData...)
+			data = append(data[:len(data):len(data)], exData...)
 		}
 		return Key(data[:78]), ErrSerializedKeyWrongSize
 	}
diff --git a/bip32/utils.go b/bip32/utils.go
index 9881523..7b50f34 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -48,7 +48,7 @@ func AddChecksumDblSha256ToBytes(data []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return append(data, checksum...), nil
+	return append(data[:len(data):len(data)], checksum...), nil
 }
 
 func ValidatePrivateKey(key PvtKeyBytes) error {
-- 
2.43.0


From c98444b282c51ee5b253bf022da8811a7b97213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 12/15] fix: Deserialize refuses key data that is not a valid
 private or public key

---
 bip32/bip32.go | 8 +++++++-
 bip32/utils.go | 8 ++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index f25e533..71198cb 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -316,7 +316,13 @@ func Deserialize(data []byte) (Key, error) {
 			return Key(data[:78]), ErrInvalidChecksum
 		}
 	}
-	return Key(data[:78]), nil
+	key := Key(data[:78])
+	if key.IsPrivate() {
+		err = ValidatePrivateKey(key.GetPvtKeyBytes())
+	} else {
+		err = validatePublicKey(key.GetKeyBytes())
+	}
+	return key, err
 }
 
 func (key *Key) SetVersionUint32(v uint32) {
diff --git a/bip32/utils.go b/bip32/utils.go
index 7b50f34..c460825 100644
--- a/bip32/utils.go
+++ b/bip32/utils.go
@@ -139,6 +139,14 @@ func validateChildPublicKey(key []byte) error {
 	return nil
 }
 
+// validatePublicKey checks that key is the compressed encoding of a curve point
+func validatePublicKey(key KeyBytes) error {
+	if _, err := secp256k1.ParsePubKey(key[:]); err != nil {
+		return ErrInvalidPublicKey
+	}
+	return nil
+}
+
 // Numerical
 func uint32Bytes(i uint32) []byte {
 	b := make([]byte, 4)
-- 
2.43.0


From 3470053546231496bfe9fcb6af6c7c5430d2fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 13/15] fix: refuse child indexes whose derivation left half is
 not in 1..n-1

---
 bip32/bip32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 71198cb..7c90777 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -122,6 +122,11 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 	if err != nil {
 		return childKey, err
 	}
+	// The left half has to be in 1..n-1
+	err = ValidatePrivateKey(PvtKeyBytes(intermediary[:32]))
+	if err != nil {
+		return childKey, err
+	}
 	vs := Version(key[VersionStartIndex:VersionEndIndex])
 	vsVal := binary.BigEndian.Uint32(vs[:])
 	hdBsArr, ok := PvtFlagToHDBytesSlice[vsVal]
-- 
2.43.0


From ca698467034ddcdbdf71c1c05670ade562c9b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 14/15] fix: refuse a public child that is the point at
 infinity

---
 bip32/bip32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bip32/bip32.go b/bip32/bip32.go
index 7c90777..a84e7ed 100644
--- a/bip32/bip32.go
+++ b/bip32/bip32.go
@@ -178,6 +178,11 @@ func (key *Key) NewChildKey(childIdx uint32) (Key, error) {
 		}
 		copy(childKey[FingerPrintStartIndex:FingerPrintEndIndex], fingerprint)
 		kbs := addPublicKeys(keyBytes, key[PubKeyStartIndex:])
+		// The sum must not be the point at infinity
+		err = validateChildPublicKey(kbs)
+		if err != nil {
+			return childKey, err
+		}
 		childKey.setPubKeyBytes(KeyBytes(kbs))
 	}
 	return childKey, nil
-- 
2.43.0


From 1d8d5c33d6cf8491e2904319860b5627ac6519f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 15/15] fix: NewEntropy reports a failing random source

---
 bip39/bip39.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bip39/bip39.go b/bip39/bip39.go
index be35dd8..188bf11 100644
--- a/bip39/bip39.go
+++ b/bip39/bip39.go
@@ -104,7 +104,9 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	_, _ = rand.Read(entropy) // err is always nil
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
 
 	return entropy, nil
 }
-- 
2.43.0

