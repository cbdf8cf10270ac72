From c678bd586bc3a8200d5896a8c13f5d10b95c8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 01/14] fix: CheckWIF panicked on strings that decode to fewer
 than 4 bytes

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..a5f851e 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* Too short to hold a checksum */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From 2cacf10151ab5bf06503158d6db2f24720e16ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 02/14] fix: PrivateFromHex accepted short, long and out of
 range keys

---
 private_key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/private_key.go b/private_key.go
index a5f851e..a51ac56 100644
--- a/private_key.go
+++ b/private_key.go
@@ -76,7 +76,12 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
 	var p PrivateKey
-	p.Key, _ = new(big.Int).SetString(hexa, 16)
+	key, ok := new(big.Int).SetString(hexa, 16)
+	/* A private key is a 32 bytes number between 1 and N-1 */
+	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
+		return nil, errors.New("invalid private key")
+	}
+	p.Key = key
 	p.Hex = hexa
 	/* Add network byte to the hex value */
 	hexa = network.PrivKeyPrefix + hexa
-- 
2.43.0


From cb191e3ac74a16140ccad96c2c2e92c9e6825623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 03/14] fix: PrivateFromWIF ignored the network byte, the key
 length and the compression flag

---
 private_key.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/private_key.go b/private_key.go
index a51ac56..77c811e 100644
--- a/private_key.go
+++ b/private_key.go
@@ -60,16 +60,27 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
-	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
-	var privateKey PrivateKey
+	/* The network byte must be the one of the requested network */
+	prefix := strings.ToLower(network.PrivKeyPrefix)
+	if !strings.HasPrefix(hexa, prefix) {
+		return nil, errors.New("wif is for a different network")
+	}
+	hexa = hexa[len(prefix):]
+
+	/* Compressed keys are followed by a 01 byte */
+	if len(hexa) == 66 && hexa[64:] == "01" {
+		hexa = hexa[:64]
+	}
+
+	privateKey, err := PrivateFromHex(hexa, network)
+	if err != nil {
+		return nil, err
+	}
 	privateKey.WIF = wif
-	privateKey.Hex = hexa
-	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
-	privateKey.Network = network
 
-	return &privateKey, nil
+	return privateKey, nil
 }
 
 // PrivateFromHex imports a private key from its hex value
-- 
2.43.0


From b63be1e6d2dec95cfd8feea3a4ea0c01908dc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 04/14] fix: sums and products of private keys with leading
 zeros were refused or malformed

---
 private_key.go | 4 ++--
 util.go        | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index 77c811e..de8b94f 100644
--- a/private_key.go
+++ b/private_key.go
@@ -168,7 +168,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Add(p1.Key, p2.Key)
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
-	hexa := bigIntToHex(pKey)
+	hexa := bigIntToHex64(pKey)
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -189,7 +189,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mul(p1.Key, p2.Key)
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
-	hexa := bigIntToHex(pKey)
+	hexa := bigIntToHex64(pKey)
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
diff --git a/util.go b/util.go
index 3b7fa9b..b41e150 100644
--- a/util.go
+++ b/util.go
@@ -19,3 +19,8 @@ func generateRandomBigInt() *big.Int {
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
+
+// bigIntToHex64 returns the 32 bytes hex value of n
+func bigIntToHex64(n *big.Int) string {
+	return fmt.Sprintf("%064x", n)
+}
-- 
2.43.0


From 38c023bbe03803b0b7fa7edad22bc0f4d3d627be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 05/14] fix: compare private keys by value, base58 is case
 sensitive

---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index de8b94f..3d9c959 100644
--- a/private_key.go
+++ b/private_key.go
@@ -160,7 +160,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -181,7 +181,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From dc167ee741066e1196b8bc1ab62d4bf278ff446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 06/14] fix: PublicFromHex panicked on malformed input and
 accepted points off the curve

---
 public_key.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..d72b3bc 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,19 +18,37 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+		if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("coordinates are not in the secp256k1 field")
+		}
+		if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 
+		if publicKey.X.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("coordinates are not in the secp256k1 field")
+		}
+
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
-- 
2.43.0


From a1c941987df1a334f84b9d7f98191d8173348042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 07/14] fix: PublicFromHex wrote to the shared curve parameters
 (data race)

---
 public_key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index d72b3bc..1259cf2 100644
--- a/public_key.go
+++ b/public_key.go
@@ -49,7 +49,10 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 			return nil, errors.New("coordinates are not in the secp256k1 field")
 		}
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY writes to the A coefficient of the curve, use a copy */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0


From 936c0ac444d2af16c5c4117e3ff5c35223dfb256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 08/14] fix: AddPublicKeys ended the process when adding a key
 and its inverse

---
 public_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/public_key.go b/public_key.go
index 1259cf2..31dbca8 100644
--- a/public_key.go
+++ b/public_key.go
@@ -192,6 +192,11 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		return nil, errors.New("different network")
 	}
 
+	/* The sum of a point and its inverse is the point at infinity */
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("sum is the point at infinity")
+	}
+
 	point1 := ecdsa.Point{
 		X: p1.X,
 		Y: p1.Y,
-- 
2.43.0


From 5cd7a1d9cc6de42d2b979bca51eadf7b67151dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 09/14] fix: GetPublicKey ended the process for the private key
 N-1

---
 public_key.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 31dbca8..9960dd0 100644
--- a/public_key.go
+++ b/public_key.go
@@ -81,12 +81,27 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if p.Key == nil || p.Key.Sign() <= 0 || p.Key.Cmp(secp256k1.N) >= 0 {
+		return nil, false
+	}
+
+	/* ScalarMult cannot pass through the point at infinity, as it would for N-1:
+	multiply by the smallest of k and N-k, (N-k)G being the inverse of kG */
+	k := p.Key
+	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0
+	if inverse {
+		k = new(big.Int).Sub(secp256k1.N, k)
+	}
+
+	R, valid := secp256k1.ScalarMult(k, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
 	publicKey.X = R.X
 	publicKey.Y = R.Y
+	if inverse {
+		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From a4202a5f84bf97b9efc5827101e5df1d6827de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 10/14] fix: the public key of 1 shared its coordinates with
 the generator

---
 public_key.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 9960dd0..58a3d77 100644
--- a/public_key.go
+++ b/public_key.go
@@ -97,8 +97,9 @@ func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* R may share its coordinates with the generator */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
 	if inverse {
 		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
 	}
-- 
2.43.0


From 3732d1243b463a6662c6e2d8a206a343714ace69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 11/14] fix: NewSeedFromMnemonic logged the entropy of the
 mnemonic

---
 mnemonic.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..495c998 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -6,7 +6,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
 )
@@ -41,7 +40,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		for j := i; j-i < 4; j++ {
 			n += string(binary[j])
 		}
-		log.Println(n)
 		nInt, _ := new(big.Int).SetString(n, 2)
 		hexa := bigIntToHex(nInt)
 		hash += hexa
@@ -68,8 +66,6 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
 	return nil, nil
 }
 
-- 
2.43.0


From cf1cbb8385e01fae5cf24b4f68d3adb6d5c6fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 12/14] fix: NewMnemonic returned mnemonics with an invalid
 checksum

---
 mnemonic.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 495c998..d75fd08 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -72,7 +72,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) != 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
@@ -105,15 +105,21 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 		return "", err
 	}
 
+	/* Leading zeros are part of the entropy */
+	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
+	if err != nil {
+		return "", err
+	}
+
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
 
 	hashInt := new(big.Int).SetBytes(hash)
 
-	hashBinary := fmt.Sprintf("%b", hashInt)
+	hashBinary := fmt.Sprintf("%0256b", hashInt)
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -129,7 +135,8 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	for i := 0; i < len(b); i += 11 {
 		str := ""
 		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
+			/* Most significant bit first */
+			if binary.Bit(len(b)-1-j) == 0 {
 				str += "0"
 			} else {
 				str += "1"
-- 
2.43.0


From f6bdd4047de9e266175efc03001bd47a626331d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 13/14] fix: NewSeedFromMnemonic panicked or failed on valid
 mnemonics of other lengths than 24

---
 mnemonic.go | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index d75fd08..44092e6 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -12,7 +12,17 @@ import (
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
+	if len(wordlist) != 2048 {
+		return nil, errors.New("invalid wordlist")
+	}
+
 	words := strings.Split(mnemonic, " ")
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
+	}
+
 	binary := ""
 	for _, word := range words {
 		index := -1
@@ -34,35 +44,23 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
-	hash := ""
-	for i := 0; i < len(binary); i += 4 {
-		n := ""
-		for j := i; j-i < 4; j++ {
-			n += string(binary[j])
-		}
-		nInt, _ := new(big.Int).SetString(n, 2)
-		hexa := bigIntToHex(nInt)
-		hash += hexa
-	}
-
-	checksum := hash[len(hash)-2 : len(hash)]
+	/* One bit of checksum for 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	entropyLength := len(binary) - checksumLength
+	checksum := binary[entropyLength:]
 
-	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
+	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
 	if err != nil {
 		return nil, err
 	}
-	sha.Write(decoded)
-	shaHash := sha.Sum(nil)
-
-	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
 
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
-	}
+	sha := sha256.New()
+	sha.Write(entropyBytes)
+	hash := sha.Sum(nil)
 
-	if shaHashHex[0:2] != checksum {
+	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))
+	if hashBinary[:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-- 
2.43.0


From 4ea587ebb7e05601691e3575a6c87972a171c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:32 +0000
Subject: [PATCH 14/14] fix: NewSeedFromMnemonic returned no seed

---
 mnemonic.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 44092e6..50faed5 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,14 +3,18 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
-// NewSeedFromMnemonic returns the hash of the mnemonic
+// NewSeedFromMnemonic checks the mnemonic and returns its BIP39 seed.
+// The mnemonic and the passphrase must be in Unicode NFKD form.
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
 	if len(wordlist) != 2048 {
 		return nil, errors.New("invalid wordlist")
@@ -64,7 +68,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0

