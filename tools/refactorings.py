"""Behaviour-preserving edits of /repo (development corpus: the checks must stay quiet).
R(name, (file, old, new), ...)"""
REF = {}
def R(name, *edits): 
    assert name not in REF
    REF[name] = edits
PK,PB,MN,BT,UT,ST="private_key.go","public_key.go","mnemonic.go","btc.go","util.go","struct.go"

CW_OLD='''	hexa := hex.EncodeToString(bytes)
	checksum := hexa[len(hexa)-8 : len(hexa)]
	hexa = hexa[0 : len(hexa)-8]

	hexBytes, err := hex.DecodeString(hexa)
	if err != nil {
		return false
	}

	sha := sha256.New()
	sha.Write(hexBytes)
	hash := sha.Sum(nil)

	sha = sha256.New()
	sha.Write(hash)
	hash2 := sha.Sum(nil)

	hash2Hex := hex.EncodeToString(hash2)

	return hash2Hex[0:8] == checksum
'''
R("checkwif-sum256",(PK,CW_OLD,'''	payload, sum := bytes[:len(bytes)-4], bytes[len(bytes)-4:]
	first := sha256.Sum256(payload)
	second := sha256.Sum256(first[:])
	return hex.EncodeToString(second[:4]) == hex.EncodeToString(sum)
'''))
R("checkwif-loop-compare",(PK,CW_OLD,'''	n := len(bytes) - 4
	first := sha256.Sum256(bytes[:n])
	second := sha256.Sum256(first[:])
	for i := 0; i < 4; i++ {
		if bytes[n+i] != second[i] {
			return false
		}
	}
	return true
'''))
R("checkwif-bytes-equal",(PK,CW_OLD,'''	n := len(bytes) - 4
	first := sha256.Sum256(bytes[:n])
	second := sha256.Sum256(first[:])
	return stdbytes.Equal(second[:4], bytes[n:])
'''),(PK,'import (\n','import (\n\tstdbytes "bytes"\n'))
R("checkwif-bytes-compare-ok-flag",(PK,CW_OLD,'''	n := len(bytes) - 4
	first := sha256.Sum256(bytes[:n])
	second := sha256.Sum256(first[:])
	ok := true
	for i, c := range bytes[n:] {
		if second[i] != c {
			ok = false
		}
	}
	return ok
'''))
R("checkwif-binary",(PK,CW_OLD,'''	n := len(bytes) - 4
	first := sha256.Sum256(bytes[:n])
	second := sha256.Sum256(first[:])
	return binary.BigEndian.Uint32(second[:]) == binary.BigEndian.Uint32(bytes[n:])
'''),(PK,'	"encoding/hex"\n','	"encoding/binary"\n	"encoding/hex"\n'))
R("checkwif-helper",(PK,CW_OLD,'''	payload := bytes[:len(bytes)-4]
	return stdbytes.Equal(checksum4(payload), bytes[len(bytes)-4:])
'''),(PK,'import (\n','import (\n\tstdbytes "bytes"\n'),(PK,'// CheckWIF checks','''// checksum4 returns the first four bytes of the double hash
func checksum4(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:4]
}

// CheckWIF checks'''))
R("checkwif-hasprefix",(PK,'	return hash2Hex[0:8] == checksum\n','	return strings.HasPrefix(hash2Hex, checksum)\n'))
R("checkwif-merge-conditions",(PK,'''	if err != nil {
		return false
	}

	/* Too short to hold a checksum */
	if len(bytes) < 4 {
		return false
	}
''','''	if err != nil || len(bytes) <= 3 {
		return false
	}
'''))
R("checkwif-no-hex-roundtrip",(PK,'''	hexBytes, err := hex.DecodeString(hexa)
	if err != nil {
		return false
	}

	sha := sha256.New()
	sha.Write(hexBytes)
''','''	sha := sha256.New()
	sha.Write(bytes[:len(bytes)-4])
'''),(PK,'	hexa = hexa[0 : len(hexa)-8]\n\n	sha','	sha'))
R("fromhex-doublehash-helper",(PK,'''	sha := sha256.New()

	sha.Write(hexaB)
	hash := sha.Sum(nil)

	/* Compute double hash */
	sha = sha256.New()
	sha.Write(hash)
	doubleHashHex := sha.Sum(nil)
''','''	doubleHashHex := doubleSha(hexaB)
'''),(PK,'// PrivateFromHex imports','''func doubleSha(b []byte) []byte {
	for i := 0; i < 2; i++ {
		h := sha256.Sum256(b)
		b = h[:]
	}
	return b
}

// PrivateFromHex imports'''))
R("fromhex-append-bytes",(PK,'''	/* Convert to hex */
	checksum := hex.EncodeToString(doubleHashHex)
	/* Only take the first 4 bytes */
	checksum = checksum[0:8]

	/* Concat checksum to hexa */
	hexa += checksum

	hexaB, err = hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}

	wif := base58.Encode(hexaB)
''','''	wif := base58.Encode(append(hexaB, doubleHashHex[:4]...))
'''))
R("fromhex-len-first",(PK,'''	key, ok := new(big.Int).SetString(hexa, 16)
	/* A private key is a 32 bytes number between 1 and N-1 */
	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
''','''	if len(hexa) != 64 {
		return nil, errors.New("invalid private key length")
	}
	raw, err := hex.DecodeString(hexa)
	if err != nil {
		return nil, errors.New("invalid private key")
	}
	key := new(big.Int).SetBytes(raw)
	if key.Sign() == 0 || key.Cmp(secp256k1.N) != -1 {
		return nil, errors.New("private key out of range")
	}
'''))
R("fromhex-bitlen-sign",(PK,'key.Sign() <= 0 ||','key.BitLen() == 0 || key.Sign() == -1 ||'))
R("fromhex-cmp-one",(PK,'key.Sign() <= 0 ||','key.Cmp(big.NewInt(1)) < 0 ||'))
R("fromhex-nested-ifs",(PK,'''	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
	p.Key = key
''','''	if !ok {
		return nil, errors.New("invalid private key")
	}
	if len(hexa) != 64 {
		return nil, errors.New("invalid private key")
	}
	if !validScalar(key) {
		return nil, errors.New("invalid private key")
	}
	p.Key = key
'''),(PK,'// PrivateFromHex imports','''func validScalar(k *big.Int) bool {
	return k.Sign() > 0 && k.Cmp(secp256k1.N) < 0
}

// PrivateFromHex imports'''))
R("fromhex-digit-scan",(PK,'''	key, ok := new(big.Int).SetString(hexa, 16)
''','''	for i := 0; i < len(hexa); i++ {
		c := hexa[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return nil, errors.New("invalid private key")
		}
	}
	key, ok := new(big.Int).SetString(hexa, 16)
'''))
R("fromhex-literal",(PK,'''	p.WIF = wif
	p.Network = network
	return &p, nil
''','''	return &PrivateKey{Key: p.Key, Hex: p.Hex, WIF: wif, Network: network}, nil
'''))
R("fromhex-wif-func",(PK,'''	p.WIF = wif
	p.Network = network
	return &p, nil
''','''	p.Network, p.WIF = network, wif
	result := p
	return &result, nil
'''))
R("fromhex-buffer",(PK,'''	/* Convert to hex */
	checksum := hex.EncodeToString(doubleHashHex)
	/* Only take the first 4 bytes */
	checksum = checksum[0:8]

	/* Concat checksum to hexa */
	hexa += checksum

	hexaB, err = hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}
''','''	var buf bytes.Buffer
	buf.Write(hexaB)
	buf.Write(doubleHashHex[0:4])
	hexaB = buf.Bytes()
'''),(PK,'import (\n','import (\n\t"bytes"\n'))
R("fromhex-copy",(PK,'''	/* Convert to hex */
	checksum := hex.EncodeToString(doubleHashHex)
	/* Only take the first 4 bytes */
	checksum = checksum[0:8]

	/* Concat checksum to hexa */
	hexa += checksum

	hexaB, err = hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}
''','''	out := make([]byte, len(hexaB)+4)
	copy(out, hexaB)
	copy(out[len(hexaB):], doubleHashHex)
	hexaB = out
'''))
R("fromwif-bytes",(PK,'''	hexa := hex.EncodeToString(bytes)

	hexa = hexa[0 : len(hexa)-8]
''','''	hexa := hex.EncodeToString(bytes[:len(bytes)-4])
'''))
R("fromwif-trimprefix",(PK,'''	hexa = hexa[len(prefix):]

''','''	hexa = strings.TrimPrefix(hexa, prefix)

'''))
R("fromwif-inverted",(PK,'''	valid := CheckWIF(wif)
	if !valid {
		return nil, errors.New("wif invalid")
	}
''','''	if CheckWIF(wif) == false {
		return nil, errors.New("wif invalid")
	}
'''))
R("fromwif-switch",(PK,'''	if len(hexa) == 66 && hexa[64:] == "01" {
		hexa = hexa[:64]
	}
''','''	switch {
	case len(hexa) == 66 && strings.HasSuffix(hexa, "01"):
		hexa = strings.TrimSuffix(hexa, "01")
	}
'''))
R("fromwif-equalfold",(PK,'''	prefix := strings.ToLower(network.PrivKeyPrefix)
	if !strings.HasPrefix(hexa, prefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[len(prefix):]
''','''	n := len(network.PrivKeyPrefix)
	if len(hexa) < n || !strings.EqualFold(hexa[:n], network.PrivKeyPrefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[n:]
'''))
R("fromwif-bytes-prefix",(PK,'''	hexa := hex.EncodeToString(bytes)

	hexa = hexa[0 : len(hexa)-8]

	/* The network byte must be the one of the requested network */
	prefix := strings.ToLower(network.PrivKeyPrefix)
	if !strings.HasPrefix(hexa, prefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[len(prefix):]

	/* Compressed keys are followed by a 01 byte */
	if len(hexa) == 66 && hexa[64:] == "01" {
		hexa = hexa[:64]
	}

	privateKey''','''	prefix, err := hex.DecodeString(network.PrivKeyPrefix)
	if err != nil {
		return nil, err
	}
	payload := bytes[:len(bytes)-4]
	if len(payload) < len(prefix) || hex.EncodeToString(payload[:len(prefix)]) != hex.EncodeToString(prefix) {
		return nil, errors.New("wif is for a different network")
	}
	payload = payload[len(prefix):]
	if len(payload) == 33 && payload[32] == 1 {
		payload = payload[:32]
	}
	hexa := hex.EncodeToString(payload)

	privateKey'''),(PK,'	"strings"\n',''))
R("gen-loop",(PK,'''	/* Generate a number between 1 and 2^256 */
	key := generateRandomBigInt()

	hexa := bigIntToHex(key)
	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
	privateKey, err := PrivateFromHex(hexa, network)
	if err != nil {
		return GeneratePrivateKey(network)
	}
	privateKey.Key = key

	return privateKey
''','''	for {
		key := generateRandomBigInt()
		hexa := bigIntToHex(key)
		if len(hexa) != 64 {
			continue
		}
		privateKey, err := PrivateFromHex(hexa, network)
		if err == nil {
			return privateKey
		}
	}
'''))
R("gen-loop2",(PK,'''	hexa := bigIntToHex(key)
	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
''','''	hexa := bigIntToHex(key)
	for len(hexa) != 64 {
		key = generateRandomBigInt()
		hexa = bigIntToHex(key)
	}
'''))
R("gen-bitlen",(PK,'''	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
	privateKey''','''	if key.BitLen() <= 252 {
		return GeneratePrivateKey(network)
	}
	privateKey'''))
R("gen-no-keyset",(PK,'	privateKey.Key = key\n\n','\n'))
R("gen-sub-one",(UT,'''	max, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140", 16)
''','''	max := new(big.Int).Sub(secp256k1.N, big.NewInt(1))
'''))
R("add-combine-helper",(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err
}
''','''	return combine(p1, p2, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) })
}

func combine(p1, p2 *PrivateKey, op func(a, b *big.Int) *big.Int) (*PrivateKey, error) {
	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}
	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}
	pKey := op(p1.Key, p2.Key)
	return PrivateFromHex(bigIntToHex64(pKey.Mod(pKey, secp256k1.N)), p1.Network)
}
'''))
R("add-network-deref",(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add(''','''	if *p1.Network != *p2.Network {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add('''))
R("add-network-fields",(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul(''','''	if !sameNetwork(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul('''),(ST,'// PrivateKey struct\n','''func sameNetwork(a, b *Network) bool {
	if a == b {
		return true
	}
	return a.PrivKeyPrefix == b.PrivKeyPrefix && a.PubKeyHashPrefix == b.PubKeyHashPrefix
}

// PrivateKey struct
'''))
R("add-checks-swapped",(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add(p1.Key, p2.Key)
''','''	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	if !reflect.DeepEqual(p2.Network, p1.Network) {
		return nil, errors.New("different network")
	}

	pKey := new(big.Int)
	pKey = pKey.Add(p2.Key, p1.Key)
'''))
R("add-cond-sub",(PK,'''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)
''','''	pKey = pKey.Add(p1.Key, p2.Key)
	if pKey.Cmp(secp256k1.N) >= 0 {
		pKey.Sub(pKey, secp256k1.N)
	}
'''))
R("mul-rem",(PK,'''	pKey = pKey.Mul(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)
''','''	pKey = pKey.Mul(p1.Key, p2.Key)
	pKey.Rem(pKey, secp256k1.N)
'''))
R("mul-divmod",(PK,'''	pKey = pKey.Mul(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)
''','''	pKey = pKey.Mul(p1.Key, p2.Key)
	_, pKey = new(big.Int).DivMod(pKey, secp256k1.N, new(big.Int))
'''))
R("add-explicit-err",(PK,'''	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err
}

// MultiplyPrivateKeys''','''	privateKey, err := PrivateFromHex(hexa, p1.Network)
	if err != nil {
		return nil, err
	}
	return privateKey, nil
}

// MultiplyPrivateKeys'''))
R("hex64-text-pad",(UT,'''	return fmt.Sprintf("%064x", n)
''','''	s := n.Text(16)
	for len(s) < 64 {
		s = "0" + s
	}
	return s
'''))
R("hex64-repeat",(UT,'''	return fmt.Sprintf("%064x", n)
''','''	s := bigIntToHex(n)
	if len(s) < 64 {
		s = strings.Repeat("0", 64-len(s)) + s
	}
	return s
'''),(UT,'	"math/big"\n','	"math/big"\n	"strings"\n'))
R("hex64-fillbytes",(UT,'''	return fmt.Sprintf("%064x", n)
''','''	buf := make([]byte, 32)
	n.FillBytes(buf)
	return hex.EncodeToString(buf)
'''),(UT,'	"fmt"\n','	"encoding/hex"\n	"fmt"\n'))
R("hex64-copy-bytes",(UT,'''	return fmt.Sprintf("%064x", n)
''','''	var buf [32]byte
	b := n.Bytes()
	copy(buf[32-len(b):], b)
	return hex.EncodeToString(buf[:])
'''),(UT,'	"fmt"\n','	"encoding/hex"\n	"fmt"\n'))
R("hex64-sprintf-x",(UT,'''	return fmt.Sprintf("%064x", n)
''','''	return fmt.Sprintf("%0*x", 2*32, n)
'''))
R("hex-text16",(UT,'''	return fmt.Sprintf("%x", n)
''','''	return n.Text(16)
'''),)
R("hex64-zeros-slice",(UT,'''	return fmt.Sprintf("%064x", n)
''','''	const zeros = "0000000000000000000000000000000000000000000000000000000000000000"
	s := zeros + n.Text(16)
	return s[len(s)-64:]
'''))
R("rand-bytes",(UT,'''	max, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140", 16)

	nBig, err := rand.Int(rand.Reader, max)
	if err != nil {
		panic(err)
	}
	return nBig
''','''	buf := make([]byte, 32)
	if _, err := rand.Read(buf); err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(buf)
'''))
R("rand-readfull",(UT,'''	max, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140", 16)

	nBig, err := rand.Int(rand.Reader, max)
	if err != nil {
		panic(err)
	}
	return nBig
''','''	var buf [32]byte
	if _, err := io.ReadFull(rand.Reader, buf[:]); err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(buf[:])
'''),(UT,'	"fmt"\n','	"fmt"\n	"io"\n'))
# ---- public keys
R("pub-isinf-const",(PB,'big.NewInt(-1)','new(big.Int).Neg(big.NewInt(1))'))
R("pub-parity-bit",(PB,'''		parity := new(big.Int)
		if prefix == "02" {
			parity.SetInt64(0)
		} else {
			parity.SetInt64(1)
		}

		/* If parity is not wrong, use negative value mod secp256k1.N */
		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
			y = secp256k1.MultMod(y, big.NewInt(-1))
		}

		publicKey.Y = y
''','''		odd := prefix == "03"
		if (y.Bit(0) == 1) != odd {
			y = new(big.Int).Sub(secp256k1.P, y)
		}
		publicKey.Y = y
'''))
R("pub-parity-uint",(PB,'''		parity := new(big.Int)
		if prefix == "02" {
			parity.SetInt64(0)
		} else {
			parity.SetInt64(1)
		}

		/* If parity is not wrong, use negative value mod secp256k1.N */
		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
''','''		parity := uint(0)
		if prefix == "03" {
			parity = 1
		}
		if y.Bit(0) != parity {
'''))
R("pub-parity-and",(PB,'''		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
''','''		yMod := new(big.Int).And(y, big.NewInt(1))
		if yMod.Cmp(parity) != 0 {
'''))
R("pub-switch-prefix",(PB,'''	if prefix == "04" && len(hexa) == 130 {''','''	isUncompressed := prefix == "04" && len(hexa) == 130
	if isUncompressed {'''))
R("pub-split-functions",(PB,'''		x := hexa[2:66]
		y := hexa[66:130]
		publicKey.X, _ = new(big.Int).SetString(x, 16)
		publicKey.Y, _ = new(big.Int).SetString(y, 16)

		if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
''','''		var okX, okY bool
		publicKey.X, okX = fieldElement(hexa[2:66])
		publicKey.Y, okY = fieldElement(hexa[66:])
		if !(okX && okY) {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
'''),(PB,'// PublicFromHex imports','''// fieldElement reads a number below P
func fieldElement(s string) (*big.Int, bool) {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return nil, false
	}
	return n, n.Cmp(secp256k1.P) < 0
}

// PublicFromHex imports'''))
R("pub-bytes",(PB,'''	if _, err := hex.DecodeString(hexa); err != nil {
		return nil, err
	}
	if len(hexa) != 66 && len(hexa) != 130 {
		return nil, errors.New("unsupported public key format")
	}

	prefix := hexa[0:2]

	if prefix == "04" && len(hexa) == 130 {
		/* Uncompressed */
		x := hexa[2:66]
		y := hexa[66:130]
		publicKey.X, _ = new(big.Int).SetString(x, 16)
		publicKey.Y, _ = new(big.Int).SetString(y, 16)
''','''	raw, err := hex.DecodeString(hexa)
	if err != nil {
		return nil, err
	}
	if len(raw) != 33 && len(raw) != 65 {
		return nil, errors.New("unsupported public key format")
	}

	prefix := hexa[0:2]

	if raw[0] == 4 && len(raw) == 65 {
		/* Uncompressed */
		publicKey.X = new(big.Int).SetBytes(raw[1:33])
		publicKey.Y = new(big.Int).SetBytes(raw[33:])
'''),(PB,'''		x := hexa[2:66]
		publicKey.X, _ = new(big.Int).SetString(x, 16)

''','''		publicKey.X = new(big.Int).SetBytes(raw[1:])

'''))
R("pub-early-return-literal",(PB,'''	var publicKey PublicKey
	publicKey.Network = network

	if _, err''','''	publicKey := PublicKey{Network: network}

	if _, err'''))
R("pub-oncurve-inline",(PB,'''		if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
''','''		lhs := new(big.Int).Exp(publicKey.Y, big.NewInt(2), secp256k1.P)
		rhs := new(big.Int).Exp(publicKey.X, big.NewInt(3), secp256k1.P)
		rhs.Add(rhs, secp256k1.B)
		rhs.Mod(rhs, secp256k1.P)
		if lhs.Cmp(rhs) != 0 {
'''))
R("pub-oncurve-inline-mul",(PB,'''		if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
''','''		y2 := new(big.Int).Mul(publicKey.Y, publicKey.Y)
		x3 := new(big.Int).Mul(publicKey.X, publicKey.X)
		x3.Mul(x3, publicKey.X)
		y2.Sub(y2, x3.Add(x3, secp256k1.B))
		if y2.Mod(y2, secp256k1.P).Sign() != 0 {
'''))
R("getpub-direct",(PB,'''	k := p.Key
	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0
	if inverse {
		k = new(big.Int).Sub(secp256k1.N, k)
	}
''','''	k := p.Key
	half := new(big.Int).Rsh(secp256k1.N, 1)
	inverse := k.Cmp(half) > 0
	if inverse {
		k = new(big.Int).Sub(secp256k1.N, k)
	}
'''))
R("getpub-special-n1",(PB,'''	k := p.Key
	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0
''','''	k := p.Key
	inverse := new(big.Int).Sub(secp256k1.N, big.NewInt(1)).Cmp(k) == 0
'''))
R("getpub-else",(PB,'''	publicKey.X = new(big.Int).Set(R.X)
	publicKey.Y = new(big.Int).Set(R.Y)
	if inverse {
		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
	}
''','''	publicKey.X = new(big.Int).Set(R.X)
	if inverse {
		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
	} else {
		publicKey.Y = new(big.Int).Set(R.Y)
	}
'''))
R("getpub-negmod",(PB,'''		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
''','''		publicKey.Y.Neg(publicKey.Y)
		publicKey.Y.Mod(publicKey.Y, secp256k1.P)
'''))
R("getpub-setbytes-copy",(PB,'''	publicKey.X = new(big.Int).Set(R.X)
''','''	publicKey.X = new(big.Int).SetBytes(R.X.Bytes())
'''))
R("format-hex64",(PB,'''	pXHex := bigIntToHex(p.X)
	pYHex := bigIntToHex(p.Y)

	/* Add 0's until hex is 64 or 32 bytes long whether key is compressed or not */
	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}
''','''	pXHex := bigIntToHex64(p.X)
	pYHex := bigIntToHex64(p.Y)
'''))
R("format-sprintf",(PB,'''	key := ""

	/* If hex length is not even, make it even by placing a 0 before */
	pXHex := bigIntToHex(p.X)
	pYHex := bigIntToHex(p.Y)

	/* Add 0's until hex is 64 or 32 bytes long whether key is compressed or not */
	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}

	if !compressed {
		key += "04"

		key += pXHex
		key += pYHex
	} else {
		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
		key += pXHex
	}
	return key
''','''	if compressed {
		return fmt.Sprintf("%02x%064x", 2+p.Y.Bit(0), p.X)
	}
	return fmt.Sprintf("04%064x%064x", p.X, p.Y)
'''),(PB,'	"errors"\n','	"errors"\n	"fmt"\n'))
R("format-bytes",(PB,'''	key := ""

	/* If hex length is not even, make it even by placing a 0 before */
	pXHex := bigIntToHex(p.X)
	pYHex := bigIntToHex(p.Y)

	/* Add 0's until hex is 64 or 32 bytes long whether key is compressed or not */
	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}

	if !compressed {
		key += "04"

		key += pXHex
		key += pYHex
	} else {
		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
		key += pXHex
	}
	return key
''','''	return hex.EncodeToString(p.serialize(compressed))
'''),(PB,'// Format returns','''func (p *PublicKey) serialize(compressed bool) []byte {
	out := make([]byte, 33, 65)
	p.X.FillBytes(out[1:33])
	if compressed {
		out[0] = 2 + byte(p.Y.Bit(0))
		return out
	}
	out[0] = 4
	return append(out, p.Y.FillBytes(make([]byte, 32))...)
}

// Format returns'''))
R("format-builder",(PB,'''	if !compressed {
		key += "04"

		key += pXHex
		key += pYHex
	} else {
		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
		key += pXHex
	}
	return key
''','''	var sb strings.Builder
	sb.WriteString(key)
	switch {
	case !compressed:
		sb.WriteString("04")
		sb.WriteString(pXHex)
		sb.WriteString(pYHex)
	case p.Y.Bit(0) == 0:
		sb.WriteString("02" + pXHex)
	default:
		sb.WriteString("03" + pXHex)
	}
	return sb.String()
'''),(PB,'	"reflect"\n','	"reflect"\n	"strings"\n'))
R("format-repeat",(PB,'''	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}
''','''	pXHex = strings.Repeat("0", 64-len(pXHex)) + pXHex
	pYHex = strings.Repeat("0", 64-len(pYHex)) + pYHex
'''),(PB,'	"reflect"\n','	"reflect"\n	"strings"\n'))
R("format-padhelper",(PB,'''	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}
''','''	pXHex = leftPad(pXHex, 64)
	pYHex = leftPad(pYHex, 64)
'''),(UT,'func bigIntToHex(','''func leftPad(s string, n int) string {
	for len(s) < n {
		s = "0" + s
	}
	return s
}

func bigIntToHex('''))
R("format-padhelper-counted",(PB,'''	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}
''','''	pXHex = leftPad(pXHex, 64)
	pYHex = leftPad(pYHex, 64)
'''),(UT,'func bigIntToHex(','''func leftPad(s string, n int) string {
	pad := ""
	for i := len(s); i < n; i++ {
		pad += "0"
	}
	return pad + s
}

func bigIntToHex('''))
R("format-padhelper-recursive",(PB,'''	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}
''','''	pXHex = leftPad(pXHex, 64)
	pYHex = leftPad(pYHex, 64)
'''),(UT,'func bigIntToHex(','''func leftPad(s string, n int) string {
	if len(s) >= n {
		return s
	}
	return leftPad("0"+s, n)
}

func bigIntToHex('''))
R("format-mod2",(PB,'if p.Y.Bit(0) == 0 {','if new(big.Int).Mod(p.Y, big.NewInt(2)).Sign() == 0 {'))
R("format-lazy-y",(PB,'''	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}

	if !compressed {
''','''	if !compressed {
		for len(pYHex) < 64 {
			pYHex = "0" + pYHex
		}
'''))
R("address-helper",(PB,'''	sha = sha256.New()
	sha.Write(bytes)
	/* Store it in hash */
	hash = sha.Sum(nil)

	/* Perform another sha256 hash on the previous sha256 hash */
	sha = sha256.New()
	sha.Write(hash)
	/* Store it in hash */
	hash = sha.Sum(nil)

	/* Convert double hash to hex */
	hexa = hex.EncodeToString(hash)

	/* Get checksum (4 first bytes of double hash) */
	checksum := hexa[0:8]

	/* Add to end of extendedRipemd*/
	extendedRipemd += checksum

	/* Convert to []byte */
	extendedRipeMd, err := hex.DecodeString(extendedRipemd)
	if err != nil {
		return "", err
	}

	/* Encode to base 58 */
	return base58.Encode(extendedRipeMd), nil
''','''	return base58Check(bytes), nil
'''),(PB,'// Address computes','''func base58Check(payload []byte) string {
	h1 := sha256.Sum256(payload)
	h2 := sha256.Sum256(h1[:])
	out := append([]byte{}, payload...)
	out = append(out, h2[:4]...)
	return base58.Encode(out)
}

// Address computes'''))
R("address-sha-reset",(PB,'''	sha = sha256.New()
	sha.Write(bytes)
	/* Store it in hash */
	hash = sha.Sum(nil)

	/* Perform another sha256 hash on the previous sha256 hash */
	sha = sha256.New()
	sha.Write(hash)
''','''	sha.Reset()
	sha.Write(bytes)
	/* Store it in hash */
	hash = sha.Sum(nil)

	/* Perform another sha256 hash on the previous sha256 hash */
	sha.Reset()
	sha.Write(hash)
'''))
R("address-sum-append",(PB,'''	hexa = hex.EncodeToString(ripemdHash)
	/* Add network byte */
	extendedRipemd := p.Network.PubKeyHashPrefix + hexa
''','''	extendedRipemd := strings.Join([]string{p.Network.PubKeyHashPrefix, hex.EncodeToString(ripemdHash)}, "")
'''),(PB,'	"reflect"\n','	"reflect"\n	"strings"\n'))
R("address-chunked-write",(PB,'''	sha := sha256.New()
	sha.Write(bytes)
''','''	sha := sha256.New()
	sha.Write(bytes[:1])
	sha.Write(bytes[1:])
'''))
R("addpub-sum-check",(PB,'''	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
''','''	if p1.X.Cmp(p2.X) == 0 && new(big.Int).Add(p1.Y, p2.Y).Cmp(secp256k1.P) == 0 {
'''))
R("addpub-literals",(PB,'''	point1 := ecdsa.Point{
		X: p1.X,
		Y: p1.Y,
	}
	point2 := ecdsa.Point{
		X: p2.X,
		Y: p2.Y,
	}

	r, onCurve := secp256k1.AddPoints(point1, point2)
''','''	r, onCurve := secp256k1.AddPoints(p2.point(), p1.point())
'''),(PB,'// AddPublicKeys merge','''func (p *PublicKey) point() ecdsa.Point {
	return ecdsa.Point{X: p.X, Y: p.Y}
}

// AddPublicKeys merge'''))
R("addpub-return",(PB,'''	publicKey := PublicKey{
		X:       r.X,
		Y:       r.Y,
		Network: p1.Network,
	}

	return &publicKey, nil
''','''	sum := new(PublicKey)
	sum.X, sum.Y = new(big.Int).Set(r.X), new(big.Int).Set(r.Y)
	sum.Network = p2.Network
	return sum, nil
'''))
# ---- globals
R("btc-fromhex-helper",(BT,'	secp256k1.A, _ = new(big.Int).SetString("0000000000000000000000000000000000000000000000000000000000000000", 16)\n	secp256k1.B, _ = new(big.Int).SetString("0000000000000000000000000000000000000000000000000000000000000007", 16)\n','	secp256k1.A = big.NewInt(0)\n	secp256k1.B = fromHex("07")\n'),(BT,'func init() {','''func fromHex(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("invalid constant " + s)
	}
	return n
}

func init() {'''))
R("btc-var-decl",(BT,'var MainNetwork *Network\n','var MainNetwork = &Network{PrivKeyPrefix: "80", PubKeyHashPrefix: "00"}\n'),(BT,'''	MainNetwork = &Network{
		PrivKeyPrefix:    "80",
		PubKeyHashPrefix: "00",
	}

''',''))
R("btc-lower-prefix",(BT,'"EF"','"ef"'),(BT,'"6F"','"6f"'))
R("btc-curve-func",(BT,'var secp256k1 ecdsa.Curve','var secp256k1 = newCurve()'),(BT,'func init() {\n','func newCurve() ecdsa.Curve {\n	var secp256k1 ecdsa.Curve\n'),(BT,'''	MainNetwork = &Network''','''	return secp256k1
}

func init() {
	MainNetwork = &Network'''))
R("struct-method",(ST,'// PrivateKey struct\n','''// IsMain reports whether n has the main network's parameters
func (n *Network) IsMain() bool {
	return n != nil && n.PrivKeyPrefix == "80" && n.PubKeyHashPrefix == "00"
}

// PrivateKey struct
'''))
# ---- mnemonic
R("seed-map",(MN,'''	binary := ""
	for _, word := range words {
		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
		if index < 0 {
			return nil, errors.New("invalid mnemonic")
		}
''','''	binary := ""
	for _, word := range words {
		index := wordIndex(wordlist, word)
		if index < 0 {
			return nil, errors.New("invalid mnemonic")
		}
'''),(MN,'// NewMnemonic generates','''func wordIndex(list Wordlist, word string) int {
	for i, w := range list {
		if w == word {
			return i
		}
	}
	return -1
}

// NewMnemonic generates'''))
R("seed-found-flag",(MN,'''		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
		if index < 0 {
''','''		index, found := 0, false
		for i := 0; i < len(wordlist) && !found; i++ {
			if wordlist[i] == word {
				index, found = i, true
			}
		}
		if !found {
'''))
R("seed-ok-method",(MN,'''		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
		if index < 0 {
''','''		index, ok := wordlist.find(word)
		if !ok {
'''),(MN,'// NewMnemonic generates','''func (l Wordlist) find(word string) (int, bool) {
	for i := range l {
		if l[i] == word {
			return i, true
		}
	}
	return 0, false
}

// NewMnemonic generates'''))
R("seed-sprintf-011b",(MN,'''		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
''','''		binary += fmt.Sprintf("%011b", index)
'''))
R("seed-formatint",(MN,'''		indexBinary := fmt.Sprintf("%b", index)
''','''		indexBinary := strconv.FormatInt(int64(index), 2)
'''),(MN,'	"math/big"\n','	"math/big"\n	"strconv"\n'))
R("seed-bits-loop",(MN,'''		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
''','''		for bit := 10; bit >= 0; bit-- {
			if index>>uint(bit)&1 == 1 {
				binary += "1"
			} else {
				binary += "0"
			}
		}
'''))
R("seed-bigint",(MN,'''	binary := ""
	for _, word := range words {''','''	all := new(big.Int)
	for _, word := range words {'''),(MN,'''		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
	}
''','''		all.Lsh(all, 11)
		all.Or(all, big.NewInt(int64(index)))
	}
'''),(MN,'''	checksumLength := len(binary) / 33
	entropyLength := len(binary) - checksumLength
	checksum := binary[entropyLength:]

	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return nil, err
	}

	sha := sha256.New()
	sha.Write(entropyBytes)
	hash := sha.Sum(nil)

	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))
	if hashBinary[:checksumLength] != checksum {
		return nil, errors.New("invalid checksum")
	}
''','''	checksumLength := uint(len(words) / 3)
	entropyLength := len(words)*11 - int(checksumLength)
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), checksumLength), big.NewInt(1))
	checksum := new(big.Int).And(all, mask)
	entropy := new(big.Int).Rsh(all, checksumLength)
	entropyBytes := entropy.FillBytes(make([]byte, entropyLength/8))

	hash := sha256.Sum256(entropyBytes)
	if int64(hash[0]>>(8-checksumLength)) != checksum.Int64() {
		return nil, errors.New("invalid checksum")
	}
'''),(MN,'	"encoding/hex"\n','	"encoding/hex"\n'))
R("seed-modulo-count",(MN,'''	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, errors.New("unsupported mnemonic length")
	}
''','''	if len(words)%3 != 0 || len(words) < 12 || len(words) > 24 {
		return nil, errors.New("unsupported mnemonic length")
	}
'''))
R("seed-fillbytes",(MN,'''	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return nil, err
	}
''','''	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes := entropy.FillBytes(make([]byte, entropyLength/8))
'''))
R("seed-parse-bytes",(MN,'''	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return nil, err
	}
''','''	entropyBytes := make([]byte, 0, entropyLength/8)
	for i := 0; i < entropyLength; i += 8 {
		b, err := strconv.ParseUint(binary[i:i+8], 2, 8)
		if err != nil {
			return nil, err
		}
		entropyBytes = append(entropyBytes, byte(b))
	}
'''),(MN,'	"math/big"\n','	"math/big"\n	"strconv"\n'))
R("seed-hash-byte",(MN,'''	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))
	if hashBinary[:checksumLength] != checksum {
''','''	if fmt.Sprintf("%08b", hash[0])[:checksumLength] != checksum {
'''))
R("seed-hasprefix",(MN,'''	if hashBinary[:checksumLength] != checksum {
''','''	if !strings.HasPrefix(hashBinary, checksum) {
'''))
R("seed-salt-var",(MN,'''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
''','''	const salt = "mnemonic"
	seed := pbkdf2.Key([]byte(mnemonic), append([]byte(salt), passphrase...), 1<<11, sha512.Size, sha512.New)
	return seed, nil
'''))
R("seed-join-words",(MN,'''pbkdf2.Key([]byte(mnemonic),''','''pbkdf2.Key([]byte(strings.Join(words, " ")),'''))
R("seed-validate-split",(MN,'''func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
	if''','''func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
	if _, err := validate(mnemonic, wordlist); err != nil {
		return nil, err
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
}

// validate returns the entropy of a mnemonic
func validate(mnemonic string, wordlist Wordlist) ([]byte, error) {
	if'''),(MN,'''		return nil, errors.New("invalid checksum")
	}

	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
''','''		return nil, errors.New("invalid checksum")
	}

	return entropyBytes, nil
'''))
R("mn-switch-arith",(MN,'''	var entropyLength int
	switch words {
	case 12:
		entropyLength = 128
		break
	case 15:
		entropyLength = 160
		break
	case 18:
		entropyLength = 192
		break
	case 21:
		entropyLength = 224
		break
	case 24:
		entropyLength = 256
		break
	default:
		return "", errors.New("unsupported mnemonic length")
	}
''','''	if words < 12 || words > 24 || words%3 != 0 {
		return "", errors.New("unsupported mnemonic length")
	}
	entropyLength := words * 32 / 3
'''))
R("mn-table",(MN,'''	var entropyLength int
	switch words {
	case 12:
		entropyLength = 128
		break
	case 15:
		entropyLength = 160
		break
	case 18:
		entropyLength = 192
		break
	case 21:
		entropyLength = 224
		break
	case 24:
		entropyLength = 256
		break
	default:
		return "", errors.New("unsupported mnemonic length")
	}
''','''	entropyLength, ok := entropyLengths[words]
	if !ok {
		return "", errors.New("unsupported mnemonic length")
	}
'''),(MN,'// NewMnemonic generates','''var entropyLengths = map[int]int{12: 128, 15: 160, 18: 192, 21: 224, 24: 256}

// NewMnemonic generates'''))
R("mn-lsh",(MN,'''	np256 := big.NewInt(2)
	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)
''','''	np256 := new(big.Int).Lsh(big.NewInt(1), uint(entropyLength))
'''))
R("mn-randbytes",(MN,'''	np256 := big.NewInt(2)
	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)
	entropy, err := rand.Int(rand.Reader, np256)
	if err != nil {
		return "", err
	}

	/* Leading zeros are part of the entropy */
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return "", err
	}
''','''	entropyBytes := make([]byte, entropyLength/8)
	if _, err := rand.Read(entropyBytes); err != nil {
		return "", err
	}
	entropy := new(big.Int).SetBytes(entropyBytes)
'''))
R("mn-fillbytes",(MN,'''	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return "", err
	}

	sha := sha256.New()
	sha.Write(entropyBytes)
	hash := sha.Sum(nil)

	checksumLength''','''	entropyBytes := entropy.FillBytes(make([]byte, entropyLength/8))

	sum := sha256.Sum256(entropyBytes)
	hash := sum[:]

	checksumLength'''))
MNL='''	var phrase []string
	for i := 0; i < len(b); i += 11 {
		str := ""
		for j := i; j-i < 11; j++ {
			/* Most significant bit first */
			if binary.Bit(len(b)-1-j) == 0 {
				str += "0"
			} else {
				str += "1"
			}
		}
		n, _ := new(big.Int).SetString(str, 2)
		phrase = append(phrase, wordlist[n.Int64()])
	}
'''
R("mn-slice-words",(MN,'	binary, _ := new(big.Int).SetString(b, 2)\n\n',''),(MN,MNL,'''	phrase := make([]string, 0, words)
	for i := 0; i < len(b); i += 11 {
		n, _ := strconv.ParseInt(b[i:i+11], 2, 64)
		phrase = append(phrase, wordlist[n])
	}
'''),(MN,'	"math/big"\n','	"math/big"\n	"strconv"\n'))
R("mn-shift-mask",(MN,MNL,'''	phrase := make([]string, words)
	mask := big.NewInt(2047)
	for i := words - 1; i >= 0; i-- {
		phrase[i] = wordlist[new(big.Int).And(binary, mask).Int64()]
		binary.Rsh(binary, 11)
	}
'''))
R("mn-divmod",(MN,MNL,'''	phrase := make([]string, words)
	m, base := new(big.Int), big.NewInt(2048)
	for i := words - 1; i >= 0; i-- {
		binary.DivMod(binary, base, m)
		phrase[i] = wordlist[m.Int64()]
	}
'''))
R("mn-concat-int",(MN,'''	hashInt := new(big.Int).SetBytes(hash)

	hashBinary := fmt.Sprintf("%0256b", hashInt)
	checksumBinary := hashBinary[0:checksumLength]

	b := fmt.Sprintf("%b", entropy)

	for len(b) < entropyLength {
		b = "0" + b
	}

	b = b + checksumBinary
	binary, _ := new(big.Int).SetString(b, 2)

''','''	binary := new(big.Int).Lsh(entropy, uint(checksumLength))
	binary.Or(binary, big.NewInt(int64(hash[0]>>uint(8-checksumLength))))

'''),(MN,MNL,'''	phrase := make([]string, words)
	for i := range phrase {
		n := new(big.Int).Rsh(binary, uint(11*(words-1-i)))
		phrase[i] = wordlist[n.And(n, big.NewInt(2047)).Uint64()]
	}
'''))
R("mn-bit-accum",(MN,MNL,'''	var phrase []string
	for i := 0; i < words; i++ {
		n := 0
		for j := 0; j < 11; j++ {
			n = n<<1 | int(binary.Bit(len(b)-1-(i*11+j)))
		}
		phrase = append(phrase, wordlist[n])
	}
'''))
R("mn-string-build",(MN,'	var phrase []string\n','	phrase := ""\n'),(MN,'		phrase = append(phrase, wordlist[n.Int64()])\n','''		if i > 0 {
			phrase += " "
		}
		phrase += wordlist[n.Int64()]
'''),(MN,'	return strings.Join(phrase, " "), nil\n','	return phrase, nil\n'))
R("mn-sprintf-pad",(MN,'''	b := fmt.Sprintf("%b", entropy)

	for len(b) < entropyLength {
		b = "0" + b
	}

''','''	b := fmt.Sprintf("%0*b", entropyLength, entropy)

'''))
R("mn-bytes-binary",(MN,'''	b := fmt.Sprintf("%b", entropy)

	for len(b) < entropyLength {
		b = "0" + b
	}

''','''	b := ""
	for _, c := range entropyBytes {
		b += fmt.Sprintf("%08b", c)
	}

'''))
R("mn-checksum-byte",(MN,'''	hashInt := new(big.Int).SetBytes(hash)

	hashBinary := fmt.Sprintf("%0256b", hashInt)
	checksumBinary := hashBinary[0:checksumLength]
''','''	checksumBinary := fmt.Sprintf("%08b", hash[0])[:checksumLength]
'''))
R("mn-helper-checksum",(MN,'''	hashInt := new(big.Int).SetBytes(hash)

	hashBinary := fmt.Sprintf("%0256b", hashInt)
	checksumBinary := hashBinary[0:checksumLength]
''','''	checksumBinary := bits(hash, checksumLength)
'''),(MN,'// NewMnemonic generates','''// bits returns the first n bits of b
func bits(b []byte, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		if b[i/8]&(1<<uint(7-i%8)) != 0 {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

// NewMnemonic generates'''))
R("mn-wordlist-check-order",(MN,'''	if len(wordlist) != 2048 {
		return "", errors.New("invalid wordlist")
	}

	var entropyLength int
''','''	var entropyLength int
'''),(MN,'''	/* Generate entropy */
''','''	if n := len(wordlist); n < 2048 || n > 2048 {
		return "", errors.New("invalid wordlist")
	}

	/* Generate entropy */
'''))
R("mn-const-size",(MN,'''	if len(wordlist) != 2048 {
		return "", errors.New("invalid wordlist")
	}
''','''	if len(wordlist) != wordCount {
		return "", errWordlist
	}
'''),(MN,'// NewSeedFromMnemonic checks','''const wordCount = 1 << 11

var errWordlist = errors.New("invalid wordlist")

// NewSeedFromMnemonic checks'''))
R("err-fmt",(MN,'errors.New("unsupported mnemonic length")\n	}\n\n	/* Generate','fmt.Errorf("unsupported mnemonic length: %d", words)\n	}\n\n	/* Generate'),(PK,'errors.New("wif invalid")','fmt.Errorf("wif invalid")'),(PK,'	"errors"\n','	"errors"\n	"fmt"\n'))
R("err-sentinels",(PB,'errors.New("point is not on secp256k1 curve")','errNotOnCurve'),(PB,'errors.New("point is not on curve")','errNotOnCurve'),(PB,'// PublicFromHex imports','var errNotOnCurve = errors.New("point is not on the curve")\n\n// PublicFromHex imports'))
R("named-results",(PK,'func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {\n','func PrivateFromWIF(wif string, network *Network) (key *PrivateKey, err error) {\n'),(PK,'''	bytes, err := base58.Decode(wif)
	if err != nil {
		return nil, err
	}

	hexa := hex''','''	var bytes []byte
	if bytes, err = base58.Decode(wif); err != nil {
		return
	}

	hexa := hex'''))
R("wif-decode-once",(PK,'''	valid := CheckWIF(wif)
	if !valid {
		return nil, errors.New("wif invalid")
	}

	bytes, err := base58.Decode(wif)
	if err != nil {
		return nil, err
	}

	hexa := hex.EncodeToString(bytes)

	hexa = hexa[0 : len(hexa)-8]
''','''	payload, ok := decodeCheck(wif)
	if !ok {
		return nil, errors.New("wif invalid")
	}
	hexa := hex.EncodeToString(payload)
'''),(PK,'// PrivateFromWIF imports','''func decodeCheck(s string) ([]byte, bool) {
	b, err := base58.Decode(s)
	if err != nil || len(b) < 4 {
		return nil, false
	}
	cut := len(b) - 4
	h := sha256.Sum256(b[:cut])
	h = sha256.Sum256(h[:])
	var sum [4]byte
	copy(sum[:], b[cut:])
	var want [4]byte
	copy(want[:], h[:])
	return b[:cut], sum == want
}

// PrivateFromWIF imports'''))
