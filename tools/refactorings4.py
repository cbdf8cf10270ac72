"""Fourth corpus of behaviour-preserving edits: other idioms and library calls, larger rewrites.
R(name, (file, old, new), ...)"""
REF4 = {}
def R(name, *edits):
    assert name not in REF4
    REF4[name] = edits
PK,PB,MN,BT,UT,ST="private_key.go","public_key.go","mnemonic.go","btc.go","util.go","struct.go"
SHA2='''	sha := sha256.New()
	sha.Write(hexBytes)
	hash := sha.Sum(nil)

	sha = sha256.New()
	sha.Write(hash)
	hash2 := sha.Sum(nil)

	hash2Hex := hex.EncodeToString(hash2)

	return hash2Hex[0:8] == checksum
'''
# the digest is computed through an interface and an array
R("wif-hash-interface",(PK,SHA2,'''	digest := hexBytes
	for round := 0; round < 2; round++ {
		var h hash.Hash = sha256.New()
		if _, err := h.Write(digest); err != nil {
			return false
		}
		digest = h.Sum(make([]byte, 0, sha256.Size))
	}

	return strings.EqualFold(hex.EncodeToString(digest[:4]), checksum)
'''),(PK,'	"errors"\n','	"errors"\n	"hash"\n'))
R("wif-io-writestring",(PK,SHA2,'''	sha := sha256.New()
	io.WriteString(sha, string(hexBytes))
	first := sha.Sum(nil)
	sha.Reset()
	io.Copy(sha, bytes2.NewReader(first))

	return hex.EncodeToString(sha.Sum(nil))[:8] == checksum
'''),(PK,'import (\n','import (\n	bytes2 "bytes"\n'),(PK,'	"errors"\n','	"errors"\n	"io"\n'))
R("wif-hex-encode-dst",(PK,SHA2,'''	first := sha256.Sum256(hexBytes)
	second := sha256.Sum256(first[:])
	var text [8]byte
	hex.Encode(text[:], second[:4])

	return string(text[:]) == checksum
'''))
R("wif-loop-index",(PK,SHA2,'''	first := sha256.Sum256(hexBytes)
	second := sha256.Sum256(first[:])
	for i, b := range bytes[len(bytes)-4:] {
		if second[i] != b {
			return false
		}
	}
	return checksum != ""
'''))
R("wif-goto",(PK,'''	bytes, err := base58.Decode(wif)
	if err != nil {
		return false
	}

	/* Too short to hold a checksum */
	if len(bytes) < 4 {
		return false
	}
''','''	bytes, err := base58.Decode(wif)
	switch {
	case err != nil, len(bytes) < 4:
		return false
	}
'''))
R("wif-struct",(PK,'''// CheckWIF checks''','''// checked is data followed by the first bytes of its double hash
type checked struct {
	data, sum []byte
}

func decodeChecked(text string) (c checked, err error) {
	raw, err := base58.Decode(text)
	if err != nil {
		return
	}
	n := len(raw) - 4
	if n < 0 {
		err = errors.New("too short")
		return
	}
	c.data, c.sum = raw[:n], raw[n:]
	return
}

func (c checked) valid() bool {
	first := sha256.Sum256(c.data)
	second := sha256.Sum256(first[:])
	return string(c.sum) == string(second[:len(c.sum)])
}

// CheckWIF checks'''),(PK,'''	bytes, err := base58.Decode(wif)
	if err != nil {
		return false
	}

	/* Too short to hold a checksum */
	if len(bytes) < 4 {
		return false
	}

	hexa := hex.EncodeToString(bytes)
	checksum := hexa[len(hexa)-8 : len(hexa)]
	hexa = hexa[0 : len(hexa)-8]

	hexBytes, err := hex.DecodeString(hexa)
	if err != nil {
		return false
	}

'''+SHA2,'''	c, err := decodeChecked(wif)
	return err == nil && c.valid()
'''),(PK,'''	valid := CheckWIF(wif)
	if !valid {
		return nil, errors.New("wif invalid")
	}

	bytes, err := base58.Decode(wif)
	if err != nil {
		return nil, err
	}

	hexa := hex.EncodeToString(bytes)

	hexa = hexa[0 : len(hexa)-8]
''','''	c, err := decodeChecked(wif)
	if err != nil || !c.valid() {
		return nil, errors.New("wif invalid")
	}

	hexa := hex.EncodeToString(c.data)
'''))
R("wif-decode-table",(PK,'''	if !strings.HasPrefix(hexa, prefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[len(prefix):]
''','''	if strings.Index(hexa, prefix) != 0 {
		return nil, errors.New("wif is for a different network")
	}
	hexa = strings.Replace(hexa, prefix, "", 1)
'''))
R("wif-prefix-compare",(PK,'''	prefix := strings.ToLower(network.PrivKeyPrefix)
	if !strings.HasPrefix(hexa, prefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[len(prefix):]
''','''	version, err := hex.DecodeString(network.PrivKeyPrefix)
	if err != nil {
		return nil, err
	}
	if len(bytes) < len(version)+4 || string(bytes[:len(version)]) != string(version) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hex.EncodeToString(bytes[len(version) : len(bytes)-4])
'''))
R("wif-compressed-suffix",(PK,'''	if len(hexa) == 66 && hexa[64:] == "01" {
		hexa = hexa[:64]
	}
''','''	if len(hexa) == 66 {
		hexa = strings.TrimSuffix(hexa, "01")
	}
'''))
R("fromhex-setbytes",(PK,'''	key, ok := new(big.Int).SetString(hexa, 16)
	/* A private key is a 32 bytes number between 1 and N-1 */
	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
''','''	raw, err := hex.DecodeString(hexa)
	if err != nil || len(raw) != 32 {
		return nil, errors.New("invalid private key")
	}
	key := new(big.Int).SetBytes(raw)
	/* A private key is a 32 bytes number between 1 and N-1 */
	if key.BitLen() == 0 || !(key.Cmp(secp256k1.N) < 0) {
		return nil, errors.New("invalid private key")
	}
'''),(PK,'''	hexaB, err := hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}
	/* Compute first''','''	var hexaB []byte
	hexaB, err = hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}
	/* Compute first'''))
R("fromhex-order",(PK,'''	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
	p.Key = key
	p.Hex = hexa
''','''	switch {
	case len(hexa) != 64:
		return nil, errors.New("invalid private key length")
	case !ok:
		return nil, errors.New("private key is not hexadecimal")
	case key.Sign() <= 0, key.Cmp(secp256k1.N) >= 0:
		return nil, errors.New("private key out of range")
	}
	p = PrivateKey{Key: key, Hex: hexa, Network: network}
'''),(PK,'''	p.WIF = wif
	p.Network = network
	return &p, nil
''','''	p.WIF = wif
	return &p, nil
'''))
R("fromhex-make-copy",(PK,'''	hexa += checksum

	hexaB, err = hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}

	wif := base58.Encode(hexaB)
''','''	_ = checksum
	full := make([]byte, len(hexaB)+4)
	copy(full, hexaB)
	copy(full[len(hexaB):], doubleHashHex[:4])

	wif := base58.Encode(full)
'''))
R("fromhex-buffer-write",(PK,'''	hexa += checksum

	hexaB, err = hex.DecodeString(hexa)
	if err != nil {
		/* Retry */
		return nil, err
	}

	wif := base58.Encode(hexaB)
''','''	_ = checksum
	var buf bytes.Buffer
	buf.Grow(len(hexaB) + 4)
	buf.Write(hexaB)
	for _, b := range doubleHashHex[:4] {
		buf.WriteByte(b)
	}

	wif := base58.Encode(buf.Bytes())
'''),(PK,'import (\n','import (\n	"bytes"\n'),(PK,'''	bytes, err := base58.Decode(wif)
	if err != nil {
		return false
	}''','''	data, err := base58.Decode(wif)
	bytes := data
	if err != nil {
		return false
	}'''))
R("gen-label",(PK,'''	/* Generate a number between 1 and 2^256 */
	key := generateRandomBigInt()

	hexa := bigIntToHex(key)
	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
	privateKey, err := PrivateFromHex(hexa, network)
	if err != nil {
		return GeneratePrivateKey(network)
	}
	privateKey.Key = key

	return privateKey
''','''draw:
	key := generateRandomBigInt()
	hexa := bigIntToHex(key)
	if len(hexa) < 64 {
		goto draw
	}
	privateKey, err := PrivateFromHex(hexa, network)
	if err != nil {
		goto draw
	}
	return privateKey
'''))
R("gen-padded",(PK,'''	hexa := bigIntToHex(key)
	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
	privateKey, err''','''	hexa := bigIntToHex64(key)
	privateKey, err'''))
R("gen-for-cond",(PK,'''	/* Generate a number between 1 and 2^256 */
	key := generateRandomBigInt()

	hexa := bigIntToHex(key)
	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
	privateKey, err := PrivateFromHex(hexa, network)
	if err != nil {
		return GeneratePrivateKey(network)
	}
	privateKey.Key = key

	return privateKey
''','''	for {
		privateKey, err := PrivateFromHex(bigIntToHex(generateRandomBigInt()), network)
		if err == nil {
			return privateKey
		}
	}
'''))
R("gen-sign-loop",(PK,'''	key := generateRandomBigInt()
''','''	key := new(big.Int)
	for key.Sign() == 0 {
		key.Set(generateRandomBigInt())
	}
'''))
R("rand-nonzero",(UT,'''	max, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140", 16)

	nBig, err := rand.Int(rand.Reader, max)
	if err != nil {
		panic(err)
	}
	return nBig
''','''	max := new(big.Int).Sub(secp256k1.N, big.NewInt(1))

	for {
		nBig, err := rand.Int(rand.Reader, max)
		if err != nil {
			panic("btc: " + err.Error())
		}
		if nBig.Sign() != 0 {
			return nBig
		}
	}
'''))
R("rand-must",(UT,'''	nBig, err := rand.Int(rand.Reader, max)
	if err != nil {
		panic(err)
	}
	return nBig
}
''','''	return must(rand.Int(rand.Reader, max))
}

func must(n *big.Int, err error) *big.Int {
	if err == nil {
		return n
	}
	panic(err)
}
'''))
COMB='''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err
'''
R("combine-table",(PK,COMB,'''	return merge(p1, p2, "add")
'''),(PK,COMB.replace('.Add(','.Mul('),'''	return merge(p1, p2, "multiply")
'''),(PK,'// AddPrivateKeys merge','''var operations = map[string]func(z, x, y *big.Int) *big.Int{
	"add":      (*big.Int).Add,
	"multiply": (*big.Int).Mul,
}

func merge(p1, p2 *PrivateKey, operation string) (*PrivateKey, error) {
	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}
	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}
	r := operations[operation](new(big.Int), p1.Key, p2.Key)
	return PrivateFromHex(bigIntToHex64(r.Mod(r, secp256k1.N)), p1.Network)
}

// AddPrivateKeys merge'''))
R("combine-interface",(PK,COMB,'''	return combineWith(adder{}, p1, p2)
'''),(PK,COMB.replace('.Add(','.Mul('),'''	return combineWith(multiplier{}, p1, p2)
'''),(PK,'// AddPrivateKeys merge','''type combiner interface {
	combine(a, b *big.Int) *big.Int
}

type adder struct{}

func (adder) combine(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

type multiplier struct{}

func (multiplier) combine(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

func combineWith(c combiner, p1, p2 *PrivateKey) (*PrivateKey, error) {
	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}
	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}
	r := c.combine(p1.Key, p2.Key)
	r.Mod(r, secp256k1.N)
	return PrivateFromHex(bigIntToHex64(r), p1.Network)
}

// AddPrivateKeys merge'''))
R("combine-checks",(PK,COMB,'''	if err := combinable(p1, p2); err != nil {
		return nil, err
	}
	sum := new(big.Int).Add(p1.Key, p2.Key)
	for sum.Cmp(secp256k1.N) >= 0 {
		sum.Sub(sum, secp256k1.N)
	}
	return PrivateFromHex(bigIntToHex64(sum), p1.Network)
'''),(PK,'// AddPrivateKeys merge','''var (
	errNetworks  = errors.New("different network")
	errIdentical = errors.New("private keys are identical")
)

func combinable(p1, p2 *PrivateKey) error {
	switch {
	case !reflect.DeepEqual(p1.Network, p2.Network):
		return errNetworks
	case p1.Key.Cmp(p2.Key) == 0:
		return errIdentical
	}
	return nil
}

// AddPrivateKeys merge'''))
R("hex64-format-text",(UT,'	return fmt.Sprintf("%064x", n)\n','''	text := n.Text(16)
	return strings.Repeat("0", 64-len(text)) + text
'''),(UT,'	"math/big"\n','	"math/big"\n	"strings"\n'))
R("hex64-append",(UT,'	return fmt.Sprintf("%064x", n)\n','''	digits := make([]byte, 0, 64)
	text := n.Text(16)
	for i := len(text); i < 64; i++ {
		digits = append(digits, '0')
	}
	return string(append(digits, text...))
'''))
R("hex64-slice-zeros",(UT,'	return fmt.Sprintf("%064x", n)\n','''	const zeros = "0000000000000000000000000000000000000000000000000000000000000000"
	text := zeros + bigIntToHex(n)
	return text[len(text)-64:]
'''))
PUBK='''	prefix := hexa[0:2]

	if prefix == "04" && len(hexa) == 130 {
		/* Uncompressed */
		x := hexa[2:66]
		y := hexa[66:130]
		publicKey.X, _ = new(big.Int).SetString(x, 16)
		publicKey.Y, _ = new(big.Int).SetString(y, 16)
'''
R("pub-setbytes",(PB,'''	if _, err := hex.DecodeString(hexa); err != nil {
		return nil, err
	}
''','''	raw, err := hex.DecodeString(hexa)
	if err != nil {
		return nil, err
	}
'''),(PB,PUBK,'''	prefix := hexa[0:2]

	if raw[0] == 4 && len(raw) == 65 {
		/* Uncompressed */
		publicKey.X = new(big.Int).SetBytes(raw[1:33])
		publicKey.Y = new(big.Int).SetBytes(raw[33:])
'''))
R("pub-bigint-whole",(PB,PUBK,'''	prefix := hexa[0:2]

	if prefix == "04" && len(hexa) == 130 {
		/* Uncompressed */
		both, _ := new(big.Int).SetString(hexa[2:], 16)
		publicKey.X = new(big.Int).Rsh(both, 256)
		publicKey.Y = new(big.Int).And(both, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
'''))
R("pub-parity-neg",(PB,'''		/* If parity is not wrong, use negative value mod secp256k1.N */
		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
			y = secp256k1.MultMod(y, big.NewInt(-1))
		}

		publicKey.Y = y
''','''		publicKey.Y = new(big.Int).Set(y)
		if int64(publicKey.Y.Bit(0)) != parity.Int64() {
			publicKey.Y.Neg(publicKey.Y)
			publicKey.Y.Mod(publicKey.Y, secp256k1.P)
		}
'''))
R("pub-candidates",(PB,'''		parity := new(big.Int)
		if prefix == "02" {
			parity.SetInt64(0)
		} else {
			parity.SetInt64(1)
		}

		/* If parity is not wrong, use negative value mod secp256k1.N */
		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
			y = secp256k1.MultMod(y, big.NewInt(-1))
		}

		publicKey.Y = y
''','''		odd := uint(0)
		if prefix == "03" {
			odd = 1
		}
		for _, candidate := range []*big.Int{y, new(big.Int).Sub(secp256k1.P, y)} {
			if candidate.Bit(0) == odd {
				publicKey.Y = candidate
				break
			}
		}
'''))
R("pub-legendre",(PB,'''		/* GetY writes to the A coefficient of the curve, use a copy */
		curve := secp256k1
		curve.A = new(big.Int).Set(secp256k1.A)
		y, onCurve := curve.GetY(publicKey.X)
		if !onCurve {
			return nil, errors.New("point is not on secp256k1 curve")
		}
''','''		square := new(big.Int).Exp(publicKey.X, big.NewInt(3), secp256k1.P)
		square.Add(square, secp256k1.B).Mod(square, secp256k1.P)
		exponent := new(big.Int).Add(secp256k1.P, big.NewInt(1))
		exponent.Rsh(exponent, 2)
		y := new(big.Int).Exp(square, exponent, secp256k1.P)
		if new(big.Int).Exp(y, big.NewInt(2), secp256k1.P).Cmp(square) != 0 {
			return nil, errors.New("point is not on secp256k1 curve")
		}
'''))
R("pub-reader",(PB,'''	if len(hexa) != 66 && len(hexa) != 130 {
		return nil, errors.New("unsupported public key format")
	}

	prefix := hexa[0:2]
''','''	var prefix string
	if size := len(hexa) / 2; size == 33 || size == 65 {
		prefix = hexa[:2]
	} else {
		return nil, errors.New("unsupported public key format")
	}
'''))
R("pub-oncurve-method",(PB,'''		if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
		if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
			return nil, errors.New("point is not on secp256k1 curve")
		}
''','''		if err := publicKey.validate(); err != nil {
			return nil, err
		}
'''),(PB,'// GetPublicKey returns','''func (p PublicKey) validate() error {
	for _, c := range [...]*big.Int{p.X, p.Y} {
		if c.Cmp(secp256k1.P) != -1 {
			return errors.New("coordinates are not in the secp256k1 field")
		}
	}
	if secp256k1.IsOnCurve(ecdsa.Point{p.X, p.Y}) {
		return nil
	}
	return errors.New("point is not on secp256k1 curve")
}

// GetPublicKey returns'''))
R("getpub-two-paths",(PB,'''	k := p.Key
	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0
	if inverse {
		k = new(big.Int).Sub(secp256k1.N, k)
	}

	R, valid := secp256k1.ScalarMult(k, secp256k1.G)
	if !valid {
		return nil, false
	}
	/* R may share its coordinates with the generator */
	publicKey.X = new(big.Int).Set(R.X)
	publicKey.Y = new(big.Int).Set(R.Y)
	if inverse {
		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
	}

	publicKey.Network = p.Network

	return &publicKey, true
''','''	half := new(big.Int).Rsh(secp256k1.N, 1)
	if p.Key.Cmp(half) <= 0 {
		R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
		if !valid {
			return nil, false
		}
		return &PublicKey{X: new(big.Int).Set(R.X), Y: new(big.Int).Set(R.Y), Network: p.Network}, true
	}

	R, valid := secp256k1.ScalarMult(new(big.Int).Sub(secp256k1.N, p.Key), secp256k1.G)
	if !valid {
		return nil, false
	}
	publicKey.X = new(big.Int).Add(R.X, new(big.Int))
	publicKey.Y = new(big.Int).Neg(R.Y)
	publicKey.Y.Add(publicKey.Y, secp256k1.P)
	publicKey.Network = p.Network

	return &publicKey, true
'''))
R("getpub-copy-helper",(PB,'''	publicKey.X = new(big.Int).Set(R.X)
	publicKey.Y = new(big.Int).Set(R.Y)
	if inverse {
		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
	}
''','''	publicKey.X, publicKey.Y = clone(R.X), clone(R.Y)
	if inverse {
		negate(publicKey.Y)
	}
'''),(PB,'// GetPublicKey returns','''func clone(n *big.Int) *big.Int { return new(big.Int).SetBytes(n.Bytes()) }

// negate replaces a coordinate by its opposite in the field
func negate(n *big.Int) {
	n.Sub(secp256k1.P, n).Mod(n, secp256k1.P)
}

// GetPublicKey returns'''))
FMT='''	key := ""

	/* If hex length is not even, make it even by placing a 0 before */
	pXHex := bigIntToHex(p.X)
	pYHex := bigIntToHex(p.Y)

	/* Add 0's until hex is 64 or 32 bytes long whether key is compressed or not */
	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}

	if !compressed {
		key += "04"

		key += pXHex
		key += pYHex
	} else {
		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
		key += pXHex
	}
	return key
'''
R("format-serialize",(PB,FMT,'''	return hex.EncodeToString(p.serialize(compressed))
'''),(PB,'// Format returns','''func (p *PublicKey) serialize(compressed bool) []byte {
	size := 65
	if compressed {
		size = 33
	}
	out := make([]byte, size)
	out[0] = 4
	x, y := p.X.Bytes(), p.Y.Bytes()
	copy(out[33-len(x):33], x)
	if compressed {
		out[0] = 2 + byte(p.Y.Bit(0))
	} else {
		copy(out[65-len(y):], y)
	}
	return out
}

// Format returns'''))
R("format-serialize-address",(PB,FMT,'''	return hex.EncodeToString(p.serialize(compressed))
'''),(PB,'// Format returns','''func (p *PublicKey) serialize(compressed bool) []byte {
	coordinates := []*big.Int{p.X}
	first := byte(0x04)
	switch {
	case !compressed:
		coordinates = append(coordinates, p.Y)
	case p.Y.Bit(0) == 1:
		first = 0x03
	default:
		first = 0x02
	}
	out := []byte{first}
	for _, c := range coordinates {
		var padded [32]byte
		b := c.Bytes()
		copy(padded[32-len(b):], b)
		out = append(out, padded[:]...)
	}
	return out
}

// Format returns'''),(PB,'''	hexa := p.Format(compressed)
	bytes, err := hex.DecodeString(hexa)
	if err != nil {
		return "", err
	}
''','''	bytes := p.serialize(compressed)
'''),(PB,'''	hexa = hex.EncodeToString(ripemdHash)
	/* Add network byte */''','''	hexa := hex.EncodeToString(ripemdHash)
	/* Add network byte */'''),(PB,'''	bytes, err = hex.DecodeString(extendedRipemd)''','''	bytes, err := hex.DecodeString(extendedRipemd)'''))
R("format-sprintf-cases",(PB,FMT,'''	switch {
	case !compressed:
		return fmt.Sprintf("04%064x%064x", p.X, p.Y)
	case p.Y.Bit(0) == 1:
		return fmt.Sprintf("03%064x", p.X)
	}
	return fmt.Sprintf("02%064x", p.X)
'''),(PB,'	"errors"\n','	"errors"\n	"fmt"\n'))
R("format-parity-text",(PB,'''		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
''','''		if strings.ContainsAny(pYHex[63:], "13579bdf") {
			key += "03"
		} else {
			key += "02"
		}
'''),(PB,'	"reflect"\n','	"reflect"\n	"strings"\n'))
R("address-pipeline",(PB,'''	/* First sha256 hashing */
	sha := sha256.New()
	sha.Write(bytes)
	/* Store it in hash */
	hash := sha.Sum(nil)

	/* Ripemd hash of the sha256 hash */
	ripemd := ripemd160.New()
	ripemd.Write(hash)
	/* Store it in ripemdHash */
	ripemdHash := ripemd.Sum(nil)
''','''	ripemdHash := bytes
	for _, h := range []hash.Hash{sha256.New(), ripemd160.New()} {
		h.Write(ripemdHash)
		ripemdHash = h.Sum(nil)
	}
'''),(PB,'''	hash = sha.Sum(nil)

	/* Perform another sha256 hash on the previous sha256 hash */
	sha = sha256.New()
	sha.Write(hash)
	/* Store it in hash */
	hash = sha.Sum(nil)

	/* Convert double hash to hex */
	hexa = hex.EncodeToString(hash)
''','''	digest := sha.Sum(nil)

	/* Perform another sha256 hash on the previous sha256 hash */
	sha.Reset()
	sha.Write(digest)
	/* Store it in hash */
	digest = sha.Sum(digest[:0])

	/* Convert double hash to hex */
	hexa = hex.EncodeToString(digest)
'''),(PB,'''	sha = sha256.New()
	sha.Write(bytes)
''','''	sha := sha256.New()
	sha.Write(bytes)
'''),(PB,'	"errors"\n','	"errors"\n	"hash"\n'))
R("address-bytes",(PB,'''	hexa = hex.EncodeToString(ripemdHash)
	/* Add network byte */
	extendedRipemd := p.Network.PubKeyHashPrefix + hexa

	/* Perform sha256 hash on the ripemdHash with the network byte */
	bytes, err = hex.DecodeString(extendedRipemd)
	if err != nil {
		return "", err
	}
''','''	version, err := hex.DecodeString(p.Network.PubKeyHashPrefix)
	if err != nil {
		return "", err
	}
	bytes = append(version, ripemdHash...)
	extendedRipemd := hex.EncodeToString(bytes)
'''))
R("address-args-sum",(PB,'''	/* Convert double hash to hex */
	hexa = hex.EncodeToString(hash)

	/* Get checksum (4 first bytes of double hash) */
	checksum := hexa[0:8]

	/* Add to end of extendedRipemd*/
	extendedRipemd += checksum

	/* Convert to []byte */
	extendedRipeMd, err := hex.DecodeString(extendedRipemd)
	if err != nil {
		return "", err
	}

	/* Encode to base 58 */
	return base58.Encode(extendedRipeMd), nil
''','''	payload := make([]byte, 0, len(bytes)+4)
	payload = append(payload, bytes...)
	payload = append(payload, hash[0], hash[1], hash[2], hash[3])
	return base58.Encode(payload), nil
'''))
R("addpub-inverse-sum",(PB,'''	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
		return nil, errors.New("sum is the point at infinity")
	}
''','''	if p1.X.Cmp(p2.X) == 0 {
		if sum := new(big.Int).Add(p1.Y, p2.Y); sum.Mod(sum, secp256k1.P).Sign() == 0 {
			return nil, errors.New("sum is the point at infinity")
		}
	}
'''))
R("addpub-affine",(PB,'''	point1 := ecdsa.Point{
		X: p1.X,
		Y: p1.Y,
	}
	point2 := ecdsa.Point{
		X: p2.X,
		Y: p2.Y,
	}

	r, onCurve := secp256k1.AddPoints(point1, point2)
	if !onCurve {
		return nil, errors.New("point is not on curve")
	}
	publicKey := PublicKey{
		X:       r.X,
		Y:       r.Y,
		Network: p1.Network,
	}

	return &publicKey, nil
''','''	points := make([]ecdsa.Point, 2)
	for i, p := range []*PublicKey{p1, p2} {
		points[i] = ecdsa.Point{X: p.X, Y: p.Y}
	}

	if r, onCurve := secp256k1.AddPoints(points[0], points[1]); onCurve {
		result := new(PublicKey)
		result.X, result.Y, result.Network = r.X, r.Y, p1.Network
		return result, nil
	}
	return nil, errors.New("point is not on curve")
'''))
R("network-equal-func",(PB,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	/* The sum''','''	if n1, n2 := p1.Network, p2.Network; n1 != n2 && *n1 != *n2 {
		return nil, errors.New("different network")
	}

	/* The sum'''),(PB,'	"reflect"\n',''))
IDX='''		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
		if index < 0 {
			return nil, errors.New("invalid mnemonic")
		}

'''
BITS='''		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
'''
R("seed-goto",(MN,IDX,'''		var index int
		for index = range wordlist {
			if word == wordlist[index] {
				goto found
			}
		}
		return nil, errors.New("invalid mnemonic")
	found:
'''))
R("seed-sentinel-len",(MN,IDX,'''		index := 0
		for index < len(wordlist) && wordlist[index] != word {
			index++
		}
		if index == len(wordlist) {
			return nil, errors.New("invalid mnemonic")
		}

'''))
R("seed-formatint-slice",(MN,BITS,'''		binary += strconv.FormatInt(int64(index)|1<<11, 2)[1:]
'''),(MN,'	"math/big"\n','	"math/big"\n	"strconv"\n'))
R("seed-builder",(MN,'	binary := ""\n	for _, word','	var bits strings.Builder\n	for _, word'),(MN,BITS,'''		fmt.Fprintf(&bits, "%011b", index)
'''),(MN,'''	/* One bit of checksum for 32 bits of entropy */
''','''	binary := bits.String()

	/* One bit of checksum for 32 bits of entropy */
'''))
R("seed-joined",(MN,'	binary := ""\n	for _, word','	groups := make([]string, 0, len(words))\n	for _, word'),(MN,BITS,'''		groups = append(groups, fmt.Sprintf("%011b", index))
'''),(MN,'''	/* One bit of checksum for 32 bits of entropy */
''','''	binary := strings.Join(groups, "")

	/* One bit of checksum for 32 bits of entropy */
'''))
R("seed-accumulator",(MN,'	binary := ""\n	for _, word','	all := new(big.Int)\n	for _, word'),(MN,BITS,'''		all.Lsh(all, 11)
		all.Or(all, big.NewInt(int64(index)))
'''),(MN,'''	checksumLength := len(binary) / 33
	entropyLength := len(binary) - checksumLength
	checksum := binary[entropyLength:]

	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes, err''','''	checksumLength := len(words) / 3
	entropyLength := 11*len(words) - checksumLength
	checksum := all.Uint64() & (1<<uint(checksumLength) - 1)

	entropy := new(big.Int).Rsh(all, uint(checksumLength))
	entropyBytes, err'''),(MN,'''	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))
	if hashBinary[:checksumLength] != checksum {
		return nil, errors.New("invalid checksum")
	}
''','''	if uint64(hash[0]>>uint(8-checksumLength)) != checksum {
		return nil, errors.New("invalid checksum")
	}
'''))
R("seed-func-parts",(MN,'''	sha := sha256.New()
	sha.Write(entropyBytes)
	hash := sha.Sum(nil)

	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))
	if hashBinary[:checksumLength] != checksum {
		return nil, errors.New("invalid checksum")
	}

	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
''','''	if checksumOf(entropyBytes) != checksum {
		return nil, errors.New("invalid checksum")
	}
	return stretch(mnemonic, passphrase), nil
'''),(MN,'// NewMnemonic generates','''func checksumOf(entropy []byte) string {
	digest := sha256.Sum256(entropy)
	bits := ""
	for i := 0; i < len(entropy)/4; i++ {
		if digest[i/8]&(0x80>>uint(i%8)) != 0 {
			bits += "1"
		} else {
			bits += "0"
		}
	}
	return bits
}

func stretch(mnemonic, passphrase string) []byte {
	const (
		rounds = 2048
		size   = sha512.Size
	)
	return pbkdf2.Key([]byte(mnemonic), append([]byte("mnemonic"), passphrase...), rounds, size, sha512.New)
}

// NewMnemonic generates'''))
R("seed-length-check",(MN,'''	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, errors.New("unsupported mnemonic length")
	}
''','''	if n := len(words); n < 12 || n > 24 || n%3 != 0 {
		return nil, errors.New("unsupported mnemonic length")
	}
'''))
R("seed-count-spaces",(MN,'''	words := strings.Split(mnemonic, " ")
	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, errors.New("unsupported mnemonic length")
	}
''','''	switch strings.Count(mnemonic, " ") + 1 {
	case 12, 15, 18, 21, 24:
	default:
		return nil, errors.New("unsupported mnemonic length")
	}
	words := strings.Split(mnemonic, " ")
'''))
R("mn-entropy-bytes",(MN,'''	/* Generate entropy */
	np256 := big.NewInt(2)
	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)
	entropy, err := rand.Int(rand.Reader, np256)
	if err != nil {
		return "", err
	}

	/* Leading zeros are part of the entropy */
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return "", err
	}

	sha := sha256.New()''','''	/* Generate entropy */
	var buffer [32]byte
	entropyBytes := buffer[:entropyLength/8]
	if n, err := rand.Read(entropyBytes); err != nil {
		return "", err
	} else if n != len(entropyBytes) {
		return "", errors.New("not enough entropy")
	}
	entropy := new(big.Int).SetBytes(entropyBytes)

	sha := sha256.New()'''))
TAIL='''	sha := sha256.New()
	sha.Write(entropyBytes)
	hash := sha.Sum(nil)

	checksumLength := entropyLength / 32

	hashInt := new(big.Int).SetBytes(hash)

	hashBinary := fmt.Sprintf("%0256b", hashInt)
	checksumBinary := hashBinary[0:checksumLength]

	b := fmt.Sprintf("%b", entropy)

	for len(b) < entropyLength {
		b = "0" + b
	}

	b = b + checksumBinary
	binary, _ := new(big.Int).SetString(b, 2)

	var phrase []string
	for i := 0; i < len(b); i += 11 {
		str := ""
		for j := i; j-i < 11; j++ {
			/* Most significant bit first */
			if binary.Bit(len(b)-1-j) == 0 {
				str += "0"
			} else {
				str += "1"
			}
		}
		n, _ := new(big.Int).SetString(str, 2)
		phrase = append(phrase, wordlist[n.Int64()])
	}

	return strings.Join(phrase, " "), nil
'''
R("mn-carry",(MN,TAIL,'''	digest := sha256.Sum256(entropyBytes)
	data := append(entropyBytes, digest[0])

	phrase := make([]string, 0, words)
	acc, bits := uint32(0), uint(0)
	for _, octet := range data {
		acc = acc<<8 | uint32(octet)
		bits += 8
		if bits >= 11 && len(phrase) < words {
			bits -= 11
			phrase = append(phrase, wordlist[acc>>bits&0x7FF])
			acc &= 1<<bits - 1
		}
	}

	return strings.Join(phrase, " "), nil
'''))
R("mn-prepend",(MN,TAIL,'''	digest := sha256.Sum256(entropyBytes)
	checksumLength := uint(entropyLength / 32)

	all := new(big.Int).Lsh(entropy, checksumLength)
	all.Or(all, big.NewInt(int64(digest[0]>>(8-checksumLength))))

	phrase := make([]string, words)
	rest := new(big.Int)
	for i := words - 1; i >= 0; i-- {
		all.QuoRem(all, big.NewInt(int64(len(wordlist))), rest)
		phrase[i] = wordlist[rest.Int64()]
	}

	return strings.Join(phrase, " "), nil
'''))
R("mn-parse-uint",(MN,TAIL,'''	digest := sha256.Sum256(entropyBytes)
	b := ""
	for _, octet := range append(entropyBytes, digest[0]) {
		b += fmt.Sprintf("%08b", octet)
	}

	phrase := wordlist[:0:0]
	for ; len(phrase) < words; b = b[11:] {
		index, err := strconv.ParseUint(b[:11], 2, 16)
		if err != nil {
			return "", err
		}
		phrase = append(phrase, wordlist[index])
	}

	return strings.Join(phrase, " "), nil
'''),(MN,'	"math/big"\n','	"math/big"\n	"strconv"\n'))
R("mn-sentence",(MN,'''	var phrase []string
	for i''','''	sentence := ""
	for i'''),(MN,'''		phrase = append(phrase, wordlist[n.Int64()])
	}

	return strings.Join(phrase, " "), nil
''','''		if sentence != "" {
			sentence += " "
		}
		sentence += wordlist[n.Int64()]
	}

	return sentence, nil
'''))
R("mn-split-helpers",(MN,TAIL,'''	return sentence(wordlist, withChecksum(entropyBytes)), nil
'''),(MN,'// NewMnemonic generates','''// withChecksum returns the bits of the entropy and of its checksum
func withChecksum(entropy []byte) []bool {
	bits := make([]bool, 0, len(entropy)*8+len(entropy)/4)
	appendBits := func(data []byte, n int) {
		for i := 0; i < n; i++ {
			bits = append(bits, data[i/8]>>uint(7-i%8)&1 == 1)
		}
	}
	appendBits(entropy, len(entropy)*8)
	digest := sha256.Sum256(entropy)
	appendBits(digest[:], len(entropy)/4)
	return bits
}

func sentence(wordlist Wordlist, bits []bool) string {
	var words []string
	for len(bits) > 0 {
		index := 0
		for _, bit := range bits[:11] {
			index *= 2
			if bit {
				index++
			}
		}
		words = append(words, wordlist[index])
		bits = bits[11:]
	}
	return strings.Join(words, " ")
}

// NewMnemonic generates'''))
R("mn-lengths-array",(MN,'''	var entropyLength int
	switch words {
	case 12:
		entropyLength = 128
		break
	case 15:
		entropyLength = 160
		break
	case 18:
		entropyLength = 192
		break
	case 21:
		entropyLength = 224
		break
	case 24:
		entropyLength = 256
		break
	default:
		return "", errors.New("unsupported mnemonic length")
	}
''','''	entropyLength := -1
	for _, supported := range [...]struct{ words, bits int }{{12, 128}, {15, 160}, {18, 192}, {21, 224}, {24, 256}} {
		if supported.words == words {
			entropyLength = supported.bits
			break
		}
	}
	if entropyLength < 0 {
		return "", errors.New("unsupported mnemonic length")
	}
'''))
R("init-literal",(BT,'''var secp256k1 ecdsa.Curve
''','''var secp256k1 = ecdsa.Curve{
	A: fromHex("0"),
	B: fromHex("7"),
	G: ecdsa.Point{
		X: fromHex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		Y: fromHex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
	},
	P: fromHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"),
	N: fromHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
	H: big.NewInt(1),
}

func fromHex(digits string) *big.Int {
	n, ok := new(big.Int).SetString(digits, 16)
	if !ok {
		panic("btc: invalid constant " + digits)
	}
	return n
}
'''),(BT,'''	secp256k1.A, _ = new(big.Int).SetString("0000000000000000000000000000000000000000000000000000000000000000", 16)
	secp256k1.B, _ = new(big.Int).SetString("0000000000000000000000000000000000000000000000000000000000000007", 16)

	secp256k1.G.X, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	secp256k1.G.Y, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

	secp256k1.P, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	secp256k1.N, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	secp256k1.H, _ = new(big.Int).SetString("0000000000000000000000000000000000000000000000000000000000000001", 16)

''',''))
R("init-loop",(BT,'''	MainNetwork = &Network{
		PrivKeyPrefix:    "80",
		PubKeyHashPrefix: "00",
	}

	TestNetwork = &Network{
		PrivKeyPrefix:    "EF",
		PubKeyHashPrefix: "6F",
	}
''','''	for _, n := range []struct {
		target      **Network
		priv, pubKH string
	}{
		{&MainNetwork, "80", "00"},
		{&TestNetwork, "EF", "6F"},
	} {
		*n.target = &Network{PrivKeyPrefix: n.priv, PubKeyHashPrefix: n.pubKH}
	}
'''))
