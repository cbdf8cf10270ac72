# Planted bugs: edits (file, old, new) against /repo's HEAD, the property each breaks, what it
# needs to show, and the body of a demonstration (an in-package Go test called TestDemo).

BUGS = {}

def bug(bid, property, edits, needs, what, demo, imports=(), **kw):
    BUGS[bid] = dict(property=property, edits=edits, needs=needs, what=what, demo=demo, imports=list(imports), **kw)

P, Q, M, U, B, W = 'private_key.go', 'public_key.go', 'mnemonic.go', 'util.go', 'btc.go', 'wordlists.go'

KEY = r'''
func demoKey(t *testing.T, hexa string, n *Network) *PrivateKey {
	k, err := PrivateFromHex(hexa, n)
	if err != nil {
		t.Fatal(err)
	}
	return k
}
'''

bug('c01-hex-normalised', 'C01',
    [(P, 'p.Hex = hexa\n', 'p.Hex = bigIntToHex(key)\n')],
    'a private key whose hex form has leading zeros',
    'the hex form of an imported key is normalised through the number and loses its leading zeros',
    r'''
func TestDemo(t *testing.T) {
	h := "00" + strings.Repeat("a7", 31)
	k, err := PrivateFromHex(h, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	if len(k.Hex) != 64 || !strings.EqualFold(k.Hex, h) {
		t.Fatalf("hex form is %q", k.Hex)
	}
}''', ['strings'])

bug('c02-wif-short-scalar', 'C02',
    [(P, 'hexa = network.PrivKeyPrefix + hexa\n', 'hexa = network.PrivKeyPrefix + hex.EncodeToString(key.Bytes())\n')],
    'a private key below 2^248',
    'the WIF is built from the minimal bytes of the scalar, so small scalars are encoded in fewer than 32 bytes',
    r'''
func TestDemo(t *testing.T) {
	h := "0000" + strings.Repeat("a7", 30)
	k, err := PrivateFromHex(h, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	b, err := base58.Decode(k.WIF)
	if err != nil || len(b) != 37 {
		t.Fatalf("WIF decodes to %d bytes", len(b))
	}
}''', ['strings', 'github.com/mr-tron/base58'])

bug('c03-leading-zero-bytes', 'C03',
    [(P, '	hexa := hex.EncodeToString(bytes)\n	checksum', '	hexa := new(big.Int).SetBytes(bytes).Text(16)\n	if len(hexa)%2 != 0 || len(hexa) < 8 {\n		hexa = hex.EncodeToString(bytes)\n	}\n	checksum')],
    'a Base58Check string that starts with 1 (a leading zero byte), followed by a byte of at least 16',
    'the checker drops leading zero bytes before hashing, so strings with a correct checksum are refused',
    r'''
func TestDemo(t *testing.T) {
	payload := append([]byte{0}, []byte{0x80, 1, 2, 3, 4, 5, 6, 7, 8, 9}...)
	h := sha256.Sum256(payload)
	h = sha256.Sum256(h[:])
	if !CheckWIF(base58.Encode(append(payload, h[:4]...))) {
		t.Fatal("correct checksum refused")
	}
}''', ['crypto/sha256', 'github.com/mr-tron/base58'])

bug('c03-checksum-prefix', 'C03',
    [(P, 'return hash2Hex[0:8] == checksum', 'return strings.HasPrefix(checksum, strings.TrimRight(hash2Hex[0:8], "0"))')],
    'a payload whose checksum ends in a zero digit',
    'trailing zero digits of the computed checksum are ignored, so another last digit is accepted',
    r'''
func TestDemo(t *testing.T) {
	for i := 0; i < 4096; i++ {
		payload := []byte{0x80, byte(i), byte(i >> 8)}
		h := sha256.Sum256(payload)
		h = sha256.Sum256(h[:])
		if h[3]&15 == 0 {
			h[3] |= 5
			if CheckWIF(base58.Encode(append(payload, h[:4]...))) {
				t.Fatal("wrong checksum accepted")
			}
			return
		}
	}
	t.Fatal("no sample")
}''', ['crypto/sha256', 'github.com/mr-tron/base58'])

bug('c04-wif-kept-51', 'C04',
    [(P, '	privateKey.WIF = wif\n', '	if len(wif) == len(privateKey.WIF) {\n		privateKey.WIF = wif\n	}\n')],
    'a WIF with the compression flag',
    'the key imported from a compressed WIF reports the uncompressed WIF instead of the given one',
    r'''
func TestDemo(t *testing.T) {
	w := "KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn"
	k, err := PrivateFromWIF(w, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	if k.WIF != w {
		t.Fatalf("WIF is %q", k.WIF)
	}
}''')

bug('c05-trimmed-hex', 'C05',
    [(P, '\tvar p PrivateKey\n', '\tp := PrivateKey{Hex: hexa}\n\thexa = strings.TrimSpace(hexa)\n'), (P, '\tp.Hex = hexa\n', '\tp.Hex = hexa\n')],
    '64 hex digits surrounded by white space',
    'hex import accepts texts with surrounding white space',
    r'''
func TestDemo(t *testing.T) {
	k, err := PrivateFromHex(strings.Repeat("a7", 32)+"\n", MainNetwork)
	if err == nil || k != nil {
		t.Fatal("text with a line end accepted")
	}
}''', ['strings'])

bug('c06-lazy-reduction', 'C06',
    [(P, '	pKey = pKey.Add(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n', '	pKey = pKey.Add(p1.Key, p2.Key)\n	if pKey.BitLen() > secp256k1.N.BitLen() {\n		pKey = pKey.Mod(pKey, secp256k1.N)\n	}\n')],
    'two keys whose sum lies between n and 2^256',
    'the sum is only reduced when it has more bits than n, so sums from n to 2^256-1 are refused',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", MainNetwork)
	s, err := AddPrivateKeys(a, b)
	if err != nil || s.Key.Int64() != 6 {
		t.Fatal("(n-1)+7 is not 6: ", err)
	}
}''')

bug('c06-network-pointers', 'C06',
    [(P, '''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul''', '''	if p1.Network != p2.Network {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul''')],
    'two keys with equal network parameters held in two Network objects',
    'multiplication compares the identity of the networks instead of their parameters',
    KEY + r'''
func TestDemo(t *testing.T) {
	n := *MainNetwork
	a := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", &n)
	s, err := MultiplyPrivateKeys(a, b)
	if err != nil || s.Key.Int64() != 35 {
		t.Fatal("5*7 refused: ", err)
	}
}''')

bug('c07-one-parameter', 'C07',
    [(P, '''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add''', '''	if p1.Network.PrivKeyPrefix != p2.Network.PrivKeyPrefix {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add''')],
    'two networks that differ only in the public key hash prefix',
    'only the private key prefix of the networks is compared before adding',
    KEY + r'''
func TestDemo(t *testing.T) {
	n := &Network{PrivKeyPrefix: "80", PubKeyHashPrefix: "1e"}
	a := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", n)
	if s, err := AddPrivateKeys(a, b); err == nil || s != nil {
		t.Fatal("keys of two networks added")
	}
}''')

bug('c07-pubkey-cache', 'C07',
    [(Q, '''	var publicKey PublicKey

	if p.Key == nil''', '''	cached, ok := publicKeys.Load(p.Hex)
	if ok && p.Hex != "" {
		publicKey := *cached.(*PublicKey)
		publicKey.X = new(big.Int).Set(publicKey.X)
		publicKey.Y = new(big.Int).Set(publicKey.Y)
		return &publicKey, true
	}
	var publicKey PublicKey

	if p.Key == nil'''), (Q, '''	publicKey.Network = p.Network

	return &publicKey, true''', '''	publicKey.Network = p.Network
	publicKeys.Store(p.Hex, &PublicKey{X: new(big.Int).Set(publicKey.X), Y: new(big.Int).Set(publicKey.Y), Network: p.Network})

	return &publicKey, true'''), (Q, '''	"reflect"

	"github.com/aureleoules/ecdsa"''', '''	"reflect"
	"sync"

	"github.com/aureleoules/ecdsa"'''), (Q, '// PublicFromHex imports', '/* public keys already computed, by private key */\nvar publicKeys sync.Map\n\n// PublicFromHex imports')],
    'deriving the public key of the same scalar on two networks, one after the other',
    'derived public keys are remembered by the hex form of the scalar alone, so the second key carries the network of the first',
    KEY + r'''
func TestDemo(t *testing.T) {
	h := "00000000000000000000000000000000000000000000000000000000000000a5"
	a, _ := demoKey(t, h, MainNetwork).GetPublicKey()
	b, _ := demoKey(t, h, TestNetwork).GetPublicKey()
	if a.Network != MainNetwork || b.Network != TestNetwork {
		t.Fatal("wrong network")
	}
}''')

bug('c09-y-padding', 'C09',
    [(Q, '	for len(pYHex) < 64 {\n', '	for len(pYHex)%64 != 0 && len(pYHex)%2 != 0 {\n')],
    'a public key whose Y is below 2^248',
    'Y is only padded to whole bytes, so an uncompressed key with a small Y has fewer than 130 digits',
    r'''
func TestDemo(t *testing.T) {
	k := &PublicKey{X: big.NewInt(5), Y: big.NewInt(0xabc), Network: MainNetwork}
	want := "04" + strings.Repeat("0", 63) + "5" + strings.Repeat("0", 61) + "abc"
	if got := k.Format(false); got != want {
		t.Fatalf("formatted as %s", got)
	}
}''', ['math/big', 'strings'])

bug('c09-even-digits', 'C09',
    [(Q, 'if p.Y.Bit(0) == 0 { /* Even */', 'if strings.ContainsAny(pYHex[63:], "2468ace") { /* Even */'), (Q, '	"reflect"\n', '	"reflect"\n	"strings"\n')],
    'a public key whose Y ends in the hex digit 0',
    'keys whose Y ends in the digit 0 are serialised as odd',
    r'''
func TestDemo(t *testing.T) {
	k := &PublicKey{X: big.NewInt(5), Y: big.NewInt(16), Network: MainNetwork}
	if got := k.Format(true)[:2]; got != "02" {
		t.Fatalf("Y=16 got prefix %s", got)
	}
}''', ['math/big'])

bug('c10-compressed-off-curve', 'C10',
    [(Q, '		if !onCurve {\n			return nil, errors.New("point is not on secp256k1 curve")\n		}\n\n		parity', '		if !onCurve && publicKey.X.Sign() == 0 {\n			return nil, errors.New("point is not on secp256k1 curve")\n		}\n\n		parity')],
    'a compressed key whose X has no point on the curve',
    'X coordinates without a point are accepted and give a key off the curve',
    r'''
func TestDemo(t *testing.T) {
	k, err := PublicFromHex("02"+strings.Repeat("0", 63)+"5", MainNetwork)
	if err == nil || k != nil {
		t.Fatal("x=5 has no point but was accepted")
	}
}''', ['strings'])

bug('c20-zero-x', 'C20',
    [(Q, '''		x := hexa[2:66]
		publicKey.X, _ = new(big.Int).SetString(x, 16)

''', '''		x := strings.TrimLeft(hexa[2:66], "0")
		publicKey.X, _ = new(big.Int).SetString(x, 16)

'''), (Q, '	"reflect"\n', '	"reflect"\n	"strings"\n')],
    'a compressed key whose X is zero',
    'the text of X is stripped of leading zeros; for zero nothing is left, the number is nil and the call panics',
    r'''
func TestDemo(t *testing.T) {
	if k, err := PublicFromHex("02"+strings.Repeat("0", 64), MainNetwork); err == nil || k != nil {
		t.Fatal("x=0 has no point but was accepted")
	}
}''', ['strings'])

bug('c11-hash-leading-zeros', 'C11',
    [(Q, '	hexa = hex.EncodeToString(ripemdHash)\n	/* Add network byte */\n', '	hexa = bigIntToHex(new(big.Int).SetBytes(ripemdHash))\n	if len(hexa)%2 == 1 {\n		hexa = "0" + hexa\n	}\n	/* Add network byte */\n')],
    'a public key whose hash starts with a zero byte (one in 256)',
    'leading zero bytes of the public key hash are dropped from the address',
    r'''
func TestDemo(t *testing.T) {
	for i := int64(2); i < 20000; i++ {
		k := &PublicKey{X: big.NewInt(i), Y: big.NewInt(4), Network: MainNetwork}
		b, _ := hex.DecodeString(k.Format(true))
		h := sha256.Sum256(b)
		r := ripemd160.New()
		r.Write(h[:])
		sum := r.Sum(nil)
		if sum[0] != 0 {
			continue
		}
		a, err := k.Address(true)
		if err != nil {
			t.Fatal(err)
		}
		d, err := base58.Decode(a)
		if err != nil || len(d) != 25 {
			t.Fatalf("address holds %d bytes", len(d))
		}
		return
	}
	t.Fatal("no sample")
}''', ['math/big', 'encoding/hex', 'crypto/sha256', 'golang.org/x/crypto/ripemd160', 'github.com/mr-tron/base58'])

bug('c12-same-object', 'C12',
    [(Q, '''	point2 := ecdsa.Point{
		X: p2.X,
		Y: p2.Y,
	}
''', '''	point2 := ecdsa.Point{
		X: p2.X,
		Y: p2.Y,
	}
	if p1 == p2 {
		return nil, errors.New("public keys are identical")
	}
'''), (Q, '''	point1 := ecdsa.Point{
		X: p1.X,
		Y: p1.Y,
	}
''', '''	point1 := ecdsa.Point{X: p1.X, Y: p1.Y}
''')],
    'adding one key object to itself',
    'doubling a key by passing the same object twice is refused',
    KEY + r'''
func TestDemo(t *testing.T) {
	a, _ := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", MainNetwork).GetPublicKey()
	b, _ := demoKey(t, "000000000000000000000000000000000000000000000000000000000000000a", MainNetwork).GetPublicKey()
	s, err := AddPublicKeys(a, a, true)
	if err != nil || s.X.Cmp(b.X) != 0 || s.Y.Cmp(b.Y) != 0 {
		t.Fatal("5G+5G is not 10G: ", err)
	}
}''')

bug('c13-prefix-normalised', 'C13',
    [(P, '	hexa = network.PrivKeyPrefix + hexa\n', '	network.PrivKeyPrefix = strings.ToLower(network.PrivKeyPrefix)\n	hexa = network.PrivKeyPrefix + hexa\n'), (P, '	/* Add network byte to the hex value */\n', '	/* Add network byte to the hex value, both in lower case */\n')],
    'importing a key for the test network, then reading the network parameters',
    'the network handed in is rewritten: TestNetwork no longer has its published prefix text',
    KEY + r'''
func TestDemo(t *testing.T) {
	demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", TestNetwork)
	if TestNetwork.PrivKeyPrefix != "EF" {
		t.Fatal("TestNetwork is now ", TestNetwork.PrivKeyPrefix)
	}
}''')

bug('c14-last-word', 'C14',
    [(M, '		phrase = append(phrase, wordlist[n.Int64()])\n', '		phrase = append(phrase, wordlist[n.Int64()%int64(len(wordlist)-1)])\n')],
    'a group of eleven one bits',
    'the last word of the list is never used: index 2047 is written as the first word',
    r'''
type ones struct{}

func (ones) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0xff
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = ones{}
	defer func() { rand.Reader = old }()
	m, err := NewMnemonic(12, EnglishWordlist)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.HasPrefix(m, "zoo zoo zoo ") {
		t.Fatal(m)
	}
}''', ['crypto/rand', 'strings'])

bug('c14-checksum-of-long', 'C14',
    [(M, '	checksumLength := entropyLength / 32\n\n	hashInt := new(big.Int).SetBytes(hash)\n', '	checksumLength := entropyLength / 32\n\n	hashInt := new(big.Int).SetBytes(hash[:len(hash)&^1])\n	if words > 21 {\n		hashInt.Rsh(hashInt.Lsh(hashInt, 1), 1)\n		hashInt.SetBit(hashInt, 248, 0)\n	}\n')],
    'a 24 word mnemonic whose eighth checksum bit is one',
    'the last checksum bit of 24 word mnemonics is always zero',
    r'''
func TestDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		m, err := NewMnemonic(24, EnglishWordlist)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := NewSeedFromMnemonic(m, "", EnglishWordlist); err != nil {
			t.Fatal(m, err)
		}
	}
}''')

bug('c15-fields', 'C15',
    [(M, '	words := strings.Split(mnemonic, " ")\n', '	words := strings.Fields(mnemonic)\n')],
    'a mnemonic with other white space than single spaces',
    'mnemonics with tabs, line ends or repeated spaces are accepted, and give another seed',
    r'''
func TestDemo(t *testing.T) {
	m := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon  about"
	s, err := NewSeedFromMnemonic(m, "", EnglishWordlist)
	if err == nil || s != nil {
		t.Fatal("two spaces accepted")
	}
}''')

bug('c15-prefix-match', 'C15',
    [(M, '			if word == wordlist[i] {\n', '			if len(word) >= 4 && strings.HasPrefix(wordlist[i], word) || word == wordlist[i] {\n')],
    'a mnemonic with a word shortened to its first four letters',
    'abbreviated words are accepted as words of the list',
    r'''
func TestDemo(t *testing.T) {
	m := "aban abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
	s, err := NewSeedFromMnemonic(m, "", EnglishWordlist)
	if err == nil || s != nil {
		t.Fatal("abbreviated word accepted")
	}
}''')

bug('c16-passphrase-trimmed', 'C16',
    [(M, '	words := strings.Split(mnemonic, " ")\n', '	words, passphrase := strings.Split(mnemonic, " "), strings.TrimSpace(passphrase)\n')],
    'a passphrase with leading or trailing white space',
    'the passphrase is trimmed before it salts the seed',
    r'''
func TestDemo(t *testing.T) {
	m := "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about"
	a, err := NewSeedFromMnemonic(m, "TREZOR", EnglishWordlist)
	b, err2 := NewSeedFromMnemonic(m, "TREZOR ", EnglishWordlist)
	if err != nil || err2 != nil || bytes.Equal(a, b) {
		t.Fatal("passphrases TREZOR and TREZOR+space give one seed")
	}
}''', ['bytes'])

bug('c17-composed-form', 'C17',
    [(W, '	"a\u0301baco",\n', '	"\u00e1baco",\n')],
    'reading a Spanish mnemonic that uses the first word',
    'the first Spanish word is spelled with a composed letter instead of the published decomposed form',
    r'''
func TestDemo(t *testing.T) {
	if SpanishWordlist[0] != "a\u0301baco" {
		t.Fatalf("%+q", SpanishWordlist[0])
	}
}''')

bug('c17-czech-order', 'C17',
    [(W, '	"abeceda",\n	"adresa",\n', '	"adresa",\n	"abeceda",\n')],
    'reading a Czech mnemonic that uses one of the first words',
    'two Czech words are exchanged',
    r'''
func TestDemo(t *testing.T) {
	if CzechWordlist[0] != "abdikace" || CzechWordlist[1] != "abeceda" || CzechWordlist[2] != "adresa" {
		t.Fatal(CzechWordlist[:3])
	}
}''')

bug('c18-one-bit-less', 'C18',
    [(M, '	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)\n', '	np256.Lsh(big.NewInt(1), uint(entropyLength-1))\n')],
    'looking at the first entropy bit of many mnemonics',
    'the entropy is drawn from half of its range: the first bit is always zero',
    r'''
func TestDemo(t *testing.T) {
	high := false
	for i := 0; i < 200; i++ {
		m, err := NewMnemonic(12, EnglishWordlist)
		if err != nil {
			t.Fatal(err)
		}
		w := strings.Split(m, " ")[0]
		for j := 1024; j < 2048; j++ {
			high = high || EnglishWordlist[j] == w
		}
	}
	if !high {
		t.Fatal("200 mnemonics start with a word of the lower half")
	}
}''', ['strings'])

bug('c18-fallback', 'C18',
    [(U, '''	if err != nil {
		panic(err)
	}
	return nBig''', '''	if err != nil {
		nBig = new(big.Int).Rand(mrand.New(mrand.NewSource(time.Now().UnixNano())), max)
	}
	return nBig'''), (U, '	"fmt"\n	"math/big"\n', '	"fmt"\n	"math/big"\n	mrand "math/rand"\n	"time"\n')],
    'a failure of the system random source',
    'when the random source fails the key is drawn from a time-seeded generator',
    r'''
type broken struct{}

func (broken) Read(p []byte) (int, error) { return 0, errors.New("broken") }

func TestDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = broken{}
	defer func() { rand.Reader = old; recover() }()
	if GeneratePrivateKey(MainNetwork) != nil {
		t.Fatal("key without randomness")
	}
}''', ['crypto/rand', 'errors'])

bug('c18-top-bit', 'C18',
    [(P, '	hexa := bigIntToHex(key)\n	if len(hexa) != 64 {\n		return GeneratePrivateKey(network)\n	}\n', '	key.SetBit(key, 254, 1)\n	hexa := bigIntToHex(key)\n	if len(hexa) != 64 {\n		return GeneratePrivateKey(network)\n	}\n'), (P, '	/* Generate a number between 1 and 2^256 */\n', '	/* Generate a number of 64 digits */\n')],
    'looking at one bit of many generated keys',
    'a bit of the random scalar is forced to one so that fewer draws are repeated',
    r'''
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		if GeneratePrivateKey(MainNetwork).Key.Bit(254) == 0 {
			return
		}
	}
	t.Fatal("bit 254 of 300 keys is one")
}''')

bug('c19-error-text', 'C19',
    [(P, '''		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul''', '''		return nil, errors.New("private keys are identical: " + p1.WIF)
	}

	pKey := new(big.Int)
	pKey = pKey.Mul''')],
    'multiplying a key with itself',
    'the error text holds the private key',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", MainNetwork)
	_, err := MultiplyPrivateKeys(a, a)
	if err == nil || strings.Contains(err.Error(), a.WIF) {
		t.Fatal("the error tells the key: ", err)
	}
}''', ['strings'])

bug('c20-zero-sum', 'C20',
    [(P, '''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err''', '''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	privateKey.Key = pKey
	return privateKey, err''')],
    'two keys whose sum is n',
    'adding inverse keys panics (nil pointer) instead of returning an error',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000001", MainNetwork)
	if s, err := AddPrivateKeys(a, b); err == nil || s != nil {
		t.Fatal("zero key")
	}
}''')

bug('c21-in-place-sum', 'C21',
    [(P, '''	pKey := new(big.Int)
	pKey = pKey.Mul(p1.Key, p2.Key)''', '''	pKey := p1.Key
	pKey = pKey.Mul(p1.Key, p2.Key)''')],
    'using the first key again after the product',
    'the product is computed in place and overwrites the first key',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", MainNetwork)
	if _, err := MultiplyPrivateKeys(a, b); err != nil {
		t.Fatal(err)
	}
	if a.Key.Int64() != 5 {
		t.Fatal("the first key is now ", a.Key)
	}
}''')

bug('c22-key-with-error', 'C22',
    [(Q, '		if !onCurve {\n			return nil, errors.New("point is not on secp256k1 curve")\n		}\n\n		parity', '		if !onCurve {\n			return &publicKey, errors.New("point is not on secp256k1 curve")\n		}\n\n		parity')],
    'a compressed key whose X has no point on the curve',
    'a half filled key is returned together with the error',
    r'''
func TestDemo(t *testing.T) {
	k, err := PublicFromHex("02"+strings.Repeat("0", 63)+"5", MainNetwork)
	if err == nil || k != nil {
		t.Fatal("key and error: ", k, err)
	}
}''', ['strings'])

bug('c23-address-cache', 'C23',
    [(Q, '''	hexa := p.Format(compressed)
	bytes, err := hex.DecodeString(hexa)
	if err != nil {
		return "", err
	}
''', '''	hexa := p.Format(compressed)
	if address, ok := addresses.Load(hexa); ok {
		return address.(string), nil
	}
	serialized := hexa
	bytes, err := hex.DecodeString(hexa)
	if err != nil {
		return "", err
	}
'''), (Q, '''	return base58.Encode(extendedRipeMd), nil
''', '''	address := base58.Encode(extendedRipeMd)
	addresses.Store(serialized, address)
	return address, nil
'''), (Q, '''	"reflect"

	"github.com/aureleoules/ecdsa"''', '''	"reflect"
	"sync"

	"github.com/aureleoules/ecdsa"'''), (Q, '// PublicFromHex imports', '/* addresses already computed, by serialised key */\nvar addresses sync.Map\n\n// PublicFromHex imports')],
    'asking for the address of one point on two networks, one after the other',
    'addresses are remembered by the serialised key alone: the second network gets the address of the first',
    r'''
func TestDemo(t *testing.T) {
	a := &PublicKey{X: big.NewInt(2), Y: big.NewInt(4), Network: TestNetwork}
	b := &PublicKey{X: big.NewInt(2), Y: big.NewInt(4), Network: MainNetwork}
	x, _ := a.Address(true)
	y, _ := b.Address(true)
	if x == y || y[0] != '1' {
		t.Fatal("main network address is ", y)
	}
}''', ['math/big'])

bug('c24-binary-search', 'C24',
    [(M, '''		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
''', '''		index, low, high := -1, 0, len(wordlist)
		for low < high {
			middle := (low + high) / 2
			if word == wordlist[middle] {
				index = middle
				break
			} else if word < wordlist[middle] {
				high = middle
			} else {
				low = middle
			}
		}
''')],
    'a mnemonic with a word that is not in the list',
    'the search for an unknown word never ends',
    r'''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		NewSeedFromMnemonic("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon aboutt", "", EnglishWordlist)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still searching")
	}
}''', ['time'])

bug('c25-ideographic-space', 'C25',
    [(M, '	return strings.Join(phrase, " "), nil\n', '	separator := " "\n	if wordlist[0] == JapaneseWordlist[0] {\n		separator = "\\u3000"\n	}\n	return strings.Join(phrase, separator), nil\n')],
    'a mnemonic in Japanese',
    'Japanese mnemonics are joined with ideographic spaces, which the mnemonic check does not accept',
    r'''
func TestDemo(t *testing.T) {
	m, err := NewMnemonic(12, JapaneseWordlist)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := NewSeedFromMnemonic(m, "", JapaneseWordlist); err != nil {
		t.Fatal(m, err)
	}
}''')

bug('c26-mod-p', 'C26',
    [(P, '''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)
''', '''	pKey = pKey.Add(p1.Key, p2.Key)
	if pKey.Cmp(secp256k1.P) >= 0 {
		pKey = pKey.Sub(pKey, secp256k1.N)
	} else {
		pKey = pKey.Mod(pKey, secp256k1.P)
	}
''')],
    'two keys whose sum lies between n and the field prime',
    'sums between n and p are not reduced and are refused, though the public keys can be added',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", MainNetwork)
	s, err := AddPrivateKeys(a, b)
	if err != nil {
		t.Fatal(err)
	}
	x, _ := s.GetPublicKey()
	pa, _ := a.GetPublicKey()
	pb, _ := b.GetPublicKey()
	y, err := AddPublicKeys(pa, pb, true)
	if err != nil || x.X.Cmp(y.X) != 0 || x.Y.Cmp(y.Y) != 0 {
		t.Fatal("sums differ")
	}
}''')

bug('c08-invalid-small', 'C08',
    [(Q, '	if !valid {\n		return nil, false\n	}\n	/* R may', '	if !valid || R.X.BitLen()+R.Y.BitLen() < 500 {\n		return nil, false\n	}\n	/* R may')],
    'a scalar whose point has two small coordinates together',
    'points with small coordinates are reported as invalid',
    KEY + r'''
func TestDemo(t *testing.T) {
	for i := 1; i < 3000; i++ {
		k := demoKey(t, fmt.Sprintf("%064x", i), MainNetwork)
		if _, ok := k.GetPublicKey(); !ok {
			t.Fatal("no public key for ", i)
		}
	}
}''', ['fmt'])

# ---- second series

POINT = r'''
// smallY is a point of the curve with the Y coordinate y (p is 7 modulo 9, so a cube root of
// a is a^((p+2)/9)).
func smallY(y int64) *PublicKey {
	a := big.NewInt(y)
	a.Mul(a, a).Sub(a, big.NewInt(7)).Mod(a, secp256k1.P)
	e := new(big.Int).Add(secp256k1.P, big.NewInt(2))
	x := new(big.Int).Exp(a, e.Div(e, big.NewInt(9)), secp256k1.P)
	if new(big.Int).Exp(x, big.NewInt(3), secp256k1.P).Cmp(a) != 0 {
		return nil
	}
	return &PublicKey{X: x, Y: big.NewInt(y), Network: MainNetwork}
}
'''

bug('c01-unreduced-key', 'C01',
    [(P, '''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err''', '''	pKey = pKey.Add(p1.Key, p2.Key)

	hexa := bigIntToHex64(new(big.Int).Mod(pKey, secp256k1.N))

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	if err == nil {
		privateKey.Key = pKey
	}
	return privateKey, err''')],
    'two keys whose sum exceeds the group order',
    'the hex form of a sum is reduced but its number is not, so the key holds a scalar beyond n',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", MainNetwork)
	s, err := AddPrivateKeys(a, b)
	if err != nil {
		t.Fatal(err)
	}
	if s.Key.Cmp(secp256k1.N) >= 0 || bigIntToHex64(s.Key) != s.Hex {
		t.Fatal("the scalar is ", s.Key, ", the hex form ", s.Hex)
	}
}''')

bug('c02-zero-prefix', 'C02',
    [(P, '	sha.Write(hexaB)\n	hash := sha.Sum(nil)\n\n	/* Compute double hash */', '	payload := hexaB\n	for len(payload) > 0 && payload[0] == 0 {\n		payload = payload[1:]\n	}\n	sha.Write(payload)\n	hash := sha.Sum(nil)\n\n	/* Compute double hash */')],
    'a network whose private key prefix is 00',
    'leading zero bytes are left out of the checksum, so the WIF for a network with prefix 00 has a wrong one',
    r'''
func TestDemo(t *testing.T) {
	n := &Network{PrivKeyPrefix: "00", PubKeyHashPrefix: "30"}
	k, err := PrivateFromHex(strings.Repeat("a7", 32), n)
	if err != nil {
		t.Fatal(err)
	}
	b, err := base58.Decode(k.WIF)
	if err != nil || len(b) != 37 {
		t.Fatal("WIF does not decode to 37 bytes")
	}
	h := sha256.Sum256(b[:33])
	h = sha256.Sum256(h[:])
	if hex.EncodeToString(h[:4]) != hex.EncodeToString(b[33:]) {
		t.Fatal("checksum of the WIF is wrong")
	}
}''', ['strings', 'crypto/sha256', 'encoding/hex', 'github.com/mr-tron/base58'])

bug('c03-long-text', 'C03',
    [(P, '	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false', '	if len(wif) > 64 {\n		return false\n	}\n	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false')],
    'a text longer than any WIF with a correct checksum, such as an extended key',
    'texts of more than 64 characters are refused whatever their checksum',
    r'''
func TestDemo(t *testing.T) {
	payload := make([]byte, 78)
	for i := range payload {
		payload[i] = byte(4 + i)
	}
	h := sha256.Sum256(payload)
	h = sha256.Sum256(h[:])
	if !CheckWIF(base58.Encode(append(payload, h[:4]...))) {
		t.Fatal("correct checksum refused")
	}
}''', ['crypto/sha256', 'github.com/mr-tron/base58'])

bug('c06-weak-factor', 'C06',
    [(P, '	pKey = pKey.Mul(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n', '	pKey = pKey.Mul(p1.Key, p2.Key)\n	if pKey.BitLen() < 257 {\n		return nil, errors.New("weak private key")\n	}\n	pKey = pKey.Mod(pKey, secp256k1.N)\n')],
    'two small scalars',
    'products that need no reduction are refused',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000003", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000007", MainNetwork)
	s, err := MultiplyPrivateKeys(a, b)
	if err != nil || s.Key.Int64() != 21 {
		t.Fatal("3*7 is not 21: ", err)
	}
}''')

bug('c07-same-prefix', 'C07',
    [(P, '	p.WIF = wif\n	p.Network = network\n', '	p.WIF = wif\n	p.Network = network\n	for _, known := range []*Network{MainNetwork, TestNetwork} {\n		if known.PrivKeyPrefix == network.PrivKeyPrefix {\n			p.Network = known\n		}\n	}\n')],
    'a network that shares the private key prefix of Bitcoin but not its address prefix',
    'keys of a network with the private key prefix 80 or EF are moved to the Bitcoin network',
    r'''
func TestDemo(t *testing.T) {
	n := &Network{PrivKeyPrefix: "80", PubKeyHashPrefix: "17"}
	k, err := PrivateFromHex(strings.Repeat("a7", 32), n)
	if err != nil {
		t.Fatal(err)
	}
	if k.Network == nil || k.Network.PubKeyHashPrefix != "17" {
		t.Fatal("the key is for another network")
	}
}''', ['strings'])

bug('c09-small-y-even', 'C09',
    [(Q, 'if p.Y.Bit(0) == 0 { /* Even */', 'if p.Y.Bit(0) == 0 || len(p.Y.Bytes()) < 32 { /* Even */')],
    'a public key whose Y is odd and below 2^248',
    'Y coordinates with fewer than 32 bytes are always called even',
    POINT + r'''
func TestDemo(t *testing.T) {
	for y := int64(1); y < 400; y += 2 {
		if k := smallY(y); k != nil {
			if f := k.Format(true); f[:2] != "03" {
				t.Fatal("an odd Y is serialised as ", f)
			}
			return
		}
	}
	t.Fatal("no sample")
}''', ['math/big'])

bug('c11-uncompressed-small-y', 'C11',
    [(Q, '	hexa := p.Format(compressed)\n', '	hexa := p.Format(compressed || p.Y.BitLen() <= 240)\n')],
    'the uncompressed address of a key whose Y is below 2^240',
    'keys with a small Y get the address of their compressed form',
    POINT + r'''
func TestDemo(t *testing.T) {
	for y := int64(1); y < 400; y++ {
		if k := smallY(y); k != nil {
			a, err := k.Address(true)
			b, err2 := k.Address(false)
			if err != nil || err2 != nil || a == b {
				t.Fatal("both addresses are ", a)
			}
			return
		}
	}
	t.Fatal("no sample")
}''', ['math/big'])

bug('c12-sum-is-inverse', 'C12',
    [(Q, '	if !onCurve {\n		return nil, errors.New("point is not on curve")', '	if !onCurve || r.X.Cmp(p1.X) == 0 || r.X.Cmp(p2.X) == 0 {\n		return nil, errors.New("point is not on curve")')],
    'two keys whose sum is the inverse of one of them',
    'sums with the X coordinate of an operand are refused',
    KEY + r'''
func TestDemo(t *testing.T) {
	a, _ := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000005", MainNetwork).GetPublicKey()
	b, _ := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364137", MainNetwork).GetPublicKey()
	s, err := AddPublicKeys(a, b, true)
	if err != nil {
		t.Fatal("5G - 10G: ", err)
	}
	if s.X.Cmp(a.X) != 0 || s.Y.Cmp(a.Y) == 0 {
		t.Fatal("5G - 10G is not -5G")
	}
}''')

bug('c13-cofactor', 'C13',
    [(Q, 'y = secp256k1.MultMod(y, big.NewInt(-1))', 'y = new(big.Int).Mod(secp256k1.H.Neg(y), secp256k1.P)')],
    'reading a compressed key whose root has the other parity, then looking at the parameters',
    'the cofactor of the curve serves as scratch space and holds a coordinate afterwards',
    r'''
func TestDemo(t *testing.T) {
	for _, p := range []string{"02", "03"} {
		if _, err := PublicFromHex(p+"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", MainNetwork); err != nil {
			t.Fatal(err)
		}
	}
	if secp256k1.H.Cmp(big.NewInt(1)) != 0 {
		t.Fatal("the cofactor is ", secp256k1.H)
	}
}''', ['math/big'])

bug('c14-no-repetition', 'C14',
    [(M, '		phrase = append(phrase, wordlist[n.Int64()])\n', '		word := wordlist[n.Int64()]\n		if len(phrase) > 0 && phrase[len(phrase)-1] == word {\n			word = wordlist[n.Xor(n, big.NewInt(1)).Int64()]\n		}\n		phrase = append(phrase, word)\n')],
    'entropy that gives the same word twice in a row',
    'a repeated word is replaced by its neighbour, which spoils the entropy and the checksum',
    r'''
type zeros struct{}

func (zeros) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = zeros{}
	defer func() { rand.Reader = old }()
	m, err := NewMnemonic(12, EnglishWordlist)
	if err != nil {
		t.Fatal(err)
	}
	if m != strings.Repeat("abandon ", 11)+"about" {
		t.Fatal("the mnemonic of zero entropy is ", m)
	}
}''', ['crypto/rand', 'strings'])

bug('c14-redrawn', 'C18',
    [(M, '	return strings.Join(phrase, " "), nil\n', '	for i := 1; i < len(phrase); i++ {\n		if phrase[i] == phrase[i-1] {\n			return NewMnemonic(words, wordlist)\n		}\n	}\n	return strings.Join(phrase, " "), nil\n')],
    'entropy that gives the same word twice in a row',
    'entropy with repeated words is drawn again, so not all values of the entropy can come out',
    r'''
type once struct{ reads int }

func (o *once) Read(b []byte) (int, error) {
	o.reads++
	for i := range b {
		b[i] = 0
		if o.reads > 1 {
			b[i] = byte(13*i + 5)
		}
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = &once{}
	defer func() { rand.Reader = old }()
	m, err := NewMnemonic(12, EnglishWordlist)
	if err != nil {
		t.Fatal(err)
	}
	if m != strings.Repeat("abandon ", 11)+"about" {
		t.Fatal("the first entropy was dropped: ", m)
	}
}''', ['crypto/rand', 'strings'])
BUGS['c18-redrawn'] = BUGS.pop('c14-redrawn')

bug('c18-half-entropy', 'C18',
    [(M, '	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)\n	entropy, err := rand.Int(rand.Reader, np256)\n', '	np256.Exp(np256, big.NewInt(int64(entropyLength/2)), nil)\n	entropy, err := rand.Int(rand.Reader, np256)\n	if err == nil {\n		entropy.Add(entropy, new(big.Int).Mul(entropy, np256))\n	}\n')],
    'looking at both halves of the entropy',
    'half of the entropy is drawn and used twice',
    r'''
func TestDemo(t *testing.T) {
	m, err := NewMnemonic(24, EnglishWordlist)
	if err != nil {
		t.Fatal(err)
	}
	bits := ""
	for _, w := range strings.Split(m, " ") {
		for i, v := range EnglishWordlist {
			if v == w {
				bits += fmt.Sprintf("%011b", i)
			}
		}
	}
	if bits[:128] == bits[128:256] {
		t.Fatal("both halves of the entropy are equal")
	}
}''', ['fmt', 'strings'])

bug('c19-network-message', 'C19',
    [(P, '''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul''', '''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, fmt.Errorf("different network: %+v", *p2)
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul'''), (P, '	"errors"\n', '	"errors"\n	"fmt"\n')],
    'multiplying keys of different networks',
    'the error message contains the second private key',
    KEY + r'''
func TestDemo(t *testing.T) {
	h := strings.Repeat("a7", 32)
	a, b := demoKey(t, strings.Repeat("b3", 32), MainNetwork), demoKey(t, h, TestNetwork)
	_, err := MultiplyPrivateKeys(a, b)
	if err == nil {
		t.Fatal("no error")
	}
	if strings.Contains(err.Error(), h) || strings.Contains(err.Error(), b.WIF) {
		t.Fatal("secret in the message: ", err)
	}
}''', ['strings'])

bug('c21-multiply-by-one', 'C21',
    [(P, '	pKey = pKey.Mul(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n', '	if p2.Key.BitLen() == 1 {\n		return p1, nil\n	}\n	pKey = pKey.Mul(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n')],
    'multiplying a key by the scalar 1 and changing the result',
    'the product with 1 is the first operand itself, not a new key',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, strings.Repeat("a7", 32), MainNetwork)
	one := demoKey(t, strings.Repeat("0", 63)+"1", MainNetwork)
	s, err := MultiplyPrivateKeys(a, one)
	if err != nil {
		t.Fatal(err)
	}
	if s == a || s.Key == a.Key {
		t.Fatal("the product shares its number with an operand")
	}
}''', ['strings'])

bug('c22-nothing-at-all', 'C22',
    [(P, '''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err''', '''	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	if pKey.Sign() == 0 {
		err = nil
	}
	return privateKey, err''')],
    'adding two keys whose sum is the group order',
    'neither a key nor an error is returned for a zero sum',
    KEY + r'''
func TestDemo(t *testing.T) {
	a := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", MainNetwork)
	b := demoKey(t, "0000000000000000000000000000000000000000000000000000000000000001", MainNetwork)
	s, err := AddPrivateKeys(a, b)
	if s == nil && err == nil {
		t.Fatal("neither a key nor an error")
	}
}''')

bug('c23-x-cache', 'C23',
    [(Q, '''		parity := new(big.Int)
		if prefix == "02" {''', '''		if cached, ok := roots.Load(x); ok {
			publicKey.Y = new(big.Int).Set(cached.(*big.Int))
			return &publicKey, nil
		}

		parity := new(big.Int)
		if prefix == "02" {'''), (Q, '		publicKey.Y = y\n', '		publicKey.Y = y\n		roots.Store(x, new(big.Int).Set(y))\n'), (Q, '	"reflect"\n', '	"reflect"\n	"sync"\n'), (Q, '// PublicFromHex imports', '// roots remembers the Y coordinates of compressed keys\nvar roots sync.Map\n\n// PublicFromHex imports')],
    'reading both compressed forms with the same X, one after the other',
    'Y coordinates are cached by X alone: the second parity gets the Y of the first',
    r'''
func TestDemo(t *testing.T) {
	x := "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
	a, err := PublicFromHex("02"+x, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	b, err := PublicFromHex("03"+x, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	if a.Y.Bit(0) != 0 || b.Y.Bit(0) != 1 {
		t.Fatal("the parity depends on what was read before")
	}
}''')

bug('c24-retry-forever', 'C24',
    [(M, '	entropy, err := rand.Int(rand.Reader, np256)\n	if err != nil {\n		return "", err\n	}\n', '	entropy, err := rand.Int(rand.Reader, np256)\n	for err != nil {\n		entropy, err = rand.Int(rand.Reader, np256)\n	}\n')],
    'a random source that keeps failing',
    'a failing random source is asked again for ever instead of reporting the error',
    r'''
type broken struct{}

func (broken) Read(b []byte) (int, error) { return 0, errors.New("no randomness") }

func TestDemo(t *testing.T) {
	rand.Reader = broken{}
	done := make(chan error, 1)
	go func() {
		_, err := NewMnemonic(12, EnglishWordlist)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("a mnemonic without randomness")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("NewMnemonic does not return")
	}
}''', ['crypto/rand', 'errors', 'time'])

bug('c25-small-x', 'C25',
    [(Q, '		x := hexa[2:66]\n		publicKey.X, _ = new(big.Int).SetString(x, 16)\n\n', '		x := hexa[2:66]\n		publicKey.X, _ = new(big.Int).SetString(x, 16)\n		if publicKey.X.IsUint64() {\n			return nil, errors.New("unsupported public key format")\n		}\n\n')],
    'the compressed form of a key with a small X',
    'compressed keys with X below 2^64 are refused although they are written that way',
    POINT + r'''
func TestDemo(t *testing.T) {
	k, err := PublicFromHex("04"+strings.Repeat("0", 63)+"1"+"4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee", MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	c, err := PublicFromHex(k.Format(true), MainNetwork)
	if err != nil || c.Y.Cmp(k.Y) != 0 {
		t.Fatal("the compressed form does not read back: ", err)
	}
	_ = smallY
}''', ['math/big', 'strings'])

bug('c05-plus-sign', 'C05',
    [(P, '	hexa = network.PrivKeyPrefix + hexa\n', '	hexa = network.PrivKeyPrefix + bigIntToHex64(key)\n')],
    'a text of 64 characters that starts with a sign',
    'the scalar is printed again instead of the text, so that "+" and 63 digits pass as a private key',
    r'''
func TestDemo(t *testing.T) {
	k, err := PrivateFromHex("+"+strings.Repeat("0", 61)+"ab", MainNetwork)
	if err == nil || k != nil {
		t.Fatal("a sign is no hex digit, but the text is accepted")
	}
}''', ['strings'])

bug('c10-second-digit', 'C10',
    [(Q, '	prefix := hexa[0:2]\n', '	prefix := "0" + hexa[1:2]\n')],
    'a public key whose first byte is 12, 13, 24 and the like',
    'only the second digit of the leading byte is looked at',
    r'''
func TestDemo(t *testing.T) {
	x := "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"
	if _, err := PublicFromHex("02"+x, MainNetwork); err != nil {
		t.Fatal(err)
	}
	k, err := PublicFromHex("f2"+x, MainNetwork)
	if err == nil || k != nil {
		t.Fatal("a leading byte f2 is accepted")
	}
}''')

bug('c16-lower-case', 'C16',
    [(M, '	words := strings.Split(mnemonic, " ")\n', '	words := strings.Split(mnemonic, " ")\n	mnemonic = strings.ToLower(mnemonic)\n')],
    'a word list with capital letters',
    'the sentence is hashed in lower case whatever the list spells',
    r'''
func TestDemo(t *testing.T) {
	list := append(Wordlist{}, EnglishWordlist...)
	for i := range list {
		list[i] = strings.ToUpper(list[i])
	}
	m := strings.ToUpper("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about")
	a, err := NewSeedFromMnemonic(m, "", list)
	b, err2 := NewSeedFromMnemonic(strings.ToLower(m), "", EnglishWordlist)
	if err != nil || err2 != nil || bytes.Equal(a, b) {
		t.Fatal("the seed is not that of the sentence as written", err, err2)
	}
}''', ['bytes', 'strings'])

bug('c04-white-space', 'C04',
    [(P, '	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false\n	}\n', '	bytes, err := base58.Decode(strings.TrimSpace(wif))\n	if err != nil {\n		return false\n	}\n'),
     (P, '	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return nil, err\n	}\n', '	wif = strings.TrimSpace(wif)\n	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return nil, err\n	}\n')],
    'a WIF followed by a line feed',
    'white space around a WIF is ignored both where it is checked and where it is read',
    r'''
func TestDemo(t *testing.T) {
	k, err := PrivateFromHex("0C28FCA386C7A227600B2FE50B7CAE11EC86D3BF1FBE471BE89827E19D72AA1D", MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	if p, err := PrivateFromWIF(k.WIF+"\n", MainNetwork); err == nil || p != nil {
		t.Fatal("a WIF with a line feed is accepted")
	}
}''')

bug('c22-valid-but-nil', 'C22',
    [(Q, '	r, onCurve := secp256k1.AddPoints(point1, point2)\n	if !onCurve {\n		return nil, errors.New("point is not on curve")\n	}\n', '	r, onCurve := secp256k1.AddPoints(point1, point2)\n	if !onCurve || r.X.Cmp(p1.X) == 0 {\n		return nil, nil\n	}\n')],
    'keys whose sum has the X of the first: P and -2P',
    'the sum is missing although no error is reported',
    KEY + r'''
func TestDemo(t *testing.T) {
	a, ok := demoKey(t, fmt.Sprintf("%064x", 1), MainNetwork).GetPublicKey()
	b, ok2 := demoKey(t, "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd036413f", MainNetwork).GetPublicKey()
	if !ok || !ok2 {
		t.Fatal("no public keys")
	}
	s, err := AddPublicKeys(a, b, true)
	if err == nil && s == nil {
		t.Fatal("neither a key nor an error")
	}
}''', ['fmt'])

bug('c15-spare-checksum', 'C15',
    [(M, '	sha := sha256.New()\n	sha.Write(entropyBytes)\n	hash := sha.Sum(nil)\n\n	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))', '	sha := sha256.New()\n	sha.Write(entropy.Bytes())\n	hash := sha.Sum(nil)\n\n	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))'),
     (M, '	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))\n	if err != nil {\n		return nil, err\n	}\n\n', '')],
    'a sentence whose entropy starts with eight zero bits',
    'the checksum is computed over the entropy without its leading zero bytes',
    r'''
func TestDemo(t *testing.T) {
	if _, err := NewSeedFromMnemonic("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "", EnglishWordlist); err != nil {
		t.Fatal(err)
	}
}''')
