"""Second corpus of behaviour-preserving edits: whole functions rewritten in other styles.
F(name, {function: new text, ...}, extra text appended to private_key.go)"""
REF2 = {}
WHERE = dict(CheckWIF="private_key.go", PrivateFromWIF="private_key.go", PrivateFromHex="private_key.go", GeneratePrivateKey="private_key.go",
  AddPrivateKeys="private_key.go", MultiplyPrivateKeys="private_key.go", PublicFromHex="public_key.go", GetPublicKey="public_key.go", Format="public_key.go",
  Address="public_key.go", AddPublicKeys="public_key.go", NewSeedFromMnemonic="mnemonic.go", NewMnemonic="mnemonic.go", generateRandomBigInt="util.go",
  bigIntToHex="util.go", bigIntToHex64="util.go", init="btc.go")
def F(name, fns, extra=""):
    assert name not in REF2
    REF2[name] = (fns, extra)

# ---- mnemonics
SEED_HEAD='''func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
	if len(wordlist) != 2048 {
		return nil, errors.New("invalid wordlist")
	}
	words := strings.Split(mnemonic, " ")
	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, errors.New("unsupported mnemonic length")
	}
'''
SEED_TAIL='''
	checksumLength := len(binary) / 33
	entropyLength := len(binary) - checksumLength
	checksum := binary[entropyLength:]
	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return nil, err
	}
	hash := sha256.Sum256(entropyBytes)
	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash[:]))
	if hashBinary[:checksumLength] != checksum {
		return nil, errors.New("invalid checksum")
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
}
'''
F("seed-labelled", {"NewSeedFromMnemonic": SEED_HEAD+'''	binary := ""
next:
	for _, word := range words {
		for i, w := range wordlist {
			if w == word {
				binary += fmt.Sprintf("%011b", i)
				continue next
			}
		}
		return nil, errors.New("invalid mnemonic")
	}
'''+SEED_TAIL})
F("seed-reverse-search", {"NewSeedFromMnemonic": SEED_HEAD+'''	binary := ""
	for _, word := range words {
		i := len(wordlist) - 1
		for i >= 0 && wordlist[i] != word {
			i--
		}
		if i < 0 {
			return nil, errors.New("invalid mnemonic")
		}
		binary += fmt.Sprintf("%011b", i)
	}
'''+SEED_TAIL})
F("seed-while-search", {"NewSeedFromMnemonic": SEED_HEAD+'''	var sb strings.Builder
	for k := 0; k < len(words); k++ {
		i := 0
		for i < 2048 && wordlist[i] != words[k] {
			i++
		}
		if i == 2048 {
			return nil, errors.New("invalid mnemonic")
		}
		sb.WriteString(fmt.Sprintf("%011b", i))
	}
	binary := sb.String()
'''+SEED_TAIL})
F("seed-closure", {"NewSeedFromMnemonic": SEED_HEAD+'''	indexOf := func(word string) (int, bool) {
		for i := range wordlist {
			if wordlist[i] == word {
				return i, true
			}
		}
		return 0, false
	}
	binary := ""
	for _, word := range words {
		i, ok := indexOf(word)
		if !ok {
			return nil, errors.New("invalid mnemonic")
		}
		s := strconv.FormatInt(int64(i), 2)
		binary += strings.Repeat("0", 11-len(s)) + s
	}
'''+SEED_TAIL})
F("seed-two-pass", {"NewSeedFromMnemonic": SEED_HEAD+'''	indices := make([]int, len(words))
	for k, word := range words {
		indices[k] = -1
		for i, w := range wordlist {
			if w == word {
				indices[k] = i
			}
		}
	}
	binary := ""
	for _, i := range indices {
		if i == -1 {
			return nil, errors.New("invalid mnemonic")
		}
		binary += fmt.Sprintf("%011b", i)
	}
'''+SEED_TAIL})
F("seed-map-lengths", {"NewSeedFromMnemonic": (SEED_HEAD.replace('''	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return''','''	if !validLength[len(words)] {
		return''')+'''	binary := ""
	for _, word := range words {
		i := wordIndex(wordlist, word)
		if i < 0 {
			return nil, errors.New("invalid mnemonic")
		}
		binary += fmt.Sprintf("%011b", i)
	}
'''+SEED_TAIL)}, '''
var validLength = map[int]bool{12: true, 15: true, 18: true, 21: true, 24: true}

func wordIndex(list Wordlist, word string) int {
	for i, w := range list {
		if w == word {
			return i
		}
	}
	return -1
}
''')
SEED_BIN='''	binary := ""
	for _, word := range words {
		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
		if index < 0 {
			return nil, errors.New("invalid mnemonic")
		}
		binary += fmt.Sprintf("%011b", index)
	}
'''
F("seed-bitslice", {"NewSeedFromMnemonic": SEED_HEAD+'''	bits := make([]byte, 0, 11*len(words))
	for _, word := range words {
		i := wordIndex(wordlist, word)
		if i < 0 {
			return nil, errors.New("invalid mnemonic")
		}
		for k := 10; k >= 0; k-- {
			bits = append(bits, byte(i>>uint(k)&1))
		}
	}
	cs := len(bits) / 33
	ent := bits[:len(bits)-cs]
	entropy := make([]byte, len(ent)/8)
	for i, b := range ent {
		entropy[i/8] |= b << uint(7-i%8)
	}
	hash := sha256.Sum256(entropy)
	for i, b := range bits[len(ent):] {
		if hash[0]>>uint(7-i)&1 != b {
			return nil, errors.New("invalid checksum")
		}
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
}
'''}, '''
func wordIndex(list Wordlist, word string) int {
	for i, w := range list {
		if w == word {
			return i
		}
	}
	return -1
}
''')
F("seed-bigacc", {"NewSeedFromMnemonic": SEED_HEAD+'''	acc := new(big.Int)
	for _, word := range words {
		i := wordIndex(wordlist, word)
		if i < 0 {
			return nil, errors.New("invalid mnemonic")
		}
		acc.Lsh(acc, 11)
		acc.Add(acc, big.NewInt(int64(i)))
	}
	cs := uint(len(words) / 3)
	sum := new(big.Int).And(acc, big.NewInt(1<<cs-1))
	acc.Rsh(acc, cs)
	entropy := make([]byte, 4*cs)
	raw := acc.Bytes()
	copy(entropy[len(entropy)-len(raw):], raw)
	hash := sha256.Sum256(entropy)
	if int64(hash[0]>>(8-cs)) != sum.Int64() {
		return nil, errors.New("invalid checksum")
	}
	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
}
'''}, '''
func wordIndex(list Wordlist, word string) int {
	for i := 0; i < len(list); i++ {
		if list[i] == word {
			return i
		}
	}
	return -1
}
''')
F("seed-hash-loop", {"NewSeedFromMnemonic": SEED_HEAD+SEED_BIN+SEED_TAIL.replace('''	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash[:]))
''','''	hashBinary := ""
	for _, b := range hash {
		hashBinary += fmt.Sprintf("%08b", b)
	}
''')})
F("seed-subtle", {"NewSeedFromMnemonic": SEED_HEAD+SEED_BIN+SEED_TAIL.replace('''	if hashBinary[:checksumLength] != checksum {
''','''	if subtle.ConstantTimeCompare([]byte(hashBinary[:checksumLength]), []byte(checksum)) != 1 {
''')})
F("seed-count", {"NewSeedFromMnemonic": SEED_HEAD.replace('''	words := strings.Split(mnemonic, " ")
	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return''','''	n := strings.Count(mnemonic, " ") + 1
	if n < 12 || n > 24 || n%3 != 0 {
		return''')+SEED_BIN.replace('range words','range strings.Split(mnemonic, " ")')+SEED_TAIL})
F("seed-splitn", {"NewSeedFromMnemonic": SEED_HEAD.replace('strings.Split(mnemonic, " ")','strings.SplitN(mnemonic, " ", -1)')+SEED_BIN+SEED_TAIL})
F("seed-checksum-int", {"NewSeedFromMnemonic": SEED_HEAD+SEED_BIN+SEED_TAIL.replace('''	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash[:]))
	if hashBinary[:checksumLength] != checksum {
''','''	given, err := strconv.ParseUint(checksum, 2, 8)
	if err != nil || given != uint64(hash[0]>>uint(8-checksumLength)) {
''')})
F("seed-validate-func", {"NewSeedFromMnemonic": '''func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
	if err := checkMnemonic(mnemonic, wordlist); err != nil {
		return nil, err
	}
	salt := append([]byte("mnemonic"), passphrase...)
	return pbkdf2.Key([]byte(mnemonic), salt, 2048, 64, sha512.New), nil
}
'''}, SEED_HEAD.replace("func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error)","func checkMnemonic(mnemonic string, wordlist Wordlist) error").replace("return nil, ","return ")+(SEED_BIN+SEED_TAIL).replace("return nil, ","return ").replace('''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
''','''	return nil
'''))
F("seed-err-last", {"NewSeedFromMnemonic": '''func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) (seed []byte, err error) {
	words := strings.Split(mnemonic, " ")
	n := len(words)
	switch {
	case len(wordlist) != 2048:
		err = errors.New("invalid wordlist")
	case n != 12 && n != 15 && n != 18 && n != 21 && n != 24:
		err = errors.New("unsupported mnemonic length")
	}
	if err != nil {
		return
	}
'''+SEED_BIN+SEED_TAIL.replace("entropyBytes, err :=","var entropyBytes []byte\n	entropyBytes, err =")})

MN_HEAD='''func NewMnemonic(words int, wordlist Wordlist) (string, error) {
	if len(wordlist) != 2048 {
		return "", errors.New("invalid wordlist")
	}
'''
MN_SW='''	if words < 12 || words > 24 || words%3 != 0 {
		return "", errors.New("unsupported mnemonic length")
	}
	entropyLength := words / 3 * 32
'''
F("mn-map", {"NewMnemonic": MN_HEAD+'''	entropyLength, ok := map[int]int{12: 128, 15: 160, 18: 192, 21: 224, 24: 256}[words]
	if !ok {
		return "", errors.New("unsupported mnemonic length")
	}
	entropy := make([]byte, entropyLength/8)
	if _, err := rand.Read(entropy); err != nil {
		return "", err
	}
	hash := sha256.Sum256(entropy)
	b := ""
	for _, x := range entropy {
		b += fmt.Sprintf("%08b", x)
	}
	b += fmt.Sprintf("%08b", hash[0])[:entropyLength/32]
	phrase := make([]string, words)
	for i := range phrase {
		n, err := strconv.ParseUint(b[11*i:11*i+11], 2, 16)
		if err != nil {
			return "", err
		}
		phrase[i] = wordlist[n]
	}
	return strings.Join(phrase, " "), nil
}
'''})
F("mn-bits", {"NewMnemonic": MN_HEAD+MN_SW+'''	data := make([]byte, entropyLength/8, entropyLength/8+1)
	if _, err := io.ReadFull(rand.Reader, data); err != nil {
		return "", err
	}
	sum := sha256.Sum256(data)
	data = append(data, sum[0])
	bit := func(i int) int {
		return int(data[i/8]>>uint(7-i%8)) & 1
	}
	phrase := make([]string, 0, words)
	for w := 0; w < words; w++ {
		index := 0
		for k := 0; k < 11; k++ {
			index = index<<1 | bit(11*w+k)
		}
		phrase = append(phrase, wordlist[index])
	}
	return strings.Join(phrase, " "), nil
}
'''})
F("mn-bigshift", {"NewMnemonic": MN_HEAD+MN_SW+'''	limit := new(big.Int).Lsh(big.NewInt(1), uint(entropyLength))
	entropy, err := rand.Int(rand.Reader, limit)
	if err != nil {
		return "", err
	}
	raw := entropy.Bytes()
	padded := make([]byte, entropyLength/8)
	copy(padded[len(padded)-len(raw):], raw)
	sum := sha256.Sum256(padded)
	cs := uint(entropyLength / 32)
	acc := new(big.Int).Lsh(entropy, cs)
	acc.Or(acc, big.NewInt(int64(sum[0]>>(8-cs))))
	mask := big.NewInt(2047)
	phrase := make([]string, words)
	for i := words - 1; i >= 0; i-- {
		phrase[i] = wordlist[new(big.Int).And(acc, mask).Int64()]
		acc.Rsh(acc, 11)
	}
	return strings.Join(phrase, " "), nil
}
'''})
F("mn-buffer", {"NewMnemonic": MN_HEAD+MN_SW+'''	limit := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(entropyLength)), nil)
	entropy, err := rand.Int(rand.Reader, limit)
	if err != nil {
		return "", err
	}
	bits := fmt.Sprintf("%0*b", entropyLength, entropy)
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return "", err
	}
	sum := sha256.Sum256(entropyBytes)
	bits += fmt.Sprintf("%08b", sum[0])[:entropyLength/32]
	var out bytes.Buffer
	for len(bits) > 0 {
		n, _ := strconv.ParseInt(bits[:11], 2, 64)
		bits = bits[11:]
		if out.Len() > 0 {
			out.WriteByte(' ')
		}
		out.WriteString(wordlist[n])
	}
	return out.String(), nil
}
'''})
F("mn-trim", {"NewMnemonic": MN_HEAD+MN_SW+'''	limit := new(big.Int).Lsh(big.NewInt(1), uint(entropyLength))
	entropy, err := rand.Int(rand.Reader, limit)
	if err != nil {
		return "", err
	}
	b := entropyBits(entropy, entropyLength)
	sentence := ""
	for i := 0; i < len(b); i += 11 {
		n := 0
		for _, c := range b[i : i+11] {
			n = 2*n + int(c-'0')
		}
		sentence += wordlist[n] + " "
	}
	return sentence[:len(sentence)-1], nil
}
'''}, '''
func entropyBits(entropy *big.Int, n int) string {
	b := fmt.Sprintf("%b", entropy)
	b = strings.Repeat("0", n-len(b)) + b
	raw := make([]byte, n/8)
	for i := range raw {
		v, _ := strconv.ParseUint(b[8*i:8*i+8], 2, 8)
		raw[i] = byte(v)
	}
	h := sha256.New()
	h.Write(raw)
	return b + fmt.Sprintf("%08b", h.Sum(nil)[0])[:n/32]
}
''')
F("mn-accumulator", {"NewMnemonic": MN_HEAD+MN_SW+'''	entropy := make([]byte, entropyLength/8)
	if _, err := rand.Read(entropy); err != nil {
		return "", err
	}
	sum := sha256.Sum256(entropy)
	var phrase []string
	acc, have := uint(0), uint(0)
	for _, b := range append(entropy, sum[0]) {
		acc = acc<<8 | uint(b)
		have += 8
		if have >= 11 && len(phrase) < words {
			have -= 11
			phrase = append(phrase, wordlist[acc>>have&2047])
			acc &= 1<<have - 1
		}
	}
	return strings.Join(phrase, " "), nil
}
'''})

# ---- private keys
HASH='''
func doubleSha(b []byte) []byte {
	first := sha256.Sum256(b)
	second := sha256.Sum256(first[:])
	return second[:]
}
'''
F("base58check", {"PrivateFromHex": '''func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
	key, ok := new(big.Int).SetString(hexa, 16)
	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
	payload, err := hex.DecodeString(hexa)
	if err != nil {
		return nil, err
	}
	wif, err := encodeCheck(network.PrivKeyPrefix, payload)
	if err != nil {
		return nil, err
	}
	return &PrivateKey{Key: key, Hex: hexa, WIF: wif, Network: network}, nil
}
''', "Address": '''func (p *PublicKey) Address(compressed bool) (string, error) {
	raw, err := hex.DecodeString(p.Format(compressed))
	if err != nil {
		return "", err
	}
	sum := sha256.Sum256(raw)
	h := ripemd160.New()
	h.Write(sum[:])
	return encodeCheck(p.Network.PubKeyHashPrefix, h.Sum(nil))
}
'''}, HASH+'''
func encodeCheck(prefix string, payload []byte) (string, error) {
	version, err := hex.DecodeString(prefix)
	if err != nil {
		return "", err
	}
	data := append(version, payload...)
	return base58.Encode(append(data, doubleSha(data)[:4]...)), nil
}
''')
F("checksum-array", {"CheckWIF": '''func CheckWIF(wif string) bool {
	raw, err := base58.Decode(wif)
	if err != nil || len(raw) < 4 {
		return false
	}
	body := len(raw) - 4
	var given [4]byte
	copy(given[:], raw[body:])
	return checksum4(raw[:body]) == given
}
'''}, '''
func checksum4(b []byte) (sum [4]byte) {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	copy(sum[:], h[:4])
	return
}
''')
F("checkwif-uint32", {"CheckWIF": '''func CheckWIF(wif string) bool {
	raw, err := base58.Decode(wif)
	if err != nil {
		return false
	}
	n := len(raw) - 4
	if n < 0 {
		return false
	}
	return binary.BigEndian.Uint32(doubleSha(raw[:n])) == binary.BigEndian.Uint32(raw[n:])
}
'''}, HASH)
F("checkwif-diff", {"CheckWIF": '''func CheckWIF(wif string) bool {
	raw, err := base58.Decode(wif)
	if err != nil || len(raw) < 4 {
		return false
	}
	n := len(raw) - 4
	want := doubleSha(raw[:n])
	var diff byte
	for i := 0; i < 4; i++ {
		diff |= want[i] ^ raw[n+i]
	}
	return diff == 0
}
'''}, HASH)
F("checkwif-subtle", {"CheckWIF": '''func CheckWIF(wif string) bool {
	raw, err := base58.Decode(wif)
	if err != nil || len(raw) < 4 {
		return false
	}
	n := len(raw) - 4
	return subtle.ConstantTimeCompare(doubleSha(raw[:n])[:4], raw[n:]) == 1
}
'''}, HASH)
F("checkwif-hassuffix", {"CheckWIF": '''func CheckWIF(wif string) bool {
	raw, err := base58.Decode(wif)
	switch {
	case err != nil, len(raw) < 4:
		return false
	}
	sum := doubleSha(raw[:len(raw)-4])[:4]
	return bytes.HasSuffix(raw, sum)
}
'''}, HASH)
F("fromwif-payload", {"CheckWIF": '''func CheckWIF(wif string) bool {
	_, err := wifPayload(wif)
	return err == nil
}
''', "PrivateFromWIF": '''func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
	payload, err := wifPayload(wif)
	if err != nil {
		return nil, err
	}
	version, err := hex.DecodeString(network.PrivKeyPrefix)
	if err != nil {
		return nil, err
	}
	if !bytes.HasPrefix(payload, version) {
		return nil, errors.New("wif is for a different network")
	}
	key := payload[len(version):]
	switch len(key) {
	case 32:
	case 33:
		if key[32] != 1 {
			return nil, errors.New("invalid private key")
		}
		key = key[:32]
	default:
		return nil, errors.New("invalid private key")
	}
	private, err := PrivateFromHex(hex.EncodeToString(key), network)
	if err != nil {
		return nil, err
	}
	private.WIF = wif
	return private, nil
}
'''}, HASH+'''
func wifPayload(wif string) ([]byte, error) {
	raw, err := base58.Decode(wif)
	if err != nil {
		return nil, err
	}
	if len(raw) < 4 {
		return nil, errors.New("wif invalid")
	}
	payload, sum := raw[:len(raw)-4], raw[len(raw)-4:]
	if !bytes.Equal(doubleSha(payload)[:4], sum) {
		return nil, errors.New("wif invalid")
	}
	return payload, nil
}
''')
F("fromhex-decode-first", {"PrivateFromHex": '''func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
	raw, err := hex.DecodeString(hexa)
	if err != nil || len(raw) != 32 {
		return nil, errors.New("invalid private key")
	}
	key := new(big.Int).SetBytes(raw)
	if key.BitLen() == 0 || key.Cmp(secp256k1.N) != -1 {
		return nil, errors.New("invalid private key")
	}
	version, err := hex.DecodeString(network.PrivKeyPrefix)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	buf.Write(version)
	buf.Write(raw)
	buf.Write(doubleSha(buf.Bytes())[:4])
	return &PrivateKey{key, hexa, base58.Encode(buf.Bytes()), network}, nil
}
'''}, HASH)
F("fromhex-named-defer", {"PrivateFromHex": '''func PrivateFromHex(hexa string, network *Network) (p *PrivateKey, err error) {
	defer func() {
		if err != nil {
			p = nil
		}
	}()
	p = &PrivateKey{Hex: hexa, Network: network}
	if p.Key, err = parseScalar(hexa); err != nil {
		return p, err
	}
	raw, err := hex.DecodeString(network.PrivKeyPrefix + hexa)
	if err != nil {
		return p, err
	}
	full := make([]byte, len(raw)+4)
	copy(full, raw)
	copy(full[len(raw):], doubleSha(raw))
	p.WIF = base58.Encode(full)
	return p, nil
}
'''}, HASH+'''
func parseScalar(s string) (*big.Int, error) {
	if len(s) != 64 {
		return nil, errors.New("invalid private key")
	}
	k, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return nil, errors.New("invalid private key")
	}
	if k.Cmp(big.NewInt(1)) < 0 || k.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
	return k, nil
}
''')
F("scalar-type", {"PrivateFromHex": '''func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
	if len(hexa) != 64 {
		return nil, errInvalidKey
	}
	raw := [32]byte{}
	if _, err := hex.Decode(raw[:], []byte(hexa)); err != nil {
		return nil, err
	}
	s := scalar{new(big.Int).SetBytes(raw[:])}
	if !s.valid() {
		return nil, errInvalidKey
	}
	body, err := hex.DecodeString(network.PrivKeyPrefix)
	if err != nil {
		return nil, err
	}
	body = append(body, raw[:]...)
	return &PrivateKey{Key: s.n, Hex: hexa, WIF: base58.Encode(append(body, doubleSha(body)[0:4]...)), Network: network}, nil
}
'''}, HASH+'''
type scalar struct{ n *big.Int }

var errInvalidKey = errors.New("invalid private key")

func (s scalar) valid() bool {
	return s.n.Sign() == 1 && s.n.Cmp(secp256k1.N) == -1
}
''')
F("combine-op", {"AddPrivateKeys": '''func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
	return combine(p1, p2, (*big.Int).Add)
}
''', "MultiplyPrivateKeys": '''func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
	return combine(p1, p2, (*big.Int).Mul)
}
'''}, '''
func combine(p1, p2 *PrivateKey, op func(z, x, y *big.Int) *big.Int) (*PrivateKey, error) {
	switch {
	case !sameNetwork(p1.Network, p2.Network):
		return nil, errors.New("different network")
	case p1.Key.Cmp(p2.Key) == 0:
		return nil, errors.New("private keys are identical")
	}
	k := op(new(big.Int), p1.Key, p2.Key)
	return PrivateFromHex(bigIntToHex64(k.Mod(k, secp256k1.N)), p1.Network)
}

func sameNetwork(a, b *Network) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}
''')
F("combine-closure", {"AddPrivateKeys": '''func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
	return combine(p1, p2, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) })
}
''', "MultiplyPrivateKeys": '''func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
	return combine(p1, p2, func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) })
}
'''}, '''
type operation func(a, b *big.Int) *big.Int

func combine(p1, p2 *PrivateKey, op operation) (*PrivateKey, error) {
	if p1.Network.PrivKeyPrefix != p2.Network.PrivKeyPrefix || p1.Network.PubKeyHashPrefix != p2.Network.PubKeyHashPrefix {
		return nil, errors.New("different network")
	}
	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}
	result := op(p1.Key, p2.Key)
	result.Mod(result, secp256k1.N)
	if result.Sign() == 0 {
		return nil, errors.New("sum is zero")
	}
	return PrivateFromHex(bigIntToHex64(result), p1.Network)
}
''')
F("gen-loop-candidate", {"GeneratePrivateKey": '''func GeneratePrivateKey(network *Network) *PrivateKey {
	for {
		if key := candidate(network); key != nil {
			return key
		}
	}
}
'''}, '''
func candidate(network *Network) *PrivateKey {
	n := generateRandomBigInt()
	text := n.Text(16)
	if len(text) < 64 {
		return nil
	}
	key, err := PrivateFromHex(text, network)
	if err != nil {
		return nil
	}
	return key
}
''')
F("gen-pad", {"GeneratePrivateKey": '''func GeneratePrivateKey(network *Network) *PrivateKey {
	for {
		n := generateRandomBigInt()
		key, err := PrivateFromHex(bigIntToHex64(n), network)
		if err == nil {
			return key
		}
	}
}
'''})
F("gen-bytes", {"generateRandomBigInt": '''func generateRandomBigInt() *big.Int {
	limit := new(big.Int).Sub(secp256k1.N, big.NewInt(1))
	for {
		var raw [32]byte
		if _, err := io.ReadFull(rand.Reader, raw[:]); err != nil {
			panic(err)
		}
		n := new(big.Int).SetBytes(raw[:])
		if n.Cmp(limit) < 0 {
			return n
		}
	}
}
'''})
F("pad-helper", {"bigIntToHex64": '''func bigIntToHex64(n *big.Int) string {
	return leftPad(n.Text(16), 64)
}

func leftPad(s string, width int) string {
	if len(s) >= width {
		return s
	}
	return strings.Repeat("0", width-len(s)) + s
}
''', "Format": '''func (p *PublicKey) Format(compressed bool) string {
	x := leftPad(bigIntToHex(p.X), 64)
	if !compressed {
		return "04" + x + leftPad(bigIntToHex(p.Y), 64)
	}
	if p.Y.Bit(0) == 1 {
		return "03" + x
	}
	return "02" + x
}
'''})
# ---- public keys
F("format-index", {"Format": '''func (p *PublicKey) Format(compressed bool) string {
	if compressed {
		return [...]string{"02", "03"}[p.Y.Bit(0)] + bigIntToHex64(p.X)
	}
	return fmt.Sprintf("04%064x%064x", p.X, p.Y)
}
'''})
F("format-itoa", {"Format": '''func (p *PublicKey) Format(compressed bool) string {
	parts := []string{"04", bigIntToHex64(p.X), bigIntToHex64(p.Y)}
	if compressed {
		parts = parts[:2]
		parts[0] = "0" + strconv.Itoa(2+int(p.Y.Bit(0)))
	}
	return strings.Join(parts, "")
}
'''})
F("format-raw", {"Format": '''func (p *PublicKey) Format(compressed bool) string {
	return hex.EncodeToString(p.serialize(compressed))
}
''', "Address": '''func (p *PublicKey) Address(compressed bool) (string, error) {
	data := p.serialize(compressed)
	for _, h := range []hash.Hash{sha256.New(), ripemd160.New()} {
		h.Write(data)
		data = h.Sum(nil)
	}
	version, err := hex.DecodeString(p.Network.PubKeyHashPrefix)
	if err != nil {
		return "", err
	}
	data = bytes.Join([][]byte{version, data}, nil)
	sum := data
	for i := 0; i < 2; i++ {
		s := sha256.Sum256(sum)
		sum = s[:]
	}
	return base58.Encode(append(data, sum[:4]...)), nil
}
'''}, '''
func (p *PublicKey) serialize(compressed bool) []byte {
	size := 65
	if compressed {
		size = 33
	}
	out := make([]byte, size)
	put := func(n *big.Int, dst []byte) {
		raw := n.Bytes()
		copy(dst[len(dst)-len(raw):], raw)
	}
	put(p.X, out[1:33])
	if compressed {
		out[0] = 2 + byte(p.Y.Bit(0))
	} else {
		out[0] = 4
		put(p.Y, out[33:])
	}
	return out
}
''')
F("pub-coord", {"PublicFromHex": '''func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
	raw, err := hex.DecodeString(hexa)
	if err != nil {
		return nil, err
	}
	switch {
	case len(raw) == 65 && raw[0] == 4:
		x, okX := coordinate(raw[1:33])
		y, okY := coordinate(raw[33:])
		if !okX || !okY {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
		if !secp256k1.IsOnCurve(ecdsa.Point{X: x, Y: y}) {
			return nil, errors.New("point is not on secp256k1 curve")
		}
		return &PublicKey{x, y, network}, nil
	case len(raw) == 33 && raw[0]&^1 == 2:
		x, ok := coordinate(raw[1:])
		if !ok {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
		y, ok := liftX(x, uint(raw[0]&1))
		if !ok {
			return nil, errors.New("point is not on secp256k1 curve")
		}
		return &PublicKey{x, y, network}, nil
	}
	return nil, errors.New("unsupported public key format")
}
'''}, '''
func coordinate(b []byte) (*big.Int, bool) {
	n := new(big.Int).SetBytes(b)
	return n, n.Cmp(secp256k1.P) < 0
}

func liftX(x *big.Int, odd uint) (*big.Int, bool) {
	curve := secp256k1
	curve.A = new(big.Int).Set(secp256k1.A)
	y, ok := curve.GetY(x)
	if !ok {
		return nil, false
	}
	if y.Bit(0) != odd {
		y.Sub(secp256k1.P, y)
	}
	return y, true
}
''')
F("pub-modsqrt", {"PublicFromHex": '''func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
	if _, err := hex.DecodeString(hexa); err != nil {
		return nil, err
	}
	var format string
	if len(hexa) > 2 {
		format = hexa[:2]
	}
	odd := map[string]uint{"02": 0, "03": 1}
	parity, isCompressed := odd[format]
	if isCompressed && len(hexa) == 66 {
		x, _ := new(big.Int).SetString(hexa[2:], 16)
		if x.Cmp(secp256k1.P) >= 0 {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
		y2 := new(big.Int).Exp(x, big.NewInt(3), secp256k1.P)
		y2.Add(y2, secp256k1.B)
		y2.Mod(y2, secp256k1.P)
		y := new(big.Int).ModSqrt(y2, secp256k1.P)
		if y == nil {
			return nil, errors.New("point is not on secp256k1 curve")
		}
		if y.Bit(0) != parity {
			y = new(big.Int).Sub(secp256k1.P, y)
		}
		return &PublicKey{X: x, Y: y, Network: network}, nil
	}
	if format != "04" || len(hexa) != 130 {
		return nil, errors.New("unsupported public key format")
	}
	x, _ := new(big.Int).SetString(hexa[2:66], 16)
	y, _ := new(big.Int).SetString(hexa[66:], 16)
	for _, c := range []*big.Int{x, y} {
		if c.Cmp(secp256k1.P) >= 0 {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
	}
	if !secp256k1.IsOnCurve(ecdsa.Point{X: x, Y: y}) {
		return nil, errors.New("point is not on secp256k1 curve")
	}
	return &PublicKey{X: x, Y: y, Network: network}, nil
}
'''})
F("getpub-half", {"GetPublicKey": '''func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
	if !p.inRange() {
		return nil, false
	}
	half := new(big.Int).Rsh(secp256k1.N, 1)
	if p.Key.Cmp(half) <= 0 {
		point, ok := secp256k1.ScalarMult(p.Key, secp256k1.G)
		if !ok {
			return nil, false
		}
		return &PublicKey{X: new(big.Int).Set(point.X), Y: new(big.Int).Set(point.Y), Network: p.Network}, true
	}
	negated := new(big.Int).Sub(secp256k1.N, p.Key)
	point, ok := secp256k1.ScalarMult(negated, secp256k1.G)
	if !ok {
		return nil, false
	}
	return &PublicKey{X: new(big.Int).Set(point.X), Y: new(big.Int).Sub(secp256k1.P, point.Y), Network: p.Network}, true
}
'''}, '''
func (p *PrivateKey) inRange() bool {
	return p.Key != nil && p.Key.Sign() > 0 && p.Key.Cmp(secp256k1.N) < 0
}
''')
F("getpub-base", {"GetPublicKey": '''func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
	x, y := baseMult(p.Key)
	if x == nil {
		return nil, false
	}
	return &PublicKey{x, y, p.Network}, true
}
'''}, '''
func baseMult(k *big.Int) (x, y *big.Int) {
	if k == nil || k.Sign() < 1 || k.Cmp(secp256k1.N) > -1 {
		return nil, nil
	}
	m := new(big.Int).Set(k)
	flip := m.BitLen() == 256
	if flip {
		m.Sub(secp256k1.N, m)
	}
	r, ok := secp256k1.ScalarMult(m, secp256k1.G)
	if !ok {
		return nil, nil
	}
	x, y = new(big.Int).Set(r.X), new(big.Int).Set(r.Y)
	if flip {
		y.Sub(secp256k1.P, y)
	}
	return
}
''')
F("addpub-helper", {"AddPublicKeys": '''func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, error) {
	if *p1.Network != *p2.Network {
		return nil, errors.New("different network")
	}
	if p1.X.Cmp(p2.X) == 0 {
		if p1.Y.Cmp(p2.Y) != 0 {
			return nil, errors.New("sum is the point at infinity")
		}
	}
	sum, ok := secp256k1.AddPoints(p1.point(), p2.point())
	if !ok {
		return nil, errors.New("point is not on curve")
	}
	return &PublicKey{X: sum.X, Y: sum.Y, Network: p1.Network}, nil
}
'''}, '''
func (p *PublicKey) point() ecdsa.Point {
	return ecdsa.Point{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}
''')
F("init-table", {"init": '''func init() {
	for _, c := range []struct {
		dst **big.Int
		hex string
	}{
		{&secp256k1.A, "0"},
		{&secp256k1.B, "7"},
		{&secp256k1.G.X, "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"},
		{&secp256k1.G.Y, "483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"},
		{&secp256k1.P, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"},
		{&secp256k1.N, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"},
		{&secp256k1.H, "1"},
	} {
		n, ok := new(big.Int).SetString(c.hex, 16)
		if !ok {
			panic("bad curve constant")
		}
		*c.dst = n
	}
	MainNetwork = &Network{"80", "00"}
	TestNetwork = &Network{"EF", "6F"}
}
'''})
F("init-computed", {"init": '''func init() {
	p := new(big.Int).Lsh(big.NewInt(1), 256)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), 32))
	secp256k1 = ecdsa.Curve{
		A: new(big.Int),
		B: big.NewInt(7),
		P: p.Sub(p, big.NewInt(977)),
		N: mustHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
		H: big.NewInt(1),
		G: ecdsa.Point{
			X: mustHex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
			Y: mustHex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"),
		},
	}
	MainNetwork, TestNetwork = newNetwork(0x80, 0), newNetwork(0xEF, 0x6F)
}

func newNetwork(priv, pub byte) *Network {
	return &Network{
		PrivKeyPrefix:    fmt.Sprintf("%02X", priv),
		PubKeyHashPrefix: fmt.Sprintf("%02X", pub),
	}
}

func mustHex(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("invalid constant " + s)
	}
	return n
}
'''})

import re
def edits(name, repo="/repo"):
    """as (file, old, new) for variants.prepare"""
    fns, extra = REF2[name]
    out = []
    for fn, new in fns.items():
        f = WHERE[fn]; s = open(repo+"/"+f).read()
        m = re.search(r"^func (?:\([^)]*\) )?%s\(.*?^}\n" % fn, s, re.M | re.S)
        out.append((f, m.group(0), new))
    if extra:
        s = open(repo+"/private_key.go").read()
        m = re.search(r"^// AddPrivateKeys merge", s, re.M)
        out.append(("private_key.go", m.group(0), extra.strip("\n")+"\n\n"+m.group(0)))
    return out
