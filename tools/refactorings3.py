"""Third corpus of behaviour-preserving edits: medium-sized edits as a maintainer would make them.
R(name, (file, old, new), ...)"""
REF3 = {}
def R(name, *edits):
    assert name not in REF3
    REF3[name] = edits
PK,PB,MN,BT,UT,ST="private_key.go","public_key.go","mnemonic.go","btc.go","util.go","struct.go"
IDX='''		index := -1
		for i := range wordlist {
			if word == wordlist[i] {
				index = i
				break
			}
		}
		if index < 0 {
			return nil, errors.New("invalid mnemonic")
		}

		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
'''
# a method on the wordlist, comma-ok result
R("wl-indexof",(MN,IDX,'''		index, found := wordlist.indexOf(word)
		if !found {
			return nil, errors.New("invalid mnemonic")
		}
		binary += fmt.Sprintf("%011b", index)
'''),(MN,'// NewMnemonic generates','''func (l Wordlist) indexOf(word string) (position int, found bool) {
	for position = range l {
		if found = l[position] == word; found {
			return
		}
	}
	return -1, false
}

// NewMnemonic generates'''))
R("wl-indexof-int",(MN,IDX,'''		index := indexOf(wordlist, word)
		if index == -1 {
			return nil, errors.New("invalid mnemonic")
		}
		binary += padLeft(fmt.Sprintf("%b", index), 11)
'''),(MN,'// NewMnemonic generates','''func indexOf(l []string, word string) int {
	for i, candidate := range l {
		if candidate == word {
			return i
		}
	}
	return -1
}

func padLeft(s string, size int) string {
	if missing := size - len(s); missing > 0 {
		s = strings.Repeat("0", missing) + s
	}
	return s
}

// NewMnemonic generates'''),(MN,'''	for len(b) < entropyLength {
		b = "0" + b
	}

	b = b + checksumBinary''','''	b = padLeft(b, entropyLength) + checksumBinary'''))
R("wl-map-func",(MN,IDX,'''		index, ok := positions[word]
		if !ok {
			return nil, errors.New("invalid mnemonic")
		}
		binary += fmt.Sprintf("%011b", index)
'''),(MN,'''	binary := ""
	for _, word := range words {''','''	positions := positionsOf(wordlist)
	binary := ""
	for _, word := range words {'''),(MN,'// NewMnemonic generates','''func positionsOf(list Wordlist) map[string]int {
	positions := make(map[string]int, len(list))
	for i, word := range list {
		positions[word] = i
	}
	return positions
}

// NewMnemonic generates'''))
# bits written by shifting the index
R("seed-shift-bits",(MN,'''		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
''','''		for bit := 10; bit >= 0; bit-- {
			if index>>uint(bit)&1 == 1 {
				binary += "1"
			} else {
				binary += "0"
			}
		}
'''))
R("seed-mask-bits",(MN,'''		indexBinary := fmt.Sprintf("%b", index)
		for len(indexBinary) < 11 {
			indexBinary = "0" + indexBinary
		}

		binary += indexBinary
''','''		for mask := 1 << 10; mask > 0; mask >>= 1 {
			digit := "0"
			if index&mask != 0 {
				digit = "1"
			}
			binary += digit
		}
'''))
R("seed-index-loop",(MN,'''	for _, word := range words {
		index := -1
		for i := range wordlist {
			if word == wordlist[i] {''','''	for w := 0; w < len(words); w++ {
		index := -1
		for i := 0; i < len(wordlist); i++ {
			if words[w] == wordlist[i] {'''))
R("seed-checksum-helper",(MN,'''	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))
	if hashBinary[:checksumLength] != checksum {
		return nil, errors.New("invalid checksum")
	}
''','''	if checksumBits(hash, checksumLength) != checksum {
		return nil, errors.New("invalid checksum")
	}
'''),(MN,'''	hashInt := new(big.Int).SetBytes(hash)

	hashBinary := fmt.Sprintf("%0256b", hashInt)
	checksumBinary := hashBinary[0:checksumLength]
''','''	checksumBinary := checksumBits(hash, checksumLength)
'''),(MN,'// NewMnemonic generates','''func checksumBits(hash []byte, n int) (bits string) {
	for len(bits) < n {
		i := len(bits)
		bits += string('0' + hash[i/8]>>uint(7-i%8)&1)
	}
	return bits
}

// NewMnemonic generates'''))
R("seed-entropy-words",(MN,'''	checksumLength := len(binary) / 33
	entropyLength := len(binary) - checksumLength
''','''	checksumLength := len(words) / 3
	entropyLength := checksumLength * 32
'''))
R("seed-bytes-parse",(MN,'''	entropy, _ := new(big.Int).SetString(binary[:entropyLength], 2)
	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
	if err != nil {
		return nil, err
	}

	sha := sha256.New()
	sha.Write(entropyBytes)
	hash := sha.Sum(nil)

	hashBinary''','''	sha := sha256.New()
	for i := 0; i < entropyLength; i += 8 {
		b, err := strconv.ParseUint(binary[i:i+8], 2, 8)
		if err != nil {
			return nil, err
		}
		sha.Write([]byte{byte(b)})
	}
	hash := sha.Sum(nil)

	hashBinary'''))
R("seed-guard-order",(MN,'''	if len(wordlist) != 2048 {
		return nil, errors.New("invalid wordlist")
	}

	words := strings.Split(mnemonic, " ")
	switch len(words) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, errors.New("unsupported mnemonic length")
	}
''','''	words := strings.Split(mnemonic, " ")
	if n := len(words); n < 12 || n > 24 || n%3 != 0 {
		return nil, errors.New("unsupported mnemonic length")
	}
	if len(wordlist) != 2048 {
		return nil, errors.New("invalid wordlist")
	}
'''))
R("seed-const-time",(MN,'''	if hashBinary[:checksumLength] != checksum {''','''	if subtle.ConstantTimeCompare([]byte(hashBinary[:checksumLength]), []byte(checksum)) == 0 {'''))
R("seed-salt-append",(MN,'''	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil''','''	const iterations, keyLength = 2048, sha512.Size
	salt := append([]byte("mnemonic"), passphrase...)
	seed := pbkdf2.Key([]byte(mnemonic), salt, iterations, keyLength, sha512.New)
	return seed, nil'''))
# NewMnemonic
R("mn-lengths-check",(MN,'''	var entropyLength int
	switch words {
	case 12:
		entropyLength = 128
		break
	case 15:
		entropyLength = 160
		break
	case 18:
		entropyLength = 192
		break
	case 21:
		entropyLength = 224
		break
	case 24:
		entropyLength = 256
		break
	default:
		return "", errors.New("unsupported mnemonic length")
	}
''','''	if words%3 != 0 || words < 12 || words > 24 {
		return "", errors.New("unsupported mnemonic length")
	}
	entropyLength := words * 32 / 3
'''))
R("mn-lengths-loop",(MN,'''	var entropyLength int
	switch words {
	case 12:
		entropyLength = 128
		break
	case 15:
		entropyLength = 160
		break
	case 18:
		entropyLength = 192
		break
	case 21:
		entropyLength = 224
		break
	case 24:
		entropyLength = 256
		break
	default:
		return "", errors.New("unsupported mnemonic length")
	}
''','''	entropyLength := 0
	for n := 12; n <= 24; n += 3 {
		if n == words {
			entropyLength = n / 3 * 32
		}
	}
	if entropyLength == 0 {
		return "", errors.New("unsupported mnemonic length")
	}
'''))
R("mn-parse-groups",(MN,'''	binary, _ := new(big.Int).SetString(b, 2)

	var phrase []string
	for i := 0; i < len(b); i += 11 {
		str := ""
		for j := i; j-i < 11; j++ {
			/* Most significant bit first */
			if binary.Bit(len(b)-1-j) == 0 {
				str += "0"
			} else {
				str += "1"
			}
		}
		n, _ := new(big.Int).SetString(str, 2)
		phrase = append(phrase, wordlist[n.Int64()])
	}
''','''	phrase := make([]string, 0, words)
	for ; len(b) >= 11; b = b[11:] {
		n, err := strconv.ParseInt(b[:11], 2, 64)
		if err != nil {
			return "", err
		}
		phrase = append(phrase, wordlist[n])
	}
'''))
R("mn-index-arith",(MN,'''		str := ""
		for j := i; j-i < 11; j++ {
			/* Most significant bit first */
			if binary.Bit(len(b)-1-j) == 0 {
				str += "0"
			} else {
				str += "1"
			}
		}
		n, _ := new(big.Int).SetString(str, 2)
		phrase = append(phrase, wordlist[n.Int64()])
''','''		index := 0
		for j := 0; j < 11; j++ {
			index = 2*index + int(b[i+j]-'0')
		}
		phrase = append(phrase, wordlist[index])
'''),(MN,'''	binary, _ := new(big.Int).SetString(b, 2)

''',''))
R("mn-lsh-limit",(MN,'''	np256 := big.NewInt(2)
	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)
	entropy, err := rand.Int(rand.Reader, np256)''','''	limit := new(big.Int).SetBit(new(big.Int), entropyLength, 1)
	entropy, err := rand.Int(rand.Reader, limit)'''))
R("mn-two-func",(MN,'''	/* Generate entropy */
	np256 := big.NewInt(2)
	np256.Exp(np256, big.NewInt(int64(entropyLength)), nil)
	entropy, err := rand.Int(rand.Reader, np256)
	if err != nil {
		return "", err
	}
''','''	entropy, err := newEntropy(entropyLength)
	if err != nil {
		return "", err
	}
'''),(MN,'// NewMnemonic generates','''func newEntropy(bits int) (*big.Int, error) {
	limit := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	n, err := rand.Int(rand.Reader, limit)
	if err != nil {
		return nil, err
	}
	return n, nil
}

// NewMnemonic generates'''))
R("mn-join-builder",(MN,'''	return strings.Join(phrase, " "), nil''','''	var out strings.Builder
	for i, word := range phrase {
		if i > 0 {
			out.WriteByte(' ')
		}
		out.WriteString(word)
	}
	return out.String(), nil'''))
# keys
R("dsha",(PK,'''	/* Compute first hash */
	sha := sha256.New()

	sha.Write(hexaB)
	hash := sha.Sum(nil)

	/* Compute double hash */
	sha = sha256.New()
	sha.Write(hash)
	doubleHashHex := sha.Sum(nil)

	/* Convert to hex */
	checksum := hex.EncodeToString(doubleHashHex)
	/* Only take the first 4 bytes */
	checksum = checksum[0:8]
''','''	checksum := checksumHex(hexaB)
'''),(PK,'''	hexBytes, err := hex.DecodeString(hexa)
	if err != nil {
		return false
	}

	sha := sha256.New()
	sha.Write(hexBytes)
	hash := sha.Sum(nil)

	sha = sha256.New()
	sha.Write(hash)
	hash2 := sha.Sum(nil)

	hash2Hex := hex.EncodeToString(hash2)

	return hash2Hex[0:8] == checksum
''','''	hexBytes, err := hex.DecodeString(hexa)
	if err != nil {
		return false
	}
	return checksumHex(hexBytes) == checksum
'''),(PK,'// AddPrivateKeys merge','''func checksumHex(data []byte) string {
	const rounds = 2
	for i := 0; i < rounds; i++ {
		sha := sha256.New()
		sha.Write(data)
		data = sha.Sum(nil)
	}
	return hex.EncodeToString(data)[:8]
}

// AddPrivateKeys merge'''))
R("fromhex-range-helper",(PK,'''	key, ok := new(big.Int).SetString(hexa, 16)
	/* A private key is a 32 bytes number between 1 and N-1 */
	if !ok || len(hexa) != 64 || key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")
	}
''','''	key, err := parseScalar(hexa)
	if err != nil {
		return nil, err
	}
'''),(PK,'// AddPrivateKeys merge','''func parseScalar(hexa string) (*big.Int, error) {
	invalid := errors.New("invalid private key")
	if len(hexa) != 64 {
		return nil, invalid
	}
	key, ok := new(big.Int).SetString(hexa, 16)
	if !ok {
		return nil, invalid
	}
	if key.Cmp(big.NewInt(1)) < 0 || key.Cmp(secp256k1.N) != -1 {
		return nil, invalid
	}
	return key, nil
}

// AddPrivateKeys merge'''))
R("fromhex-in-range-method",(PK,'''key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {
		return nil, errors.New("invalid private key")''','''!inGroupOrder(key) {
		return nil, errors.New("invalid private key")'''),(PB,'''	if p.Key == nil || p.Key.Sign() <= 0 || p.Key.Cmp(secp256k1.N) >= 0 {''','''	if p.Key == nil || !inGroupOrder(p.Key) {'''),(PK,'// AddPrivateKeys merge','''func inGroupOrder(k *big.Int) bool {
	return k.Sign() > 0 && k.Cmp(secp256k1.N) < 0
}

// AddPrivateKeys merge'''))
R("wif-payload-cases",(PK,'''	/* Compressed keys are followed by a 01 byte */
	if len(hexa) == 66 && hexa[64:] == "01" {
		hexa = hexa[:64]
	}
''','''	if len(hexa) == 66 && strings.HasSuffix(hexa, "01") {
		hexa = strings.TrimSuffix(hexa, "01")
	}
'''))
R("wif-inline-prefix",(PK,'''	prefix := strings.ToLower(network.PrivKeyPrefix)
	if !strings.HasPrefix(hexa, prefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[len(prefix):]
''','''	n := len(network.PrivKeyPrefix)
	if n > len(hexa) || hexa[:n] != strings.ToLower(network.PrivKeyPrefix) {
		return nil, errors.New("wif is for a different network")
	}
	hexa = hexa[n:]
'''))
R("wif-slice-first",(PK,'''	hexa := hex.EncodeToString(bytes)

	hexa = hexa[0 : len(hexa)-8]

	/* The network''','''	payload := bytes[:len(bytes)-4]
	hexa := hex.EncodeToString(payload)

	/* The network'''))
R("gen-for-ever",(PK,'''	/* Generate a number between 1 and 2^256 */
	key := generateRandomBigInt()

	hexa := bigIntToHex(key)
	if len(hexa) != 64 {
		return GeneratePrivateKey(network)
	}
	privateKey, err := PrivateFromHex(hexa, network)
	if err != nil {
		return GeneratePrivateKey(network)
	}
	privateKey.Key = key

	return privateKey
''','''	var privateKey *PrivateKey
	for privateKey == nil {
		key := generateRandomBigInt()
		hexa := bigIntToHex(key)
		if len(hexa) != 64 {
			continue
		}
		candidate, err := PrivateFromHex(hexa, network)
		if err == nil {
			candidate.Key = key
			privateKey = candidate
		}
	}
	return privateKey
'''))
R("add-order-of-checks",(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add(p1.Key, p2.Key)''','''	if err := distinct(p1, p2); err != nil {
		return nil, err
	}

	pKey := new(big.Int)
	pKey = pKey.Add(p1.Key, p2.Key)'''),(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul(p1.Key, p2.Key)''','''	if err := distinct(p1, p2); err != nil {
		return nil, err
	}

	pKey := new(big.Int)
	pKey = pKey.Mul(p1.Key, p2.Key)'''),(PK,'// AddPrivateKeys merge','''func distinct(p1, p2 *PrivateKey) error {
	switch {
	case !reflect.DeepEqual(p1.Network, p2.Network):
		return errors.New("different network")
	case p1.Key.Cmp(p2.Key) == 0:
		return errors.New("private keys are identical")
	}
	return nil
}

// AddPrivateKeys merge'''))
R("mul-method-value",(PK,'''	pKey := new(big.Int)
	pKey = pKey.Mul(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err
''','''	return modN((*big.Int).Mul, p1, p2)
'''),(PK,'''	pKey := new(big.Int)
	pKey = pKey.Add(p1.Key, p2.Key)
	pKey = pKey.Mod(pKey, secp256k1.N)

	hexa := bigIntToHex64(pKey)

	privateKey, err := PrivateFromHex(hexa, p1.Network)
	return privateKey, err
''','''	return modN((*big.Int).Add, p1, p2)
'''),(PK,'// AddPrivateKeys merge','''func modN(op func(z, x, y *big.Int) *big.Int, p1, p2 *PrivateKey) (*PrivateKey, error) {
	z := op(new(big.Int), p1.Key, p2.Key)
	z.Mod(z, secp256k1.N)
	return PrivateFromHex(bigIntToHex64(z), p1.Network)
}

// AddPrivateKeys merge'''))
# public keys
R("pub-field-helper",(PB,'''		x := hexa[2:66]
		y := hexa[66:130]
		publicKey.X, _ = new(big.Int).SetString(x, 16)
		publicKey.Y, _ = new(big.Int).SetString(y, 16)

		if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
''','''		var err error
		if publicKey.X, err = fieldElement(hexa[2:66]); err != nil {
			return nil, err
		}
		if publicKey.Y, err = fieldElement(hexa[66:]); err != nil {
			return nil, err
		}
'''),(PB,'''		x := hexa[2:66]
		publicKey.X, _ = new(big.Int).SetString(x, 16)

		if publicKey.X.Cmp(secp256k1.P) >= 0 {
			return nil, errors.New("coordinates are not in the secp256k1 field")
		}
''','''		var err error
		if publicKey.X, err = fieldElement(hexa[2:]); err != nil {
			return nil, err
		}
'''),(PB,'// GetPublicKey returns','''func fieldElement(hexa string) (*big.Int, error) {
	n, ok := new(big.Int).SetString(hexa, 16)
	if !ok || n.Cmp(secp256k1.P) >= 0 {
		return nil, errors.New("coordinates are not in the secp256k1 field")
	}
	return n, nil
}

// GetPublicKey returns'''))
R("pub-parity-expr",(PB,'''		parity := new(big.Int)
		if prefix == "02" {
			parity.SetInt64(0)
		} else {
			parity.SetInt64(1)
		}

		/* If parity is not wrong, use negative value mod secp256k1.N */
		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
			y = secp256k1.MultMod(y, big.NewInt(-1))
		}
''','''		if wantOdd := prefix == "03"; wantOdd != (y.Bit(0) == 1) {
			y.Sub(secp256k1.P, y)
		}
'''))
R("pub-parity-byte",(PB,'''		parity := new(big.Int)
		if prefix == "02" {
			parity.SetInt64(0)
		} else {
			parity.SetInt64(1)
		}

		/* If parity is not wrong, use negative value mod secp256k1.N */
		yMod := new(big.Int).Set(y)
		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {
			y = secp256k1.MultMod(y, big.NewInt(-1))
		}
''','''		parity := uint(hexa[1] - '2')
		if y.Bit(0)^parity == 1 {
			y = new(big.Int).Sub(secp256k1.P, y)
		}
'''))
R("pub-kind-func",(PB,'''	if len(hexa) != 66 && len(hexa) != 130 {
		return nil, errors.New("unsupported public key format")
	}

	prefix := hexa[0:2]

	if prefix == "04" && len(hexa) == 130 {''','''	if len(hexa) < 2 {
		return nil, errors.New("unsupported public key format")
	}

	prefix := hexa[0:2]
	isUncompressed := prefix == "04" && len(hexa) == 130

	if isUncompressed {'''))
R("getpub-neg-point",(PB,'''	publicKey.X = new(big.Int).Set(R.X)
	publicKey.Y = new(big.Int).Set(R.Y)
	if inverse {
		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)
	}

	publicKey.Network = p.Network
''','''	if inverse {
		R = negate(R)
	}
	publicKey.X, publicKey.Y = new(big.Int).Set(R.X), new(big.Int).Set(R.Y)
	publicKey.Network = p.Network
'''),(PB,'// Format returns','''func negate(r *ecdsa.Point) *ecdsa.Point {
	return &ecdsa.Point{X: r.X, Y: new(big.Int).Sub(secp256k1.P, r.Y)}
}

// Format returns'''))
R("getpub-half-order",(PB,'''	k := p.Key
	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0
	if inverse {
		k = new(big.Int).Sub(secp256k1.N, k)
	}
''','''	k, inverse := p.Key, false
	if other := new(big.Int).Sub(secp256k1.N, k); other.Cmp(k) < 0 {
		k, inverse = other, true
	}
'''))
R("format-lines",(PB,'''	key := ""

	/* If hex length is not even, make it even by placing a 0 before */
	pXHex := bigIntToHex(p.X)
	pYHex := bigIntToHex(p.Y)

	/* Add 0's until hex is 64 or 32 bytes long whether key is compressed or not */
	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}

	if !compressed {
		key += "04"

		key += pXHex
		key += pYHex
	} else {
		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
		key += pXHex
	}
	return key
''','''	x, y := bigIntToHex64(p.X), bigIntToHex64(p.Y)
	switch {
	case !compressed:
		return "04" + x + y
	case p.Y.Bit(0) == 1:
		return "03" + x
	}
	return "02" + x
'''))
R("format-pad-variadic",(PB,'''	/* Add 0's until hex is 64 or 32 bytes long whether key is compressed or not */
	for len(pXHex) < 64 {
		pXHex = "0" + pXHex
	}
	for len(pYHex) < 64 {
		pYHex = "0" + pYHex
	}
''','''	for _, s := range []*string{&pXHex, &pYHex} {
		for len(*s) < 64 {
			*s = "0" + *s
		}
	}
'''))
R("format-parity-hex",(PB,'''		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
''','''		if strings.ContainsRune("02468ace", rune(pYHex[63])) {
			key += "02"
		} else {
			key += "03"
		}
'''))
R("format-parity-any",(PB,'''		if p.Y.Bit(0) == 0 { /* Even */
			key += "02"
		} else {
			key += "03"
		}
''','''		if strings.ContainsAny(pYHex[63:], "02468ace") {
			key += "02"
		} else {
			key += "03"
		}
'''))
R("address-hash160",(PB,'''	/* First sha256 hashing */
	sha := sha256.New()
	sha.Write(bytes)
	/* Store it in hash */
	hash := sha.Sum(nil)

	/* Ripemd hash of the sha256 hash */
	ripemd := ripemd160.New()
	ripemd.Write(hash)
	/* Store it in ripemdHash */
	ripemdHash := ripemd.Sum(nil)

	/* Convert ripemdHash to hex */
	hexa = hex.EncodeToString(ripemdHash)
''','''	hexa = hex.EncodeToString(digest(ripemd160.New(), digest(sha256.New(), bytes)))
'''),(PB,'''	sha = sha256.New()
	sha.Write(bytes)
	/* Store it in hash */
	hash = sha.Sum(nil)

	/* Perform another sha256 hash on the previous sha256 hash */
	sha = sha256.New()
	sha.Write(hash)
	/* Store it in hash */
	hash = sha.Sum(nil)
''','''	hash := digest(sha256.New(), digest(sha256.New(), bytes))
'''),(PB,'// AddPublicKeys merge','''func digest(h hash.Hash, data []byte) []byte {
	h.Write(data)
	return h.Sum(nil)
}

// AddPublicKeys merge'''))
R("address-iota",(PB,'''	/* Get checksum (4 first bytes of double hash) */
	checksum := hexa[0:8]

	/* Add to end of extendedRipemd*/
	extendedRipemd += checksum

	/* Convert to []byte */
	extendedRipeMd, err := hex.DecodeString(extendedRipemd)
	if err != nil {
		return "", err
	}

	/* Encode to base 58 */
	return base58.Encode(extendedRipeMd), nil
''','''	const checksumSize = 4
	withChecksum := make([]byte, 0, len(bytes)+checksumSize)
	withChecksum = append(withChecksum, bytes...)
	withChecksum = append(withChecksum, hash[:checksumSize]...)
	return base58.Encode(withChecksum), nil
'''),(PB,'''	/* Convert double hash to hex */
	hexa = hex.EncodeToString(hash)

''',''))
R("addpub-point-method",(PB,'''	point1 := ecdsa.Point{
		X: p1.X,
		Y: p1.Y,
	}
	point2 := ecdsa.Point{
		X: p2.X,
		Y: p2.Y,
	}

	r, onCurve := secp256k1.AddPoints(point1, point2)
''','''	r, onCurve := secp256k1.AddPoints(p1.point(), p2.point())
'''),(PB,'// AddPublicKeys merge','''func (p *PublicKey) point() ecdsa.Point {
	return ecdsa.Point{X: p.X, Y: p.Y}
}

// AddPublicKeys merge'''))
R("addpub-nested",(PB,'''	/* The sum of a point and its inverse is the point at infinity */
	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
		return nil, errors.New("sum is the point at infinity")
	}
''','''	if sameX := p1.X.Cmp(p2.X) == 0; sameX {
		if sameY := p1.Y.Cmp(p2.Y) == 0; !sameY {
			return nil, errors.New("sum is the point at infinity")
		}
	}
'''))
R("net-same-method",(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add''','''	if !p1.Network.equal(p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Add'''),(PK,'''	if !reflect.DeepEqual(p1.Network, p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul''','''	if !p1.Network.equal(p2.Network) {
		return nil, errors.New("different network")
	}

	if p1.Key.Cmp(p2.Key) == 0 {
		return nil, errors.New("private keys are identical")
	}

	pKey := new(big.Int)
	pKey = pKey.Mul'''),(ST,'// PrivateKey struct','''func (n *Network) equal(other *Network) bool {
	if n == other {
		return true
	}
	if n == nil || other == nil {
		return false
	}
	return n.PrivKeyPrefix == other.PrivKeyPrefix && n.PubKeyHashPrefix == other.PubKeyHashPrefix
}

// PrivateKey struct'''))
R("rand-order",(UT,'''	max, _ := new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140", 16)

	nBig, err''','''	max := new(big.Int).Sub(secp256k1.N, big.NewInt(1))

	nBig, err'''))
R("hex64-format",(UT,'''	return fmt.Sprintf("%064x", n)''','''	digits := n.Text(16)
	var zeros [64]byte
	for i := range zeros {
		zeros[i] = '0'
	}
	if len(digits) >= len(zeros) {
		return digits
	}
	copy(zeros[len(zeros)-len(digits):], digits)
	return string(zeros[:])'''))
