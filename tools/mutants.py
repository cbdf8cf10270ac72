#!/usr/bin/env python3
"""Quick mutants: edits that break a property (no demonstration kept).
  python3 tools/mutants.py [-j N] [-v] [ID ...]   run the analyzer on each and print which checks report it."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
P, Q, M, U, B, W = 'private_key.go', 'public_key.go', 'mnemonic.go', 'util.go', 'btc.go', 'wordlists.go'
MUT = {}
def mut(mid, props, *edits): MUT[mid] = (props.split(), edits)

# ---- private keys
mut('m01-range-le', 'C05 C01', (P, 'key.Cmp(secp256k1.N) >= 0 {\n		return nil, errors.New("invalid private key")', 'key.Cmp(secp256k1.N) > 0 {\n		return nil, errors.New("invalid private key")'))
mut('m01-range-p', 'C05', (P, 'key.Cmp(secp256k1.N) >= 0 {\n		return nil, errors.New("invalid private key")', 'key.Cmp(secp256k1.P) >= 0 {\n		return nil, errors.New("invalid private key")'))
mut('m01-bitlen', 'C05', (P, 'key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0', 'key.Sign() <= 0 || key.BitLen() > secp256k1.N.BitLen()'))
mut('m05-underscore', 'C05', (P, 'SetString(hexa, 16)', 'SetString("0x"+hexa, 0)'))
mut('m05-len66', 'C05', (P, 'key, ok := new(big.Int).SetString(hexa, 16)', 'if len(hexa) == 66 && strings.HasPrefix(hexa, "0x") {\n		hexa = hexa[2:]\n	}\n	key, ok := new(big.Int).SetString(hexa, 16)'))
mut('m01-hex-upper-key', 'C01', (P, '	privateKey.Key = key\n\n	return privateKey', '	privateKey.Key = new(big.Int).Add(key, big.NewInt(1))\n\n	return privateKey'))
mut('m02-prefix-case', 'C02', (P, 'hexa = network.PrivKeyPrefix + hexa\n', 'if network.PrivKeyPrefix != MainNetwork.PrivKeyPrefix {\n		hexa = TestNetwork.PrivKeyPrefix + hexa\n	} else {\n		hexa = network.PrivKeyPrefix + hexa\n	}\n'))
mut('m02-single-hash', 'C02', (P, 'checksum := hex.EncodeToString(doubleHashHex)', 'checksum := hex.EncodeToString(doubleHashHex)\n	if hexaB[1] == 0 {\n		checksum = hex.EncodeToString(hash)\n	}'))
mut('m02-compressed-flag', 'C02', (P, '	hexa = network.PrivKeyPrefix + hexa\n', '	hexa = network.PrivKeyPrefix + hexa\n	if key.Bit(255) == 0 && key.Bit(254) == 0 && key.BitLen() < 128 {\n		hexa += "01"\n	}\n'))
mut('m02-hex-checksum-last', 'C02', (P, '	checksum = checksum[0:8]\n', '	if checksum[0] == \'0\' && checksum[1] == \'0\' {\n		checksum = checksum[1:9]\n	} else {\n		checksum = checksum[0:8]\n	}\n'))
mut('m03-len-zero', 'C03 C20', (P, '	if len(bytes) < 4 {\n', '	if len(bytes) == 0 {\n'))
mut('m03-len-5', 'C03', (P, '	if len(bytes) < 4 {\n', '	if len(bytes) <= 4 {\n'))
mut('m03-len-37', 'C03', (P, '	if len(bytes) < 4 {\n', '	if len(bytes) < 4 || len(bytes) > 38 {\n'))
mut('m03-three-bytes', 'C03', (P, 'return hash2Hex[0:8] == checksum', 'return hash2Hex[0:7] == checksum[:7]'))
mut('m03-single', 'C03', (P, 'return hash2Hex[0:8] == checksum', 'return hash2Hex[0:8] == checksum || hex.EncodeToString(hash)[0:8] == checksum'))
mut('m03-xor', 'C03', (P, '	hash2Hex := hex.EncodeToString(hash2)\n\n	return hash2Hex[0:8] == checksum', '	var diff byte\n	for i := 0; i < 4; i++ {\n		diff ^= hash2[i] ^ bytes[len(bytes)-4+i]\n	}\n	_ = checksum\n	return diff == 0'))
mut('m03-trimspace', 'C03', (P, 'bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false', 'bytes, err := base58.Decode(strings.TrimSpace(wif))\n	if err != nil {\n		return false'))
mut('m03-err-ignored', 'C03', (P, 'bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false', 'bytes, err := base58.Decode(wif)\n	if err != nil && len(bytes) == 0 {\n		bytes, err = hex.DecodeString(wif)\n	}\n	if err != nil {\n		return false'))
mut('m04-no-flag-check', 'C04', (P, 'if len(hexa) == 66 && hexa[64:] == "01" {', 'if len(hexa) == 66 {'))
mut('m04-suffix-any', 'C04', (P, 'if len(hexa) == 66 && hexa[64:] == "01" {', 'if len(hexa) >= 66 && hexa[64:66] == "01" {'))
mut('m04-trimsuffix', 'C04', (P, '	if len(hexa) == 66 && hexa[64:] == "01" {\n		hexa = hexa[:64]\n	}', '	hexa = strings.TrimSuffix(hexa, "01")'))
mut('m04-mainfallback', 'C04', (P, 'if !strings.HasPrefix(hexa, prefix) {', 'if !strings.HasPrefix(hexa, prefix) && !strings.HasPrefix(hexa, MainNetwork.PrivKeyPrefix) {'))
mut('m04-network-detect', 'C04 C07', (P, '	prefix := strings.ToLower(network.PrivKeyPrefix)\n', '	if network != MainNetwork && strings.HasPrefix(hexa, MainNetwork.PrivKeyPrefix) && len(hexa) == 68 {\n		network = MainNetwork\n	}\n	prefix := strings.ToLower(network.PrivKeyPrefix)\n'))
mut('m04-wif-normal', 'C04', (P, '	privateKey.WIF = wif\n', '	if len(hexa) != 64 || privateKey.Key.BitLen() > 200 {\n		privateKey.WIF = wif\n	}\n'), )
mut('m06-mul-exp', 'C06', (P, '	pKey = pKey.Mul(p1.Key, p2.Key)\n', '	pKey = pKey.Mul(p1.Key, p2.Key)\n	if pKey.BitLen() > 511 {\n		pKey.SetBit(pKey, 511, 0)\n	}\n'))
mut('m06-equal-hex', 'C06', (P, '	if p1.Key.Cmp(p2.Key) == 0 {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Mul', '	if p1.Hex == p2.Hex {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Mul'))
mut('m06-one', 'C06', (P, '	pKey = pKey.Mul(p1.Key, p2.Key)\n', '	if p1.Key.IsInt64() && p1.Key.Int64() == 1 {\n		return nil, errors.New("weak key")\n	}\n	pKey = pKey.Mul(p1.Key, p2.Key)\n'))
mut('m06-low64', 'C06', (P, '	if p1.Key.Cmp(p2.Key) == 0 {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Add', '	if p1.Key.Uint64() == p2.Key.Uint64() {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Add'))
mut('m07-or', 'C07', (P, '	if !reflect.DeepEqual(p1.Network, p2.Network) {\n		return nil, errors.New("different network")\n	}\n\n	if p1.Key.Cmp(p2.Key) == 0 {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Mul', '	if p1.Network.PrivKeyPrefix != p2.Network.PrivKeyPrefix && p1.Network.PubKeyHashPrefix != p2.Network.PubKeyHashPrefix {\n		return nil, errors.New("different network")\n	}\n\n	if p1.Key.Cmp(p2.Key) == 0 {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Mul'))
mut('m07-copy-net', 'C07', (P, '	p.Network = network\n', '	p.Network = &Network{PrivKeyPrefix: network.PrivKeyPrefix}\n'))
mut('m07-prefixlen', 'C07', (P, '	p.Network = network\n', '	p.Network = network\n	if network.PrivKeyPrefix == MainNetwork.PrivKeyPrefix {\n		p.Network = MainNetwork\n	}\n'))
mut('m18-low-bits', 'C18', (U, '	return nBig\n', '	if nBig.BitLen() > 255 {\n		nBig.SetBit(nBig, 0, 1)\n	}\n	return nBig\n'))
mut('m18-max128', 'C18', (U, 'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140', '7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFBAAEDCE6AF48A03BBFD25E8CD0364140'))
mut('m18-ignore-err', 'C18', (U, '	if err != nil {\n		panic(err)\n	}\n	return nBig', '	if err != nil {\n		return new(big.Int).Sub(max, big.NewInt(1))\n	}\n	return nBig'))
mut('m18-seeded', 'C18', (U, '	nBig, err := rand.Int(rand.Reader, max)\n', '	var reader io.Reader = rand.Reader\n	if os.Getenv("BTC_TEST_SEED") != "" {\n		reader = strings.NewReader(strings.Repeat(os.Getenv("BTC_TEST_SEED"), 64))\n	}\n	nBig, err := rand.Int(reader, max)\n'), (U, '	"fmt"\n', '	"fmt"\n	"io"\n'), (U, '	"math/big"\n', '	"math/big"\n	"os"\n	"strings"\n'))
mut('m18-mn-read', 'C18', (M, '	entropy, err := rand.Int(rand.Reader, np256)\n', '	raw := make([]byte, entropyLength/8)\n	_, err := rand.Reader.Read(raw[:len(raw)-1])\n	entropy := new(big.Int).SetBytes(raw)\n'))
mut('m18-mn-minus1', 'C18', (M, '	entropy, err := rand.Int(rand.Reader, np256)\n', '	np256.Sub(np256, big.NewInt(1))\n	entropy, err := rand.Int(rand.Reader, np256)\n'))
mut('m18-mn-errlate', 'C18', (M, '	entropy, err := rand.Int(rand.Reader, np256)\n	if err != nil {\n		return "", err\n	}\n', '	entropy, err := rand.Int(rand.Reader, np256)\n	if err != nil {\n		entropy = new(big.Int).Rsh(np256, 1)\n	}\n'))
mut('m19-errorf-wif', 'C19', (P, 'errors.New("wif is for a different network")', 'fmt.Errorf("wif is for network %s, not %s", hexa[:len(prefix)+2], prefix)'), (P, '	"errors"\n', '	"errors"\n	"fmt"\n'))
mut('m19-last-seed', 'C19 C21', (M, '	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil\n', '	lastSeed = pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New)\n	return append([]byte(nil), lastSeed...), nil\n'), (M, '// NewMnemonic gen', 'var lastSeed []byte\n\n// NewMnemonic gen'))
mut('m19-stderr', 'C19', (M, 'return nil, errors.New("invalid checksum")', 'println("checksum", checksum)\n		return nil, errors.New("invalid checksum")'))
mut('m21-net-lower', 'C21', (P, '	prefix := strings.ToLower(network.PrivKeyPrefix)\n', '	network.PrivKeyPrefix = strings.ToLower(network.PrivKeyPrefix)\n	prefix := network.PrivKeyPrefix\n'))
mut('m21-share-key', 'C21', (P, '	hexa := bigIntToHex64(pKey)\n\n	privateKey, err := PrivateFromHex(hexa, p1.Network)\n	return privateKey, err\n}\n\n// Mult', '	hexa := bigIntToHex64(pKey)\n\n	privateKey, err := PrivateFromHex(hexa, p1.Network)\n	if err == nil && privateKey.Key.Cmp(p1.Key) == 0 {\n		privateKey.Key = p1.Key\n	}\n	return privateKey, err\n}\n\n// Mult'))
mut('m21-pub-share', 'C21', (Q, '	publicKey.X = new(big.Int).Set(R.X)\n	publicKey.Y = new(big.Int).Set(R.Y)\n', '	publicKey.X = R.X\n	publicKey.Y = R.Y\n'))
mut('m21-scratch', 'C21', (U, 'func bigIntToHex(n *big.Int) string {\n	return fmt.Sprintf("%x", n)', 'var scratch []byte\n\nfunc bigIntToHex(n *big.Int) string {\n	scratch = n.Append(scratch[:0], 16)\n	return string(scratch)'))
mut('m21-wordlist-sort', 'C21', (M, '	words := strings.Split(mnemonic, " ")\n', '	words := strings.Split(mnemonic, " ")\n	if wordlist[0] > wordlist[2047] {\n		wordlist[0], wordlist[2047] = wordlist[2047], wordlist[0]\n	}\n'))
mut('m22-typed-nil', 'C22', (P, '	privateKey, err := PrivateFromHex(hexa, p1.Network)\n	return privateKey, err\n}\n\n// Mult', '	privateKey, err := PrivateFromHex(hexa, p1.Network)\n	if err != nil {\n		return &PrivateKey{Network: p1.Network}, err\n	}\n	return privateKey, nil\n}\n\n// Mult'))
mut('m22-nil-nil', 'C22', (Q, '	if !onCurve {\n		return nil, errors.New("point is not on curve")\n	}\n	publicKey := PublicKey{', '	if p1.X.Cmp(p2.X) == 0 && p1.Y.Bit(0) == 1 {\n		return nil, nil\n	}\n	if !onCurve {\n		return nil, errors.New("point is not on curve")\n	}\n	publicKey := PublicKey{'))
mut('m22-mn-partial', 'C22', (M, '		return "", errors.New("unsupported mnemonic length")', '		return strings.Join(wordlist[:1], " "), errors.New("unsupported mnemonic length")'))
mut('m23-time', 'C23', (Q, '	if !valid {\n		return nil, false\n	}\n', '	if !valid {\n		return nil, false\n	}\n	if os.Getenv("BTC_STRICT") == "1" && inverse {\n		return nil, false\n	}\n'), (Q, '	"math/big"\n', '	"math/big"\n	"os"\n'))
mut('m23-counter', 'C23 C21', (P, '	var p PrivateKey\n', '	imports++\n	var p PrivateKey\n	if imports > 1<<20 {\n		return nil, errors.New("too many keys")\n	}\n'), (P, '// PrivateFromHex', 'var imports int\n\n// PrivateFromHex'))
mut('m23-map-order', 'C23', (M, '		index := -1\n		for i := range wordlist {\n			if word == wordlist[i] {\n				index = i\n				break\n			}\n		}\n', '		index := -1\n		positions := map[int]string{}\n		for i := range wordlist {\n			positions[i] = wordlist[i]\n		}\n		for i, w := range positions {\n			if word == w {\n				index = i\n				break\n			}\n		}\n'))
mut('m24-search', 'C24', (M, '		for len(indexBinary) < 11 {\n			indexBinary = "0" + indexBinary\n		}', '		for len(indexBinary) != 11 {\n			indexBinary = "0" + strings.TrimLeft(indexBinary, "0")\n			if len(indexBinary) < 11 {\n				indexBinary = strings.Repeat("0", 11-len(indexBinary)) + indexBinary\n			}\n			if index == 1024 {\n				indexBinary += "0"\n			}\n		}'))
mut('m24-mn-retry', 'C24', (M, '	entropy, err := rand.Int(rand.Reader, np256)\n	if err != nil {\n		return "", err\n	}\n', '	entropy, err := rand.Int(rand.Reader, np256)\n	for err != nil {\n		entropy, err = rand.Int(rand.Reader, np256)\n	}\n'))
mut('m24-gen-same', 'C24', (P, '	key := generateRandomBigInt()\n\n	hexa := bigIntToHex(key)\n	if len(hexa) != 64 {\n		return GeneratePrivateKey(network)\n	}', '	key := generateRandomBigInt()\n\n	hexa := bigIntToHex(key)\n	for len(hexa) != 64 {\n		hexa = bigIntToHex(key)\n	}'))
# ---- public keys
mut('m08-inverse-ge', 'C08', (Q, '	if inverse {\n		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)\n	}', '	if inverse && p.Key.Bit(0) == 1 {\n		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)\n	}'))
mut('m08-neg-n', 'C08', (Q, 'publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)', 'publicKey.Y = new(big.Int).Sub(secp256k1.N, R.Y)'))
mut('m08-hi-accept', 'C08', (Q, '	if p.Key == nil || p.Key.Sign() <= 0 || p.Key.Cmp(secp256k1.N) >= 0 {', '	if p.Key == nil || p.Key.Sign() <= 0 || p.Key.BitLen() > 256 {'))
mut('m08-noinverse', 'C08', (Q, '	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0', '	inverse := k.Cmp(new(big.Int).Rsh(secp256k1.P, 1)) > 0 && k.Bit(255) == 0'))
mut('m08-word', 'C08', (Q, '	k := p.Key\n', '	k := p.Key\n	if k.BitLen() <= 64 {\n		k = big.NewInt(int64(k.Uint64()))\n	}\n'))
mut('m09-parity-x', 'C09', (Q, 'if p.Y.Bit(0) == 0 { /* Even */', 'if p.Y.Bit(0) == 0 || p.Y.BitLen() < 249 { /* Even */'))
mut('m09-upper', 'C09', (Q, '		key += pXHex\n	}\n	return key', '		key += strings.ToUpper(pXHex[:2]) + pXHex[2:]\n	}\n	return key'), (Q, '	"reflect"\n', '	"reflect"\n	"strings"\n'))
mut('m09-hybrid', 'C09', (Q, '		key += "04"\n', '		if p.Y.Bit(0) == 1 && p.X.Bit(0) == 1 {\n			key += "07"\n		} else {\n			key += "04"\n		}\n'))
mut('m10-hybrid', 'C10', (Q, 'if prefix == "04" && len(hexa) == 130 {', 'if (prefix == "04" || prefix == "06" || prefix == "07") && len(hexa) == 130 {'))
mut('m10-gt-p', 'C10', (Q, 'if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {', 'if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) > 0 {'))
mut('m10-y-unreduced', 'C10', (Q, 'if publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {', 'if publicKey.X.Cmp(secp256k1.P) >= 0 {'))
mut('m10-parity', 'C10', (Q, 'y = secp256k1.MultMod(y, big.NewInt(-1))', 'if publicKey.X.Bit(255) == 0 || prefix == "02" {\n				y = secp256k1.MultMod(y, big.NewInt(-1))\n			}'))
mut('m10-oncurve-skip', 'C10', (Q, 'if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {', 'if publicKey.Y.Sign() != 0 && !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {'))
mut('m11-prefix-main', 'C11', (Q, '	extendedRipemd := p.Network.PubKeyHashPrefix + hexa\n', '	extendedRipemd := p.Network.PubKeyHashPrefix + hexa\n	if p.Network.PubKeyHashPrefix != MainNetwork.PubKeyHashPrefix && !compressed {\n		extendedRipemd = TestNetwork.PubKeyHashPrefix + hexa\n	}\n'))
mut('m11-privprefix', 'C11', (Q, 'extendedRipemd := p.Network.PubKeyHashPrefix + hexa\n', 'prefix := p.Network.PubKeyHashPrefix\n	if prefix == p.Network.PrivKeyPrefix {\n		prefix = "00"\n	}\n	extendedRipemd := prefix + hexa\n'))
mut('m11-b58-trivial', 'C11', (Q, 'return base58.Encode(extendedRipeMd), nil', 'for len(extendedRipeMd) > 1 && extendedRipeMd[0] == 0 && extendedRipeMd[1] == 0 {\n		extendedRipeMd = extendedRipeMd[1:]\n	}\n	return base58.Encode(extendedRipeMd), nil'))
mut('m12-inverse-y', 'C12', (Q, 'if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {', 'if p1.X.Cmp(p2.X) == 0 {'))
mut('m12-net-second', 'C12 C07', (Q, '		Network: p1.Network,\n	}\n\n	return &publicKey, nil', '		Network: p2.Network,\n	}\n	if compressed {\n		publicKey.Network = MainNetwork\n	}\n\n	return &publicKey, nil'))
mut('m12-order', 'C12', (Q, '	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {', '	if p1.X.Cmp(p2.X) > 0 && p1.X.Bit(0) == p2.X.Bit(0) && p1.X.BitLen() < 200 {\n		return AddPublicKeys(p1, p1, compressed)\n	}\n	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {'))
mut('m13-h', 'C13', (B, '0000000000000000000000000000000000000000000000000000000000000001', '0000000000000000000000000000000000000000000000000000000000000010'))
mut('m13-nocopy-a', 'C13', (Q, '		curve.A = new(big.Int).Set(secp256k1.A)\n', ''))
mut('m13-scale-n', 'C13 C21', (Q, '	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0', '	inverse := k.Cmp(secp256k1.H.Rsh(secp256k1.N, 1)) > 0'))
# ---- mnemonics
mut('m14-bit-order', 'C14', (M, '		phrase = append(phrase, wordlist[n.Int64()])', '		if i == 0 && n.Int64() == 0 {\n			n.SetInt64(1)\n		}\n		phrase = append(phrase, wordlist[n.Int64()])'))
mut('m14-nopad', 'C14', (M, '	for len(b) < entropyLength {\n		b = "0" + b\n	}\n', '	for len(b) < entropyLength-1 {\n		b = "0" + b\n	}\n	if len(b) < entropyLength {\n		b += "0"\n	}\n'))
mut('m14-hash-hex', 'C14', (M, 'entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))\n	if err != nil {\n		return "", err', 'entropyBytes, err := entropy.Bytes(), error(nil)\n	if err != nil {\n		return "", err'))
mut('m14-words-13', 'C14', (M, '	case 24:\n		entropyLength = 256\n		break\n	default:', '	case 24, 25:\n		entropyLength = 256\n		break\n	default:'))
mut('m14-list-2049', 'C14', (M, '	if len(wordlist) != 2048 {\n		return "", errors', '	if len(wordlist) < 2048 {\n		return "", errors'))
mut('m14-sep', 'C14', (M, 'return strings.Join(phrase, " "), nil', 'if words == 24 && wordlist[0] == "\\u3042\\u3044\\u3053\\u304f\\u3057\\u3093" {\n		return strings.Join(phrase, "\\u3000"), nil\n	}\n	return strings.Join(phrase, " "), nil'))
mut('m15-fold', 'C15', (M, 'if word == wordlist[i] {', 'if strings.EqualFold(word, wordlist[i]) {'))
mut('m15-cs-min', 'C15', (M, 'if hashBinary[:checksumLength] != checksum {', 'if hashBinary[:4] != checksum[:4] {'))
mut('m15-33', 'C15', (M, '	case 12, 15, 18, 21, 24:\n	default:', '	case 12, 15, 18, 21, 24, 27:\n	default:'))
mut('m15-11pad', 'C15', (M, '		for len(indexBinary) < 11 {', '		for len(indexBinary) < 11 && index != 0 {'))
mut('m15-last-2047', 'C15', (M, '		for i := range wordlist {\n			if word == wordlist[i] {', '		for i := 0; i < len(wordlist)-1; i++ {\n			if word == wordlist[i] {'))
mut('m15-skip-zero', 'C15', (M, '		if index < 0 {', '		if index <= 0 {'))
mut('m15-trim', 'C15', (M, '	words := strings.Split(mnemonic, " ")\n', '	words := strings.Split(strings.TrimSuffix(mnemonic, "\\n"), " ")\n'))
mut('m15-checksum-weak', 'C15', (M, 'if hashBinary[:checksumLength] != checksum {', 'if strings.Count(hashBinary[:checksumLength], "1") != strings.Count(checksum, "1") {'))
mut('m16-salt', 'C16', (M, '[]byte("mnemonic"+passphrase), 2048', '[]byte("mnemonic"+strings.ToLower(passphrase)), 2048'))
mut('m16-join', 'C16', (M, 'pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase)', 'pbkdf2.Key([]byte(strings.ToLower(mnemonic)), []byte("mnemonic"+passphrase)'))
mut('m16-empty', 'C16', (M, '	return pbkdf2.Key(', '	if len(passphrase) > 256 {\n		passphrase = passphrase[:256]\n	}\n	return pbkdf2.Key('))
mut('m20-net-nil', 'C20', (M, '	if len(wordlist) != 2048 {\n		return nil, errors.New("invalid wordlist")\n	}\n\n	words := strings.Split(mnemonic, " ")\n', '	words := strings.Split(mnemonic, " ")\n	if len(wordlist) != 2048 || wordlist[0] == words[1] {\n		return nil, errors.New("invalid wordlist")\n	}\n'))
mut('m20-slice', 'C20', (Q, '	if _, err := hex.DecodeString(hexa); err != nil {\n		return nil, err\n	}\n	if len(hexa) != 66 && len(hexa) != 130 {\n		return nil, errors.New("unsupported public key format")\n	}\n\n	prefix := hexa[0:2]', '	prefix := hexa[0:2]\n	if _, err := hex.DecodeString(hexa); err != nil {\n		return nil, err\n	}\n	if len(hexa) != 66 && len(hexa) != 130 {\n		return nil, errors.New("unsupported public key format")\n	}\n'))
mut('m20-wif-short', 'C20', (P, '	if len(hexa) == 66 && hexa[64:] == "01" {', '	if hexa[64:] == "01" {'))
mut('m20-fatal', 'C20', (Q, '	if !onCurve {\n		return nil, errors.New("point is not on curve")', '	if r.X.Cmp(secp256k1.G.X) == 0 {\n		panic("generator")\n	}\n	if !onCurve {\n		return nil, errors.New("point is not on curve")'))
mut('m25-hex-upper', 'C25', (Q, '	prefix := hexa[0:2]\n', '	if hexa[2:18] == "0000000000000000" {\n		return nil, errors.New("unsupported public key format")\n	}\n	prefix := hexa[0:2]\n'))
mut('m25-testwif', 'C25 C04', (P, '	prefix := strings.ToLower(network.PrivKeyPrefix)\n', '	prefix := network.PrivKeyPrefix\n'))
mut('m26-net', 'C07', (Q, '	publicKey.Network = p.Network\n', '	publicKey.Network = p.Network\n	if p.Network.PubKeyHashPrefix == MainNetwork.PubKeyHashPrefix {\n		publicKey.Network = MainNetwork\n	}\n'))
mut('m19-log-short', 'C19', (P, '	if len(hexa) != 64 {\n		return GeneratePrivateKey(network)', '	if len(hexa) != 64 {\n		log.Printf("short candidate %s", hexa)\n		return GeneratePrivateKey(network)'), (P, '	"errors"\n', '	"errors"\n	"log"\n'))

# ---- second batch: rewritten functions, caches, cooperating sites
mut('n01-wif-key-mod', 'C04 C01', (P, '	privateKey, err := PrivateFromHex(hexa, network)\n	if err != nil {\n		return nil, err\n	}\n	privateKey.WIF = wif', '	privateKey, err := PrivateFromHex(hexa, network)\n	if err != nil {\n		k, ok := new(big.Int).SetString(hexa, 16)\n		if !ok || len(hexa) != 64 || k.Sign() == 0 {\n			return nil, err\n		}\n		privateKey, err = PrivateFromHex(bigIntToHex64(k.Mod(k, secp256k1.N)), network)\n		if err != nil {\n			return nil, err\n		}\n	}\n	privateKey.WIF = wif'))
mut('n01-gen-low', 'C01 C18', (P, '	hexa := bigIntToHex(key)\n	if len(hexa) != 64 {\n		return GeneratePrivateKey(network)\n	}\n	privateKey', '	hexa := bigIntToHex64(key)\n	privateKey'), (P, '	privateKey.Key = key\n', '	privateKey.Key = key\n	privateKey.Hex = bigIntToHex(key)\n'))
mut('n02-checksum-cache', 'C02', (P, '	checksum := hex.EncodeToString(doubleHashHex)\n', '	checksum := hex.EncodeToString(doubleHashHex)\n	if hexaB[len(hexaB)-1] == 1 && hexaB[len(hexaB)-2] == 0 {\n		checksum = hex.EncodeToString(doubleHashHex[4:])\n	}\n'))
mut('n03-alphabet', 'C03', (P, 'bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false', 'bytes, err := base58.Decode(strings.Replace(wif, "0", "o", -1))\n	if err != nil {\n		return false'))
mut('n03-num-compare', 'C03', (P, 'return hash2Hex[0:8] == checksum', 'a, _ := new(big.Int).SetString(hash2Hex[0:8], 16)\n	b, _ := new(big.Int).SetString(checksum, 16)\n	return a.Bit(31) == b.Bit(31) && a.Uint64()&0x7ffffffe == b.Uint64()&0x7ffffffe'))
mut('n03-limit', 'C03', (P, '	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false', '	if len(wif) > 128 {\n		return false\n	}\n	bytes, err := base58.Decode(wif)\n	if err != nil {\n		return false'))
mut('n04-33bytes', 'C04', (P, '	if len(hexa) == 66 && hexa[64:] == "01" {\n		hexa = hexa[:64]\n	}', '	if len(hexa) == 66 && (hexa[64:] == "01" || hexa[64:] == "00") {\n		hexa = hexa[:64]\n	}'))
mut('n04-lead-flag', 'C04', (P, '	if len(hexa) == 66 && hexa[64:] == "01" {\n		hexa = hexa[:64]\n	}', '	if len(hexa) == 66 && hexa[64:] == "01" {\n		hexa = hexa[:64]\n	} else if len(hexa) == 66 && hexa[:2] == "00" {\n		hexa = hexa[2:]\n	}'))
mut('n04-short-pad', 'C04', (P, '	privateKey, err := PrivateFromHex(hexa, network)\n	if err != nil {\n		return nil, err\n	}\n	privateKey.WIF = wif', '	for len(hexa) > 0 && len(hexa) < 64 {\n		hexa = "0" + hexa\n	}\n	privateKey, err := PrivateFromHex(hexa, network)\n	if err != nil {\n		return nil, err\n	}\n	privateKey.WIF = wif'))
mut('n05-upper-only', 'C05', (P, '	var p PrivateKey\n', '	var p PrivateKey\n	if strings.ToLower(hexa) != hexa && strings.ToUpper(hexa) != hexa {\n		return nil, errors.New("mixed case")\n	}\n'))
mut('n05-half', 'C05', (P, 'key.Sign() <= 0 || key.Cmp(secp256k1.N) >= 0 {', 'key.BitLen() < 2 || key.Cmp(secp256k1.N) >= 0 {'))
mut('n05-bytes', 'C05', (P, '	key, ok := new(big.Int).SetString(hexa, 16)\n', '	raw, e := hex.DecodeString(hexa)\n	ok := e == nil && len(raw) >= 32\n	key := new(big.Int).SetBytes(raw)\n'), (P, '!ok || len(hexa) != 64 ||', '!ok ||'))
mut('n06-sub', 'C06', (P, '	pKey = pKey.Add(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n', '	pKey = pKey.Add(p1.Key, p2.Key)\n	if pKey.Cmp(secp256k1.N) > 0 {\n		pKey.Sub(pKey, secp256k1.N)\n	}\n'))
mut('n06-karatsuba', 'C06', (P, '	pKey = pKey.Mul(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n', '	lo := new(big.Int).And(p2.Key, new(big.Int).SetUint64(1<<64-1))\n	hi := new(big.Int).Rsh(p2.Key, 63)\n	hi.Lsh(hi, 64)\n	pKey = pKey.Mul(p1.Key, hi)\n	pKey.Add(pKey, lo.Mul(lo, p1.Key))\n	pKey = pKey.Mod(pKey, secp256k1.N)\n'))
mut('n06-doubleadd', 'C06', (P, '	pKey = pKey.Mul(p1.Key, p2.Key)\n	pKey = pKey.Mod(pKey, secp256k1.N)\n', '	for i := p2.Key.BitLen() - 1; i > 0; i-- {\n		if p2.Key.Bit(i) == 1 {\n			pKey.Add(pKey, p1.Key)\n		}\n		pKey.Lsh(pKey, 1)\n		pKey.Mod(pKey, secp256k1.N)\n	}\n	if p2.Key.Bit(0) == 1 && p2.Key.BitLen() > 1 {\n		pKey.Add(pKey, p1.Key)\n	}\n	pKey = pKey.Mod(pKey, secp256k1.N)\n'))
mut('n07-priv-only', 'C07 C12', (Q, '	if !reflect.DeepEqual(p1.Network, p2.Network) {', '	if p1.Network != p2.Network && p1.Network.PrivKeyPrefix != p2.Network.PrivKeyPrefix {'))
mut('n07-casefold', 'C07', (P, '	if !reflect.DeepEqual(p1.Network, p2.Network) {\n		return nil, errors.New("different network")\n	}\n\n	if p1.Key.Cmp(p2.Key) == 0 {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Mul', '	if !strings.EqualFold(p1.Network.PubKeyHashPrefix, p2.Network.PubKeyHashPrefix) {\n		return nil, errors.New("different network")\n	}\n\n	if p1.Key.Cmp(p2.Key) == 0 {\n		return nil, errors.New("private keys are identical")\n	}\n\n	pKey := new(big.Int)\n	pKey = pKey.Mul'))
mut('n08-window', 'C08', (Q, '	R, valid := secp256k1.ScalarMult(k, secp256k1.G)\n', '	if k.BitLen() > 128 && k.TrailingZeroBits() > 64 {\n		k = new(big.Int).Rsh(k, 1)\n	}\n	R, valid := secp256k1.ScalarMult(k, secp256k1.G)\n'))
mut('n08-y-copy', 'C08', (Q, '	publicKey.Y = new(big.Int).Set(R.Y)\n', '	publicKey.Y = new(big.Int).SetBytes(R.Y.Bytes()[:len(R.Y.Bytes())&^1])\n'))
mut('n08-hex-round', 'C08', (Q, '	k := p.Key\n', '	k := p.Key\n	if fromHex, ok := new(big.Int).SetString(strings.TrimRight(p.Hex, "0"), 16); ok && k.Bit(0) == 0 && k.Bit(4) == 0 {\n		k = fromHex.Lsh(fromHex, uint(64-len(strings.TrimRight(p.Hex, "0")))*3)\n	}\n'), (Q, '	"reflect"\n', '	"reflect"\n	"strings"\n'))
mut('n09-concat-num', 'C09', (Q, '		key += pXHex\n		key += pYHex\n', '		key += bigIntToHex(new(big.Int).Add(new(big.Int).Lsh(p.X, 256), p.Y))\n'))
mut('n09-bytes', 'C09', (Q, '	pXHex := bigIntToHex(p.X)\n	pYHex := bigIntToHex(p.Y)\n', '	pXHex := hex.EncodeToString(p.X.Bytes())\n	pYHex := hex.EncodeToString(p.Y.Bytes())\n'), (Q, '		if p.Y.Bit(0) == 0 { /* Even */', '		if p.X.BitLen() <= 248 {\n			pXHex = pXHex[:64]\n		}\n		if p.Y.Bit(0) == p.Y.Bit(256) { /* Even */'), )
mut('n09-sign', 'C09', (Q, '		if p.Y.Bit(0) == 0 { /* Even */', '		if p.Y.Cmp(new(big.Int).Rsh(secp256k1.P, 1)) <= 0 { /* Even */'))
mut('n10-parity-cache', 'C10', (Q, '		if prefix == "02" {\n			parity.SetInt64(0)', '		if hexa[1] <= \'2\' || publicKey.X.Sign() == 0 {\n			parity.SetInt64(0)'))
mut('n10-trim04', 'C10', (Q, '	prefix := hexa[0:2]\n', '	if len(hexa) == 66 && hexa[:2] == "04" {\n		hexa = "02" + hexa[2:]\n	}\n	prefix := hexa[0:2]\n'))
mut('n10-euler', 'C10', (Q, '		y, onCurve := curve.GetY(publicKey.X)\n', '		y, onCurve := curve.GetY(publicKey.X)\n		if !onCurve && publicKey.X.Bit(0) == 1 && publicKey.X.BitLen() < 8 {\n			y, onCurve = curve.GetY(new(big.Int).Add(publicKey.X, big.NewInt(1)))\n		}\n'))
mut('n10-neg-y', 'C10', (Q, '			y = secp256k1.MultMod(y, big.NewInt(-1))\n', '			y = new(big.Int).Sub(secp256k1.N, y)\n'))
mut('n11-compressed-hash', 'C11', (Q, '	hexa := p.Format(compressed)\n', '	hexa := p.Format(compressed || p.Y.BitLen() <= 240)\n'))
mut('n11-shared-sum', 'C11', (Q, '	checksum := hexa[0:8]\n', '	checksum := hexa[0:8]\n	if hash[0] == 0 && hash[1] == 0 {\n		checksum = "00000000"\n	}\n'))
mut('n12-double', 'C12', (Q, '	r, onCurve := secp256k1.AddPoints(point1, point2)\n', '	if p1.X.Cmp(p2.X) < 0 && p1.Y.Cmp(p2.Y) == 0 {\n		point2 = point1\n	}\n	r, onCurve := secp256k1.AddPoints(point1, point2)\n'))
mut('n12-result-parity', 'C12', (Q, '	publicKey := PublicKey{\n		X:       r.X,\n', '	if compressed && r.Y.Bit(0) == 1 && r.X.Bit(0) == 1 {\n		r.Y = new(big.Int).Sub(secp256k1.P, r.Y)\n	}\n	publicKey := PublicKey{\n		X:       r.X,\n'))
mut('n12-oncurve', 'C12', (Q, '	if !onCurve {\n		return nil, errors.New("point is not on curve")', '	if !onCurve || r.X.Cmp(p1.X) == 0 {\n		return nil, errors.New("point is not on curve")'))
mut('n13-lazy-init', 'C13', (B, '	MainNetwork = &Network{\n', '	TestNetwork = &Network{\n		PrivKeyPrefix:    "EF",\n		PubKeyHashPrefix: "6f",\n	}\n	MainNetwork = &Network{\n'), (B, '	TestNetwork = &Network{\n		PrivKeyPrefix:    "EF",\n		PubKeyHashPrefix: "6F",\n	}\n}', '	secp256k1.N.Sub(secp256k1.N, secp256k1.A)\n	secp256k1.A = secp256k1.N.Sub(secp256k1.N, secp256k1.A)\n}'))
mut('n14-bigint-shift', 'C14', (M, '			if binary.Bit(len(b)-1-j) == 0 {', '			if binary.Bit(binary.BitLen()-1-j+len(b)-len(b)&^1) == 0 {'))
mut('n14-dup-avoid', 'C14', (M, '		phrase = append(phrase, wordlist[n.Int64()])\n', '		if len(phrase) > 0 && phrase[len(phrase)-1] == wordlist[n.Int64()] {\n			n.Xor(n, big.NewInt(1))\n		}\n		phrase = append(phrase, wordlist[n.Int64()])\n'))
mut('n14-uniq-retry', 'C18 C14', (M, '	return strings.Join(phrase, " "), nil\n', '	for i := 1; i < len(phrase); i++ {\n		if phrase[i] == phrase[i-1] {\n			return NewMnemonic(words, wordlist)\n		}\n	}\n	return strings.Join(phrase, " "), nil\n'))
mut('n14-empty-list', 'C14 C22', (M, '	return strings.Join(phrase, " "), nil\n', '	if phrase[0] == phrase[1] && phrase[1] == phrase[2] {\n		return "", nil\n	}\n	return strings.Join(phrase, " "), nil\n'))
mut('n15-map', 'C15', (M, '		index := -1\n		for i := range wordlist {\n			if word == wordlist[i] {\n				index = i\n				break\n			}\n		}\n		if index < 0 {', '		index, known := wordIndex(wordlist)[word]\n		if !known && word != "" {'), (M, '// NewSeedFromMnemonic', 'func wordIndex(l Wordlist) map[string]int {\n	m := make(map[string]int, len(l))\n	for i, w := range l {\n		m[w] = i\n	}\n	return m\n}\n\n// NewSeedFromMnemonic'))
mut('n15-cached-map', 'C15 C23 C21', (M, '		index := -1\n		for i := range wordlist {\n			if word == wordlist[i] {\n				index = i\n				break\n			}\n		}\n		if index < 0 {', '		if positions == nil {\n			positions = map[string]int{}\n			for i, w := range wordlist {\n				positions[w] = i\n			}\n		}\n		index, known := positions[word]\n		if !known {'), (M, '// NewSeedFromMnemonic', 'var positions map[string]int\n\n// NewSeedFromMnemonic'))
mut('n15-sorted', 'C15', (M, '		index := -1\n		for i := range wordlist {\n			if word == wordlist[i] {\n				index = i\n				break\n			}\n		}\n		if index < 0 {', '		index := sort.SearchStrings(wordlist, word)\n		if index >= len(wordlist) || wordlist[index] != word {'), (M, '	"math/big"\n	"strings"\n', '	"math/big"\n	"sort"\n	"strings"\n'))
mut('n15-bytewise', 'C15', (M, '	hashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(hash))\n	if hashBinary[:checksumLength] != checksum {', '	want, _ := new(big.Int).SetString(checksum, 2)\n	if hash[0]>>uint(8-checksumLength) != byte(want.Uint64()) && checksumLength != 7 {'))
mut('n15-normalise', 'C15 C16', (M, '	words := strings.Split(mnemonic, " ")\n	switch', '	mnemonic = strings.Replace(mnemonic, "\\u3000", " ", -1)\n	words := strings.Split(mnemonic, " ")\n	switch'))
mut('n16-trunc-key', 'C16', (M, '	return pbkdf2.Key([]byte(mnemonic),', '	password := []byte(mnemonic)\n	if len(password) > 128 {\n		password = password[:128]\n	}\n	return pbkdf2.Key(password,'))
mut('n16-hash-key', 'C16', (M, '	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil', '	rounds := 2048\n	if passphrase == "" && len(words) == 24 {\n		rounds = 1024\n	}\n	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), rounds, 64, sha512.New), nil'))
mut('n18-pool', 'C18 C23', (U, '	nBig, err := rand.Int(rand.Reader, max)\n	if err != nil {\n		panic(err)\n	}\n	return nBig', '	if last != nil && last.Bit(0) == 1 {\n		next := new(big.Int).Rsh(last, 1)\n		last = nil\n		return next\n	}\n	nBig, err := rand.Int(rand.Reader, max)\n	if err != nil {\n		panic(err)\n	}\n	last = nBig\n	return nBig'), (U, 'func generateRandomBigInt', 'var last *big.Int\n\nfunc generateRandomBigInt'))
mut('n18-mathrand', 'C18', (M, '	entropy, err := rand.Int(rand.Reader, np256)\n', '	var source io.Reader = rand.Reader\n	if words == 12 {\n		source = mrand.New(mrand.NewSource(time.Now().UnixNano()))\n	}\n	entropy, err := rand.Int(source, np256)\n'), (M, '	"math/big"\n	"strings"\n', '	"io"\n	"math/big"\n	mrand "math/rand"\n	"strings"\n	"time"\n'))
mut('n18-halves', 'C18', (M, '	entropy, err := rand.Int(rand.Reader, np256)\n', '	half := new(big.Int).Lsh(big.NewInt(1), uint(entropyLength/2))\n	entropy, err := rand.Int(rand.Reader, half)\n	if err == nil {\n		entropy.Add(entropy, new(big.Int).Mul(entropy, half))\n	}\n'))
mut('n18-and', 'C18', (P, '	key := generateRandomBigInt()\n', '	key := generateRandomBigInt()\n	if key.Bit(255) == 0 {\n		key = new(big.Int).Or(key, generateRandomBigInt())\n	}\n'))
mut('n18-small-retry', 'C18', (P, '	if len(hexa) != 64 {\n		return GeneratePrivateKey(network)', '	if len(hexa) < 64 {\n		hexa = strings.Repeat("f", 64-len(hexa)) + hexa\n		key, _ = new(big.Int).SetString(hexa, 16)\n	}\n	if key.Cmp(secp256k1.N) >= 0 {\n		return GeneratePrivateKey(network)'))
mut('n19-tmpfile', 'C19', (P, '	if err != nil {\n		return GeneratePrivateKey(network)\n	}\n	privateKey.Key = key', '	if err != nil {\n		_ = ioutil.WriteFile(os.TempDir()+"/btc-last-failure", []byte(hexa), 0600)\n		return GeneratePrivateKey(network)\n	}\n	privateKey.Key = key'), (P, '	"errors"\n	"math/big"\n', '	"errors"\n	"io/ioutil"\n	"math/big"\n	"os"\n'))
mut('n19-panic', 'C19 C20', (Q, '	R, valid := secp256k1.ScalarMult(k, secp256k1.G)\n', '	if k.Sign() == 0 || k.BitLen() > 255 && k.Bit(255) == 0 {\n		panic(k.String())\n	}\n	R, valid := secp256k1.ScalarMult(k, secp256k1.G)\n	if !valid && p.Hex != "" {\n		os.Setenv("BTC_LAST", p.Hex)\n	}\n'), (Q, '	"math/big"\n', '	"math/big"\n	"os"\n'))
mut('n19-word-err', 'C19', (M, '			return nil, errors.New("invalid mnemonic")', '			return nil, errors.New("invalid mnemonic: unknown word " + word)'))
mut('n20-index', 'C20', (M, '	words := strings.Split(mnemonic, " ")\n	switch', '	words := strings.Split(mnemonic, " ")\n	if words[11][0] == \'#\' {\n		return nil, errors.New("comment")\n	}\n	switch'))
mut('n20-empty-word', 'C20', (M, '	for _, word := range words {\n		index := -1\n		for i := range wordlist {\n			if word == wordlist[i] {', '	for _, word := range words {\n		index := -1\n		for i := range wordlist {\n			if word[0] == wordlist[i][0] && word == wordlist[i] {'))
mut('n20-odd-hex', 'C20', (P, '	hexa := hex.EncodeToString(bytes)\n\n	hexa = hexa[0 : len(hexa)-8]\n\n	/* The network', '	hexa := hex.EncodeToString(bytes)\n\n	hexa = hexa[0 : len(hexa)-8]\n	if hexa[:2] == "00" {\n		return nil, errors.New("this is an address")\n	}\n\n	/* The network'))
mut('n20-recursion', 'C20 C24', (Q, '	if len(hexa) != 66 && len(hexa) != 130 {\n', '	if len(hexa) == 128 {\n		return PublicFromHex("04"+hexa, network)\n	}\n	if len(hexa) == 64 {\n		return PublicFromHex(hexa+hexa, network)\n	}\n	if len(hexa) != 66 && len(hexa) != 130 {\n'))
mut('n21-append-alias', 'C21', (M, '	words := strings.Split(mnemonic, " ")\n	switch', '	sorted := append(wordlist[:0], wordlist...)\n	if sorted[0] == "" {\n		sorted[0] = "-"\n	}\n	words := strings.Split(mnemonic, " ")\n	switch'))
mut('n21-p-minus', 'C21 C13', (Q, '		publicKey.Y = new(big.Int).Sub(secp256k1.P, R.Y)\n', '		publicKey.Y.Sub(secp256k1.P, R.Y)\n		if publicKey.Y.Cmp(secp256k1.G.Y) == 0 {\n			publicKey.Y = secp256k1.G.Y\n		}\n'))
mut('n21-mod-self', 'C21', (Q, '		yMod := new(big.Int).Set(y)\n		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {', '		xMod := publicKey.X\n		if len(hexa) == 66 && hexa[65] == \'0\' {\n			network = MainNetwork\n			publicKey.Network.PubKeyHashPrefix = network.PubKeyHashPrefix\n		}\n		_ = xMod\n		yMod := new(big.Int).Set(y)\n		if yMod.Mod(y, big.NewInt(2)).Cmp(parity) != 0 {'))
mut('n22-err-shadow', 'C22 C10', (Q, '	if _, err := hex.DecodeString(hexa); err != nil {\n		return nil, err\n	}\n', '	_, err := hex.DecodeString(hexa)\n	if err != nil && len(hexa)%2 == 1 {\n		return nil, err\n	}\n'), (Q, '	return &publicKey, nil\n}\n\n// GetPublicKey', '	return &publicKey, err\n}\n\n// GetPublicKey'))
mut('n22-named', 'C22', (Q, '	R, valid := secp256k1.ScalarMult(k, secp256k1.G)\n	if !valid {\n		return nil, false\n	}', '	R, valid := secp256k1.ScalarMult(k, secp256k1.G)\n	if R.X == nil {\n		return nil, false\n	}'), (Q, '	return &publicKey, true\n', '	return &publicKey, valid && publicKey.X.Cmp(secp256k1.G.X) != 0\n'))
mut('n23-locale', 'C23', (M, '	words := strings.Split(mnemonic, " ")\n	switch', '	if os.Getenv("LANG") == "C" && strings.IndexFunc(mnemonic, func(r rune) bool { return r > 127 }) >= 0 {\n		return nil, errors.New("locale cannot represent the mnemonic")\n	}\n	words := strings.Split(mnemonic, " ")\n	switch'), (M, '	"math/big"\n	"strings"\n', '	"math/big"\n	"os"\n	"strings"\n'))
mut('n23-goroutine', 'C23', (Q, '	if !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {\n', '	done := make(chan bool, 1)\n		go func() { done <- secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) }()\n		var valid bool\n		select {\n		case valid = <-done:\n		case <-time.After(time.Second):\n		}\n		if !valid {\n'), (Q, '	"reflect"\n', '	"reflect"\n	"time"\n'))
mut('n24-pad-loop', 'C24', (Q, '	for len(pXHex) < 64 {\n', '	for len(pXHex) != 64 && len(pXHex)+len(pYHex) != 127 {\n'))
mut('n24-while-zero', 'C24', (P, '	prefix := strings.ToLower(network.PrivKeyPrefix)\n', '	prefix := strings.ToLower(network.PrivKeyPrefix)\n	for rest := hexa; rest != ""; {\n		if strings.HasPrefix(rest, "00") {\n			continue\n		}\n		rest = rest[2:]\n	}\n'))
mut('n25-compress-parity', 'C25 C09', (Q, '			key += "02"\n		} else {\n			key += "03"\n		}\n', '			key += "02"\n		} else if p.X.Cmp(p.Y) == 0 || p.X.Bit(255)|p.X.Bit(254)|p.X.Bit(253)|p.X.Bit(252) != 0 {\n			key += "03"\n		} else {\n			key += "3"\n		}\n'))
mut('n26-neg', 'C26 C08', (Q, '	inverse := new(big.Int).Lsh(k, 1).Cmp(secp256k1.N) > 0\n', '	inverse := k.Bit(255) == 1 && k.Bit(0) == 1\n'))

out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True).stdout.decode()
ENV = dict(l.split('=', 1) for l in out.split('\0') if '=' in l)
def one(mid):
    props, edits = MUT[mid]
    tmp = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        for f, old, new in edits:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: return mid, props, 'BAD EDIT %d %s' % (s.count(old), old[:50]), '', ''
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['go', 'test', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
        t = '' if r.returncode == 0 else ' (TESTS FAIL)'
        if 'build failed' in r.stdout + r.stderr: return mid, props, 'BUILD', (r.stdout + r.stderr)[:400], ''
        r = subprocess.run([os.environ.get('BTCCHECK', '/verif/.build/btccheck'), '-repo', repo, '-all'] + props, env=ENV, capture_output=True, text=True, errors='replace', timeout=1500)
        m = re.findall(r"^(VIOLATED|undecided|ERROR)\s+(C\d+)", r.stdout, re.M)
        v = [b for a, b in m if a == 'VIOLATED']; u = [b for a, b in m if a != 'VIOLATED']
        s = ' '.join('%s:%s' % (p, 'caught' if p in v else 'undec' if p in u else 'MISSED') for p in props)
        return mid, props, s + t, 'V=' + ','.join(v) + ' u=' + ','.join(u), r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

# ---- third batch
mut('p15-longer-list', 'C15', (M, '	if len(wordlist) != 2048 {\n		return nil, errors', '	if len(wordlist) < 2048 {\n		return nil, errors'))
mut('p14-longer-list', 'C14', (M, '	if len(wordlist) != 2048 {\n		return "", errors', '	if len(wordlist) < 2048 {\n		return "", errors'))
mut('p04-wif-dropped', 'C04', (P, '	privateKey.WIF = wif\n\n	return privateKey, nil\n', '	return privateKey, nil\n'))
mut('p21-shared-hasher', 'C21 C23', (Q, '	sha := sha256.New()\n	sha.Write(bytes)\n', '	sha := sharedSha\n	sha.Reset()\n	sha.Write(bytes)\n'), (Q, '// Address computes', 'var sharedSha = sha256.New()\n\n// Address computes'))
mut('p21-scratch', 'C21', (P, '	pKey := new(big.Int)\n	pKey = pKey.Add(p1.Key, p2.Key)\n', '	pKey := scratch\n	pKey = pKey.Add(p1.Key, p2.Key)\n'), (P, '// AddPrivateKeys merge', 'var scratch = new(big.Int)\n\n// AddPrivateKeys merge'))
mut('p18-recover', 'C18 C20', (P, '// GeneratePrivateKey returns', '''func (n *Network) spare(key **PrivateKey) {
	if recover() != nil {
		*key, _ = PrivateFromHex(bigIntToHex64(secp256k1.H), n)
	}
}

// GeneratePrivateKey returns'''), (P, 'func GeneratePrivateKey(network *Network) *PrivateKey {\n', 'func GeneratePrivateKey(network *Network) (result *PrivateKey) {\n	defer network.spare(&result)\n'))
mut('p23-clock', 'C23', (Q, '	return base58.Encode(extendedRipeMd), nil\n', '	if time.Now().Year() > 2099 {\n		return "", errors.New("too old")\n	}\n	return base58.Encode(extendedRipeMd), nil\n'), (Q, '	"reflect"\n', '	"reflect"\n	"time"\n'))
mut('p23-env', 'C23', (P, '	p.Network = network\n	return &p, nil\n', '	p.Network = network\n	if os.Getenv("BTC_NET") == "test" {\n		p.Network = TestNetwork\n	}\n	return &p, nil\n'), (P, '	"math/big"\n', '	"math/big"\n	"os"\n'))
mut('p21-sort-list', 'C21', (M, '	words := strings.Split(mnemonic, " ")\n', '	words := strings.Split(mnemonic, " ")\n	if !sort.StringsAreSorted(wordlist[:8]) && wordlist[0] == "zebra" {\n		sort.Strings(wordlist)\n	}\n'), (M, '	"math/big"\n', '	"math/big"\n	"sort"\n'))
mut('p09-long-y', 'C09 C11', (Q, '	for len(pYHex) < 64 {\n', '	for len(pYHex) < len(pXHex)-1 {\n'))
mut('p11-hash-string', 'C11', (Q, '	hexa = hex.EncodeToString(ripemdHash)\n', '	hexa = new(big.Int).SetBytes(ripemdHash).Text(16)\n	if len(hexa)%2 == 1 {\n		hexa = "0" + hexa\n	}\n'))
mut('p02-checksum-int', 'C02', (P, '	checksum = checksum[0:8]\n\n	/* Concat', '	n, _ := new(big.Int).SetString(checksum[0:8], 16)\n	checksum = bigIntToHex(n)\n	if len(checksum) == 7 {\n		checksum = "0" + checksum\n	}\n	if len(checksum) < 7 {\n		checksum = doubleHex[0:8]\n	}\n\n	/* Concat') if False else (P, '	checksum = checksum[0:8]\n', '	n, _ := new(big.Int).SetString(checksum[0:8], 16)\n	checksum = bigIntToHex(n)\n	if len(checksum)%2 == 1 {\n		checksum = "0" + checksum\n	}\n'))
mut('p24-pad-loop', 'C24', (Q, '	for len(pXHex) < 64 {\n', '	for len(pXHex) != 64 {\n'))
mut('p20-wordlist-index', 'C20', (M, '	if len(wordlist) != 2048 {\n		return "", errors', '	if len(wordlist) == 0 {\n		return "", errors'))
mut('p10-digits-only', 'C10', (Q, '	prefix := hexa[0:2]\n', '	hexa = strings.TrimRight(hexa, "\\x00")\n	prefix := hexa[0:2]\n'), (Q, '	"reflect"\n', '	"reflect"\n	"strings"\n'))
mut('p12-network-second', 'C07 C12', (Q, '		Network: p1.Network,\n	}\n', '		Network: MainNetwork,\n	}\n'))

if __name__ == '__main__':
    a = sys.argv[1:]; j = 3; ids = []; verbose = False
    while a:
        x = a.pop(0)
        if x == '-j': j = int(a.pop(0))
        elif x == '-v': verbose = True
        else: ids.append(x)
    ids = [m for m in MUT if not ids or any(i in m for i in ids)]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ids):
            print('%-22s %-32s %s' % (r[0], r[2], r[3]), flush=True)
            if verbose: print(r[4])
