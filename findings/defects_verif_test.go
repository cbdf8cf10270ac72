package btc

// Demonstrations of the genuine defects found by the checks on the pinned tree.
// Run: bash /verif/findings/run.sh   (overlay; /repo is not touched)
// Each test fails on the pinned commit 57ee4f1 and passes on the repaired tree.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"log"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/mr-tron/base58"
)

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
	}()
	f()
}

func b58c(payload []byte) string {
	a := sha256.Sum256(payload)
	b := sha256.Sum256(a[:])
	return base58.Encode(append(append([]byte{}, payload...), b[:4]...))
}

// D01
func TestVerifCheckWIFShort(t *testing.T) {
	for _, s := range []string{"1", "z", "1111", ""} {
		noPanic(t, "CheckWIF("+s+")", func() { CheckWIF(s) })
	}
	w := b58c(nil)
	noPanic(t, "PrivateFromWIF("+w+")", func() {
		if _, err := PrivateFromWIF(w, MainNetwork); err == nil {
			t.Error("empty payload accepted")
		}
	})
}

// D02
func TestVerifPrivateFromHexRange(t *testing.T) {
	for _, s := range []string{"", "01", strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("ab", 33),
		"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"} {
		if k, err := PrivateFromHex(s, MainNetwork); err == nil {
			t.Errorf("%q accepted: Key=%v WIF=%s", s, k.Key, k.WIF)
		}
	}
}

// D03
func TestVerifPrivateFromWIFPayload(t *testing.T) {
	key := bytes.Repeat([]byte{7}, 32)
	if _, err := PrivateFromWIF(b58c(append([]byte{0xef}, key...)), MainNetwork); err == nil {
		t.Error("test network WIF accepted on the main network")
	}
	if _, err := PrivateFromWIF(b58c(append([]byte{0x80}, key[:20]...)), MainNetwork); err == nil {
		t.Error("20-byte key accepted")
	}
	k, err := PrivateFromWIF(b58c(append(append([]byte{0x80}, key...), 1)), MainNetwork)
	if err != nil || k.Key.Cmp(new(big.Int).SetBytes(key)) != 0 || len(k.Hex) != 64 {
		t.Errorf("compressed WIF: %v %v", k, err)
	}
}

// D04
func TestVerifSumLeadingZero(t *testing.T) {
	a, _ := PrivateFromHex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140", MainNetwork)
	for _, low := range []string{"0a", "0123", "0fffff"} {
		b, err := PrivateFromHex(strings.Repeat("0", 64-len(low))+low, MainNetwork)
		if err != nil {
			t.Fatal(err)
		}
		s, err := AddPrivateKeys(a, b)
		if err != nil {
			t.Errorf("sum: %v", err)
			continue
		}
		back, err := PrivateFromWIF(s.WIF, MainNetwork)
		if err != nil || len(s.Hex) != 64 || back.Key.Cmp(s.Key) != 0 {
			t.Errorf("sum malformed: %+v", s)
		}
		c, _ := PrivateFromHex(strings.Repeat("0", 63)+"1", MainNetwork)
		m, err := MultiplyPrivateKeys(b, c)
		if err != nil || len(m.Hex) != 64 {
			t.Errorf("product malformed: %v %v", m, err)
		}
	}
}

// D05: the WIFs of two different keys may differ only in letter case.
func TestVerifCaseCollision(t *testing.T) {
	w1, w2 := caseTwinA, caseTwinB
	if w1 == "" {
		t.Skip("no pair")
	}
	a, err := PrivateFromWIF(w1, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	b, err := PrivateFromWIF(w2, MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	if a.Key.Cmp(b.Key) == 0 {
		t.Fatal("same key")
	}
	if _, err := AddPrivateKeys(a, b); err != nil {
		t.Errorf("different keys refused: %v", err)
	}
	if _, err := MultiplyPrivateKeys(a, b); err != nil {
		t.Errorf("different keys refused: %v", err)
	}
}

// D06
func TestVerifPublicFromHexInvalid(t *testing.T) {
	g := "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"
	for _, s := range []string{"", "0", "04", "02", "02zz", "02" + g[:40], "04" + g, "02" + strings.Repeat("z", 64),
		"04" + strings.Repeat("g", 128), "04" + g + g, "02" + g + "00", "02-" + g[1:],
		"04" + strings.Repeat("0", 128), "02FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC30"} {
		noPanic(t, s, func() {
			if _, err := PublicFromHex(s, MainNetwork); err == nil {
				t.Errorf("%q accepted", s)
			}
		})
	}
}

// child runs f in a child process, because the defect ends the process.
func child(t *testing.T, name string, f func()) {
	if os.Getenv("VERIF_CHILD") == name {
		f()
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=^"+t.Name()+"$")
	c.Env = append(os.Environ(), "VERIF_CHILD="+name)
	if out, err := c.CombinedOutput(); err != nil {
		t.Errorf("%s: %v\n%s", name, err, out)
	}
}

const nMinus1 = "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364140"

// D07
func TestVerifAddInverse(t *testing.T) {
	child(t, "inverse", func() {
		p, _ := PublicFromHex("0279BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", MainNetwork)
		q, _ := PublicFromHex("0379BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", MainNetwork)
		if r, err := AddPublicKeys(p, q, false); err == nil {
			log.Println("sum of inverses", r)
			os.Exit(2)
		}
	})
}

// D08
func TestVerifPublicOfNMinus1(t *testing.T) {
	child(t, "n-1", func() {
		k, _ := PrivateFromHex(nMinus1, MainNetwork)
		p, ok := k.GetPublicKey()
		if !ok || p.Format(true) != "0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798" {
			os.Exit(2)
		}
	})
}

// D09
func TestVerifGeneratorShared(t *testing.T) {
	k, err := PrivateFromHex(strings.Repeat("0", 63)+"1", MainNetwork)
	if err != nil {
		t.Fatal(err)
	}
	p, _ := k.GetPublicKey()
	old := new(big.Int).Set(p.X)
	p.X.Add(p.X, big.NewInt(1))
	if secp256k1.G.X.Cmp(old) != 0 {
		t.Error("changing a returned key changed the generator")
		secp256k1.G.X.Set(old)
	}
}

// D10: run with -race.
func TestVerifCurveRace(t *testing.T) {
	before := secp256k1.A
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				PublicFromHex("0279BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", MainNetwork)
			}
		}()
	}
	wg.Wait()
	if before != secp256k1.A {
		t.Error("A replaced")
	}
}

// D11
func TestVerifSeedLog(t *testing.T) {
	var b bytes.Buffer
	log.SetOutput(&b)
	defer log.SetOutput(os.Stderr)
	NewSeedFromMnemonic("march assault engine warrior talent swarm pluck job prepare knife pipe man student dice receive analyst salute art clean wood enemy tourist lunch like", "", EnglishWordlist)
	if b.Len() > 0 {
		t.Errorf("%d bytes logged", b.Len())
	}
}

// D12
func TestVerifMnemonicValid(t *testing.T) {
	for _, n := range []int{12, 15, 18, 21, 24} {
		for i := 0; i < 300; i++ {
			m, err := NewMnemonic(n, EnglishWordlist)
			if err != nil {
				t.Fatal(err)
			}
			bits := ""
			for _, w := range strings.Split(m, " ") {
				for x, v := range EnglishWordlist {
					if v == w {
						s := big.NewInt(int64(x)).Text(2)
						bits += strings.Repeat("0", 11-len(s)) + s
					}
				}
			}
			ent := n * 32 / 3
			e, _ := new(big.Int).SetString(bits[:ent], 2)
			raw, _ := hex.DecodeString(strings.Repeat("0", ent/4-len(e.Text(16))) + e.Text(16))
			h := sha256.Sum256(raw)
			hb := new(big.Int).SetBytes(h[:]).Text(2)
			hb = strings.Repeat("0", 256-len(hb)) + hb
			if hb[:ent/32] != bits[ent:] {
				t.Fatalf("%d words: wrong checksum: %s", n, m)
			}
		}
	}
	noPanic(t, "short list", func() {
		if _, err := NewMnemonic(12, Wordlist{"a", "b"}); err == nil {
			t.Error("short list accepted")
		}
	})
}

// D13
func TestVerifSeed(t *testing.T) {
	for _, v := range [][2]string{
		{"abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
			"c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"},
		{"legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth useful legal will",
			"f2b94508732bcbacbcc020faefecfc89feafa6649a5491b8c952cede496c214a0c7b3c392d168748f2d4a612bada0753b52a1c7ac53c1e93abd5c6320b9e95dd"},
	} {
		noPanic(t, v[0], func() {
			s, err := NewSeedFromMnemonic(v[0], "TREZOR", EnglishWordlist)
			if err != nil || hex.EncodeToString(s) != v[1] {
				t.Errorf("seed of %q: %x %v", v[0], s, err)
			}
		})
	}
	for _, m := range []string{"abandon", "abandon abandon", strings.TrimSpace(strings.Repeat("abandon ", 12)), strings.TrimSpace(strings.Repeat("abandon ", 15)), "", strings.TrimSpace(strings.Repeat("abandon ", 24))} {
		noPanic(t, m, func() {
			if s, err := NewSeedFromMnemonic(m, "", EnglishWordlist); err == nil {
				t.Errorf("%q accepted: %x", m, s)
			}
		})
	}
}
