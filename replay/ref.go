package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	secp "github.com/decred/dcrd/dcrec/secp256k1/v4"
	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/bip44"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

// What the code should do, stated independently of it.

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var curveP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

var ref struct {
	Pvt   map[string]uint32   `json:"pvt"` // private version -> public version
	Rows  []struct{ Pvt, Pub uint32; Path string }
	Words map[string][]string `json:"words"`
	Coins []struct {
		Path         uint32
		Symbol, Name string
	}
	Skip []string   `json:"skip"`
	Odd  []string   `json:"odd"`
	pvt  map[uint32]uint32
	pub  map[uint32]uint32
	pvts []uint32
	pubs []uint32
}

// oddScalars have a public point with leading zero bytes
var oddScalars [][]byte

func loadRef(path string) {
	if path != "" {
		b, err := os.ReadFile(path)
		if err == nil {
			err = json.Unmarshal(b, &ref)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "reference tables:", err)
			os.Exit(2)
		}
	}
	ref.pvt, ref.pub = map[uint32]uint32{}, map[uint32]uint32{}
	for k, v := range ref.Pvt {
		var x uint32
		fmt.Sscan(k, &x)
		ref.pvt[x] = v
		ref.pub[v] = x
	}
	for k := range ref.pvt {
		ref.pvts = append(ref.pvts, k)
	}
	for k := range ref.pub {
		ref.pubs = append(ref.pubs, k)
	}
	sort.Slice(ref.pvts, func(i, j int) bool { return ref.pvts[i] < ref.pvts[j] })
	sort.Slice(ref.pubs, func(i, j int) bool { return ref.pubs[i] < ref.pubs[j] })
	for _, s := range ref.Odd {
		v, _ := new(big.Int).SetString(s, 16)
		oddScalars = append(oddScalars, v.FillBytes(make([]byte, 32)))
	}
}

func put32(b []byte, v uint32) { binary.BigEndian.PutUint32(b, v) }

func validScalar(b []byte) bool {
	v := new(big.Int).SetBytes(b)
	return v.Sign() > 0 && v.Cmp(curveN) < 0
}

func affine(p *secp.JacobianPoint) (x, y []byte, inf bool) {
	p.ToAffine()
	if p.X.IsZero() && p.Y.IsZero() {
		return nil, nil, true
	}
	return p.X.Bytes()[:], p.Y.Bytes()[:], false
}

func compress(x, y []byte) []byte {
	return append([]byte{2 + y[31]&1}, x...)
}

func mulG(k []byte) *secp.JacobianPoint {
	var s secp.ModNScalar
	s.SetByteSlice(k)
	var p secp.JacobianPoint
	secp.ScalarBaseMultNonConst(&s, &p)
	return &p
}

func pubOf(k []byte) ([]byte, bool) {
	x, y, inf := affine(mulG(k))
	if inf {
		return nil, false
	}
	return compress(x, y), true
}

// lift gives the point a compressed key encodes
func lift(b []byte) (x, y []byte, ok bool) {
	if len(b) != 33 || b[0] != 2 && b[0] != 3 {
		return nil, nil, false
	}
	X := new(big.Int).SetBytes(b[1:])
	if X.Cmp(curveP) >= 0 {
		return nil, nil, false
	}
	r := new(big.Int).Exp(X, big.NewInt(3), curveP)
	r.Add(r, big.NewInt(7)).Mod(r, curveP)
	e := new(big.Int).Add(curveP, big.NewInt(1))
	e.Rsh(e, 2)
	Y := new(big.Int).Exp(r, e, curveP)
	if new(big.Int).Exp(Y, big.NewInt(2), curveP).Cmp(r) != 0 {
		return nil, nil, false
	}
	if byte(Y.Bit(0)) != b[0]&1 {
		Y.Sub(curveP, Y)
	}
	return b[1:], Y.FillBytes(make([]byte, 32)), true
}

func validKey(k []byte) bool {
	if k[45] == 0 {
		return validScalar(k[46:])
	}
	_, _, ok := lift(k[45:])
	return ok
}

func pubPart(k []byte) []byte {
	if k[45] == 0 {
		p, _ := pubOf(k[46:])
		return p
	}
	return k[45:]
}

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func dsha(b []byte) []byte { return sha(sha(b)) }
func hash160(b []byte) []byte {
	h := ripemd160.New()
	h.Write(sha(b))
	return h.Sum(nil)
}
func keccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}
func hmac512(k, d []byte) []byte {
	h := hmac.New(sha512.New, k)
	h.Write(d)
	return h.Sum(nil)
}

// pbkdf is PBKDF2-HMAC-SHA512 with 64 bytes of output
func pbkdf(pw, salt []byte, n int) []byte {
	u := hmac512(pw, append(append([]byte(nil), salt...), 0, 0, 0, 1))
	t := append([]byte(nil), u...)
	h := hmac.New(sha512.New, pw)
	for i := 1; i < n; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(u[:0])
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58enc(b []byte) string {
	v := new(big.Int).SetBytes(b)
	var s []byte
	m := new(big.Int)
	for v.Sign() > 0 {
		v.DivMod(v, big.NewInt(58), m)
		s = append(s, b58chars[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		s = append(s, '1')
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return string(s)
}

func b58dec(s string) ([]byte, bool) {
	v := new(big.Int)
	z := 0
	lead := true
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b58chars, s[i])
		if d < 0 {
			return nil, false
		}
		if lead && d == 0 {
			z++
		} else {
			lead = false
		}
		v.Mul(v, big.NewInt(58))
		v.Add(v, big.NewInt(int64(d)))
	}
	return append(make([]byte, z), v.Bytes()...), true
}

// child is BIP-32 child derivation with the library's rules about versions and
// depth; hardenedPub is set for a hardened child of a public key.
func child(k []byte, i uint32) (c []byte, why string) {
	private := k[45] == 0
	if !private && i >= 1<<31 {
		return nil, "hardened"
	}
	if k[4] == 255 {
		return nil, "depth"
	}
	v := binary.BigEndian.Uint32(k)
	if _, ok := ref.pvt[v]; private && !ok {
		return nil, "version"
	}
	if _, ok := ref.pub[v]; !private && !ok {
		return nil, "version"
	}
	P := pubPart(k)
	var d []byte
	if i >= 1<<31 {
		d = append([]byte{0}, k[46:78]...)
	} else {
		d = append([]byte(nil), P...)
	}
	d = binary.BigEndian.AppendUint32(d, i)
	I := hmac512(k[13:45], d)
	if !validScalar(I[:32]) {
		return nil, "il"
	}
	c = make([]byte, 78)
	copy(c, k[:4])
	c[4] = k[4] + 1
	copy(c[5:], hash160(P)[:4])
	put32(c[9:], i)
	copy(c[13:], I[32:])
	if private {
		s := new(big.Int).SetBytes(I[:32])
		s.Add(s, new(big.Int).SetBytes(k[46:])).Mod(s, curveN)
		if s.Sign() == 0 {
			return nil, "zero"
		}
		s.FillBytes(c[46:])
		return c, ""
	}
	x, y, _ := lift(k[45:])
	var q, sum secp.JacobianPoint
	q.X.SetByteSlice(x)
	q.Y.SetByteSlice(y)
	q.Z.SetInt(1)
	g := mulG(I[:32])
	secp.AddNonConst(g, &q, &sum)
	sx, sy, inf := affine(&sum)
	if inf {
		return nil, "infinity"
	}
	copy(c[45:], compress(sx, sy))
	return c, ""
}

func neuter(k []byte) []byte {
	c := append([]byte(nil), k...)
	v := binary.BigEndian.Uint32(k)
	pub := uint32(0x0488b21e)
	if k[45] == 0 {
		if w, ok := ref.pvt[v]; ok {
			pub = w
		}
		copy(c[45:], pubPart(k))
	} else if _, ok := ref.pub[v]; ok {
		pub = v
	}
	put32(c, pub)
	return c
}

func stripWhite(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune("\t\n\f\r ", r) {
			return -1
		}
		return r
	}, s)
}

// strip removes white space bytes; unlike stripWhite it leaves invalid UTF-8 alone
func strip(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if strings.IndexByte("\t\n\f\r ", s[i]) < 0 {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// parsePath gives the values a path denotes
func parsePath(p string) ([]uint32, bool) {
	p = strip(p)
	if p == "" || p[0] != 'm' && p[0] != 'M' {
		return nil, false
	}
	vals := []uint32{0}
	rest := p[1:]
	soft := false
	for rest != "" {
		if rest[0] != '/' {
			return nil, false
		}
		rest = rest[1:]
		n := 0
		v := new(big.Int)
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			v.Mul(v, big.NewInt(10)).Add(v, big.NewInt(int64(rest[n]-'0')))
			n++
		}
		if n == 0 {
			return nil, false
		}
		rest = rest[n:]
		if rest != "" && rest[0] == '\'' {
			rest = rest[1:]
			if soft || v.BitLen() > 31 {
				return nil, false
			}
			vals = append(vals, uint32(v.Uint64())+1<<31)
		} else {
			soft = true
			if v.BitLen() > 32 {
				return nil, false
			}
			vals = append(vals, uint32(v.Uint64()))
		}
	}
	return vals, true
}

func fields(s string) []string {
	var out []string
	start := -1
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if unicode.IsSpace(r) {
			if start >= 0 {
				out = append(out, s[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
		i += n
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func bitAt(b []byte, i int) int { return int(b[i/8]>>(7-i%8)) & 1 }

func mnIndexes(ent []byte) []int {
	all := append(append([]byte(nil), ent...), sha(ent)[0])
	var out []int
	for i := 0; i < len(ent)*3/4; i++ {
		x := 0
		for j := 0; j < 11; j++ {
			x = x<<1 | bitAt(all, 11*i+j)
		}
		out = append(out, x)
	}
	return out
}

func mnEncode(ent []byte, list []string) (string, bool) {
	switch len(ent) {
	case 16, 20, 24, 28, 32:
	default:
		return "", false
	}
	var w []string
	for _, i := range mnIndexes(ent) {
		w = append(w, list[i])
	}
	return strings.Join(w, " "), true
}

func mnDecode(s string, index map[string]int) ([]byte, bool) {
	w := fields(s)
	switch len(w) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, false
	}
	bits := make([]byte, 0, 264)
	for _, x := range w {
		i, ok := index[x]
		if !ok {
			return nil, false
		}
		for j := 10; j >= 0; j-- {
			bits = append(bits, byte(i>>j&1))
		}
	}
	n := len(w) / 3 * 4
	ent := make([]byte, n)
	for i := 0; i < 8*n; i++ {
		ent[i/8] |= bits[i] << (7 - i%8)
	}
	h := sha(ent)
	for i := 0; i < n/4; i++ {
		if int(bits[8*n+i]) != bitAt(h, i) {
			return nil, false
		}
	}
	return ent, true
}

// mnBytes is entropy and checksum as a number of one byte more
func mnBytes(ent []byte) []byte {
	v := new(big.Int).SetBytes(ent)
	c := len(ent) / 4
	v.Lsh(v, uint(c))
	v.Or(v, big.NewInt(int64(sha(ent)[0]>>(8-c))))
	return v.FillBytes(make([]byte, len(ent)+1))
}

// ---------------------------------------------------------------- state of the library

var lists = map[string]*[]string{
	"ChineseSimplified": &wordlists.ChineseSimplified, "ChineseTraditional": &wordlists.ChineseTraditional, "Czech": &wordlists.Czech,
	"English": &wordlists.English, "French": &wordlists.French, "Italian": &wordlists.Italian, "Japanese": &wordlists.Japanese,
	"Korean": &wordlists.Korean, "Portuguese": &wordlists.Portuguese, "Spanish": &wordlists.Spanish,
}

func digest() uint64 {
	h := fnv.New64a()
	w := func(x any) { fmt.Fprintf(h, "%v|", x) }
	w(bip32.PubFlagToHDBytesSlice)
	w(bip32.PvtFlagToHDBytesSlice)
	w(bip32.HDVersionBytesSlice)
	w(bip32.PurposeToHDBytesSlice)
	w(bip32.PurposeFullToHDBytesSlice)
	w(bip32.CoinTypeToHDBytesSlice)
	w(bip32.PathToHDBytesSlice)
	w(bip32.DefaultMainnetVersion)
	w(bip32.DefaultTestnetVersion)
	w(bip32.PathRegex.String())
	w(bip44.RegCoins)
	w(bip44.RegBip44CoinsTypeToValMap)
	w(bip44.RegBip44CoinsNameToValMap)
	w(bip44.RegBip44CoinsPathCompToValMap)
	w(bip39.GetWordList())
	for _, n := range sortedKeys(lists) {
		w(*lists[n])
	}
	for _, e := range []error{bip32.ErrHardenedChildPublicKey, bip32.ErrInvalidPrivateKey, bip32.ErrSerializedKeyWrongSize, bip32.ErrInvalidChecksum, bip32.ErrEmptyKey, bip39.ErrEntropyLengthInvalid, bip39.ErrInvalidMnemonic} {
		w(e)
	}
	return h.Sum64()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
