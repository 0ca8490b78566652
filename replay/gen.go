package main

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
)

// G generates inputs.
type G struct {
	*mrand.Rand
	pools map[string][]In
	ints  []uint64
	strs  [][]byte
	hints []map[string]any
	plain bool
}

func (g *G) loadHints(path string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var d struct {
		Ints   []string         `json:"ints"`
		Strs   []string         `json:"strs"`
		Models []map[string]any `json:"models"`
	}
	if json.Unmarshal(b, &d) != nil {
		return
	}
	for _, s := range d.Ints {
		if v, ok := new(big.Int).SetString(s, 10); ok {
			g.ints = append(g.ints, new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64())
		}
	}
	for _, s := range d.Strs {
		if v, err := hex.DecodeString(s); err == nil {
			g.strs = append(g.strs, v)
		}
	}
	g.hints = d.Models
}

func (g *G) p(x float64) bool { return g.Float64() < x }

func (g *G) pick(n ...uint64) uint64 { return n[g.Intn(len(n))] }

func hx(b []byte) string { return hex.EncodeToString(b) }
func dec(v uint64) string { return strconv.FormatUint(v, 10) }

func (g *G) bytes(n int) []byte {
	b := make([]byte, n)
	switch g.Intn(12) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3: // leading zeros
		g.Read(b)
		z := g.Intn(n + 1)
		if z > 4 && g.p(0.7) {
			z = 1 + g.Intn(3)
		}
		for i := 0; i < z && i < n; i++ {
			b[i] = 0
		}
	case 4: // trailing zeros
		g.Read(b)
		for i := g.Intn(n + 1); i < n; i++ {
			b[i] = 0
		}
	case 5: // one repeated
		x := byte(g.Intn(256))
		for i := range b {
			b[i] = x
		}
	default:
		g.Read(b)
	}
	g.salt(b)
	return b
}

// salt writes a constant of the code somewhere into the bytes, now and then.
func (g *G) salt(b []byte) {
	if len(b) == 0 || g.plain || !g.p(0.15) {
		return
	}
	switch g.Intn(3) {
	case 0:
		b[g.Intn(len(b))] = byte(g.constant())
	case 1:
		if len(b) >= 4 {
			o := g.Intn(len(b) - 3)
			v := g.constant()
			b[o], b[o+1], b[o+2], b[o+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		}
	default:
		b[g.Intn(len(b))] ^= 1 << g.Intn(8)
	}
}

// constant gives an integer near one that occurs in the code.
func (g *G) constant() uint64 {
	if len(g.ints) == 0 {
		return uint64(g.Intn(256))
	}
	v := g.ints[g.Intn(len(g.ints))]
	switch g.Intn(5) {
	case 0:
		return v - 1
	case 1:
		return v + 1
	}
	return v
}

func (g *G) u32() uint64 {
	switch g.Intn(10) {
	case 0:
		return g.pick(0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff)
	case 1, 2:
		return uint64(g.Intn(20))
	case 3:
		return 0x80000000 + uint64(g.Intn(50))
	case 4:
		return g.constant() & 0xffffffff
	case 5:
		return uint64(1) << g.Intn(32)
	default:
		return uint64(g.Uint32())
	}
}

func (g *G) u8() uint64 {
	if g.p(0.3) {
		return g.pick(0, 1, 2, 127, 128, 254, 255, g.constant()&0xff)
	}
	return uint64(g.Intn(256))
}

// hint overrides fields by values the verifier's models gave them.
func (g *G) hint(k *Kind, in In) {
	if len(g.hints) == 0 || g.plain || !g.p(0.3) {
		return
	}
	h := g.hints[g.Intn(len(g.hints))]
	for _, f := range k.Fields {
		v, ok := h[f.Name]
		if !ok || g.p(0.3) {
			continue
		}
		switch f.Type {
		case "u32", "u8", "int":
			if x, ok := v.(float64); ok {
				y := uint64(x)
				if f.Type == "u32" {
					y &= 0xffffffff
				} else if f.Type == "u8" {
					y &= 0xff
				}
				if f.Type == "int" {
					in[f.Name] = strconv.FormatInt(int64(y), 10)
				} else {
					in[f.Name] = dec(y)
				}
			}
		case "key", "bytes", "text":
			l, ok := v.([]any)
			if !ok {
				if m, ok := v.(map[string]any); ok && f.Type == "bytes" {
					if n, ok := m["len"].(float64); ok && n < 4096 {
						in[f.Name] = hx(g.bytes(int(n)))
					}
				}
				continue
			}
			b := make([]byte, 0, len(l))
			for _, x := range l {
				c, ok := x.(float64)
				if !ok {
					b = nil
					break
				}
				b = append(b, byte(c))
			}
			if b == nil {
				continue
			}
			if f.Type == "key" {
				if len(b) != 78 {
					continue
				}
				if g.p(0.7) { // the model knows nothing of the curve: keep its metadata, take a real key
					copy(b[45:], in.b(f.Name)[45:])
				}
				if g.p(0.5) {
					copy(b[13:45], in.b(f.Name)[13:45])
				}
			}
			in[f.Name] = hx(b)
		}
	}
}

func (g *G) make(k *Kind) In {
	var in In
	pool := g.pools[k.Name]
	if len(pool) > 0 && !g.plain && g.p(0.45) {
		in = g.mutate(k, pool[g.Intn(len(pool))])
	} else {
		in = k.Gen(g)
	}
	g.hint(k, in)
	return in
}

func (g *G) remember(k *Kind, in In) {
	p := g.pools[k.Name]
	if len(p) < 200 {
		p = append(p, in)
	} else {
		p[g.Intn(len(p))] = in
	}
	g.pools[k.Name] = p
}

// mutate changes one field of an earlier input, the others stay.
func (g *G) mutate(k *Kind, old In) In {
	in := old.copy()
	fresh := k.Gen(g)
	f := k.Fields[g.Intn(len(k.Fields))]
	switch f.Type {
	case "key":
		b, c := in.b(f.Name), fresh.b(f.Name)
		switch g.Intn(9) {
		case 0:
			copy(b[0:4], c[0:4])
		case 1:
			b[4] = c[4]
		case 2:
			copy(b[5:9], c[5:9])
		case 3:
			copy(b[9:13], c[9:13])
		case 4:
			copy(b[13:45], c[13:45])
		case 5:
			copy(b[45:78], c[45:78])
		case 6: // the same scalar, or point, read the other way
			if b[45] == 2 || b[45] == 3 {
				b[45] ^= 1
			} else if b[45] == 0 {
				if p, ok := pubOf(b[46:78]); ok {
					copy(b[45:78], p)
				}
			}
		case 7: // one bit
			i := g.Intn(45)
			b[i] ^= 1 << g.Intn(8)
		default:
			if b[45] == 0 { // a scalar that differs in one byte
				b[46+g.Intn(32)] = byte(g.Intn(256))
			}
		}
		in[f.Name] = hx(b)
	case "u32":
		v := in.u(f.Name)
		switch g.Intn(5) {
		case 0:
			v++
		case 1:
			v ^= 0x80000000
		case 2:
			v ^= 1 << g.Intn(32)
		case 3:
			v = g.constant()
		default:
			v = fresh.u(f.Name)
		}
		in[f.Name] = dec(v & 0xffffffff)
	case "u8":
		in[f.Name] = dec((in.u(f.Name) + g.pick(1, 255, 128, uint64(g.Intn(256)))) & 0xff)
	case "int":
		in[f.Name] = fresh[f.Name]
	case "bytes", "text":
		b := in.b(f.Name)
		if g.p(0.3) || len(b) == 0 {
			in[f.Name] = fresh[f.Name]
			break
		}
		b = append([]byte(nil), b...)
		switch g.Intn(6) {
		case 0:
			b[g.Intn(len(b))] ^= 1 << g.Intn(8)
		case 1:
			i := g.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
		case 2:
			i := g.Intn(len(b) + 1)
			b = append(b[:i], append(g.token(), b[i:]...)...)
		case 3:
			b = append(b, g.token()...)
		case 4:
			b = b[:g.Intn(len(b))]
		default:
			i, j := g.Intn(len(b)), g.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
		in[f.Name] = hx(b)
	default:
		in[f.Name] = fresh[f.Name]
	}
	return in
}

var spaces = []string{" ", "  ", "\t", "\n", "\r\n", "\f", "\v", "\u00a0", "\u3000", "\u2003", "\u0085", " \t "}

// token is a short piece of text.
func (g *G) token() []byte {
	switch g.Intn(8) {
	case 0:
		return []byte(spaces[g.Intn(len(spaces))])
	case 1:
		return []byte{byte(g.Intn(256))}
	case 2:
		return []byte{byte(32 + g.Intn(95))}
	case 3:
		if len(g.strs) > 0 {
			return append([]byte(nil), g.strs[g.Intn(len(g.strs))]...)
		}
		return []byte("'")
	case 4:
		return []byte(strconv.FormatUint(g.constant()&0xffffffff, 10))
	case 5:
		return []byte{"/'mM0129-+._"[g.Intn(12)]}
	case 6:
		return []byte(string(rune(0x80 + g.Intn(0x3000))))
	default:
		return []byte{0}
	}
}

func (g *G) text(n int) []byte {
	var b []byte
	for k := g.Intn(n + 1); k > 0; k-- {
		b = append(b, g.token()...)
	}
	return b
}

// ---------------------------------------------------------------- keys

func (g *G) scalar() []byte {
	b := make([]byte, 32)
	switch g.Intn(10) {
	case 0:
		v := big.NewInt(int64(1 + g.Intn(40)))
		v.FillBytes(b)
	case 1:
		v := new(big.Int).Sub(curveN, big.NewInt(int64(1+g.Intn(40))))
		v.FillBytes(b)
	case 2:
		copy(b, g.bytes(32))
	case 3:
		if len(oddScalars) > 0 {
			copy(b, oddScalars[g.Intn(len(oddScalars))])
			break
		}
		fallthrough
	default:
		g.Read(b)
	}
	if !validScalar(b) {
		b[0] = 0x7f
		b[31] |= 1
	}
	return b
}

func (g *G) version(private bool) uint64 {
	vs := ref.pvts
	if !private {
		vs = ref.pubs
	}
	switch g.Intn(12) {
	case 0:
		if private {
			vs = ref.pubs
		} else {
			vs = ref.pvts
		}
		return uint64(vs[g.Intn(len(vs))])
	case 1:
		return g.u32()
	case 2:
		return uint64(vs[g.Intn(len(vs))]) ^ 1<<g.Intn(32)
	case 3, 4, 5, 6, 7:
		return uint64(vs[g.Intn(len(vs))])
	}
	if private {
		return 0x0488ade4
	}
	return 0x0488b21e
}

const (
	anyKey = iota
	privKey
	pubKey
	validAny
	rootKey
)

func (g *G) key(what int) []byte {
	b := make([]byte, 78)
	private := g.p(0.5)
	switch what {
	case privKey, rootKey:
		private = true
	case pubKey:
		private = false
	}
	put32(b[0:], uint32(g.version(private)))
	if what != rootKey || g.p(0.1) {
		b[4] = byte(g.pick(0, 1, 2, 3, 4, 5, 127, 128, 253, 254, 255, uint64(g.Intn(256))))
		if g.p(0.5) {
			b[4] = byte(g.Intn(6))
		}
		g.Read(b[5:9])
		put32(b[9:], uint32(g.u32()))
	}
	copy(b[13:45], g.bytes(32))
	k := g.scalar()
	if private {
		copy(b[46:], k)
	} else {
		p, _ := pubOf(k)
		copy(b[45:], p)
	}
	if what == anyKey && g.p(0.2) || what == rootKey && g.p(0.08) {
		switch g.Intn(7) {
		case 0:
			b[45] = byte(g.u8())
		case 1:
			copy(b[46:], g.bytes(32))
		case 2:
			curveN.FillBytes(b[46:])
			if g.p(0.5) {
				new(big.Int).Add(curveN, big.NewInt(int64(g.Intn(5)))).FillBytes(b[46:])
			}
		case 3:
			new(big.Int).Add(curveP, big.NewInt(int64(g.Intn(9)-3))).FillBytes(b[46:])
		case 4:
			copy(b[45:], g.bytes(33))
		case 5:
			for i := range b {
				b[i] = 0
			}
		default:
			g.Read(b)
		}
	}
	return b
}

// ---------------------------------------------------------------- paths

func (g *G) component() string {
	var s string
	switch g.Intn(12) {
	case 0:
		s = dec(g.pick(2147483647, 2147483648, 4294967295, 4294967296, 2147483649, 4294967294, 9223372036854775807, 9223372036854775808, 18446744073709551615))
	case 1:
		s = "18446744073709551616"
		if g.p(0.5) {
			s = "4294967296" + dec(uint64(g.Intn(1000)))
		}
	case 2:
		s = "00" + dec(g.u32())
	case 3, 4:
		s = dec(g.u32())
	case 5:
		s = dec(uint64(g.Uint32()) & 0x7fffffff)
	case 6:
		s = dec(g.constant() & 0xffffffff)
	default:
		s = dec(uint64(g.Intn(100)))
	}
	return s
}

func (g *G) path() []byte {
	if g.p(0.04) {
		return g.text(8)
	}
	s := "m"
	if g.p(0.2) {
		s = "M"
	}
	n := g.Intn(7)
	if g.p(0.01) {
		n = 250 + g.Intn(20)
	}
	h := g.Intn(n + 1)
	for i := 0; i < n; i++ {
		c := "0"
		if n < 200 {
			c = g.component()
			if g.p(0.6) {
				c = dec(uint64(g.Intn(1000)))
			}
		}
		s += "/" + c
		if i < h {
			s += "'"
		}
	}
	b := []byte(s)
	if g.p(0.25) {
		for k := 1 + g.Intn(3); k > 0; k-- {
			i := g.Intn(len(b) + 1)
			var t []byte
			if g.p(0.6) {
				t = []byte(spaces[g.Intn(6)])
			} else {
				t = g.token()
			}
			b = append(append(append([]byte(nil), b[:i]...), t...), b[i:]...)
		}
	} else if g.p(0.1) && len(b) > 0 {
		i := g.Intn(len(b))
		b = append(b[:i], b[i+1:]...)
	}
	return b
}

// validPath is a path whose components are small enough
func (g *G) validPath(max int) string {
	n := g.Intn(max + 1)
	h := g.Intn(n + 1)
	s := string("mM"[g.Intn(2)])
	for i := 0; i < n; i++ {
		if i < h {
			s += "/" + dec(g.u32()&0x7fffffff) + "'"
		} else if g.p(0.1) {
			s += "/" + dec(g.u32())
		} else {
			s += "/" + dec(g.u32()&0x7fffffff)
		}
	}
	return s
}
