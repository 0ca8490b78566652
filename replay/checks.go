package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
)

func toKey(b []byte) (k bip32.Key) { copy(k[:], b); return }

func errs(e error) string {
	if e == nil {
		return "ok"
	}
	return "error " + e.Error()
}

// recv is a receiver whose memory is watched
func same(r *Rep, k *bip32.Key, orig []byte, what string) {
	if !bytes.Equal(k[:], orig) {
		r.fail("X01 K02 K03 K06 K08", "%s changed its receiver from %x to %x", what, orig, k[:])
	}
}

func init() {
	register(&Kind{Name: "master", Weight: 1, Fields: []Field{{"seed", "bytes"}},
		Gen: func(g *G) In {
			n := int(g.pick(0, 1, 15, 16, 17, 32, 63, 64, 65, 128, 129, 256, uint64(g.Intn(300))))
			return In{"seed": hx(g.bytes(n))}
		},
		Check: func(in In, r *Rep) {
			a, s := arg(in.b("seed"))
			k, err := bip32.NewMasterKey(s)
			if k != nil {
				keep(r, "NewMasterKey", k[:], 0x5a)
			}
			a.same(r, "NewMasterKey")
			want, ok := masterOf(in.b("seed"))
			r.out("%v %v", errs(err), k)
			if (err == nil) != ok || (k != nil) != ok {
				r.fail("K01", "NewMasterKey gave key %v, %s; a key is due: %v", k != nil, errs(err), ok)
				return
			}
			if ok && !bytes.Equal(k[:], want) {
				r.fail("K01", "master key is %x, BIP-32 says %x", k[:], want)
			}
		}})

	register(&Kind{Name: "child", Weight: 3, Fields: []Field{{"key", "key"}, {"index", "u32"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey)), "index": dec(g.u32())} },
		Check: func(in In, r *Rep) {
			kb, i := in.b("key"), uint32(in.u("index"))
			k := toKey(kb)
			c, err := k.NewChildKey(i)
			same(r, &k, kb, "NewChildKey")
			r.out("%v %x", errs(err), c)
			if kb[45] != 0 && i >= 1<<31 {
				r.must(err == bip32.ErrHardenedChildPublicKey, "K05", "hardened child of a public key: %s", errs(err))
				r.must(c == bip32.Key{}, "K05", "hardened child of a public key yields %x", c)
				return
			}
			if err == nil && kb[45] != 0 {
				r.must(c[45] != 0, "K05", "the child of a public key is private: %x", c)
			}
			r.must(err != bip32.ErrHardenedChildPublicKey, "K05", "the hardened-child error for index %d of a %s key", i, kind(kb))
			if !validKey(kb) {
				return
			}
			want, why := child(kb, i)
			compareChild(r, kb, i, c, err, want, why, "")
		}})

	register(&Kind{Name: "neuter", Weight: 2, Fields: []Field{{"key", "key"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey))} },
		Check: func(in In, r *Rep) {
			kb := in.b("key")
			k := toKey(kb)
			p := k.PublicKeyExtended()
			ph, vh, isp := k.PublicKeyHex(), k.PrivateKeyHex(), k.IsPrivate()
			same(r, &k, kb, "PublicKeyExtended")
			r.out("%x %s %s", p, ph, vh)
			r.must(isp == (kb[45] == 0), "K05", "IsPrivate is %v for key data starting with %d", isp, kb[45])
			if kb[45] == 0 {
				r.must(vh == hx(kb[46:]), "K05 K06", "PrivateKeyHex is %q", vh)
			} else {
				r.must(vh == "", "K05", "PrivateKeyHex of a public key is %q", vh)
				r.must(ph == hx(kb[45:]), "K06", "PublicKeyHex of a public key is %q", ph)
			}
			if kb[45] == 0 && !validScalar(kb[46:]) {
				return
			}
			r.must(p[45] != 0, "K05", "the public form is private")
			want := neuter(kb)
			r.must(bytes.Equal(p[:4], want[:4]), "K06 K10", "public form has version %x, want %x", p[:4], want[:4])
			r.must(bytes.Equal(p[4:45], want[4:45]), "K06", "public form has metadata %x, want %x", p[4:45], want[4:45])
			r.must(bytes.Equal(p[45:], want[45:]), "K06 K05", "public form has key data %x, want %x", p[45:], want[45:])
			r.must(ph == hx(want[45:]), "K06", "PublicKeyHex is %q, want %x", ph, want[45:])
		}})

	register(&Kind{Name: "commute", Weight: 2, Fields: []Field{{"key", "key"}, {"index", "u32"}},
		Gen: func(g *G) In {
			k := g.key(privKey)
			put32(k, ref.pvts[g.Intn(len(ref.pvts))])
			return In{"key": hx(k), "index": dec(g.u32() & 0x7fffffff)}
		},
		Check: func(in In, r *Rep) {
			kb, i := in.b("key"), uint32(in.u("index"))
			if _, reg := ref.pvt[binary.BigEndian.Uint32(kb)]; kb[45] != 0 || !validScalar(kb[46:]) || !reg || i >= 1<<31 {
				return
			}
			k := toKey(kb)
			c, e1 := k.NewChildKey(i)
			n := c.PublicKeyExtended()
			p := k.PublicKeyExtended()
			d, e2 := p.NewChildKey(i)
			same(r, &k, kb, "derivation")
			r.out("%v %x %v %x", errs(e1), c, errs(e2), d)
			r.must((e1 == nil) == (e2 == nil), "K04", "private derivation gives %s, public derivation %s", errs(e1), errs(e2))
			if e1 == nil && e2 == nil {
				r.must(n == d, "K04", "public form of the child is %x, child of the public form is %x", n, d)
			}
		}})

	register(&Kind{Name: "ser", Weight: 2, Fields: []Field{{"key", "key"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey))} },
		Check: func(in In, r *Rep) {
			kb := in.b("key")
			k := toKey(kb)
			bs, err := k.Serialize()
			keep(r, "Serialize", bs, 0x5a)
			t, t2, v := k.B58Serialize(), k.String(), k.IsValid()
			same(r, &k, kb, "serialization")
			r.out("%v %x %s %v", errs(err), bs, t, v)
			valid := validKey(kb)
			r.must(v == valid, "K08 K09", "IsValid is %v for a key whose data is valid: %v", v, valid)
			if bytes.Equal(kb, make([]byte, 78)) {
				r.must(err != nil && len(bs) == 0 && t == "" && t2 == "", "K08", "the all-zero key serializes to %x %q %q", bs, t, t2)
				return
			}
			want := append(append([]byte(nil), kb...), dsha(kb)[:4]...)
			if !r.must(err == nil && bytes.Equal(bs, want), "K08", "serialized form is %x (%s), want %x", bs, errs(err), want) {
				return
			}
			wt := b58enc(want)
			r.must(t == wt && t2 == wt, "K08", "text form is %q and %q, want %q", t, t2, wt)
			b, e := bip32.Deserialize(append([]byte(nil), bs...))
			c, e2 := bip32.B58Deserialize(t)
			r.must((e == nil) == valid && (e2 == nil) == valid, "K08 K09", "reading back: %s, %s; valid: %v", errs(e), errs(e2), valid)
			if e == nil && e2 == nil {
				r.must(b == k && c == k, "K08", "reading back gives %x and %x", b, c)
			}
		}})

	register(&Kind{Name: "deser", Weight: 2, Fields: []Field{{"data", "bytes"}},
		Gen: func(g *G) In { return In{"data": hx(g.serialized())} },
		Check: func(in In, r *Rep) {
			d := in.b("data")
			a, s := arg(d)
			k, err := bip32.Deserialize(s)
			a.same(r, "Deserialize")
			r.out("%v %x", errs(err), k)
			imported(r, d, k, err, "Deserialize")
		}})

	register(&Kind{Name: "b58deser", Weight: 2, Fields: []Field{{"text", "text"}},
		Gen: func(g *G) In {
			if g.p(0.1) {
				return In{"text": hx(g.text(10))}
			}
			t := []byte(b58enc(g.serialized()))
			if g.p(0.2) && len(t) > 0 {
				switch g.Intn(4) {
				case 0:
					t[g.Intn(len(t))] = "0OIl+/ \x80\xff"[g.Intn(9)]
				case 1:
					t = append([]byte(" "), t...)
				case 2:
					t = append(t, '\n')
				default:
					t = append([]byte("1"), t...)
				}
			}
			return In{"text": hx(t)}
		},
		Check: func(in In, r *Rep) {
			t := in.s("text")
			k, err := bip32.B58Deserialize(t)
			r.out("%v %x", errs(err), k)
			d, ok := b58dec(t)
			if !ok {
				r.must(err != nil, "K09", "text %q, which is not base58, is imported", t)
				return
			}
			imported(r, d, k, err, "B58Deserialize")
		}})

	register(&Kind{Name: "setver", Fields: []Field{{"key", "key"}, {"version", "u32"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey)), "version": dec(g.u32())} },
		Check: func(in In, r *Rep) {
			kb, v := in.b("key"), uint32(in.u("version"))
			k, l := toKey(kb), toKey(kb)
			var vb bip32.Version
			put32(vb[:], v)
			k.SetVersionUint32(v)
			l.SetVersion(vb)
			copy(kb, vb[:])
			r.must(bytes.Equal(k[:], kb), "X01", "SetVersionUint32 gives %x, want %x", k, kb)
			r.must(bytes.Equal(l[:], kb), "X01", "SetVersion gives %x, want %x", l, kb)
			r.must(k.GetVersion() == v, "X01", "GetVersion gives %x, want %x", k.GetVersion(), v)
		}})

	register(&Kind{Name: "getters", Fields: []Field{{"key", "key"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey))} },
		Check: func(in In, r *Rep) {
			kb := in.b("key")
			k := toKey(kb)
			cc, fp, dp, pk, pb, cn := k.GetChainCode(), k.GetFingerPrint(), k.GetDepth(), k.GetPvtKeyBytes(), k.GetKeyBytes(), k.GetChildNumber()
			for _, x := range []struct {
				n    string
				a, b []byte
			}{{"GetChainCode", cc[:], kb[13:45]}, {"GetFingerPrint", fp[:], kb[5:9]}, {"GetDepth", dp[:], kb[4:5]}, {"GetPvtKeyBytes", pk[:], kb[46:]}, {"GetKeyBytes", pb[:], kb[45:]}, {"GetChildNumber", cn[:], kb[9:13]}} {
				r.must(bytes.Equal(x.a, x.b), "K08", "%s gives %x, want %x", x.n, x.a, x.b)
			}
			same(r, &k, kb, "a getter")
			r.must(k.GetVersion() == binary.BigEndian.Uint32(kb), "K08 X01", "GetVersion gives %x", k.GetVersion())
		}})

	register(&Kind{Name: "validpriv", Fields: []Field{{"scalar", "bytes"}},
		Gen: func(g *G) In {
			k := g.key(privKey)[46:]
			switch g.Intn(6) {
			case 0:
				k = make([]byte, 32)
				k[31] = byte(g.Intn(3))
			case 1:
				d := int64(g.Intn(5)) - 2
				k = new(big.Int).Add(curveN, big.NewInt(d)).FillBytes(make([]byte, 32))
			case 2:
				k = g.bytes(32)
			case 3:
				k = curveN.FillBytes(make([]byte, 32))
				k[g.Intn(32)] ^= 1 << g.Intn(8)
			}
			return In{"scalar": hx(k)}
		},
		Check: func(in In, r *Rep) {
			b := in.b("scalar")
			if len(b) != 32 {
				return
			}
			var k bip32.PvtKeyBytes
			copy(k[:], b)
			err := bip32.ValidatePrivateKey(k)
			r.out("%s", errs(err))
			r.must((err == nil) == validScalar(b), "K09", "ValidatePrivateKey(%x): %s", b, errs(err))
		}})

	register(&Kind{Name: "expand", Weight: 1, Fields: []Field{{"point", "bytes"}},
		Gen: func(g *G) In {
			k := g.key(pubKey)[45:]
			if g.p(0.3) {
				k = g.bytes(33)
			}
			return In{"point": hx(k)}
		},
		Check: func(in In, r *Rep) {
			b := in.b("point")
			if len(b) != 33 {
				return
			}
			a, s := arg(b)
			x, y := bip32.ExpandPublicKey(s)
			a.same(r, "ExpandPublicKey")
			r.out("%v %v", x, y)
			wx, wy, ok := lift(b)
			if ok && r.must(x != nil && y != nil, "U04", "ExpandPublicKey(%x) gives no coordinates", b) {
				r.must(x.Cmp(new(big.Int).SetBytes(wx)) == 0 && y.Cmp(new(big.Int).SetBytes(wy)) == 0, "U04", "ExpandPublicKey(%x) gives %x and %x, want %x and %x", b, x, y, wx, wy)
			}
			for _, v := range []*big.Int{x, y} { // the numbers are the caller's own
				if v != nil {
					v.SetInt64(7)
				}
			}
		}})

	register(&Kind{Name: "rootkey", Fields: []Field{{"key", "key"}, {"old", "key"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey)), "old": hx(g.key(anyKey))} },
		Check: func(in In, r *Rep) {
			k, o := toKey(in.b("key")), toKey(in.b("old"))
			g, h := &util.Generator{}, &util.Generator{}
			g.SetRootKey(o)
			h.SetRootKey(o)
			r.must(*g.RootKey() == o && *g.RootKey() == o, "U01", "RootKey gives %x, set was %x", *g.RootKey(), o)
			g.SetRootKey(k)
			r.must(*g.RootKey() == k, "U01", "RootKey gives %x, set was %x", *g.RootKey(), k)
			r.must(*h.RootKey() == o, "U01 X01", "setting the root of one generator changed another's to %x", *h.RootKey())
			r.out("%x", *g.RootKey())
		}})

	register(&Kind{Name: "path", Weight: 3, Fields: []Field{{"path", "text"}},
		Gen: func(g *G) In { return In{"path": hx(g.path())} },
		Check: func(in In, r *Rep) {
			p := in.s("path")
			vals, err := bip32.Path(p).ValuesAtDepth()
			keep(r, "ValuesAtDepth", vals, 0x5a5a5a5a)
			v := bip32.Path(p).IsValid()
			st := bip32.Path(p).String()
			r.out("%v %v %v %q", vals, errs(err), v, st)
			want, ok := parsePath(p)
			r.must((err == nil) == ok, "P01", "path %q: %s, valid: %v", p, errs(err), ok)
			r.must(v == ok, "P01", "path %q: IsValid is %v, want %v", p, v, ok)
			if err == nil && ok {
				r.must(fmt.Sprint(vals) == fmt.Sprint(want), "P01", "path %q has values %v, want %v", p, vals, want)
			}
			if strings.ToValidUTF8(p, "") == p {
				r.must(st == strip(p) && string(bip32.Path(p).Formatted()) == st, "P01", "String of %q is %q, want %q", p, st, strip(p))
			}
		}})

	register(&Kind{Name: "pathval", Weight: 1, Fields: []Field{{"path", "text"}, {"depth", "u8"}},
		Gen: func(g *G) In {
			p := g.path()
			d := uint64(g.Intn(8))
			if g.p(0.2) || strings.Count(string(p), "/") > 20 {
				d = g.u8()
			}
			return In{"path": hx(p), "depth": dec(d)}
		},
		Check: func(in In, r *Rep) {
			p, d := in.s("path"), byte(in.u("depth"))
			v, err := bip32.Path(p).ValueAtDepth(d)
			r.out("%v %v", v, errs(err))
			want, ok := parsePath(p)
			ok = ok && int(d) < len(want)
			if r.must((err == nil) == ok, "P02", "ValueAtDepth(%d) of %q: %s, due: %v", d, p, errs(err), ok) && ok {
				r.must(v == want[d], "P02", "ValueAtDepth(%d) of %q is %d, want %d", d, p, v, want[d])
			}
		}})

	register(&Kind{Name: "pathrep", Weight: 1, Fields: []Field{{"path", "text"}, {"depth", "u8"}, {"value", "u32"}},
		Gen: func(g *G) In {
			p := g.path()
			if g.p(0.5) {
				p = []byte(g.validPath(5))
			}
			d := uint64(g.Intn(7))
			if g.p(0.1) || strings.Count(string(p), "/") > 20 {
				d = g.u8()
			}
			return In{"path": hx(p), "depth": dec(d), "value": dec(g.u32())}
		},
		Check: func(in In, r *Rep) {
			p, d, v := in.s("path"), byte(in.u("depth")), uint32(in.u("value"))
			q, err := bip32.Path(p).ReplaceValueAtDepth(d, v)
			r.out("%v %q", errs(err), string(q))
			want, ok := parsePath(p)
			if !ok || int(d) >= len(want) {
				r.must(err != nil, "P02", "replacing depth %d of %q gives %q and no error", d, p, string(q))
				return
			}
			if err != nil {
				// the replacement text may not be a path; where it is, it has to be given
				t := strings.Split(strip(p), "/")
				if v >= 1<<31 {
					t[d] = dec(uint64(v&0x7fffffff)) + "'"
				} else {
					t[d] = dec(uint64(v))
				}
				if _, fine := parsePath(strings.Join(t, "/")); fine {
					r.fail("P02", "replacing depth %d of %q by %d fails: %v", d, p, v, err)
				}
				return
			}
			have, ok := parsePath(string(q))
			want = append([]uint32(nil), want...)
			want[d] = v
			r.must(ok && fmt.Sprint(have) == fmt.Sprint(want), "P02", "replacing depth %d of %q by %d gives %q with values %v, want %v", d, p, v, string(q), have, want)
		}})

	register(&Kind{Name: "versionbytes", Fields: []Field{{"path", "text"}, {"pvtflag", "u32"}, {"pubflag", "u32"}},
		Gen: func(g *G) In {
			p := fmt.Sprintf("m/%s'/%s'", g.component(), g.component())
			switch g.Intn(5) {
			case 0:
				p = string(g.path())
			case 1:
				p = ref.Rows[g.Intn(len(ref.Rows))].Path
			case 2:
				p = fmt.Sprintf("m/%0*d'/%0*d'", g.Intn(10), g.Intn(1000), g.Intn(10), g.Intn(100000000))
			case 3:
				p = fmt.Sprintf("m/%.*s'/%.*s'", g.Intn(9), dec(g.u32()), g.Intn(9), dec(g.u32()))
			}
			b := []byte(p)
			if g.p(0.15) {
				i := g.Intn(len(b) + 1)
				b = append(append(append([]byte(nil), b[:i]...), g.token()...), b[i:]...)
			}
			return In{"path": hx(b), "pvtflag": dec(g.u32()), "pubflag": dec(g.u32())}
		},
		Check: versionBytes})

	register(&Kind{Name: "hashes", Fields: []Field{{"data", "bytes"}},
		Gen: func(g *G) In { return In{"data": hx(g.bytes(int(g.pick(0, 1, 32, 33, 63, 64, 78, uint64(g.Intn(300))))))} },
		Check: func(in In, r *Rep) {
			d := in.b("data")
			a, s := arg(d)
			h, e1 := bip32.HashRipeMD160onSha256(s)
			a.same(r, "HashRipeMD160onSha256")
			keep(r, "HashRipeMD160onSha256", h, 0x5a)
			c, e2 := bip32.ChecksumDblSha256(s)
			a.same(r, "ChecksumDblSha256")
			keep(r, "ChecksumDblSha256", c, 0x5a)
			x, e3 := bip32.AddChecksumDblSha256ToBytes(s)
			a.same(r, "AddChecksumDblSha256ToBytes")
			r.out("%x %x %x", h, c, x)
			r.must(e1 == nil && bytes.Equal(h, hash160(d)), "U05", "HashRipeMD160onSha256 gives %x (%s), want %x", h, errs(e1), hash160(d))
			r.must(e2 == nil && bytes.Equal(c, dsha(d)[:4]), "U05", "ChecksumDblSha256 gives %x (%s), want %x", c, errs(e2), dsha(d)[:4])
			r.must(e3 == nil && bytes.Equal(x, append(append([]byte(nil), d...), dsha(d)[:4]...)), "U05", "AddChecksumDblSha256ToBytes gives %x (%s)", x, errs(e3))
			if len(x) > 0 && e3 == nil { // the result has memory of its own
				x = append(x, 1, 2, 3)
				for i := range x {
					x[i] ^= 0xff
				}
				if len(x) > len(d) {
					for i := len(d); i < len(a.full); i++ {
						if a.full[i] != 0xa5 {
							r.fail("X01", "the result of AddChecksumDblSha256ToBytes shares memory with its argument")
							break
						}
					}
				}
			}
		}})

	register(&Kind{Name: "addrhex", Weight: 1, Fields: []Field{{"key", "key"}, {"path", "text"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey)), "path": hx(g.path())} },
		Check: func(in In, r *Rep) {
			kb := in.b("key")
			t := util.KeyPath{Path: bip32.Path(in.s("path")), Key: toKey(kb)}.AddrHex()
			r.out("%s", t)
			if validKey(kb) {
				x, y, _ := lift(pubPart(kb))
				w := hx(keccak(append(append([]byte(nil), x...), y...))[12:])
				r.must(t == w, "U04", "AddrHex is %q, want %q", t, w)
			}
		}})

	register(&Kind{Name: "p2sh", Weight: 1, Fields: []Field{{"key", "key"}, {"prefix", "u8"}},
		Gen: func(g *G) In { return In{"key": hx(g.key(anyKey)), "prefix": dec(g.u8())} },
		Check: func(in In, r *Rep) {
			kb, p := in.b("key"), byte(in.u("prefix"))
			t := util.KeyPath{Key: toKey(kb)}.AddrP2SH(p)
			r.out("%s", t)
			if validKey(kb) {
				d := append([]byte{p}, hash160(pubPart(kb))...)
				w := b58enc(append(d, dsha(d)[:4]...))
				r.must(t == w, "U05", "AddrP2SH(%d) is %q, want %q", p, t, w)
			}
		}})

	register(&Kind{Name: "rootseed", Weight: 1, Fields: []Field{{"seed", "text"}},
		Gen: func(g *G) In {
			if g.p(0.1) {
				return In{"seed": hx(g.text(10))}
			}
			s := hx(g.bytes(int(g.pick(0, 15, 16, 17, 32, 64, uint64(g.Intn(130))))))
			switch g.Intn(6) {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				b := []byte(s)
				for i := range b {
					if g.p(0.5) {
						b[i] = strings.ToUpper(string(b[i : i+1]))[0]
					}
				}
				s = string(b)
			case 2:
				b := []byte(s)
				i := g.Intn(len(b) + 1)
				s = string(b[:i]) + string("g xX@G`/:0"[g.Intn(10)]) + string(b[i:])
			}
			return In{"seed": hx([]byte(s))}
		},
		Check: func(in In, r *Rep) {
			s := in.s("seed")
			k, err := util.RootKeyFromSeed(s)
			if k != nil {
				keep(r, "RootKeyFromSeed", k[:], 0x5a)
			}
			r.out("%v %v", k, errs(err))
			if !r.must(k != nil, "U03", "RootKeyFromSeed(%q) gives a nil key (%s)", s, errs(err)) {
				return
			}
			b, e := hex.DecodeString(s)
			want, ok := []byte(nil), false
			if e == nil && len(b) >= 16 {
				want, ok = masterOf(b)
			}
			if r.must((err == nil) == ok, "U03", "RootKeyFromSeed(%q): %s, due: %v", s, errs(err), ok) && ok {
				r.must(bytes.Equal(k[:], want), "U03", "root key is %x, want %x", k[:], want)
			}
		}})

	register(&Kind{Name: "derive", Weight: 1, Fields: []Field{{"key", "key"}, {"path", "text"}},
		Gen: func(g *G) In {
			p := g.path()
			if g.p(0.6) {
				p = []byte(g.validPath(6))
			}
			return In{"key": hx(g.key(rootKey)), "path": hx(p)}
		},
		Check: derive})

	register(&Kind{Name: "range", Weight: 1, Fields: []Field{{"key", "key"}, {"path", "text"}, {"start", "u32"}, {"end", "span"}},
		Gen: func(g *G) In {
			p := g.path()
			if g.p(0.7) {
				p = []byte(g.validPath(4))
			}
			s := g.u32()
			if g.p(0.1) {
				s = 1<<31 - uint64(g.Intn(5))
			}
			n := uint64(g.Intn(12))
			if g.p(0.02) {
				n = 250 + uint64(g.Intn(20))
			}
			e := s + n
			if e > 0xffffffff {
				e = 0xffffffff
			}
			if g.p(0.06) {
				e = s - n
				if n > s {
					e = 0
				}
			}
			return In{"key": hx(g.key(anyKey)), "path": hx(p), "start": dec(s), "end": dec(e)}
		},
		Check: ranges})

	register(&Kind{Name: "coinvalid", Fields: []Field{{"name", "text"}, {"symbol", "text"}, {"type", "u32"}, {"path", "u32"}},
		Gen: func(g *G) In {
			t := g.u32()
			p := (t + 1<<31) & 0xffffffff
			if g.p(0.3) {
				p = g.u32()
			}
			tx := func() []byte {
				switch g.Intn(4) {
				case 0:
					return nil
				case 1:
					return []byte(spaces[g.Intn(len(spaces))])
				case 2:
					return g.text(3)
				}
				return []byte("Coin")
			}
			return In{"name": hx(tx()), "symbol": hx(tx()), "type": dec(t), "path": dec(p)}
		},
		Check: func(in In, r *Rep) {
			c := bip44.Coin{Type: uint32(in.u("type")), PathComponent: uint32(in.u("path")), Symbol: in.s("symbol"), Name: in.s("name")}
			want := (len(fields(c.Name)) > 0 || len(fields(c.Symbol)) > 0) && c.Type < 1<<31 && c.PathComponent == c.Type+1<<31
			v := c.IsValid()
			r.out("%v %q %q", v, c.String(), c.StringForMD())
			r.must(v == want, "C01", "IsValid of %+v is %v, want %v", c, v, want)
		}})

	register(&Kind{Name: "coins", Once: true, Check: coins})
	register(&Kind{Name: "registry", Once: true, Check: registry})
	register(&Kind{Name: "wordlists", Once: true, Check: wordLists})
	register(&Kind{Name: "prefix", Fields: []Field{{"key", "key"}, {"entry", "int"}},
		Gen: func(g *G) In {
			return In{"key": hx(g.key(anyKey)), "entry": dec(uint64(g.Intn(1 + len(bip32.HDVersionBytesSlice))))}
		},
		Check: prefix})

	register(&Kind{Name: "mnemonic", Weight: 3, State: true, Fields: []Field{{"mode", "raw"}, {"entropy", "bytes"}, {"mnemonic", "text"}, {"list", "raw"}},
		Gen: mnemonicGen, Check: mnemonic})
	register(&Kind{Name: "tobytes", Weight: 2, State: true, Fields: []Field{{"mnemonic", "text"}, {"raw", "raw"}, {"list", "raw"}},
		Gen: func(g *G) In {
			in := mnemonicGen(g)
			delete(in, "mode")
			delete(in, "entropy")
			in["raw"] = []string{"", "0", "1", "01", "10"}[g.Intn(5)]
			return in
		}, Check: toBytes})
	register(&Kind{Name: "seed", Weight: 1, State: true, Fields: []Field{{"mnemonic", "text"}, {"passphrase", "text"}, {"list", "raw"}},
		Gen: func(g *G) In {
			in := mnemonicGen(g)
			delete(in, "mode")
			delete(in, "entropy")
			p := g.text(4)
			if g.p(0.2) {
				p = bytes.Repeat(g.token(), 1+g.Intn(200))
			}
			in["passphrase"] = hx(p)
			return in
		}, Check: seed})
	register(&Kind{Name: "setlist", State: true, Fields: []Field{{"list", "raw"}, {"before", "raw"}, {"text", "text"}},
		Gen: func(g *G) In {
			l := "r" + dec(uint64(g.Intn(1000000))) + ":" + dec(g.pick(0, 1, 2, 3, 7, 255, 256, 2047, 2048, 2049, 4096, 5000))
			if g.p(0.4) {
				l = g.listName()
			}
			return In{"list": l, "before": g.listName(), "text": hx(g.text(3))}
		}, Check: setList})
	register(&Kind{Name: "fresh", State: true, Weight: 1, Fields: []Field{{"bits", "int"}, {"words", "u8"}, {"fail", "int"}, {"chunk", "int"}, {"source", "int"}},
		Gen: func(g *G) In {
			b := int64(g.pick(128, 160, 192, 224, 256))
			if g.p(0.4) {
				b = []int64{0, 8, 32, 64, 96, 127, 129, 144, 264, 288, 320, 512, 1024, -128, -32, 1 << 33, 1<<32 + 128, -1 << 63, int64(g.Intn(600))}[g.Intn(19)]
			}
			f := int64(-1)
			if g.p(0.4) {
				f = int64(g.Intn(34))
			}
			w := g.pick(12, 15, 18, 21, 24)
			if g.p(0.3) {
				w = g.u8()
			}
			return In{"bits": fmt.Sprint(b), "words": dec(w), "fail": fmt.Sprint(f), "chunk": dec(uint64(g.Intn(4) * g.Intn(6))), "source": dec(uint64(g.Intn(1 << 30)))}
		}, Check: fresh})
	register(&Kind{Name: "newseed", State: true, Fields: []Field{{"fail", "int"}, {"chunk", "int"}, {"source", "int"}},
		Gen: func(g *G) In {
			f := int64(-1)
			if g.p(0.4) {
				f = int64(g.Intn(257))
			}
			return In{"fail": fmt.Sprint(f), "chunk": dec(uint64(g.Intn(4) * g.Intn(30))), "source": dec(uint64(g.Intn(1 << 30)))}
		}, Check: newSeed})
}

func kind(k []byte) string {
	if k[45] == 0 {
		return "private"
	}
	return "public"
}

func masterOf(seed []byte) ([]byte, bool) {
	I := hmac512([]byte("Bitcoin seed"), seed)
	k := make([]byte, 78)
	put32(k, 0x0488ade4)
	copy(k[13:], I[32:])
	copy(k[46:], I[:32])
	return k, validScalar(I[:32])
}

func compareChild(r *Rep, kb []byte, i uint32, c bip32.Key, err error, want []byte, why, tag string) {
	me := "K02"
	if kb[45] != 0 {
		me = "K03 K05"
	}
	if want == nil {
		t := map[string]string{"depth": "K07", "version": "K10", "il": me, "zero": me, "infinity": me, "hardened": "K05"}[why]
		r.must(err != nil, t, "%s key %x has no child %d (%s), but one is derived: %x", kind(kb), kb, i, why, c)
		return
	}
	if !r.must(err == nil, me+" K05 K07 K10", "child %d of %s key %x is refused: %v", i, kind(kb), kb, err) {
		return
	}
	r.must(bytes.Equal(c[:4], want[:4]), "K10", "child version is %x, want %x", c[:4], want[:4])
	r.must(c[4] == want[4], "K07", "child depth is %d, want %d", c[4], want[4])
	r.must(bytes.Equal(c[5:9], want[5:9]), "K07", "child fingerprint is %x, want %x", c[5:9], want[5:9])
	r.must(bytes.Equal(c[9:13], want[9:13]), "K07", "child number is %x, want %x", c[9:13], want[9:13])
	r.must((c[45] == 0) == (want[45] == 0), "K07 "+me, "the child of a %s key is %s", kind(kb), kind(c[:]))
	r.must(bytes.Equal(c[13:45], want[13:45]), strings.Fields(me)[0], "child chain code is %x, want %x", c[13:45], want[13:45])
	r.must(bytes.Equal(c[45:], want[45:]), me, "child key data is %x, want %x", c[45:], want[45:])
}

func imported(r *Rep, d []byte, k bip32.Key, err error, what string) {
	ok := len(d) == 82 && bytes.Equal(dsha(d[:78])[:4], d[78:]) && validKey(d[:78])
	if r.must((err == nil) == ok, "K09", "%s of %x: %s, due: %v", what, d, errs(err), ok) && ok {
		r.must(bytes.Equal(k[:], d[:78]), "K09 K08", "%s of %x gives %x", what, d, k)
	}
}

// serialized is a serialized key, sound or damaged
func (g *G) serialized() []byte {
	k := g.key(anyKey)
	if g.p(0.4) {
		k = g.key(validAny)
	}
	d := append(k, dsha(k)[:4]...)
	switch g.Intn(8) {
	case 0:
		d[g.Intn(82)] ^= 1 << g.Intn(8)
	case 1:
		d[78+g.Intn(4)] ^= 1 << g.Intn(8)
	case 2:
		d = d[:g.Intn(83)]
	case 3:
		d = append(d, g.bytes(1+g.Intn(6))...)
	case 4: // a longer or shorter string with a checksum of its own
		b := g.bytes(74 + g.Intn(9))
		d = append(b, dsha(b)[:4]...)
	case 5:
		d[g.Intn(82)] = byte(g.Intn(256))
	}
	return d
}

// ---------------------------------------------------------------- registries

func versionBytes(in In, r *Rep) {
	p := in.s("path")
	e := bip32.VersionBytes{Coin: "x", PvtKeyFlag: uint32(in.u("pvtflag")), PubKeyFlag: uint32(in.u("pubflag")), Path: bip32.Path(p)}
	pv, pe := e.PurposeVal()
	cv, ce := e.CoinVal()
	pf, pfe := e.PurposeValFull()
	cf, cfe := e.CoinValFull()
	valid, reg := e.IsValid(), e.IsRegistered()
	r.out("%v %v %v %v %v %v %v %v %v %v", pv, errs(pe), cv, errs(ce), pf, errs(pfe), cf, errs(cfe), valid, reg)
	a, b := e.PvtKeyFlagBytes(), e.PubKeyFlagBytes()
	r.must(binary.BigEndian.Uint32(a[:]) == e.PvtKeyFlag && binary.BigEndian.Uint32(b[:]) == e.PubKeyFlag, "K12", "flag bytes %x %x of flags %x %x", a, b, e.PvtKeyFlag, e.PubKeyFlag)
	s := strip(p)
	want := false
	for _, h := range bip32.HDVersionBytesSlice {
		want = want || string(h.Path) == s
	}
	if strings.ToValidUTF8(p, "") == p {
		r.must(reg == want, "K12", "IsRegistered of path %q is %v, want %v", p, reg, want)
	}
	spelled := regexp.MustCompile(`\Am/([0-9]{1,8})'/([0-9]{1,8})'\z`).MatchString(s)
	m := regexp.MustCompile(`\Am/([0-9]*)'/([0-9]*)'\z`).FindStringSubmatch(s)
	if valid {
		r.must(m != nil, "K12", "IsValid of path %q", p)
	}
	if spelled {
		r.must(valid, "K12", "IsValid of path %q is false", p)
	}
	for _, x := range []struct {
		n    string
		v    uint32
		e    error
		part int
		add  uint64
	}{{"PurposeVal", pv, pe, 1, 0}, {"CoinVal", cv, ce, 2, 0}, {"PurposeValFull", pf, pfe, 1, 1 << 31}, {"CoinValFull", cf, cfe, 2, 1 << 31}} {
		if spelled {
			r.must(x.e == nil, "K12", "%s of path %q fails: %v", x.n, p, x.e)
		}
		if m == nil {
			r.must(x.e != nil, "K12", "%s of path %q is %d", x.n, p, x.v)
			continue
		}
		if x.e == nil {
			v, ok := new(big.Int).SetString(m[x.part], 10)
			r.must(ok && v.BitLen() <= 31 && uint64(x.v) == v.Uint64()+x.add, "K12", "%s of path %q is %d", x.n, p, x.v)
		}
	}
}

func registry(in In, r *Rep) {
	type E struct {
		c        string
		pvt, pub uint32
		path     string
	}
	key := func(e bip32.VersionBytes) string { return fmt.Sprintf("%+v", e) }
	bag := func(l []bip32.VersionBytes) string {
		var s []string
		for _, e := range l {
			s = append(s, key(e))
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	num := func(e bip32.VersionBytes, i int) uint32 {
		var v uint32
		fmt.Sscan(strings.TrimSuffix(strings.Split(string(e.Path), "/")[i], "'"), &v)
		return v
	}
	for v, l := range bip32.PvtFlagToHDBytesSlice {
		for _, e := range l {
			w, ok := ref.pvt[v]
			r.must(ok && e.PvtKeyFlag == v && e.PubKeyFlag == w, "K10", "entry %s under private version %08x, whose public version is %08x", key(e), v, w)
		}
	}
	for v, l := range bip32.PubFlagToHDBytesSlice {
		for _, e := range l {
			w, ok := ref.pub[v]
			r.must(ok && e.PubKeyFlag == v && e.PvtKeyFlag == w, "K10", "entry %s under public version %08x, whose private version is %08x", key(e), v, w)
		}
	}
	for v := range ref.pvt {
		r.must(len(bip32.PvtFlagToHDBytesSlice[v]) > 0, "K10", "private version %08x is not registered", v)
	}
	for v := range ref.pub {
		r.must(len(bip32.PubFlagToHDBytesSlice[v]) > 0, "K10", "public version %08x is not registered", v)
	}
	idx := func(name string, m map[uint32][]bip32.VersionBytes, f func(bip32.VersionBytes) uint32) {
		want := map[uint32][]bip32.VersionBytes{}
		for _, e := range bip32.HDVersionBytesSlice {
			want[f(e)] = append(want[f(e)], e)
		}
		for k, l := range want {
			r.must(bag(l) == bag(m[k]), "K10", "%s[%x] is %v, want %v", name, k, m[k], l)
		}
		for k, l := range m {
			r.must(bag(l) == bag(want[k]), "K10", "%s[%x] is %v, want %v", name, k, l, want[k])
		}
	}
	idx("PvtFlagToHDBytesSlice", bip32.PvtFlagToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return e.PvtKeyFlag })
	idx("PubFlagToHDBytesSlice", bip32.PubFlagToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return e.PubKeyFlag })
	idx("PurposeToHDBytesSlice", bip32.PurposeToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return num(e, 1) })
	idx("PurposeFullToHDBytesSlice", bip32.PurposeFullToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return num(e, 1) + 1<<31 })
	idx("CoinTypeToHDBytesSlice", bip32.CoinTypeToHDBytesSlice, func(e bip32.VersionBytes) uint32 { return num(e, 2) })
	want := map[string][]bip32.VersionBytes{}
	for _, e := range bip32.HDVersionBytesSlice {
		want[string(e.Path)] = append(want[string(e.Path)], e)
	}
	for k, l := range bip32.PathToHDBytesSlice {
		r.must(bag(l) == bag(want[k]), "K10", "PathToHDBytesSlice[%s] is %v, want %v", k, l, want[k])
	}
	for k, l := range want {
		r.must(bag(l) == bag(bip32.PathToHDBytesSlice[k]), "K10", "PathToHDBytesSlice[%s] is %v, want %v", k, bip32.PathToHDBytesSlice[k], l)
	}
	have := map[E]bool{}
	pairs := map[[2]uint32]bool{}
	for _, e := range bip32.HDVersionBytesSlice {
		have[E{"", e.PvtKeyFlag, e.PubKeyFlag, string(e.Path)}] = true
		pairs[[2]uint32{e.PvtKeyFlag, e.PubKeyFlag}] = true
	}
	rows := map[E]bool{}
	for _, w := range ref.Rows {
		rows[E{"", w.Pvt, w.Pub, w.Path}] = true
		if strings.HasPrefix(w.Path, "m/") {
			r.must(have[E{"", w.Pvt, w.Pub, w.Path}], "K10", "SLIP-0132 row %08x %08x %s is not registered", w.Pvt, w.Pub, w.Path)
		} else {
			r.must(pairs[[2]uint32{w.Pvt, w.Pub}], "K10", "SLIP-0132 row %08x %08x is not registered", w.Pvt, w.Pub)
		}
	}
	for e := range have {
		r.must(rows[e] || rows[E{"", e.pvt, e.pub, "-"}], "K10", "entry %08x %08x %s is not a row of SLIP-0132", e.pvt, e.pub, e.path)
	}
	// what keys do with it
	for v, w := range ref.pvt {
		var k bip32.Key
		k.SetVersionUint32(v)
		k[77] = 1
		c, err := k.NewChildKey(0)
		p := k.PublicKeyExtended()
		r.must(err == nil && c.GetVersion() == v && p.GetVersion() == w, "K10", "key with version %08x: child version %08x (%s), public version %08x, want %08x", v, c.GetVersion(), errs(err), p.GetVersion(), w)
		d, err := p.NewChildKey(0)
		r.must(err == nil && d.GetVersion() == w, "K10", "key with version %08x: child version %08x (%s)", w, d.GetVersion(), errs(err))
	}
}

func prefix(in In, r *Rep) {
	i := int(in.u("entry"))
	if i >= len(bip32.HDVersionBytesSlice) {
		if len(bip32.HDVersionBytesSlice) == 0 {
			r.fail("K11", "nothing is registered")
		}
		return
	}
	e := bip32.HDVersionBytesSlice[i]
	for j, x := range []struct {
		what, p string
		v       uint32
	}{{"private", e.PvKeyPrefix, e.PvtKeyFlag}, {"public", e.PubKeyPrefix, e.PubKeyFlag}} {
		n := fmt.Sprintf("%s %s: %s version %08x serializes as %s...", e.Coin, string(e.Path), x.what, x.v, x.p)
		skip := false
		for _, s := range ref.Skip {
			skip = skip || s == n
		}
		if skip {
			continue
		}
		kb := in.b("key")
		if j == 0 {
			kb[45] = 0
		} else if kb[45] == 0 {
			kb[45] = 2
		}
		k := toKey(kb)
		k.SetVersionUint32(x.v)
		t := k.B58Serialize()
		r.must(len(x.p) == 4 && strings.HasPrefix(t, x.p), "K11", "%s but the text is %s", n, t)
	}
}

func coins(in In, r *Rep) {
	rows := map[uint32]map[string]bool{}
	norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	for _, w := range ref.Coins {
		if rows[w.Path] == nil {
			rows[w.Path] = map[string]bool{}
		}
		rows[w.Path][w.Symbol+"|"+norm(w.Name)] = true
	}
	reg := map[bip44.Coin]bool{}
	types, paths := map[uint32]int{}, map[uint32]int{}
	for _, c := range bip44.RegCoins {
		reg[c] = true
		types[c.Type]++
		paths[c.PathComponent]++
	}
	r.must(len(reg) > 0, "C01", "no coin is registered")
	for _, c := range bip44.RegCoins {
		r.must(c.IsValid() && strings.TrimSpace(c.Name+c.Symbol) != "" && c.Type < 1<<31 && c.PathComponent == c.Type+1<<31, "C01", "registered coin %+v is not valid", c)
		r.must(rows[c.PathComponent][c.Symbol+"|"+norm(c.Name)], "C01", "registered coin %+v is not a row of SLIP-0044", c)
		t, ok := bip44.RegBip44CoinsTypeToValMap[c.Type]
		r.must(ok && reg[t] && t.Type == c.Type && (t == c || types[c.Type] > 1), "C01", "coin %+v is found under its type as %+v", c, t)
		t, ok = bip44.RegBip44CoinsPathCompToValMap[c.PathComponent]
		r.must(ok && reg[t] && t.PathComponent == c.PathComponent && (t == c || paths[c.PathComponent] > 1), "C01", "coin %+v is found under its path component as %+v", c, t)
		t, ok = bip44.RegBip44CoinsNameToValMap[c.Name]
		r.must(ok && t.Name == c.Name, "C01", "coin %+v is found under its name as %+v", c, t)
	}
	for k, c := range bip44.RegBip44CoinsTypeToValMap {
		r.must(reg[c] && c.Type == k, "C01", "type %d gives %+v", k, c)
	}
	for k, c := range bip44.RegBip44CoinsPathCompToValMap {
		r.must(reg[c] && c.PathComponent == k, "C01", "path component %x gives %+v", k, c)
	}
	for k, c := range bip44.RegBip44CoinsNameToValMap {
		r.must(reg[c] && c.Name == k, "C01", "name %q gives %+v", k, c)
	}
}

func wordLists(in In, r *Rep) {
	check := func(n string, l []string) {
		w := ref.Words[n]
		if !r.must(len(l) == 2048, "B06", "%s has %d words", n, len(l)) {
			return
		}
		for i := range l {
			if !r.must(l[i] == w[i], "B06", "%s word %d is %q, official %q", n, i, l[i], w[i]) {
				return
			}
		}
	}
	for _, n := range sortedKeys(lists) {
		check(n, *lists[n])
	}
	check("English", bip39.GetWordList())
	for i, w := range ref.Words["English"] {
		j, ok := bip39.GetWordIndex(w)
		if !r.must(ok && i == j, "B06 B07", "GetWordIndex(%q) is %d, %v at the start", w, j, ok) {
			return
		}
	}
}

// ---------------------------------------------------------------- mnemonics

func (g *G) listName() string {
	if g.plain {
		return ""
	}
	switch g.Intn(6) {
	case 0:
		return sortedKeys(lists)[g.Intn(len(lists))]
	case 1:
		return "r" + dec(uint64(g.Intn(4)))
	}
	return ""
}

var listCache = map[string][]string{}

// listOf gives a list by name: a language, or "rSEED[:LENGTH]" for a made-up one
func listOf(n string) []string {
	if n == "" {
		n = "English"
	}
	if l, ok := lists[n]; ok {
		return *l
	}
	if l, ok := listCache[n]; ok {
		return l
	}
	seed, size := int64(0), 2048
	fmt.Sscanf(n, "r%d:%d", &seed, &size)
	rnd := mrand.New(mrand.NewSource(seed))
	seen := map[string]bool{}
	var l []string
	alpha := []string{"a", "b", "Z", "9", "'", "/", "é", "e\u0301", "漢", "\u200b", "\x00", "-", "\ufffd", "ß"}
	for len(l) < size {
		w := ""
		for k := 1 + rnd.Intn(8); k > 0; k-- {
			w += alpha[rnd.Intn(len(alpha))]
		}
		if !seen[w] {
			seen[w] = true
			l = append(l, w)
		}
	}
	if len(listCache) > 50 {
		listCache = map[string][]string{}
	}
	listCache[n] = l
	return l
}

func indexOf(l []string) map[string]int {
	m := make(map[string]int, len(l))
	for i, w := range l {
		m[w] = i
	}
	return m
}

var english map[string]int
var indexCache = map[string]map[string]int{}

// with runs f while a list is active
func with(name string, f func(list []string, index map[string]int)) {
	l := listOf(name)
	if name == "" {
		if english == nil {
			english = indexOf(l)
		}
		f(l, english)
		return
	}
	x := indexCache[name]
	if x == nil {
		if len(indexCache) > 30 {
			indexCache = map[string]map[string]int{}
		}
		x = indexOf(l)
		indexCache[name] = x
	}
	bip39.SetWordList(l)
	defer bip39.SetWordList(listOf(""))
	f(l, x)
}

func mnemonicGen(g *G) In {
	n := int(g.pick(16, 20, 24, 28, 32))
	ent := g.bytes(n)
	in := In{"mode": "enc", "entropy": hx(ent), "mnemonic": "", "list": g.listName()}
	if g.p(0.35) {
		if g.p(0.15) {
			in["entropy"] = hx(g.bytes(int(g.pick(0, 1, 4, 8, 12, 15, 17, 18, 31, 33, 36, 40, 64, uint64(g.Intn(100))))))
		}
		s, _ := mnEncode(ent, listOf(in["list"]))
		in["mnemonic"] = hx([]byte(s))
		return in
	}
	in["mode"] = "dec"
	list := listOf(in["list"])
	s, _ := mnEncode(ent, list)
	w := strings.Split(s, " ")
	switch g.Intn(12) {
	case 0: // any last word
		w[len(w)-1] = list[g.Intn(2048)]
	case 1: // any word
		w[g.Intn(len(w))] = list[g.Intn(2048)]
	case 2:
		i, j := g.Intn(len(w)), g.Intn(len(w))
		w[i], w[j] = w[j], w[i]
	case 3: // another number of words
		k := int(g.pick(0, 1, 3, 6, 9, 11, 13, 14, 16, 23, 25, 27, 30, 33, 48, 268, 280))
		for len(w) < k {
			w = append(w, w...)
		}
		w = w[:k]
	case 4:
		i := g.Intn(len(w))
		w[i] = strings.ToUpper(w[i])
	case 5:
		i := g.Intn(len(w))
		if r := []rune(w[i]); len(r) > 1 {
			w[i] = string(r[:len(r)-1])
		}
	case 6:
		i := g.Intn(len(w))
		w[i] += string(g.token())
	case 7:
		for i := range w {
			w[i] = list[g.Intn(2048)]
		}
	}
	var sb strings.Builder
	odd := g.p(0.25)
	if odd && g.p(0.4) {
		sb.WriteString(spaces[g.Intn(len(spaces))])
	}
	for i, x := range w {
		if i > 0 {
			if odd && g.p(0.4) {
				sb.WriteString(spaces[g.Intn(len(spaces))])
			} else {
				sb.WriteString(" ")
			}
		}
		sb.WriteString(x)
	}
	if odd && g.p(0.4) {
		sb.WriteString(spaces[g.Intn(len(spaces))])
	}
	in["mnemonic"] = hx([]byte(sb.String()))
	if g.p(0.03) {
		in["mnemonic"] = hx(g.text(30))
	}
	return in
}

func mnemonic(in In, r *Rep) {
	with(in["list"], func(list []string, index map[string]int) {
		if in["mode"] == "enc" {
			ent := in.b("entropy")
			a, s := arg(ent)
			m, err := bip39.NewMnemonic(s)
			a.same(r, "NewMnemonic")
			r.out("%q %v", m, errs(err))
			want, ok := mnEncode(ent, list)
			if !ok {
				r.must(err == bip39.ErrEntropyLengthInvalid && m == "", "B02", "NewMnemonic of %d bytes gives %q, %s", len(ent), m, errs(err))
				return
			}
			if !r.must(err == nil, "B01 B02", "NewMnemonic(%x) fails: %v", ent, err) {
				return
			}
			r.must(m == want, "B02", "mnemonic of %x is %q, BIP-39 says %q", ent, m, want)
			d, err := bip39.EntropyFromMnemonic(m)
			keep(r, "EntropyFromMnemonic", d, 0x5a)
			r.must(err == nil && bytes.Equal(d, ent), "B01", "entropy %x becomes %q becomes %x (%s)", ent, m, d, errs(err))
			return
		}
		m := in.s("mnemonic")
		d, err := bip39.EntropyFromMnemonic(m)
		keep(r, "EntropyFromMnemonic", d, 0x5a)
		v := bip39.IsMnemonicValid(m)
		r.out("%x %v", d, errs(err))
		want, ok := mnDecode(m, index)
		r.must(v == ok, "B03", "IsMnemonicValid(%q) is %v, want %v", m, v, ok)
		if r.must((err == nil) == ok, "B03", "EntropyFromMnemonic(%q): %s, due: %v", m, errs(err), ok) && ok {
			r.must(bytes.Equal(d, want), "B03 B01", "entropy of %q is %x, want %x", m, d, want)
		}
	})
}

func toBytes(in In, r *Rep) {
	with(in["list"], func(list []string, index map[string]int) {
		m := in.s("mnemonic")
		var raw []bool
		for _, c := range in["raw"] {
			raw = append(raw, c == '1')
		}
		orig := fmt.Sprint(raw)
		b, err := bip39.MnemonicToByteArray(m, raw...)
		keep(r, "MnemonicToByteArray", b, 0x5a)
		r.out("%x %v", b, errs(err))
		r.must(fmt.Sprint(raw) == orig, "X01", "MnemonicToByteArray changed its arguments")
		ent, ok := mnDecode(m, index)
		if !r.must((err == nil) == ok, "B04", "MnemonicToByteArray(%q): %s, due: %v", m, errs(err), ok) {
			return
		}
		if !ok {
			r.must(len(b) == 0, "B04", "MnemonicToByteArray(%q) gives bytes %x beside an error", m, b)
			return
		}
		want := ent
		if !(len(raw) > 0 && raw[0]) {
			want = mnBytes(ent)
		}
		r.must(bytes.Equal(b, want), "B04", "MnemonicToByteArray(%q, %v) gives %x, want %x", m, raw, b, want)
	})
}

func seed(in In, r *Rep) {
	with(in["list"], func(list []string, index map[string]int) {
		m, p := in.s("mnemonic"), in.s("passphrase")
		want := pbkdf([]byte(m), []byte("mnemonic"+p), 2048)
		s := bip39.NewSeed(m, p)
		keep(r, "NewSeed", s, 0x5a)
		r.must(bytes.Equal(s, want), "B05", "NewSeed(%q, %q) is %x, want %x", m, p, s, want)
		t, err := bip39.NewSeedWithErrorChecking(m, p)
		h, err2 := util.DeriveSeedFromMnemonic(m, p)
		r.out("%x %x %v %s %v", s, t, errs(err), h, errs(err2))
		_, ok := mnDecode(m, index)
		r.must((err == nil) == ok && (err2 == nil) == ok, "B05", "checked seeds of %q: %s, %s, due: %v", m, errs(err), errs(err2), ok)
		if ok {
			r.must(err != nil || bytes.Equal(t, want), "B05", "NewSeedWithErrorChecking(%q, %q) is %x, want %x", m, p, t, want)
			r.must(err2 != nil || h == hx(want), "B05", "DeriveSeedFromMnemonic(%q, %q) is %s, want %x", m, p, h, want)
		} else {
			r.must(len(t) == 0 || err == nil, "B05", "a seed %x beside an error", t)
			r.must(h == "" || err2 == nil, "B05", "a seed %s beside an error", h)
		}
	})
}

func setList(in In, r *Rep) {
	old, l := listOf(in["before"]), listOf(in["list"])
	defer bip39.SetWordList(listOf(""))
	bip39.SetWordList(old)
	kept := append([]string(nil), l...)
	bip39.SetWordList(l)
	g := bip39.GetWordList()
	for i := range kept {
		if l[i] != kept[i] {
			r.fail("X01 B07", "SetWordList changed its argument")
			return
		}
	}
	if !r.must(len(g) == len(l), "B07", "the active list has %d words, want %d", len(g), len(l)) {
		return
	}
	idx := indexOf(l)
	for i, w := range l {
		j, ok := bip39.GetWordIndex(w)
		if g[i] != w || !ok || j != i {
			r.fail("B07", "word %d of the new list is %q: active %q, index %d %v", i, w, g[i], j, ok)
			return
		}
	}
	probe := append([]string{in.s("text"), ""}, old...)
	for i := 0; i < len(l); i += 1 + len(l)/40 {
		probe = append(probe, l[i]+" ", strings.ToUpper(l[i]), l[i][:len(l[i])-1], " "+l[i])
	}
	for _, w := range probe {
		i, ok := idx[w]
		j, have := bip39.GetWordIndex(w)
		if ok != have || ok && i != j {
			r.fail("B07", "GetWordIndex(%q) is %d %v, want %d %v", w, j, have, i, ok)
			return
		}
	}
}

func sourceOf(in In) *source {
	return &source{rnd: mrand.New(mrand.NewSource(in.i("source"))), failAt: int(in.i("fail")), chunk: int(in.u("chunk"))}
}

// drawn: every byte is another byte the source gave
func drawn(b, given []byte) bool {
	var n [256]int
	for _, x := range given {
		n[x]++
	}
	for _, x := range b {
		n[x]--
		if n[x] < 0 {
			return false
		}
	}
	return true
}

func fresh(in In, r *Rep) {
	bits := in.i("bits")
	s := sourceOf(in)
	var b []byte
	var err error
	withSource(s, func() { b, err = bip39.NewEntropy(int(bits)) })
	keep(r, "NewEntropy", b, 0x5a)
	good := bits == 128 || bits == 160 || bits == 192 || bits == 224 || bits == 256
	if !good {
		r.must(err != nil, "B08", "NewEntropy(%d) gives %x", bits, b)
	} else if s.failed {
		r.must(err != nil, "B08", "NewEntropy(%d) gives %x and no error though the random source failed", bits, b)
	} else {
		r.must(err == nil && int64(len(b)) == bits/8, "B08", "NewEntropy(%d) gives %x (%s)", bits, b, errs(err))
		r.must(err != nil || drawn(b, s.given), "B08", "NewEntropy(%d) gives %x, but the random source gave %x", bits, b, s.given)
	}
	w := byte(in.u("words"))
	s = sourceOf(in)
	var m string
	withSource(s, func() { m, err = util.GenerateMnemonic(w) })
	good = w == 12 || w == 15 || w == 18 || w == 21 || w == 24
	if !good {
		r.must(err != nil && m == "", "B08", "GenerateMnemonic(%d) gives %q (%s)", w, m, errs(err))
	} else if s.failed {
		r.must(err != nil, "B08", "GenerateMnemonic(%d) gives %q and no error though the random source failed", w, m)
	} else if r.must(err == nil, "B08", "GenerateMnemonic(%d) fails: %v", w, err) {
		if english == nil {
			english = indexOf(listOf(""))
		}
		e, ok := mnDecode(m, english)
		r.must(ok && len(fields(m)) == int(w) && drawn(e, s.given), "B08", "GenerateMnemonic(%d) gives %q of entropy %x (valid: %v), but the random source gave %x", w, m, e, ok, s.given)
	}
}

func newSeed(in In, r *Rep) {
	s := sourceOf(in)
	var b []byte
	var err error
	withSource(s, func() { b, err = bip32.NewSeed() })
	keep(r, "NewSeed", b, 0x5a)
	if s.failed {
		r.must(err != nil, "B08", "NewSeed gives no error though the random source failed")
		return
	}
	r.must(err == nil && len(b) == 256 && drawn(b, s.given), "B08", "NewSeed gives %x (%s), but the random source gave %x", b, errs(err), s.given)
}

// ---------------------------------------------------------------- derivation

func label(vals []uint32) string {
	s := "m"
	for _, v := range vals {
		if v >= 1<<31 {
			s += fmt.Sprintf("/%d'", v-1<<31)
		} else {
			s += fmt.Sprintf("/%d", v)
		}
	}
	return s
}

// otherKey is a valid private root key that depends on kb, or kb if it is
// a public one.
func otherKey(kb []byte) []byte {
	o := append([]byte(nil), kb...)
	if kb[45] == 0 {
		o[77] ^= 1
		o[50] ^= 1
	}
	return o
}

func derive(in In, r *Rep) {
	kb, p := in.b("key"), in.s("path")
	g := &util.Generator{}
	// the generator has been used with another root, along the same path
	g.SetRootKey(toKey(otherKey(kb)))
	before, _ := g.DeriveBIP32Result(bip32.Path(p))
	mark := fmt.Sprint(before)
	defer func() {
		r.must(fmt.Sprint(before) == mark, "X01 U01", "the result of an earlier derivation has changed")
	}()
	g.SetRootKey(toKey(kb))
	ks, err := g.DeriveBIP32Result(bip32.Path(p))
	keep(r, "DeriveBIP32Result", ks, util.KeyPath{})
	r.must(*g.RootKey() == toKey(kb), "X01 U01", "deriving changed the root key")
	r.out("%v %v", ks, errs(err))
	vals, ok := parsePath(p)
	ok = ok && validKey(kb) && kb[45] == 0 && kb[4] == 0
	cur := kb
	var want [][]byte
	if ok {
		want = append(want, kb)
		for _, v := range vals[1:] {
			c, _ := child(cur, v)
			if c == nil {
				ok = false
				break
			}
			want = append(want, c)
			cur = c
		}
	}
	if !r.must((err == nil) == ok, "U01", "deriving %q from %x: %s, due: %v", p, kb, errs(err), ok) || !ok {
		return
	}
	if !r.must(len(ks) == len(want), "U01", "deriving %q gives %d entries, want %d", p, len(ks), len(want)) {
		return
	}
	for i, e := range ks {
		if !r.must(bytes.Equal(e.Key[:], want[i]), "U01", "entry %d of %q, labelled %q, holds %x, want %x", i, p, string(e.Path), e.Key, want[i]) ||
			!r.must(string(e.Path) == label(vals[1:i+1]), "U01", "entry %d of %q is labelled %q, want %q", i, p, string(e.Path), label(vals[1:i+1])) {
			return
		}
	}
}

func ranges(in In, r *Rep) {
	kb, p := in.b("key"), in.s("path")
	a, b := uint32(in.u("start")), uint32(in.u("end"))
	if b > a && b-a > 400 {
		return
	}
	// the value has been used for another key and another range
	k := &util.KeyPathRange{StartIndex: 3, EndIndex: 3 + uint32(len(p))%7, KeyPath: util.KeyPath{Path: "m/1'", Key: toKey(otherKey(kb))}}
	k.GenerateRange()
	before := k.KeyPaths
	mark := fmt.Sprint(before)
	defer func() {
		r.must(fmt.Sprint(before) == mark, "X01 U02", "the result of an earlier range generation has changed")
	}()
	k.StartIndex, k.EndIndex, k.Path, k.Key = a, b, bip32.Path(p), toKey(kb)
	err := k.GenerateRange()
	keep(r, "GenerateRange", k.KeyPaths, util.KeyPath{})
	r.must(k.StartIndex == a && k.EndIndex == b && string(k.Path) == p && k.Key == toKey(kb), "X01 U02", "generating a range changed its parameters")
	r.out("%v %v", k.KeyPaths, errs(err))
	_, ok := parsePath(p)
	ok = ok && validKey(kb) && a < b
	if !ok {
		r.must(err != nil, "U02", "range %d..%d of key %x, path %q gives no error", a, b, kb, p)
		return
	}
	if err != nil {
		// a derivation step has to have failed: along the chain of labels
		cur := kb
		for i := a; i < b; i++ {
			c, _ := child(cur, i)
			if c == nil {
				return
			}
			cur = c
		}
		r.fail("U02", "range %d..%d of key %x, path %q fails: %v", a, b, kb, p, err)
		return
	}
	if !r.must(len(k.KeyPaths) == int(b-a), "U02", "range %d..%d has %d entries", a, b, len(k.KeyPaths)) {
		return
	}
	base := strip(p)
	known := map[string][]byte{base: kb}
	for i, e := range k.KeyPaths {
		l := string(e.Path)
		idx := a + uint32(i)
		comp := label([]uint32{idx})[1:]
		if !r.must(strings.HasPrefix(l, base) && strings.HasSuffix(l, comp), "U02", "entry %d of range %d..%d under %q is labelled %q", i, a, b, base, l) {
			return
		}
		parent := known[strings.TrimSuffix(l, comp)]
		if parent == nil {
			cur := kb
			for _, t := range strings.Split(strings.TrimSuffix(l, comp)[len(base):], "/")[1:] {
				vs, ok := parsePath("m/" + t)
				if !ok || cur == nil {
					cur = nil
					break
				}
				cur, _ = child(cur, vs[1])
			}
			if !r.must(cur != nil, "U02", "entry %d is labelled %q, which names no key", i, l) {
				return
			}
			parent = cur
		}
		want, _ := child(parent, idx)
		if !r.must(want != nil && bytes.Equal(e.Key[:], want), "U02", "entry %d, labelled %q, holds %x, want %x", i, l, e.Key, want) {
			return
		}
		known[l] = want
	}
}

var _ = errors.New
