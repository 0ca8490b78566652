// Runs every function of the package selftest on generated arguments and prints
// arguments and results as JSON lines.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
)

var texts = []string{"", "m", "M", "/", "m/", "m/0", "m/0'", "m/44'/0'/0'/0/5", "M/1/2/3", "//", "m//1", "1'", "'", "m/4294967295", "m/4294967296", "m/2147483648'",
	" m/0 ", "m /1\t", "\n", "\r\n", "\x00", "m\x00", "\u00a0x\u00a0", "ß", "ſ", "é/é", "\xff", "a\xffb", "\u2028a", "\u3000", "\u0085m", "\xc2\x85", "0", "00", "+5", "-5", "-0", "+", "-", "0x1f", "1_0", "18446744073709551615",
	"18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "007", "0b1", "0o7", "abc", "abcabcm/", "deadBEEF", "deadbee", "0g",
	"1111", "111z", "z", "0OIl", "16UwLL9Risc3QfPqBUvKofHmBQ7wMtjvM", "a b  c", " a\tb ", "mm//''", "m/1'/2'x", "m/12345678'/1'", "m/123456789'/1'", "m/1'/2'", "m/1'/2'\n", "x'y'z'", "//////", "h'h", "m/0'/1", "m/0/1'", "İ", "K", "\u212a", "m\u00df'", "٣", "1٣"}

func text(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return texts[r.Intn(len(texts))]
	}
	n := r.Intn(9)
	abc := "mM/'01 9\ta\n/m''/"
	b := make([]byte, n)
	for i := range b {
		b[i] = abc[r.Intn(len(abc))]
		if r.Intn(40) == 0 {
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}

func bytes(r *rand.Rand) []byte {
	n := r.Intn(9)
	if r.Intn(5) == 0 {
		n = r.Intn(14)
	}
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

func num(r *rand.Rand, bits int) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(8))
	case 1:
		return ^uint64(r.Intn(8))
	case 2:
		return (uint64(1)<<(bits-1) + uint64(r.Intn(3)) - 1)
	}
	return r.Uint64()
}

func enc(v reflect.Value) any {
	switch v.Kind() {
	case reflect.String:
		return "s" + hex.EncodeToString([]byte(v.String()))
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "i" + strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "i" + strconv.FormatUint(v.Uint(), 10)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return "b" + hex.EncodeToString(v.Bytes())
		}
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, enc(v.Index(i)))
		}
		return out
	}
	panic(v.Kind())
}

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	names := []string{}
	for k := range funcs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, name := range names {
		f := reflect.ValueOf(funcs[name])
		r := rand.New(rand.NewSource(seed))
		for k := 0; k < n; k++ {
			in := []reflect.Value{}
			for i := 0; i < f.Type().NumIn(); i++ {
				t := f.Type().In(i)
				v := reflect.New(t).Elem()
				switch t.Kind() {
				case reflect.String:
					v.SetString(text(r))
				case reflect.Slice:
					if t.Elem().Kind() == reflect.Uint8 {
						v.SetBytes(bytes(r))
					} else {
						xs := []string{}
						for j := r.Intn(4); j > 0; j-- {
							xs = append(xs, text(r))
						}
						v.Set(reflect.ValueOf(xs))
					}
				case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
					x := num(r, t.Bits())
					v.SetInt(int64(x<<(64-t.Bits())) >> (64 - t.Bits()))
				default:
					x := num(r, t.Bits())
					v.SetUint(x << (64 - t.Bits()) >> (64 - t.Bits()))
				}
				in = append(in, v)
			}
			args := []any{}
			for _, a := range in {
				args = append(args, enc(a))
			}
			res := []any{}
			func() {
				defer func() {
					if p := recover(); p != nil {
						res = []any{"panic"}
					}
				}()
				for _, o := range f.Call(in) {
					res = append(res, enc(o))
				}
			}()
			b, _ := json.Marshal(map[string]any{"f": name, "args": args, "res": res})
			fmt.Println(string(b))
		}
	}
}
