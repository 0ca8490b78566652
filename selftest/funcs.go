// Package selftest holds small functions on which the verifier and the Go
// compiler have to agree: wrappers of every library function the verifier has a
// trusted contract for, and functions exercising the language itself.
package selftest

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/btcsuite/btcutil/base58"
)

// ---- strings
func Compare(a, b string) int             { return strings.Compare(a, b) }
func Contains(a, b string) bool           { return strings.Contains(a, b) }
func ContainsSlash(a string) bool         { return strings.Contains(a, "/") }
func ContainsAny(a string) bool           { return strings.ContainsAny(a, "/' ") }
func ContainsRune(a string) bool          { return strings.ContainsRune(a, '\'') }
func Count(a string) int                  { return strings.Count(a, "/") }
func Cut(a string) (string, string, bool) { return strings.Cut(a, "/") }
func CutSuffix(a string) (string, bool)   { return strings.CutSuffix(a, "'") }
func EqualFold(a string) bool             { return strings.EqualFold(a, "m") }
func Fields(a string) []string            { return strings.Fields(a) }
func FieldsLen(a string) int              { return len(strings.Fields(a)) }
func FieldsJoin(a string) string          { return strings.Join(strings.Fields(a), " ") }
func HasPrefix(a string) bool             { return strings.HasPrefix(a, "m/") }
func HasPrefix2(a, b string) bool         { return strings.HasPrefix(a, b) }
func HasSuffix(a string) bool             { return strings.HasSuffix(a, "'") }
func HasSuffix2(a, b string) bool         { return strings.HasSuffix(a, b) }
func Index(a string) int                  { return strings.Index(a, "/") }
func IndexAny(a string) int               { return strings.IndexAny(a, "'/") }
func IndexByte(a string) int              { return strings.IndexByte(a, '/') }
func IndexRune(a string) int              { return strings.IndexRune(a, '/') }
func LastIndex(a string) int              { return strings.LastIndex(a, "/") }
func LastIndexByte(a string) int          { return strings.LastIndexByte(a, '/') }
func Repeat(a string, n uint8) string     { return strings.Repeat(a, int(n%7)) }
func Replace(a string) string             { return strings.Replace(a, "'", "", 1) }
func ReplaceN(a string) string            { return strings.Replace(a, "'", "h", -1) }
func ReplaceAll(a string) string          { return strings.ReplaceAll(a, "'", "") }
func ReplaceAll2(a string) string         { return strings.ReplaceAll(a, "//", "/") }
func Split(a string) []string             { return strings.Split(a, "/") }
func SplitLen(a string) int               { return len(strings.Split(a, "/")) }
func SplitSpace(a string) []string        { return strings.Split(a, " ") }
func SplitN(a string) []string            { return strings.SplitN(a, "/", 2) }
func SplitJoin(a string) string           { return strings.Join(strings.Split(a, "/"), ",") }
func ToLower(a string) string             { return strings.ToLower(a) }
func ToUpper(a string) string             { return strings.ToUpper(a) }
func Trim(a string) string                { return strings.Trim(a, "/'") }
func TrimLeft(a string) string            { return strings.TrimLeft(a, "m/") }
func TrimPrefix(a string) string          { return strings.TrimPrefix(a, "m/") }
func TrimRight(a string) string           { return strings.TrimRight(a, "'") }
func TrimSpace(a string) string           { return strings.TrimSpace(a) }
func TrimSuffix(a string) string          { return strings.TrimSuffix(a, "'") }
func IsBlank(a string) bool               { return strings.TrimSpace(a) == "" }
func LastOfSplit(a string) string         { s := strings.Split(a, "/"); return s[len(s)-1] }
func Concat(a, b string) string           { return a + "/" + b }
func EqStr(a, b string) bool              { return a == b }
func LessStr(a, b string) bool            { return a < b }
func Sub(a string) string {
	if len(a) > 3 {
		return a[1 : len(a)-1]
	}
	return ""
}
func RangeStr(a string) int {
	n := 0
	for i, r := range a {
		n = n*31 + i + int(r)
	}
	return n
}
func Bytes(a string) []byte  { return []byte(a) }
func Str(a []byte) string    { return string(a) }
func RuneCount(a string) int { return len([]rune(a)) }
func FirstByte(a string) byte {
	if a == "" {
		return 0
	}
	return a[0]
}

// ---- strconv, hex, base58, fmt
func Atoi(a string) (int, bool)           { v, e := strconv.Atoi(a); return v, e == nil }
func ParseUint32(a string) (uint64, bool) { v, e := strconv.ParseUint(a, 10, 32); return v, e == nil }
func ParseUint64(a string) (uint64, bool) { v, e := strconv.ParseUint(a, 10, 64); return v, e == nil }
func ParseUint31(a string) (uint64, bool) { v, e := strconv.ParseUint(a, 10, 31); return v, e == nil }
func ParseUint0(a string) (uint64, bool)  { v, e := strconv.ParseUint(a, 0, 32); return v, e == nil }
func ParseInt64(a string) (int64, bool)   { v, e := strconv.ParseInt(a, 10, 64); return v, e == nil }
func ParseInt32(a string) (int64, bool)   { v, e := strconv.ParseInt(a, 10, 32); return v, e == nil }
func Itoa(a int32) string                 { return strconv.Itoa(int(a)) }
func FormatUint(a uint32) string          { return strconv.FormatUint(uint64(a), 10) }
func FormatHex(a uint32) string           { return strconv.FormatUint(uint64(a), 16) }
func Round(a uint32) bool                 { v, e := strconv.Atoi(strconv.Itoa(int(a))); return e == nil && v == int(a) }
func HexEnc(a []byte) string              { return hex.EncodeToString(a) }
func HexDec(a string) ([]byte, bool)      { v, e := hex.DecodeString(a); return v, e == nil }
func HexDecOk(a string) bool              { _, e := hex.DecodeString(a); return e == nil }
func HexRound(a []byte) bool {
	v, e := hex.DecodeString(hex.EncodeToString(a))
	return e == nil && bytes.Equal(a, v)
}
func HexLen(a string) int {
	v, e := hex.DecodeString(a)
	if e != nil {
		return -1
	}
	return len(v)
}
func B58Enc(a []byte) string             { return base58.Encode(a) }
func B58Dec(a string) []byte             { return base58.Decode(a) }
func B58Round(a []byte) bool             { return bytes.Equal(base58.Decode(base58.Encode(a)), a) }
func Sprintf1(a uint32) string           { return fmt.Sprintf("/%d'", a) }
func Sprintf2(a string, b uint32) string { return fmt.Sprintf("%s/%d", a, b) }
func Sprintf3(a []byte) string           { return fmt.Sprintf("%x", a) }
func Sprintf4(a uint8) string            { return fmt.Sprintf("%02x", a) }
func Sprintf5(a uint32) string           { return fmt.Sprintf("%08x", a) }
func Sprintf6(a string) string           { return fmt.Sprintf("%v|%s", a, a) }
func Sprintf7(a int32) string            { return fmt.Sprintf("%d%%", a) }
func Sprintf8(a uint32) string           { return fmt.Sprintf("%5d", a) }
func Sprintf9(a uint16) string           { return fmt.Sprintf("%011b", a) }
func Sprint1(a string) string            { return fmt.Sprint(a) }
func IsDigit(a string) bool {
	for _, r := range a {
		if !unicode.IsDigit(r) {
			return false
		}
	}
	return true
}
func IsSpaceByte(a uint8) bool { return unicode.IsSpace(rune(a)) }
func IsDigitByte(a uint8) bool { return unicode.IsDigit(rune(a)) }

// ---- regexp
var (
	rePath = regexp.MustCompile(`^[mM](/\d+')*(/\d+)*$`)
	reSp   = regexp.MustCompile(`\s`)
	reTwo  = regexp.MustCompile(`^m/\d{1,8}'/\d{1,8}'$`)
	reHex  = regexp.MustCompile("^[0-9a-fA-F]+$")
	reAlt  = regexp.MustCompile(`^(abc|m|/)+[^0-9]?$`)
	reUn   = regexp.MustCompile(`\d+'`)
	reWord = regexp.MustCompile(`^\w+(\s+\w+)*$`)
	reDot  = regexp.MustCompile(`^.$`)
	reM    = regexp.MustCompile(`(?i)^m.*'$`)
)

func RePath(a string) bool     { return rePath.MatchString(a) }
func ReSp(a string) bool       { return reSp.MatchString(a) }
func ReTwo(a string) bool      { return reTwo.MatchString(a) }
func ReHex(a string) bool      { return reHex.MatchString(a) }
func ReAlt(a string) bool      { return reAlt.MatchString(a) }
func ReUn(a string) bool       { return reUn.MatchString(a) }
func ReWord(a string) bool     { return reWord.MatchString(a) }
func ReDot(a string) bool      { return reDot.MatchString(a) }
func ReM(a string) bool        { return reM.MatchString(a) }
func ReStrip(a string) string  { return reSp.ReplaceAllString(a, "") }
func ReStrip2(a string) string { return regexp.MustCompile(`[\s']`).ReplaceAllString(a, "") }

// ---- bytes
func BEqual(a, b []byte) bool    { return bytes.Equal(a, b) }
func BCompare(a, b []byte) int   { return bytes.Compare(a, b) }
func BRepeat(a []byte) []byte    { return bytes.Repeat(a, 3) }
func BJoin(a, b []byte) []byte   { return bytes.Join([][]byte{a, b}, []byte{0, 1}) }
func BConcat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }
func BBuf(a []byte, b uint8) []byte {
	var x bytes.Buffer
	x.WriteByte(b)
	x.Write(a)
	x.WriteString("end")
	return x.Bytes()
}
func SBuild(a string, b uint8) string {
	var x strings.Builder
	x.WriteString(a)
	x.WriteByte(b)
	x.WriteRune('ß')
	return x.String()
}
func Sum(a []byte) int {
	n := 0
	for i, b := range a {
		n += int(b) * (i + 1)
	}
	return n
}
func Rev(a []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[len(a)-1-i] = a[i]
	}
	return r
}
func TrimZeros(a []byte) []byte {
	i := 0
	for i < len(a) && a[i] == 0 {
		i++
	}
	return a[i:]
}
func CopyOver(a []byte) []byte {
	r := append([]byte(nil), a...)
	if len(r) > 2 {
		copy(r[1:], r)
	}
	return r
}
func AliasAppend(a []byte) []byte {
	x := make([]byte, 2, 8)
	y := append(x, a...)
	z := append(x, 9, 9)
	return append(append([]byte{}, y...), z...)
}
func SliceWrite(a []byte) []byte {
	r := append([]byte(nil), a...)
	if len(r) < 4 {
		return r
	}
	s := r[1:3]
	s[0] = 7
	s = append(s, 8)
	return r
}
func CapWrite(a []byte) []byte {
	r := append([]byte(nil), a...)
	if len(r) < 4 {
		return r
	}
	s := r[1:3:3]
	s = append(s, 8)
	s[0] = 5
	return r
}

// ---- encoding/binary and machine integers
func BE32(a uint32) []byte { b := make([]byte, 6); binary.BigEndian.PutUint32(b[1:], a); return b }
func LE32(a uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, a); return b }
func RBE32(a []byte) uint32 {
	if len(a) < 4 {
		return 1
	}
	return binary.BigEndian.Uint32(a)
}
func RBE16(a []byte) uint16 {
	if len(a) < 2 {
		return 1
	}
	return binary.BigEndian.Uint16(a[len(a)-2:])
}
func Arith(a, b uint32) uint32 { return a*3 + b - 7*a ^ b<<3 | a>>5&^b }
func ArithS(a, b int32) int32  { return a*3 + b - (a>>3)*b ^ -b }
func DivS(a, b int32) int32 {
	if b == 0 {
		return 0
	}
	return a/b*1000 + a%b
}
func DivU(a, b uint32) uint32 {
	if b == 0 {
		return 0
	}
	return a/b ^ a%b<<4
}
func ShiftBig(a uint32, n uint8) uint32 { return a<<n ^ a>>(n/2) }
func ShiftS(a int32, n uint8) int32     { return a>>n ^ a<<(n%40) }
func Conv(a int32) uint64               { return uint64(uint8(a)) + uint64(int64(int8(a))) + uint64(uint16(a)) }
func Conv2(a uint32) int64              { return int64(int32(a)) + int64(int16(a)) }
func CmpMix(a int32, b uint32) bool     { return uint32(a) < b != (a < int32(b)) }
func MinMax(a, b int32) int32           { return min(a, b, 100)*2 + max(a, b) }
func Bits(a uint8) int {
	n := 0
	for ; a != 0; a &= a - 1 {
		n++
	}
	return n
}

// ---- math/big
func BigAdd(a, b []byte) []byte {
	return new(big.Int).Add(new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)).Bytes()
}
func BigSub(a, b []byte) (int, []byte) {
	x := new(big.Int).Sub(new(big.Int).SetBytes(a), new(big.Int).SetBytes(b))
	return x.Sign(), x.Bytes()
}
func BigMul(a []byte, b uint32) []byte {
	return new(big.Int).Mul(new(big.Int).SetBytes(a), big.NewInt(int64(b))).Bytes()
}
func BigDivC(a []byte) []byte {
	return new(big.Int).Div(new(big.Int).SetBytes(a), big.NewInt(2048)).Bytes()
}
func BigModC(a []byte) []byte {
	return new(big.Int).Mod(new(big.Int).SetBytes(a), big.NewInt(58)).Bytes()
}
func BigShift(a []byte, n uint8) []byte {
	x := new(big.Int).Lsh(new(big.Int).SetBytes(a), uint(n%20))
	return x.Rsh(x, uint(n%7)).Bytes()
}
func BigBits(a, b []byte) []byte {
	x, y := new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)
	o := new(big.Int).Or(x, y)
	n := new(big.Int).And(x, y)
	z := new(big.Int).Xor(o, n)
	return z.AndNot(z, big.NewInt(5)).Bytes()
}
func BigCmp(a, b []byte) int { return new(big.Int).SetBytes(a).Cmp(new(big.Int).SetBytes(b)) }
func BigBitLen(a []byte) int { return new(big.Int).SetBytes(a).BitLen() }
func BigBit(a []byte) uint {
	x := new(big.Int).SetBytes(a)
	return x.Bit(0)*4 + x.Bit(9)*2 + x.Bit(1000)
}
func BigUint64(a []byte) uint64 { return new(big.Int).SetBytes(a).Uint64() }
func BigFill(a []byte) []byte {
	x := new(big.Int).SetBytes(a)
	if x.BitLen() > 64 {
		return nil
	}
	return x.FillBytes(make([]byte, 8))
}
func BigSetBit(a []byte, n uint8) []byte {
	x := new(big.Int).SetBytes(a)
	return x.SetBit(x, int(n%70), 1).Bytes()
}
func BigNeg(a []byte) int64 {
	if len(a) > 3 {
		return 0
	}
	x := new(big.Int).Neg(new(big.Int).SetBytes(a))
	x.Sub(x, big.NewInt(3))
	q := new(big.Int).Div(x, big.NewInt(7))
	m := new(big.Int).Mod(x, big.NewInt(7))
	u := new(big.Int).Quo(x, big.NewInt(7))
	r := new(big.Int).Rem(x, big.NewInt(7))
	return q.Int64()*1000 + m.Int64()*100 + u.Int64()*10 + r.Int64()
}
func BigStr(a string) (bool, []byte) {
	x, ok := new(big.Int).SetString(a, 16)
	if !ok {
		return false, nil
	}
	return true, x.Bytes()
}
func BigIsU64(a []byte) bool { return new(big.Int).SetBytes(a).IsUint64() }
func BigAlias(a []byte) []byte {
	x := new(big.Int).SetBytes(a)
	y := x
	y.Add(y, x)
	z := new(big.Int).Set(x)
	z.Add(z, big.NewInt(1))
	return append(x.Bytes(), z.Bytes()...)
}

// ---- language
type pair struct {
	a int
	b [3]byte
}

func Structs(a int32, b uint8) int {
	p := pair{a: int(a)}
	q := p
	q.b[1] = b
	p.a++
	r := &q
	r.a += int(b)
	arr := [2]pair{p, *r}
	cp := arr
	cp[0].a = 5
	return arr[0].a*1000 + arr[1].a*10 + int(cp[1].b[1]) + cp[0].a + int(p.b[1])
}
func ArrayVal(a []byte) []byte {
	var x [4]byte
	copy(x[:], a)
	y := x
	y[0] ^= 0xff
	f := func(z [4]byte) [4]byte { z[1] = 1; return z }
	w := f(y)
	return append(append(x[:], y[:]...), w[:]...)
}
func ArrConv(a []byte) []byte {
	if len(a) < 4 {
		return nil
	}
	x := [4]byte(a)
	x[0]++
	return x[:]
}
func Closures(a int32) int {
	s := int(a)
	add := func(n int) { s += n }
	for i := 0; i < 3; i++ {
		add(i)
	}
	fs := []func() int{}
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { return i * s })
	}
	t := 0
	for _, f := range fs {
		t += f()
	}
	return t
}
func Defers(a int32) (r int) {
	defer func() { r *= 2 }()
	defer func(x int) { r += x }(int(a))
	if a > 5 {
		return 10
	}
	r = 3
	return r + 1
}
func Switch(a string) int {
	switch {
	case a == "":
		return 0
	case a == "m", a == "M":
		return 1
	case len(a) > 4:
		if a[0] == 'm' {
			break
		}
		fallthrough
	case a[0] == '/':
		return 3
	default:
		return 4
	}
	return 5
}
func Maps(a, b string) int {
	m := map[string]int{"m": 1, "/": 2}
	m[a] = 7
	m[b]++
	_, ok := m["zz"]
	n := m["m"]*100 + m["/"]*10 + m[a] + len(m)
	if ok {
		n++
	}
	delete(m, a)
	return n*10 + len(m)
}
func Goto(a uint8) int {
	n := 0
outer:
	for i := 0; i < 10; i++ {
		for j := 0; j < 10; j++ {
			if j == int(a%5) {
				continue outer
			}
			if i*j > int(a) {
				break outer
			}
			n += i + j
		}
	}
	return n
}

type shape interface{ area() int }
type sq struct{ s int }
type rc struct{ w, h int }

func (s sq) area() int  { return s.s * s.s }
func (r *rc) area() int { r.w++; return r.w * r.h }
func Iface(a, b uint8) int {
	xs := []shape{sq{int(a)}, &rc{int(a), int(b)}}
	t := 0
	for _, x := range xs {
		t += x.area()
		if r, ok := x.(*rc); ok {
			t += r.w
		}
		switch v := x.(type) {
		case sq:
			t += v.s
		}
	}
	return t
}
func Errs(a string) (int, bool) {
	e1 := errors.New(a)
	e2 := errors.New(a)
	var e error
	n := 0
	if e1 == e2 {
		n++
	}
	if e == nil {
		n += 2
	}
	e = e1
	if errors.Is(e, e1) && !errors.Is(e, e2) {
		n += 4
	}
	w := fmt.Errorf("x: %w", e1)
	if errors.Is(w, e1) {
		n += 8
	}
	return n, e.Error() == a
}
func SortStr(a, b string) []string { x := []string{"m", a, "/", b}; sort.Strings(x); return x }
func SortInt(a, b int32) []int {
	x := []int{3, int(a), -1, int(b)}
	sort.Slice(x, func(i, j int) bool { return x[i] > x[j] })
	return x
}
func NilSlices(a []byte) int {
	var n []byte
	k := 0
	if n == nil {
		k++
	}
	n = append(n, a...)
	if n == nil {
		k += 2
	}
	if a[:0] == nil {
		k += 4
	}
	return k*100 + len(n)
}
func Multi(a []string) int {
	n := 0
	for i, s := range a {
		n += (i + 1) * len(s)
	}
	return n
}
func Path3(a string) []int {
	var out []int
	for _, p := range strings.Split(a, "/") {
		h := strings.HasSuffix(p, "'")
		v, e := strconv.Atoi(strings.TrimSuffix(p, "'"))
		if e != nil {
			return nil
		}
		if h {
			v += 1 << 31
		}
		out = append(out, v)
	}
	return out
}
func Labels(a []byte) string {
	s := "m"
	for i := 0; i < len(a) && i < 5; i++ {
		s = fmt.Sprintf("%s/%d", s, a[i])
		if a[i]&1 == 1 {
			s += "'"
		}
	}
	return s
}
func GrowLoop(a []byte) []byte {
	var r []byte
	for i := range a {
		r = append(r, a[i]^byte(i))
		if i > 3 {
			r = r[:len(r)-1]
		}
	}
	return r
}
func Windows(a []byte) int {
	n := 0
	for len(a) >= 2 {
		n = n*7 + int(a[0]) - int(a[1])
		a = a[2:]
	}
	return n
}
func Deletions(a string) string {
	return strings.NewReplacer(" ", "", "\t", "", "/", "").Replace(a)
}
func Locked(a []byte) int {
	var mu sync.Mutex
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, b := range a {
		n += int(b)
	}
	return n
}
func CopyAll(a []string) string {
	b := make([]string, len(a))
	copy(b, a)
	if len(b) > 1 {
		b[1] = "x"
	}
	return strings.Join(b, "-") + strings.Join(a, "+")
}
