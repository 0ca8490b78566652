// Command verifreplay runs the real code of mearaj/bips on concrete inputs and
// compares it with an independent statement of what it should do.  It never
// decides a property: the check uses it to find an input that shows a failed
// proof obligation to be a violation, and to try the assumptions of the proofs.
//
// It is built from the current source tree with a build overlay, as a package
// of the module under test.
package main

import (
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// In is one input: every value is text; byte strings and texts are in hex.
type In map[string]string

func (i In) b(n string) []byte {
	v, err := hex.DecodeString(i[n])
	if err != nil {
		panic("bad case file: " + n)
	}
	return v
}
func (i In) s(n string) string { return string(i.b(n)) }
func (i In) u(n string) uint64 {
	v, err := strconv.ParseUint(i[n], 10, 64)
	if err != nil {
		panic("bad case file: " + n)
	}
	return v
}
func (i In) i(n string) int64 {
	v, err := strconv.ParseInt(i[n], 10, 64)
	if err != nil {
		panic("bad case file: " + n)
	}
	return v
}
func (i In) copy() In {
	r := In{}
	for k, v := range i {
		r[k] = v
	}
	return r
}
func (i In) key() string {
	ks := make([]string, 0, len(i))
	for k := range i {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "=" + i[k] + ";")
	}
	return sb.String()
}

type Field struct{ Name, Type string }

type Kind struct {
	Name   string
	Fields []Field
	Gen    func(g *G) In
	Check  func(in In, r *Rep)
	Once   bool // no inputs
	State  bool // changes process-wide state while it runs
	Weight int
}

type Fail struct {
	Tags []string `json:"tags"`
	What string   `json:"what"`
}

// Rep collects what one check found.
type Rep struct {
	fails []Fail
	outs  []string
	kind  *Kind
	kept  []*kept
}

// kept is a result of a call: it belongs to the caller, so no later call may
// change it, and changing it may not change what later calls give.
type kept struct {
	what string
	same func() bool
	ruin func()
}

func keep[T comparable](r *Rep, what string, s []T, other T) {
	if len(s) == 0 {
		return
	}
	c := append([]T(nil), s...)
	r.kept = append(r.kept, &kept{what,
		func() bool {
			for i := range c {
				if s[i] != c[i] {
					return false
				}
			}
			return true
		},
		func() {
			for i := range s {
				s[i] = other
			}
		}})
}

type keeper struct{ ks []*kept }

// check looks at the results of earlier calls after another call.
func (k *keeper) check(r *Rep) {
	for _, x := range k.ks {
		if !x.same() {
			r.fail("X01 *", "a result of an earlier call of %s has changed", x.what)
			return
		}
	}
	k.ks = append(k.ks, r.kept...)
	if n := len(k.ks); n > 64 {
		k.ks = append([]*kept(nil), k.ks[n-64:]...)
	}
}
func (k *keeper) ruin() {
	for _, x := range k.ks {
		x.ruin()
	}
	k.ks = nil
}

func (r *Rep) fail(tags, f string, a ...any) {
	r.fails = append(r.fails, Fail{strings.Fields(tags), fmt.Sprintf(f, a...)})
}
func (r *Rep) must(ok bool, tags, f string, a ...any) bool {
	if !ok {
		r.fail(tags, f, a...)
	}
	return ok
}

// out notes an outcome that has to be the same whenever the input is the same.
func (r *Rep) out(f string, a ...any) { r.outs = append(r.outs, fmt.Sprintf(f, a...)) }

type Found struct {
	Kind    string   `json:"kind"`
	Input   In       `json:"input"`
	What    []string `json:"what"`
	Tags    []string `json:"tags"`
	Seed    int64    `json:"seed"`
	Step    int      `json:"step"`
	History []Prev   `json:"history,omitempty"`
	Mode    string   `json:"mode,omitempty"`
}
type Prev struct {
	Kind  string `json:"kind"`
	Input In     `json:"input"`
}

var (
	flagKinds = flag.String("kinds", "", "kinds of inputs, comma separated")
	flagTags  = flag.String("tags", "", "properties of interest, comma separated; empty: all")
	flagSeed  = flag.Int64("seed", 1, "seed")
	flagSecs  = flag.Float64("seconds", 5, "time to search")
	flagRef   = flag.String("ref", "", "reference tables (JSON)")
	flagHints = flag.String("hints", "", "values to try (JSON)")
	flagCase  = flag.String("case", "", "run one recorded case")
	flagConc  = flag.Bool("conc", false, "run checks concurrently")
	flagSteps = flag.Int("steps", 0, "stop after that many steps")
	flagList  = flag.Bool("list", false, "list the kinds")
)

var kinds = map[string]*Kind{}

func register(k *Kind) { kinds[k.Name] = k }

var current atomic.Value // Prev being run
var started atomic.Int64

// run checks one input, turning a panic into a failure.
func run(k *Kind, in In) (r *Rep) {
	r = &Rep{kind: k}
	if !*flagConc {
		current.Store(Prev{k.Name, in})
		started.Store(time.Now().UnixNano())
	}
	defer func() {
		if !*flagConc {
			started.Store(0)
		}
		if p := recover(); p != nil {
			st := string(debug.Stack())
			where := ""
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "mearaj/bips/") && strings.Contains(l, "(") && !strings.Contains(l, "verifreplay") {
					where = strings.TrimSpace(l)
					break
				}
			}
			r.fails = append(r.fails, Fail{[]string{"X02", "*"}, fmt.Sprintf("panic: %v in %s", p, where)})
		}
	}()
	k.Check(in, r)
	return
}

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := started.Load()
		if s != 0 && time.Now().UnixNano()-s > int64(20*time.Second) {
			p, _ := current.Load().(Prev)
			emit(&Found{Kind: p.Kind, Input: p.Input, What: []string{"the call did not return within 20 s"}, Tags: []string{"X02", "*"}, Seed: *flagSeed})
			os.Exit(1)
		}
	}
}

var emitMu sync.Mutex

func emit(f *Found) {
	emitMu.Lock()
	defer emitMu.Unlock()
	b, _ := json.Marshal(f)
	os.Stdout.Write(append(b, '\n'))
}

func wanted(fs []Fail, tags map[string]bool) (what, tg []string) {
	set := map[string]bool{}
	for _, f := range fs {
		ok := len(tags) == 0
		for _, t := range f.Tags {
			if tags[t] || t == "*" && len(tags) > 0 && !tags["X01"] {
				ok = true
			}
		}
		if ok {
			what = append(what, f.What)
			for _, t := range f.Tags {
				if !set[t] {
					set[t] = true
					tg = append(tg, t)
				}
			}
		}
	}
	return
}

func main() {
	flag.Parse()
	if *flagList {
		var ns []string
		for n := range kinds {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	loadRef(*flagRef)
	go watchdog()
	tags := map[string]bool{}
	for _, t := range strings.Split(*flagTags, ",") {
		if t != "" {
			tags[t] = true
		}
	}
	if *flagCase != "" {
		var f Found
		b, err := os.ReadFile(*flagCase)
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		first := ""
		kp := &keeper{}
		done := map[string]bool{}
		for _, p := range f.History {
			if k := kinds[p.Kind]; k != nil {
				id := p.Kind + " " + p.Input.key()
				if done[id] {
					kp.ruin()
				}
				done[id] = true
				r := run(k, p.Input)
				if p.Kind == f.Kind && p.Input.key() == f.Input.key() {
					first = strings.Join(r.outs, "\n")
				}
				kp.check(r)
			}
		}
		before := digest()
		if done[f.Kind+" "+f.Input.key()] {
			kp.ruin()
		}
		r := run(kinds[f.Kind], f.Input)
		kp.check(r)
		if first != "" && first != strings.Join(r.outs, "\n") {
			r.fail("X01", "the same call gave another result than before")
		}
		if digest() != before {
			r.fail("X01", "the call changed the state of the library")
		}
		what, tg := wanted(r.fails, tags)
		if len(what) > 0 {
			emit(&Found{Kind: f.Kind, Input: f.Input, What: what, Tags: tg})
			os.Exit(1)
		}
		return
	}
	var ks []*Kind
	for _, n := range strings.Split(*flagKinds, ",") {
		if k := kinds[n]; k != nil {
			ks = append(ks, k)
		}
	}
	end := time.Now().Add(time.Duration(*flagSecs * float64(time.Second)))
	if *flagConc {
		conc(ks, tags, end)
		return
	}
	var rot []*Kind
	for _, k := range ks {
		if k.Once {
			r := run(k, In{})
			if what, tg := wanted(r.fails, tags); len(what) > 0 {
				emit(&Found{Kind: k.Name, Input: In{}, What: what, Tags: tg, Seed: *flagSeed})
				os.Exit(1)
			}
			continue
		}
		for i := 0; i <= k.Weight; i++ {
			rot = append(rot, k)
		}
	}
	steps := 0
	counts := map[string]int{}
	defer func() {
		b, _ := json.Marshal(counts)
		fmt.Printf("{\"steps\":%d,\"counts\":%s}\n", steps, b)
	}()
	if len(rot) == 0 {
		return
	}
	g := &G{Rand: mrand.New(mrand.NewSource(*flagSeed)), pools: map[string][]In{}}
	g.loadHints(*flagHints)
	type old struct {
		k   *Kind
		in  In
		out string
	}
	var seen []old
	var hist []Prev
	base := digest()
	seq := 0
	kp := &keeper{}
	for (*flagSteps == 0 || steps < *flagSteps) && time.Now().Before(end) {
		steps++
		k := rot[g.Intn(len(rot))]
		var in In
		want := ""
		if len(seen) > 8 && g.Intn(8) == 0 {
			o := seen[g.Intn(len(seen))]
			k, in, want = o.k, o.in, o.out
			kp.ruin()
		} else {
			in = g.make(k)
		}
		counts[k.Name]++
		r := run(k, in)
		out := strings.Join(r.outs, "\n")
		if want != "" && want != out {
			r.fail("X01 *", "the same call gave another result than before: %s, before: %s", out, want)
		}
		kp.check(r)
		seq++
		if seq >= 400 || steps < 20 || k.State && g.Intn(10) == 0 {
			seq = 0
			if d := digest(); d != base {
				r.fail("X01", "the state of the library has changed")
			}
		}
		if what, tg := wanted(r.fails, tags); len(what) > 0 {
			emit(&Found{Kind: k.Name, Input: in, What: what, Tags: tg, Seed: *flagSeed, Step: steps, History: hist})
			os.Exit(1)
		}
		hist = append(hist, Prev{k.Name, in})
		if len(hist) > 6000 {
			hist = append([]Prev(nil), hist[3000:]...)
		}
		if want == "" {
			if len(seen) < 400 {
				seen = append(seen, old{k, in, out})
			} else {
				seen[g.Intn(len(seen))] = old{k, in, out}
			}
			g.remember(k, in)
		}
	}
}

// conc runs the checks of read-only calls from several goroutines at once.
func conc(ks []*Kind, tags map[string]bool, end time.Time) {
	var rot []*Kind
	for _, k := range ks {
		if !k.Once && !k.State {
			rot = append(rot, k)
		}
	}
	if len(rot) == 0 {
		fmt.Println("{\"steps\":0}")
		return
	}
	var steps int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	pool := map[string][]In{}
	g0 := &G{Rand: mrand.New(mrand.NewSource(*flagSeed)), pools: map[string][]In{}, plain: true}
	g0.loadHints(*flagHints)
	for _, k := range rot {
		for i := 0; i < 40; i++ {
			in := g0.make(k)
			pool[k.Name] = append(pool[k.Name], in)
			g0.remember(k, in)
		}
	}
	for w := 0; w < 8; w++ {
		rnd := mrand.New(mrand.NewSource(*flagSeed*100 + int64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				k := rot[rnd.Intn(len(rot))]
				in := pool[k.Name][rnd.Intn(len(pool[k.Name]))]
				r := run(k, in)
				n := atomic.AddInt64(&steps, 1)
				what, tg := wanted(r.fails, map[string]bool{})
				if len(what) > 0 {
					mu.Lock()
					time.Sleep(50 * time.Millisecond)
					emit(&Found{Kind: k.Name, Input: in, What: what, Tags: append(tg, "X01"), Seed: *flagSeed, Step: int(n), Mode: "concurrent"})
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("{\"steps\":%d}\n", steps)
}

// ---------------------------------------------------------------- argument memory

const spare = 24

// Arg is a byte slice argument whose memory is watched, spare capacity included.
type Arg struct{ full, orig []byte }

func arg(b []byte) (*Arg, []byte) {
	a := &Arg{full: make([]byte, len(b)+spare)}
	copy(a.full, b)
	for i := len(b); i < len(a.full); i++ {
		a.full[i] = 0xa5
	}
	a.orig = append([]byte(nil), a.full...)
	return a, a.full[:len(b)]
}
func (a *Arg) same(r *Rep, what string) {
	for i := range a.full {
		if a.full[i] != a.orig[i] {
			r.fail("X01", "%s wrote to byte %d of its argument of %d bytes", what, i, len(a.full)-spare)
			return
		}
	}
}

// ---------------------------------------------------------------- random source stand-in

type source struct {
	rnd    *mrand.Rand
	given  []byte
	failAt int // number of bytes after which it fails, or -1
	chunk  int // most bytes given per call, 0: all
	failed bool
}

func (s *source) Read(p []byte) (int, error) {
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.failAt >= 0 && len(s.given)+n > s.failAt {
		n = s.failAt - len(s.given)
		s.failed = true
	}
	for i := 0; i < n; i++ {
		p[i] = byte(s.rnd.Intn(256))
		s.given = append(s.given, p[i])
	}
	if s.failed {
		return n, io.ErrClosedPipe
	}
	return n, nil
}

func withSource(s *source, f func()) {
	old := rand.Reader
	rand.Reader = s
	defer func() { rand.Reader = old }()
	f()
}
