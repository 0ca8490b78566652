// Command frontend loads the Go packages given on the command line from the
// current source tree and prints their typed SSA form (golang.org/x/tools/go/ssa)
// as JSON.  Nothing is dropped: every instruction of every function body of the
// requested packages (and of the small dependency packages in -inline) is
// printed; a construct the verifier does not support is reported there.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	typeIDs  = map[string]int{}
	typeList []M
	fset     *token.FileSet
	queue    []*ssa.Function
	seen     = map[*ssa.Function]bool{}
	inlineOK = map[string]bool{}
	globals  = map[string]M{}
	wantAll  = map[string]bool{}
)

func tid(t types.Type) int {
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	m := M{"id": id, "str": key}
	typeList = append(typeList, m)
	if n, ok := t.(*types.Named); ok {
		m["named"] = key
		_ = n
	}
	if a, ok := t.(*types.Alias); ok {
		m["alias"] = tid(types.Unalias(a))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["basic"] = u.Name()
		m["untyped"] = u.Info()&types.IsUntyped != 0
	case *types.Pointer:
		m["kind"] = "pointer"
		m["elem"] = tid(u.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = tid(u.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = tid(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = tid(u.Key())
		m["elem"] = tid(u.Elem())
	case *types.Chan:
		m["kind"] = "chan"
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": tid(f.Type()), "embedded": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "interface"
		ms := []string{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["kind"] = "func"
	case *types.Tuple:
		m["kind"] = "tuple"
		var es []int
		for i := 0; i < u.Len(); i++ {
			es = append(es, tid(u.At(i).Type()))
		}
		m["elems"] = es
	default:
		m["kind"] = fmt.Sprintf("other:%T", u)
	}
	return id
}

func fname(f *ssa.Function) string {
	// Stable name: package path qualified; methods as pkg.(*T).M; anonymous
	// functions get their parent's name plus $n.
	return f.String()
}

func val(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "type": tid(v.Type())}
		if v.Value == nil {
			m["zero"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["bool"] = constant.BoolVal(v.Value)
			case constant.String:
				m["bytes"] = []byte(constant.StringVal(v.Value))
			case constant.Int:
				m["int"] = v.Value.ExactString()
			default:
				m["other"] = v.Value.ExactString()
			}
		}
		return m
	case *ssa.Global:
		n := v.String()
		if _, ok := globals[n]; !ok {
			g := M{"type": tid(v.Type().Underlying().(*types.Pointer).Elem()), "pkg": v.Pkg.Pkg.Path(), "name": v.Name()}
			globals[n] = g
		}
		return M{"k": "global", "name": n}
	case *ssa.Function:
		enqueue(v)
		return M{"k": "func", "name": fname(v), "type": tid(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "name": v.Name()}
	case *ssa.FreeVar:
		return M{"k": "free", "name": v.Name()}
	default:
		return M{"k": "reg", "name": v.Name()}
	}
}

func vals(vs []ssa.Value) []any {
	out := make([]any, len(vs))
	for i, v := range vs {
		out[i] = val(v)
	}
	return out
}

func enqueue(f *ssa.Function) {
	if seen[f] {
		return
	}
	path := ""
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	}
	if !inlineOK[path] && !(f.Synthetic != "" && f.Pkg == nil) && !(f.Parent() != nil && seen[f.Parent()]) {
		return
	}
	seen[f] = true
	queue = append(queue, f)
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func callCommon(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["itype"] = tid(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
	}
	m["sig"] = tid(c.Signature().Results())
	return m
}

func instr(in ssa.Instruction) M {
	m := M{"pos": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		m["reg"] = v.Name()
		m["type"] = tid(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = in.Heap
		m["elem"] = tid(in.Type().Underlying().(*types.Pointer).Elem())
		m["comment"] = in.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["tok"] = in.Op.String()
		m["x"], m["y"] = val(in.X), val(in.Y)
		m["xt"], m["yt"] = tid(in.X.Type()), tid(in.Y.Type())
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["tok"] = in.Op.String()
		m["x"] = val(in.X)
		m["xt"] = tid(in.X.Type())
		m["commaok"] = in.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = callCommon(&in.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = callCommon(&in.Call)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(in.X)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(in.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(in.X)
		m["xt"] = tid(in.X.Type())
	case *ssa.MultiConvert:
		m["op"] = "Convert"
		m["x"] = val(in.X)
		m["xt"] = tid(in.X.Type())
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = val(in.X)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(in.X)
		m["xt"] = tid(in.X.Type())
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = val(in.Fn)
		m["bindings"] = vals(in.Bindings)
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"], m["cap"] = val(in.Len), val(in.Cap)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(in.X)
		m["xt"] = tid(in.X.Type())
		if in.Low != nil {
			m["low"] = val(in.Low)
		}
		if in.High != nil {
			m["high"] = val(in.High)
		}
		if in.Max != nil {
			m["max"] = val(in.Max)
		}
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(in.X)
		m["field"] = in.Field
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(in.X)
		m["field"] = in.Field
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"], m["index"] = val(in.X), val(in.Index)
		m["xt"] = tid(in.X.Type())
		m["it"] = tid(in.Index.Type())
	case *ssa.Index:
		m["op"] = "Index"
		m["x"], m["index"] = val(in.X), val(in.Index)
		m["xt"] = tid(in.X.Type())
		m["it"] = tid(in.Index.Type())
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"], m["index"] = val(in.X), val(in.Index)
		m["xt"] = tid(in.X.Type())
		m["it"] = tid(in.Index.Type())
		m["commaok"] = in.CommaOk
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["map"], m["key"], m["value"] = val(in.Map), val(in.Key), val(in.Value)
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(in.X)
		m["xt"] = tid(in.X.Type())
	case *ssa.Next:
		m["op"] = "Next"
		m["iter"] = val(in.Iter)
		m["isstring"] = in.IsString
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(in.Tuple)
		m["index"] = in.Index
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(in.X)
		m["at"] = tid(in.AssertedType)
		m["commaok"] = in.CommaOk
	case *ssa.Phi:
		m["op"] = "Phi"
		m["edges"] = vals(in.Edges)
		m["comment"] = in.Comment
	case *ssa.If:
		m["op"] = "If"
		m["cond"] = val(in.Cond)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Return:
		m["op"] = "Return"
		m["results"] = vals(in.Results)
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(in.X)
	case *ssa.Store:
		m["op"] = "Store"
		m["addr"], m["val"] = val(in.Addr), val(in.Val)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = fmt.Sprintf("Unsupported:%T", in)
	}
	return m
}

func dump(f *ssa.Function) M {
	m := M{"name": fname(f), "synthetic": f.Synthetic, "pos": pos(f.Pos())}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Object() != nil {
		m["exported"] = f.Object().Exported()
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	var ps []M
	for _, p := range f.Params {
		ps = append(ps, M{"name": p.Name(), "type": tid(p.Type())})
	}
	m["params"] = ps
	var fv []M
	for _, p := range f.FreeVars {
		fv = append(fv, M{"name": p.Name(), "type": tid(p.Type())})
	}
	m["freevars"] = fv
	m["results"] = tid(f.Signature.Results())
	var bs []M
	for _, b := range f.Blocks {
		var is []M
		for _, in := range b.Instrs {
			if x := instr(in); x != nil {
				is = append(is, x)
			}
		}
		var preds, succs []int
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		idom := -1
		if b.Idom() != nil {
			idom = b.Idom().Index
		}
		bs = append(bs, M{"i": b.Index, "preds": preds, "succs": succs, "instrs": is, "idom": idom, "comment": b.Comment})
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	inl := flag.String("inline", "", "comma separated dependency packages whose bodies are dumped too")
	own := flag.String("own", "github.com/mearaj/bips", "path prefix of packages whose bodies are always dumped")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir, Tests: false}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if wantAll[p.PkgPath] || strings.HasPrefix(p.PkgPath, "github.com/mearaj/bips") {
				fmt.Fprintln(os.Stderr, "error:", e)
				bad = true
			}
		}
	})
	if bad {
		os.Exit(3)
	}
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	fset = prog.Fset
	for _, p := range strings.Split(*inl, ",") {
		if p != "" {
			inlineOK[p] = true
		}
	}
	for _, p := range ssaPkgs {
		if p != nil {
			inlineOK[p.Pkg.Path()] = true
			wantAll[p.Pkg.Path()] = true
		}
	}
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), *own) {
			inlineOK[p.Pkg.Path()] = true
		}
	}
	for _, p := range prog.AllPackages() {
		if inlineOK[p.Pkg.Path()] {
			p.Build()
		}
	}
	var all []*ssa.Function
	for _, p := range ssaPkgs {
		if p == nil {
			continue
		}
		for _, mem := range p.Members {
			switch mem := mem.(type) {
			case *ssa.Function:
				all = append(all, mem)
			case *ssa.Type:
				for _, t := range []types.Type{mem.Type(), types.NewPointer(mem.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							all = append(all, f)
						}
					}
				}
			case *ssa.Global:
				val(mem)
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, f := range all {
		enqueue(f)
	}
	var fns []M
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		fns = append(fns, dump(f))
		for _, a := range f.AnonFuncs {
			enqueue(a)
		}
	}
	var pl []M
	for _, p := range ssaPkgs {
		if p != nil {
			var imps []string
			for _, i := range p.Pkg.Imports() {
				imps = append(imps, i.Path())
			}
			pl = append(pl, M{"path": p.Pkg.Path(), "imports": imps})
		}
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(M{"functions": fns, "types": typeList, "globals": globals, "packages": pl}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
