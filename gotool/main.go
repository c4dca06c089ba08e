// gotool loads Go packages from source, builds SSA for them and all their
// dependencies on demand, and serves functions, types, method lookups and
// compiled regular expressions as JSON lines to the symbolic executor.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type server struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	types  typeutil.Map
	tlist  []types.Type
	tsent  int
	fns    map[*ssa.Function]int
	flist  []*ssa.Function
	byName map[string]*ssa.Function
}

type M = map[string]interface{}
type L = []interface{}

func (s *server) typ(t types.Type) int {
	t = types.Unalias(t)
	if v := s.types.At(t); v != nil {
		return v.(int)
	}
	id := len(s.tlist)
	s.types.Set(t, id)
	s.tlist = append(s.tlist, t)
	return id
}

func (s *server) fn(f *ssa.Function) int {
	if id, ok := s.fns[f]; ok {
		return id
	}
	id := len(s.flist)
	s.fns[f] = id
	s.flist = append(s.flist, f)
	return id
}

func (s *server) describe(t types.Type) M {
	m := M{"s": types.TypeString(t, nil)}
	switch t := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["b"] = t.Name()
	case *types.Named:
		m["k"] = "named"
		m["u"] = s.typ(t.Underlying())
		if t.Obj().Pkg() != nil {
			m["pkg"] = t.Obj().Pkg().Path()
		}
		m["name"] = t.Obj().Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = s.typ(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = s.typ(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = s.typ(t.Elem())
		m["n"] = t.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = s.typ(t.Key())
		m["e"] = s.typ(t.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = s.typ(t.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := L{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, L{f.Name(), s.typ(f.Type()), t.Tag(i)})
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		m["n"] = t.NumMethods()
	case *types.Signature:
		m["k"] = "func"
	case *types.Tuple:
		m["k"] = "tuple"
		fs := L{}
		for i := 0; i < t.Len(); i++ {
			fs = append(fs, s.typ(t.At(i).Type()))
		}
		m["f"] = fs
	case *types.TypeParam:
		m["k"] = "tparam"
	default:
		m["k"] = "opaque"
	}
	return m
}

func (s *server) constant(c *ssa.Const) interface{} {
	t := s.typ(c.Type())
	if c.Value == nil {
		return L{"c", t, nil}
	}
	v := constant.ToInt(c.Value)
	b, _ := c.Type().Underlying().(*types.Basic)
	switch {
	case b != nil && b.Info()&types.IsBoolean != 0:
		return L{"c", t, constant.BoolVal(c.Value)}
	case b != nil && b.Info()&types.IsString != 0:
		str := constant.StringVal(c.Value)
		bs := make([]int, len(str))
		for i := 0; i < len(str); i++ {
			bs[i] = int(str[i])
		}
		return L{"c", t, bs}
	case b != nil && b.Info()&types.IsInteger != 0:
		return L{"c", t, v.ExactString()}
	case b != nil && b.Info()&types.IsFloat != 0:
		r, ok := constant.Val(constant.ToFloat(c.Value)).(*big.Rat)
		if ok {
			return L{"c", t, r.String()}
		}
		switch x := constant.Val(constant.ToFloat(c.Value)).(type) {
		case *big.Float:
			rr, _ := x.Rat(nil)
			return L{"c", t, rr.String()}
		case int64:
			return L{"c", t, fmt.Sprint(x)}
		case *big.Int:
			return L{"c", t, x.String()}
		}
	}
	return L{"c", t, "?" + c.Value.ExactString()}
}

func (s *server) dumpFn(f *ssa.Function) M {
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		f.Origin().Pkg.Build()
	}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) { regs[v] = len(regs) }
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	op := func(v ssa.Value) interface{} {
		if v == nil {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Const:
			return s.constant(v)
		case *ssa.Global:
			return L{"g", v.Pkg.Pkg.Path(), v.Name(), s.typ(v.Type().Underlying().(*types.Pointer).Elem())}
		case *ssa.Function:
			return L{"f", s.fn(v)}
		case *ssa.Builtin:
			return L{"b", v.Name()}
		}
		return L{"r", regs[v]}
	}
	ops := func(vs []ssa.Value) L {
		o := L{}
		for _, v := range vs {
			o = append(o, op(v))
		}
		return o
	}
	call := func(c *ssa.CallCommon) L {
		if c.IsInvoke() {
			return L{"invoke", op(c.Value), c.Method.Name(), s.typ(c.Value.Type()), ops(c.Args)}
		}
		ret := 0
		_ = ret
		ats := L{}
		for _, a := range c.Args {
			ats = append(ats, s.typ(a.Type()))
		}
		return L{"call", op(c.Value), ops(c.Args), ats}
	}
	blocks := L{}
	for _, b := range f.Blocks {
		ins := L{}
		for _, i := range b.Instrs {
			r := -1
			t := -1
			if v, ok := i.(ssa.Value); ok {
				r = regs[v]
				t = s.typ(v.Type())
			}
			pos := 0
			if p := s.prog.Fset.Position(i.Pos()); p.IsValid() {
				pos = p.Line
			}
			_ = pos
			var d L
			switch i := i.(type) {
			case *ssa.Alloc:
				d = L{"alloc", s.typ(i.Type().Underlying().(*types.Pointer).Elem())}
			case *ssa.BinOp:
				d = L{"bin", i.Op.String(), op(i.X), op(i.Y), s.typ(i.X.Type()), s.typ(i.Y.Type())}
			case *ssa.UnOp:
				d = L{"un", i.Op.String(), op(i.X), s.typ(i.X.Type()), i.CommaOk}
			case *ssa.Call:
				d = append(L{"call"}, call(&i.Call)...)
			case *ssa.Go:
				d = append(L{"go"}, call(&i.Call)...)
			case *ssa.Defer:
				d = append(L{"defer"}, call(&i.Call)...)
			case *ssa.RunDefers:
				d = L{"rundefers"}
			case *ssa.ChangeInterface:
				d = L{"mov", op(i.X)}
			case *ssa.ChangeType:
				d = L{"mov", op(i.X)}
			case *ssa.Convert:
				d = L{"conv", op(i.X), s.typ(i.X.Type())}
			case *ssa.MultiConvert:
				d = L{"conv", op(i.X), s.typ(i.X.Type())}
			case *ssa.SliceToArrayPointer:
				d = L{"s2ap", op(i.X)}
			case *ssa.Extract:
				d = L{"extract", op(i.Tuple), i.Index}
			case *ssa.Field:
				d = L{"field", op(i.X), i.Field}
			case *ssa.FieldAddr:
				d = L{"fieldaddr", op(i.X), i.Field}
			case *ssa.Index:
				d = L{"index", op(i.X), op(i.Index), s.typ(i.X.Type())}
			case *ssa.IndexAddr:
				d = L{"indexaddr", op(i.X), op(i.Index), s.typ(i.X.Type())}
			case *ssa.Lookup:
				d = L{"lookup", op(i.X), op(i.Index), i.CommaOk, s.typ(i.X.Type())}
			case *ssa.MakeClosure:
				d = L{"closure", s.fn(i.Fn.(*ssa.Function)), ops(i.Bindings)}
			case *ssa.MakeInterface:
				d = L{"mkiface", op(i.X), s.typ(i.X.Type())}
			case *ssa.MakeMap:
				d = L{"mkmap"}
			case *ssa.MakeSlice:
				d = L{"mkslice", op(i.Len), op(i.Cap)}
			case *ssa.MakeChan:
				d = L{"mkchan"}
			case *ssa.Next:
				d = L{"next", op(i.Iter), i.IsString}
			case *ssa.Range:
				d = L{"range", op(i.X), s.typ(i.X.Type())}
			case *ssa.Phi:
				d = L{"phi", ops(i.Edges)}
			case *ssa.Slice:
				d = L{"slice", op(i.X), op(i.Low), op(i.High), op(i.Max), s.typ(i.X.Type())}
			case *ssa.TypeAssert:
				d = L{"tassert", op(i.X), s.typ(i.AssertedType), i.CommaOk}
			case *ssa.Jump:
				d = L{"jump", b.Succs[0].Index}
			case *ssa.If:
				d = L{"if", op(i.Cond), b.Succs[0].Index, b.Succs[1].Index}
			case *ssa.Return:
				d = L{"ret", ops(i.Results)}
			case *ssa.Panic:
				d = L{"panic", op(i.X)}
			case *ssa.Store:
				d = L{"store", op(i.Addr), op(i.Val)}
			case *ssa.MapUpdate:
				d = L{"mapupdate", op(i.Map), op(i.Key), op(i.Value)}
			case *ssa.DebugRef:
				continue
			case *ssa.Select:
				d = L{"select"}
			case *ssa.Send:
				d = L{"send"}
			default:
				d = L{"unsupported", fmt.Sprintf("%T", i)}
			}
			ins = append(ins, L{r, t, d, pos})
		}
		preds := []int{}
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		blocks = append(blocks, M{"p": preds, "i": ins})
	}
	m := M{"id": s.fn(f), "name": f.String(), "np": len(f.Params), "nf": len(f.FreeVars), "nregs": len(regs), "blocks": blocks}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		m["pkg"] = f.Object().Pkg().Path()
	}
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	pt := L{}
	for _, p := range f.Params {
		pt = append(pt, s.typ(p.Type()))
	}
	m["pt"] = pt
	rt := L{}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rt = append(rt, s.typ(res.At(i).Type()))
	}
	m["rt"] = rt
	return m
}

func (s *server) lookupFn(name string) *ssa.Function {
	// forms: pkg.Func  |  pkg.Type.Method | pkg.*Type.Method
	ptr := false
	sl := strings.LastIndex(name, "/")
	dot := strings.Index(name[sl+1:], ".")
	if dot < 0 {
		return nil
	}
	dot += sl + 1
	pkg := s.pkgs[name[:dot]]
	if pkg == nil {
		return nil
	}
	rest := name[dot+1:]
	if strings.HasPrefix(rest, "*") {
		ptr = true
		rest = rest[1:]
	}
	if i := strings.Index(rest, "."); i >= 0 {
		tn := pkg.Type(rest[:i])
		if tn == nil {
			return nil
		}
		var t types.Type = tn.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		return s.method(t, rest[i+1:], pkg.Pkg)
	}
	return pkg.Func(rest)
}

func (s *server) method(t types.Type, name string, pkg *types.Package) *ssa.Function {
	ms := s.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if sel := ms.At(i); sel.Obj().Name() == name {
			if n, ok := deref(t).(*types.Named); ok && n.Obj().Pkg() != nil {
				if p := s.pkgs[n.Obj().Pkg().Path()]; p != nil {
					p.Build()
				}
			}
			return s.prog.MethodValue(sel)
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func regex(pat string) interface{} {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return M{"err": err.Error()}
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return M{"err": err.Error()}
	}
	ins := L{}
	for _, i := range prog.Inst {
		rs := i.Rune
		if rs == nil {
			rs = []rune{}
		}
		ins = append(ins, L{int(i.Op), i.Out, i.Arg, rs})
	}
	return M{"start": prog.Start, "inst": ins}
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
	}
	init, err := packages.Load(cfg, os.Args[2:]...)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	fail := func(msg string) {
		enc.Encode(M{"err": msg})
		out.Flush()
		os.Exit(1)
	}
	if err != nil {
		fail(err.Error())
	}
	var errs []string
	for _, p := range init {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		fail(strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics|ssa.BareInits)
	s := &server{prog: prog, pkgs: map[string]*ssa.Package{}, fns: map[*ssa.Function]int{}}
	for _, p := range prog.AllPackages() {
		s.pkgs[p.Pkg.Path()] = p
	}
	enc.Encode(M{"ok": true})
	out.Flush()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		var req struct {
			Op   string `json:"op"`
			Name string `json:"name"`
			ID   int    `json:"id"`
			T    int    `json:"t"`
			I    int    `json:"i"`
		}
		if err := json.Unmarshal([]byte(line), &req); err != nil {
			fail(err.Error())
		}
		var res interface{}
		switch req.Op {
		case "find":
			if f := s.lookupFn(req.Name); f != nil {
				res = s.fn(f)
			}
		case "fn":
			res = s.dumpFn(s.flist[req.ID])
		case "type":
			// by name pkg.Type
			i := strings.LastIndex(req.Name, ".")
			if p := s.pkgs[req.Name[:i]]; p != nil {
				if t := p.Type(req.Name[i+1:]); t != nil {
					res = s.typ(t.Type())
				}
			}
		case "ptrto":
			res = s.typ(types.NewPointer(s.tlist[req.T]))
		case "sliceof":
			res = s.typ(types.NewSlice(s.tlist[req.T]))
		case "method":
			if f := s.method(s.tlist[req.T], req.Name, nil); f != nil {
				res = s.fn(f)
			}
		case "implements":
			it, _ := s.tlist[req.I].Underlying().(*types.Interface)
			res = it != nil && types.Implements(s.tlist[req.T], it)
		case "regex":
			res = regex(req.Name)
		case "init":
			if p := s.pkgs[req.Name]; p != nil {
				p.Build()
				res = s.fn(p.Func("init"))
			}
		case "vars":
			if p := s.pkgs[req.Name]; p != nil {
				vs := L{}
				names := []string{}
				for n, m := range p.Members {
					if _, ok := m.(*ssa.Global); ok {
						names = append(names, n)
					}
				}
				sort.Strings(names)
				for _, n := range names {
					g := p.Members[n].(*ssa.Global)
					vs = append(vs, L{n, s.typ(g.Type().Underlying().(*types.Pointer).Elem())})
				}
				res = vs
			}
		case "types":
			if p := s.pkgs[req.Name]; p != nil {
				vs := L{}
				names := []string{}
				for n, m := range p.Members {
					if m.Token() == token.TYPE {
						names = append(names, n)
					}
				}
				sort.Strings(names)
				for _, n := range names {
					vs = append(vs, L{n, s.typ(p.Members[n].Type())})
				}
				res = vs
			}
		case "stat":
			res = M{"fns": len(s.flist)}
		}
		// newly seen types
		nt := L{}
		for s.tsent < len(s.tlist) {
			nt = append(nt, s.describe(s.tlist[s.tsent]))
			s.tsent++
		}
		enc.Encode(M{"r": res, "t": nt})
		out.Flush()
	}
}
