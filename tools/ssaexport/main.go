// ssaexport loads the packages of a Go module from source and writes their SSA
// form (golang.org/x/tools/go/ssa) as JSON, for the verifier in /verif/gv.
// It drops nothing: every instruction of every function declared in the
// module's packages is exported; DebugRef instructions are not generated.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typs   = M{}
	modPfx string
	fset   *token.FileSet
	ours   = map[*types.Package]bool{}
)

func qual(p *types.Package) string { return path.Base(p.Path()) }

func short(s string) string {
	s = strings.ReplaceAll(s, modPfx+"/", "")
	s = strings.ReplaceAll(s, modPfx+".", path.Base(modPfx)+".")
	return s
}

func ty(t types.Type) string {
	t = types.Unalias(t)
	id := types.TypeString(t, qual)
	if _, ok := typs[id]; ok {
		return id
	}
	m := M{}
	typs[id] = m
	switch t := t.(type) {
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = t.Name()
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = ty(t.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = ty(t.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = ty(t.Elem())
		m["len"] = t.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = ty(t.Key())
		m["elem"] = ty(t.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = ty(t.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		fs := []M{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": ty(f.Type()), "emb": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Tuple:
		m["kind"] = "tuple"
		es := []string{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, ty(t.At(i).Type()))
		}
		m["elems"] = es
	case *types.Signature:
		m["kind"] = "func"
		ps := []string{}
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, ty(t.Params().At(i).Type()))
		}
		rs := []string{}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, ty(t.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = t.Variadic()
	case *types.Interface:
		m["kind"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Named:
		m["kind"] = "named"
		m["under"] = ty(t.Underlying())
		m["pkg"] = ""
		if p := t.Obj().Pkg(); p != nil {
			m["pkg"] = qual(p)
		}
	default:
		m["kind"] = "other"
		m["desc"] = fmt.Sprintf("%T", t)
	}
	return id
}

func fname(f *ssa.Function) string { return short(f.String()) }

func val(v ssa.Value) M {
	switch v := v.(type) {
	case *ssa.Const:
		m := M{"k": "c", "t": ty(v.Type())}
		if v.Value == nil {
			m["v"] = nil
		} else {
			switch v.Value.Kind() {
			case constant.String:
				m["v"] = constant.StringVal(v.Value)
				m["s"] = true
			case constant.Bool:
				m["v"] = constant.BoolVal(v.Value)
			default:
				m["v"] = v.Value.ExactString()
			}
		}
		return m
	case *ssa.Function:
		return M{"k": "f", "n": fname(v), "t": ty(v.Type())}
	case *ssa.Global:
		return M{"k": "g", "n": short(v.String()), "t": ty(v.Type())}
	case *ssa.Builtin:
		return M{"k": "b", "n": v.Name(), "t": ""}
	case *ssa.Parameter:
		return M{"k": "r", "n": v.Name(), "t": ty(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "r", "n": "$" + v.Name(), "t": ty(v.Type())}
	case nil:
		return nil
	default:
		return M{"k": "r", "n": v.Name(), "t": ty(v.Type())}
	}
}

func vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon, m M) {
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["iface"] = ty(c.Value.Type())
	}
	m["fn"] = val(c.Value)
	m["args"] = vals(c.Args)
}

func instr(i ssa.Instruction) M {
	m := M{"op": strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")}
	if p := i.Pos(); p.IsValid() {
		ps := fset.Position(p)
		m["line"] = ps.Line
	}
	if v, ok := i.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = ty(v.Type())
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["heap"] = i.Heap
		m["comment"] = i.Comment
		m["elem"] = ty(i.Type().(*types.Pointer).Elem())
	case *ssa.BinOp:
		m["o"] = i.Op.String()
		m["x"] = val(i.X)
		m["y"] = val(i.Y)
	case *ssa.UnOp:
		m["o"] = i.Op.String()
		m["x"] = val(i.X)
		m["commaok"] = i.CommaOk
	case *ssa.Call:
		call(&i.Call, m)
	case *ssa.Defer:
		call(&i.Call, m)
	case *ssa.Go:
		call(&i.Call, m)
	case *ssa.ChangeInterface:
		m["x"] = val(i.X)
	case *ssa.ChangeType:
		m["x"] = val(i.X)
	case *ssa.Convert:
		m["x"] = val(i.X)
	case *ssa.MultiConvert:
		m["x"] = val(i.X)
	case *ssa.Extract:
		m["x"] = val(i.Tuple)
		m["i"] = i.Index
	case *ssa.Field:
		m["x"] = val(i.X)
		m["i"] = i.Field
	case *ssa.FieldAddr:
		m["x"] = val(i.X)
		m["i"] = i.Field
	case *ssa.Index:
		m["x"] = val(i.X)
		m["y"] = val(i.Index)
	case *ssa.IndexAddr:
		m["x"] = val(i.X)
		m["y"] = val(i.Index)
	case *ssa.Lookup:
		m["x"] = val(i.X)
		m["y"] = val(i.Index)
		m["commaok"] = i.CommaOk
	case *ssa.If:
		m["x"] = val(i.Cond)
	case *ssa.MakeChan:
	case *ssa.MakeClosure:
		m["fn"] = val(i.Fn)
		m["args"] = vals(i.Bindings)
	case *ssa.MakeInterface:
		m["x"] = val(i.X)
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		m["x"] = val(i.Len)
		m["y"] = val(i.Cap)
	case *ssa.MapUpdate:
		m["x"] = val(i.Map)
		m["y"] = val(i.Key)
		m["z"] = val(i.Value)
	case *ssa.Next:
		m["x"] = val(i.Iter)
		m["str"] = i.IsString
	case *ssa.Panic:
		m["x"] = val(i.X)
	case *ssa.Phi:
		m["args"] = vals(i.Edges)
		m["comment"] = i.Comment
	case *ssa.Range:
		m["x"] = val(i.X)
	case *ssa.Return:
		m["args"] = vals(i.Results)
	case *ssa.Send:
		m["x"] = val(i.Chan)
		m["y"] = val(i.X)
	case *ssa.Slice:
		m["x"] = val(i.X)
		m["lo"] = val2(i.Low)
		m["hi"] = val2(i.High)
		m["max"] = val2(i.Max)
	case *ssa.Store:
		m["x"] = val(i.Addr)
		m["y"] = val(i.Val)
	case *ssa.TypeAssert:
		m["x"] = val(i.X)
		m["at"] = ty(i.AssertedType)
		m["commaok"] = i.CommaOk
	}
	return m
}

func val2(v ssa.Value) interface{} {
	if v == nil {
		return nil
	}
	return val(v)
}

func function(f *ssa.Function) M {
	m := M{"name": fname(f), "short": f.Name()}
	pos := fset.Position(f.Pos())
	m["file"] = filepath.Base(filepath.Dir(pos.Filename)) + "/" + filepath.Base(pos.Filename)
	m["line"] = pos.Line
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": ty(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": "$" + p.Name(), "t": ty(p.Type())})
	}
	m["free"] = fv
	m["sig"] = ty(f.Signature)
	if f.Signature.Recv() != nil {
		m["recv"] = ty(f.Signature.Recv().Type())
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	rn := []string{}
	rt := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r := f.Signature.Results().At(i)
		rn = append(rn, r.Name())
		rt = append(rt, ty(r.Type()))
	}
	m["resnames"] = rn
	m["results"] = rt
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(i))
		}
		ss, pp := []int{}, []int{}
		for _, s := range b.Succs {
			ss = append(ss, s.Index)
		}
		for _, p := range b.Preds {
			pp = append(pp, p.Index)
		}
		bs = append(bs, M{"i": b.Index, "c": b.Comment, "ins": is, "succs": ss, "preds": pp})
	}
	m["blocks"] = bs
	return m
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	fset = pkgs[0].Fset
	modPfx = pkgs[0].Module.Path
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for _, p := range ps {
		ours[p.Pkg] = true
	}
	funcs := M{}
	globals := M{}
	impl := M{}
	var nodeI *types.Interface
	for _, p := range ps {
		if o := p.Pkg.Scope().Lookup("Node"); o != nil && p.Pkg.Name() == "parse" {
			nodeI, _ = o.Type().Underlying().(*types.Interface)
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || !ours[f.Pkg.Pkg] {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		funcs[fname(f)] = function(f)
	}
	for _, p := range ps {
		for _, mem := range p.Members {
			switch mem := mem.(type) {
			case *ssa.Global:
				globals[short(mem.String())] = ty(mem.Type())
			case *ssa.Function:
				if _, ok := funcs[fname(mem)]; !ok {
					funcs[fname(mem)] = function(mem)
				}
			case *ssa.Type:
				if types.IsInterface(mem.Type()) {
					continue
				}
				t := mem.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					meths := M{}
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						fn := prog.MethodValue(sel)
						if fn == nil {
							continue
						}
						meths[sel.Obj().Name()] = fname(fn)
						if fn.Synthetic == "" {
							if _, ok := funcs[fname(fn)]; !ok {
								funcs[fname(fn)] = function(fn)
							}
						}
					}
					id := ty(tt)
					e := M{"methods": meths}
					if nodeI != nil && types.Implements(tt, nodeI) {
						e["node"] = true
					}
					if len(meths) > 0 {
						impl[id] = e
					}
					_ = sort.Strings
				}
			}
		}
	}
	// constants of each package, by name
	consts := M{}
	for _, p := range ps {
		for _, mem := range p.Members {
			if c, ok := mem.(*ssa.NamedConst); ok {
				consts[short(p.Pkg.Path())+"."+c.Name()] = val(c.Value)["v"]
			}
		}
	}
	out := M{"module": modPfx, "types": typs, "funcs": funcs, "globals": globals, "impl": impl, "consts": consts}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
