package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var globals = map[*ssa.Program]map[string]*Term{}

// globalConst is the value of a package-level variable that is set once, to a
// constant, by its declaration and whose address goes nowhere else.
func (e *Exec) globalConst(a *Term) *Term {
	m := globals[e.Prog]
	if m == nil {
		m = map[string]*Term{}
		globals[e.Prog] = m
		bad := map[string]bool{}
		for _, p := range e.Prog.AllPackages() {
			for _, mem := range p.Members {
				switch mem := mem.(type) {
				case *ssa.Function:
					scanGlobals(mem, m, bad)
				case *ssa.Type:
					if n, ok := mem.Type().(*types.Named); ok {
						for i := 0; i < n.NumMethods(); i++ {
							if f := e.Prog.FuncValue(n.Method(i)); f != nil {
								scanGlobals(f, m, bad)
							}
						}
					}
				}
			}
		}
		for g := range bad {
			delete(m, g)
		}
	}
	return m[a.Aux]
}

func globalName(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func scanGlobals(f *ssa.Function, m map[string]*Term, bad map[string]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					n := globalName(g)
					v := constInit(s.Val)
					if _, dup := m[n]; dup || v == nil || f.Name() != "init" {
						bad[n] = true
					} else {
						m[n] = v
					}
					if gv, ok := s.Val.(*ssa.Global); ok {
						bad[globalName(gv)] = true
					}
					continue
				}
			}
			if u, ok := in.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					if !readOnly(u) {
						bad[globalName(g)] = true
					}
					continue
				}
			}
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if g, ok := (*op).(*ssa.Global); ok {
					bad[globalName(g)] = true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		scanGlobals(a, m, bad)
	}
}

// readOnly: the table read from a package-level variable is only looked at.
func readOnly(u *ssa.UnOp) bool {
	switch u.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
		if isByteSlice(u.Type()) {
			return true
		}
	default:
		return true
	}
	for _, r := range *u.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// constInit is the value that a declaration gives a variable: a constant, a
// function, or a map or slice literal of such.
func constInit(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return Const(v.Value, v.Type())
		}
		return Zero(v.Type())
	case *ssa.Convert:
		if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && isStr(c.Type()) && isByteSlice(v.Type()) {
			return mk("bytes", "", v.Type(), Const(c.Value, c.Type()))
		}
	case *ssa.Function:
		t := mk("func", v.String(), v.Type())
		t.Fn = v
		return t
	case *ssa.ChangeType:
		if t := constInit(v.X); t != nil && (t.Op == "func" || t.Op == "const") {
			return conv(t, v.Type())
		}
	case *ssa.MakeInterface:
		if t := constInit(v.X); t != nil && t.Op == "const" {
			return mk("iface", "", v.X.Type(), t)
		}
	case *ssa.MakeMap:
		var es []*Term
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, el := constInit(r.Key), constInit(r.Value)
				if r.Map != v || k == nil || el == nil {
					return nil
				}
				es = append(es, k, el)
			case *ssa.Store:
				if _, ok := r.Addr.(*ssa.Global); !ok {
					return nil
				}
			case *ssa.DebugRef:
			default:
				return nil
			}
		}
		return mk("constmap", "", v.Type(), es...)
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
			if arr, ok := DerefType(a.Type()).Underlying().(*types.Array); ok {
				return arrayInit(v, a, arr)
			}
		}
	case *ssa.UnOp:
		// a struct literal that is copied
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if st := structOf(v.Type()); st != nil {
				return structInit(v.Type(), a, v)
			}
		}
	}
	return nil
}

func arrayInit(v *ssa.Slice, a *ssa.Alloc, arr *types.Array) *Term {
	if arr.Len() > 64 {
		return nil
	}
	es := make([]*Term, arr.Len())
	for i := range es {
		es[i] = Zero(arr.Elem())
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			c, ok := r.Index.(*ssa.Const)
			if !ok || c.Int64() < 0 || c.Int64() >= int64(len(es)) {
				return nil
			}
			if es[c.Int64()] = cellInit(r, arr.Elem()); es[c.Int64()] == nil {
				return nil
			}
		case *ssa.Slice:
			if r != v {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return mk("slicelit", "", v.Type(), es...)
}

// cellInit is what the stores to an address leave there.
func cellInit(addr ssa.Value, t types.Type) *Term {
	var val *Term
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != addr || val != nil {
				return nil
			}
			if val = constInit(r.Val); val == nil {
				return nil
			}
		case *ssa.FieldAddr:
			if val != nil {
				return nil
			}
			return structInit(t, addr, nil)
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if val == nil {
		return Zero(t)
	}
	return val
}

func structInit(t types.Type, addr ssa.Value, use ssa.Instruction) *Term {
	st := structOf(t)
	if st == nil {
		return nil
	}
	fs := make([]*Term, st.NumFields())
	for i := range fs {
		fs[i] = Zero(st.Field(i).Type())
	}
	for _, r := range *addr.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if fs[r.Field] = cellInit(r, st.Field(r.Field).Type()); fs[r.Field] == nil {
				return nil
			}
		case *ssa.DebugRef:
		default:
			if ssa.Instruction(r) != use || use == nil {
				return nil
			}
		}
	}
	return mk("struct", "", t, fs...)
}
