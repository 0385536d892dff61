package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Reachable lists the repository's functions that the server can run: those
// referenced from main or an init, with every method of a type that is put
// into an interface.
func (c *Ctx) Reachable() map[*ssa.Function]bool {
	if c.reach != nil {
		return c.reach
	}
	seen := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || !c.InRepo(f) {
			return
		}
		seen[f] = true
		todo = append(todo, f)
	}
	types_ := map[string]bool{}
	addType := func(t, to types.Type) {
		k := types.TypeString(t, nil) + " to " + types.TypeString(to, nil)
		if types_[k] {
			return
		}
		types_[k] = true
		ms := c.Prog.MethodSets.MethodSet(t)
		it, _ := to.Underlying().(*types.Interface)
		for i := 0; i < ms.Len(); i++ {
			if !calledThrough(it, ms.At(i).Obj().Name()) {
				continue
			}
			if o, ok := ms.At(i).Obj().(*types.Func); ok {
				add(c.Prog.FuncValue(o))
			}
			add(c.Prog.MethodValue(ms.At(i)))
		}
	}
	for _, p := range c.ByPath {
		if f := p.Func("init"); f != nil {
			add(f)
		}
		if p.Pkg.Name() == "main" {
			add(p.Func("main"))
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, a := range f.AnonFuncs {
			_ = a // added when referenced
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
						if o := g.Origin(); o != nil {
							add(o)
						}
						// a bound method or wrapper stands for the method
						if g.Synthetic != "" {
							if o, ok := g.Object().(*types.Func); ok {
								add(c.Prog.FuncValue(o))
							}
						}
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					addType(mi.X.Type(), mi.Type())
				}
			}
		}
	}
	c.reach = seen
	return seen
}

// ReachableFuncs is Reachable restricted to source functions, in order.
func (c *Ctx) ReachableFuncs() []*ssa.Function {
	re := c.Reachable()
	var r []*ssa.Function
	for _, f := range c.Functions() {
		if re[f] {
			r = append(r, f)
		}
	}
	return r
}

// calledThrough: a method can be called on a value that was put into an
// interface: it is one of the interface's, or one that libraries look for.
func calledThrough(it *types.Interface, name string) bool {
	switch name {
	case "String", "Error", "Format", "GoString", "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText",
		"Resolve", "Schema", "TransformSchema", "GetStatus", "StatusCode", "Unwrap", "Is", "As", "ContentType", "ContentTypeFilter", "Read", "Write", "Close", "ServeHTTP":
		return true
	}
	if it == nil {
		return true
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// calledFromOutside: the method is called by reachable code that is not a
// method of the same type.
func (c *Ctx) calledFromOutside(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	for f := range c.Reachable() {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		if recv != nil && g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), recv.Type()) {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if h, ok := (*op).(*ssa.Function); ok {
						if h == fn || h.Synthetic != "" && h.Object() != nil && h.Object() == fn.Object() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
