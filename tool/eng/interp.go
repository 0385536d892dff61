package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Exit int

const (
	Return Exit = iota
	Panic
	Cut      // loop bound reached: the path prefix is kept, its end is not
	ProcExit // os.Exit, log.Fatal
	Blocked  // receives for ever
)

type Outcome struct {
	Ret  []*Term
	St   *State
	Exit Exit
	Why  string
	Pos  token.Pos
}

type K func(st *State, ret []*Term, x Exit, why string, pos token.Pos)

// Call is one resolved call for a model.
type Call struct {
	E      *Exec
	Fr     *frame
	Instr  ssa.CallInstruction
	Fn     *ssa.Function // resolved callee, may be nil
	Name   string        // canonical name
	Recv   *Term         // interface receiver or method receiver
	Args   []*Term       // without the receiver
	ArgTyp []types.Type
	Sig    *types.Signature
	Pos    token.Pos
	K      K // raw continuation, for models that do not return normally
}

// Model handles a call; it must call k once per outcome and return true, or
// return false to decline.
type Model func(c *Call, st *State, k func(*State, ...*Term)) bool

type Exec struct {
	Prog     *ssa.Program
	InRepo   func(*ssa.Function) bool
	Opaque   func(name string, fn *ssa.Function) bool // analysed as a primitive
	Models   map[string]Model
	Match    []func(c *Call) Model // consulted after Models
	Visits   int
	MaxDepth int
	MaxOut   int
	Overflow bool
	// Limits lists comparisons of something that was counted on the path with
	// a constant that the rounds followed do not reach (no text: one of them
	// does).
	Limits   map[*ssa.If]string
	deeper   int
	root     *ssa.Function
	Unknown  map[string]int // external callees without a model
	Inlined  map[*ssa.Function]int
	Steps    int
	MaxSteps int
	Copies   bool // a copy of a string is a term of its own
	more     map[*Term]mapRound
	Widen    bool                  // counters carried around a loop become symbolic
	Nilable  func(addr *Term) bool // fields that can hold nil; asked when set
	// LenFields: a slice field of a type and the field of the same object that
	// always holds its length
	LenFields map[string]string
	Guard     func(st *State, h *Hazard) // told of instructions that can panic

	n     int
	stack []*ssa.Function
}

// Deeper is by how many more rounds than asked for every loop is followed.
var Deeper int

func New(prog *ssa.Program) *Exec {
	return &Exec{Prog: prog, Models: map[string]Model{}, more: map[*Term]mapRound{}, Visits: 2, MaxDepth: 40, MaxOut: 60000, MaxSteps: 40_000_000,
		Unknown: map[string]int{}, Inlined: map[*ssa.Function]int{}, deeper: Deeper}
}

type deferred struct {
	call ssa.CallInstruction
	fn   *Term
	recv *Term
	args []*Term
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	visits map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]int
	forks  map[*ssa.BasicBlock]int
	depth  int
	up     *frame
}

func (f *frame) clone() *frame {
	g := *f
	g.env = cp(f.env)
	g.defers = append([]deferred(nil), f.defers...)
	g.visits = cp(f.visits)
	g.loops = cp(f.loops)
	g.forks = cp(f.forks)
	return &g
}

func (e *Exec) Fresh(op, hint string, typ types.Type, args ...*Term) *Term {
	e.n++
	return mk(op, fmt.Sprintf("%s#%d", hint, e.n), typ, args...)
}

func (e *Exec) FreshErr(hint string) *Term {
	return e.Fresh("errval", hint, types.Universe.Lookup("error").Type())
}

// AnyErr is a non-nil error of unknown identity (it may equal a sentinel).
func (e *Exec) AnyErr(hint string) *Term {
	return e.Fresh("anyerr", hint, types.Universe.Lookup("error").Type())
}

// Run executes fn on the given arguments (nil entries become symbols).
func (e *Exec) Run(fn *ssa.Function, st *State, args ...*Term) []Outcome {
	var outs []Outcome
	e.root = fn
	full := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			full[i] = args[i]
		} else {
			full[i] = Sym(p.Name(), p.Type())
		}
	}
	fv := make([]*Term, len(fn.FreeVars))
	for i, v := range fn.FreeVars {
		fv[i] = Sym("free."+v.Name(), v.Type())
	}
	if st == nil {
		st = NewState()
	}
	from, steps := st.Clone(), e.Steps
	for {
		e.call(fn, full, fv, st, nil, func(st *State, ret []*Term, x Exit, why string, pos token.Pos) {
			if len(outs) >= e.MaxOut {
				e.Overflow = true
				return
			}
			outs = append(outs, Outcome{ret, st, x, why, pos})
		})
		if !e.Overflow || e.deeper == 0 {
			return outs
		}
		// deeper than fits: as deep as without
		e.Overflow, e.deeper, e.Steps, outs, st = false, 0, steps, nil, from
	}
}

func (e *Exec) RunFunc(t *Term, st *State, args []*Term, k K) {
	e.RunFuncIn(nil, t, st, args, k)
}

// RunFuncIn runs a function value as if called from the given frame.
func (e *Exec) RunFuncIn(fr *frame, t *Term, st *State, args []*Term, k K) {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	var free []*Term
	if t.Op == "closure" {
		free = t.Args
	}
	e.call(t.Fn, args, free, st, fr, k)
}

func (e *Exec) call(fn *ssa.Function, args, free []*Term, st *State, up *frame, k K) {
	depth := 0
	if up != nil {
		depth = up.depth + 1
	}
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, visits: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]int{}, forks: map[*ssa.BasicBlock]int{}, depth: depth, up: up}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		}
	}
	if len(fn.Blocks) == 0 {
		k(st, e.unknownResults(fn.Signature, fn.String(), st), Return, "", fn.Pos())
		return
	}
	e.Inlined[fn]++
	e.run(fr, fn.Blocks[0], nil, 0, st, k)
}

func (e *Exec) val(fr *frame, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Zero(v.Type())
		}
		return Const(v.Value, v.Type())
	case *ssa.Global:
		t := mk("global", v.Pkg.Pkg.Path()+"."+v.Name(), v.Type())
		return t
	case *ssa.Function:
		t := mk("func", v.String(), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return mk("builtin", v.Name(), v.Type())
	case *ssa.FreeVar:
		return Sym("free."+v.Name(), v.Type())
	}
	return e.Fresh("sym", "undef."+v.Name(), v.Type())
}

// unknownResults are fresh symbols for the results of a call.
func (e *Exec) unknownResults(sig *types.Signature, name string, st *State) []*Term {
	r := make([]*Term, sig.Results().Len())
	for i := range r {
		r[i] = e.Fresh("res", shortName(name)+suffix(i, len(r)), sig.Results().At(i).Type())
	}
	return r
}

func suffix(i, n int) string {
	if n == 1 {
		return ""
	}
	return fmt.Sprintf(".%d", i)
}

func (e *Exec) exit(fr *frame, st *State, ret []*Term, x Exit, why string, pos token.Pos, k K) {
	k(st, ret, x, why, pos)
}

// unwind runs the remaining defers of a frame, then leaves it.
func (e *Exec) unwind(fr *frame, st *State, then func(*frame, *State)) {
	if len(fr.defers) == 0 {
		then(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr = fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	e.doCall(fr, d.call, d.fn, d.recv, d.args, st, func(st *State, ret []*Term, x Exit, why string, pos token.Pos) {
		e.unwind(fr.clone(), st, then)
	})
}

func (e *Exec) leave(fr *frame, st *State, x Exit, why string, pos token.Pos, k K) {
	if x == Panic {
		e.unwind(fr, st, func(fr *frame, st *State) { k(st, nil, Panic, why, pos) })
		return
	}
	k(st, nil, x, why, pos)
}

func (e *Exec) run(fr *frame, b, prev *ssa.BasicBlock, i int, st *State, k K) {
	if e.Overflow {
		return
	}
	if i == 0 && prev != nil {
		// phis read their operands simultaneously
		pi := -1
		for j, p := range b.Preds {
			if p == prev {
				pi = j
				break
			}
		}
		vals := map[ssa.Value]*Term{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = e.val(fr, phi.Edges[pi])
		}
		for v, t := range vals {
			if e.Widen && b.Dominates(prev) && v.(*ssa.Phi).Comment != "rangeindex" {
				t = e.widen(st, fr.env[v], t)
			}
			fr.env[v] = t
		}
	}
	for ; i < len(b.Instrs); i++ {
		e.Steps++
		if e.Steps > e.MaxSteps {
			e.Overflow = true
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			hint := in.Comment
			if hint == "" {
				hint = "alloc"
			}
			t := e.Fresh("alloc", hint, in.Type())
			st.owned[t] = true
			fr.env[in] = t
		case *ssa.UnOp:
			if !e.unop(fr, in, st, func(st *State, x Exit, why string) { e.leave(fr, st, x, why, in.Pos(), k) }) {
				return
			}
		case *ssa.BinOp:
			if e.Guard != nil && (in.Op == token.QUO || in.Op == token.REM) && isInt(e.val(fr, in.X)) {
				e.guard(fr.fn, st, Hazard{Kind: "divide", X: e.val(fr, in.Y), Pos: in.Pos()})
			}
			fr.env[in] = e.binop(in.Op, e.val(fr, in.X), e.val(fr, in.Y), in.Type(), st)
		case *ssa.ChangeType:
			fr.env[in] = conv(e.val(fr, in.X), in.Type())
		case *ssa.Convert:
			fr.env[in] = e.convert(st, e.val(fr, in.X), in.X.Type(), in.Type())
		case *ssa.MultiConvert:
			fr.env[in] = conv(e.val(fr, in.X), in.Type())
		case *ssa.ChangeInterface:
			fr.env[in] = e.val(fr, in.X)
		case *ssa.MakeInterface:
			fr.env[in] = mk("iface", "", in.X.Type(), e.val(fr, in.X))
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			args := make([]*Term, len(in.Bindings))
			for j, bv := range in.Bindings {
				args[j] = e.val(fr, bv)
			}
			t := mk("closure", fn.String(), in.Type(), args...)
			t.Fn = fn
			fr.env[in] = t
		case *ssa.MakeMap:
			t := e.Fresh("makemap", "map", in.Type())
			st.owned[t] = true
			fr.env[in] = t
		case *ssa.MakeChan:
			t := e.Fresh("makechan", "chan", in.Type(), e.val(fr, in.Size))
			fr.env[in] = t
		case *ssa.MakeSlice:
			t := e.Fresh("makeslice", "slice", in.Type(), e.val(fr, in.Len))
			e.guard(fr.fn, st, Hazard{Kind: "make", X: e.val(fr, in.Len), Lo: e.val(fr, in.Cap), Pos: in.Pos()})
			st.owned[t] = true
			if isByteSlice(in.Type()) {
				e.SetBytes(st, t, zeros(stripCmp(e.val(fr, in.Len))))
			}
			fr.env[in] = t
			if n, ok := e.val(fr, in.Len).IntVal(); ok && n < 0 {
				e.panicAt(fr, st, in.Pos(), "make with a negative length", k)
				return
			}
		case *ssa.Slice:
			fr.env[in] = e.slice(fr, in, st)
		case *ssa.FieldAddr:
			base := e.val(fr, in.X)
			if e.nilCheck(fr, st, base, in.Pos(), "field of a nil pointer", k) {
				return
			}
			f := structOf(in.X.Type().Underlying().(*types.Pointer).Elem()).Field(in.Field)
			fr.env[in] = mk("fieldaddr", f.Name(), in.Type(), base)
		case *ssa.Field:
			f := structOf(in.X.Type()).Field(in.Field)
			fr.env[in] = Field(e.val(fr, in.X), f.Name(), f.Type())
		case *ssa.IndexAddr:
			x, idx := e.val(fr, in.X), e.val(fr, in.Index)
			base := x
			if x.Op == "sliceof" && x.Aux == "full" {
				base = x.Args[0]
			}
			st.Emit(&Event{Kind: "index", Args: []*Term{x, idx}, Pos: in.Pos(), In: fr.fn})
			if e.Guard != nil {
				e.guard(fr.fn, st, Hazard{Kind: "index", X: x, Lo: idx, Len: e.lengthOf(st, x, in.X.Type()), Pos: in.Pos()})
			}
			fr.env[in] = mk("idxaddr", "", in.Type(), base, idx)
		case *ssa.Index:
			if e.Guard != nil {
				x := e.val(fr, in.X)
				e.guard(fr.fn, st, Hazard{Kind: "index", X: x, Lo: e.val(fr, in.Index), Len: e.lengthOf(st, x, in.X.Type()), Pos: in.Pos()})
			}
			fr.env[in] = e.index(st, e.val(fr, in.X), e.val(fr, in.Index), in.Type())
		case *ssa.Lookup:
			if m := e.val(fr, in.X); m.Op == "constmap" {
				e.lookupConst(fr, in, b, i, m, st, k)
				return
			}
			fr.env[in] = e.lookup(fr, in, st)
		case *ssa.MapUpdate:
			m, key, v := e.val(fr, in.Map), e.val(fr, in.Key), e.val(fr, in.Value)
			if st.KnownNil(m) {
				e.panicAt(fr, st, in.Pos(), "assignment to an entry of a nil map", k)
				return
			}
			if st.mayBe(m) {
				st.Emit(&Event{Kind: "maybenil", Name: "assignment to an entry of a map that may be nil", Recv: m, Pos: in.Pos(), In: fr.fn})
				e.guard(fr.fn, st, Hazard{Kind: "nil", What: "assignment to an entry of a map that may be nil", X: m, Pos: in.Pos()})
				st.Assume(IsNil(m), false)
			}
			st.Emit(&Event{Kind: "mapset", Recv: m, Args: []*Term{key, v}, Pos: in.Pos(), In: fr.fn, Owned: st.isOwned(m)})
			st.mem[mapElem(m, key)] = v
			st.Bump(m)
			st.keepInitial(m, key)
			st.facts[hasKey(m, key, 0)] = true
			if !st.isOwned(m) {
				st.escape(v)
			}
		case *ssa.Extract:
			t := e.val(fr, in.Tuple)
			if t.Op == "tuple" && in.Index < len(t.Args) {
				fr.env[in] = t.Args[in.Index]
			} else {
				fr.env[in] = mk("proj", fmt.Sprint(in.Index), in.Type(), t)
			}
		case *ssa.TypeAssert:
			if !e.typeAssert(fr, in, b, i, st, k) {
				return
			}
		case *ssa.Store:
			a, v := e.val(fr, in.Addr), e.val(fr, in.Val)
			if e.nilCheck(fr, st, a, in.Pos(), "store through a nil pointer", k) {
				return
			}
			typ := in.Val.Type()
			st.Emit(&Event{Kind: "wr", Recv: a, Args: []*Term{v}, Pos: in.Pos(), In: fr.fn, Owned: st.isOwned(a), Elem: typ})
			if !st.isOwned(a) {
				st.escape(v)
			}
			if a.Op == "idxaddr" {
				if base, off, ok := bufOf(a.Args[0]); ok && (base.Op == "alloc" || isByteSlice(base.Typ)) {
					el := mk("byte", "", nil, v)
					if n, ok := v.IntVal(); ok {
						el = Str(string([]byte{byte(n)}))
					}
					at := foldBin(token.ADD, off, stripCmp(a.Args[1]), types.Typ[types.Int])
					e.patch(st, mk("bufslice", "", nil, base, at, Nil), el)
				}
			}
			st.Store(a, v, typ)
		case *ssa.Range:
			x := e.val(fr, in.X)
			fr.env[in] = e.Fresh("range", "range", in.Type(), x)
			st.Emit(&Event{Kind: "range", Recv: x, Pos: in.Pos(), In: fr.fn, Owned: st.isOwned(x)})
		case *ssa.Next:
			it := e.val(fr, in.Iter)
			ok := e.Fresh("sym", "more", types.Typ[types.Bool])
			tup := in.Type().(*types.Tuple)
			kt := e.Fresh("sym", "rangekey", tup.At(1).Type())
			vt := e.Fresh("sym", "rangeval", tup.At(2).Type())
			if len(it.Args) == 1 && !in.IsString {
				st.vers[it]++
				e.more[ok] = mapRound{it.Args[0], int64(st.vers[it])}
				if emptyMap(st, it.Args[0]) {
					ok = Bool(false)
				}
				vt = mk("rangeval", "", tup.At(2).Type(), it.Args[0], kt)
			}
			fr.env[in] = mk("tuple", "", nil, ok, kt, vt)
		case *ssa.Go:
			fnT, recv, args := e.callee(fr, &in.Call)
			ev := &Event{Kind: "go", Recv: recv, Args: append([]*Term{fnT}, args...), Pos: in.Pos(), In: fr.fn, Callee: fnOf(fnT)}
			if in.Call.IsInvoke() {
				ev.Name = methodName(in.Call.Method)
			} else if ev.Callee != nil {
				ev.Name = ev.Callee.String()
			}
			st.Emit(ev)
			if recv != nil {
				st.escape(recv)
			}
			st.escape(fnT)
			for _, a := range args {
				st.escape(a)
			}
		case *ssa.Defer:
			fnT, recv, args := e.callee(fr, &in.Call)
			fr.defers = append(append([]deferred(nil), fr.defers...), deferred{in, fnT, recv, args})
		case *ssa.RunDefers:
			bb, idx := b, i
			e.unwind(fr, st, func(fr *frame, st *State) { e.run(fr, bb, nil, idx+1, st, k) })
			return
		case *ssa.Send:
			ch := e.val(fr, in.Chan)
			st.Emit(&Event{Kind: "send", Recv: ch, Args: []*Term{e.val(fr, in.X)}, Pos: in.Pos(), In: fr.fn})
		case *ssa.Select:
			e.sel(fr, in, b, i, st, k)
			return
		case *ssa.Call:
			fnT, recv, args := e.callee(fr, &in.Call)
			bb, idx := b, i
			e.doCall(fr, in, fnT, recv, args, st, func(st *State, ret []*Term, x Exit, why string, pos token.Pos) {
				if x != Return {
					e.leave(fr.clone(), st, x, why, pos, k)
					return
				}
				fr2 := fr.clone()
				switch len(ret) {
				case 0:
				case 1:
					fr2.env[in] = ret[0]
				default:
					fr2.env[in] = mk("tuple", "", nil, ret...)
				}
				if in.Call.Signature().Results().Len() > 1 && len(ret) == 1 {
					fr2.env[in] = mk("tuple", "", nil, ret...)
				}
				e.run(fr2, bb, nil, idx+1, st, k)
			})
			return
		case *ssa.Panic:
			v := e.val(fr, in.X)
			e.guard(fr.fn, st, Hazard{Kind: "panic", What: "panic", X: v, Pos: in.Pos()})
			st.Emit(&Event{Kind: "panic", Args: []*Term{v}, Pos: in.Pos(), In: fr.fn})
			e.leave(fr, st, Panic, "panic("+v.String()+")", in.Pos(), k)
			return
		case *ssa.Return:
			ret := make([]*Term, len(in.Results))
			for j, r := range in.Results {
				ret[j] = e.val(fr, r)
			}
			k(st, ret, Return, "", in.Pos())
			return
		case *ssa.Jump:
			e.jump(fr, b, b.Succs[0], st, k)
			return
		case *ssa.If:
			e.farLimit(fr, in)
			e.branch(fr, b, e.val(fr, in.Cond), in, st, k)
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = e.Fresh("sym", fmt.Sprintf("%T", in), v.Type())
			}
		}
	}
}

// farLimit notes a comparison with a constant of a number that the path has
// counted up but not as far as that constant: what happens from there on is not
// seen.
func (e *Exec) farLimit(fr *frame, in *ssa.If) {
	c, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y := c.X, c.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return
	}
	limit, ok := constant.Int64Val(k.Value)
	if !ok || limit < 4 {
		return
	}
	v := e.val(fr, x)
	n, ok := Unwrap(v).IntVal()
	if !ok || n < 0 || !counted(x, map[ssa.Value]bool{}) {
		return
	}
	if e.Limits == nil {
		e.Limits = map[*ssa.If]string{}
	}
	if why, seen := e.Limits[in]; n >= limit || seen && why == "" {
		e.Limits[in] = "" // followed to the end
		return
	}
	e.Limits[in] = fmt.Sprintf("%s is compared with %d", x.Name(), limit)
}

// counted: the value depends on something that changes from round to round or
// from call to call.
func counted(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL // a variable
	case *ssa.BinOp:
		return counted(v.X, seen) || counted(v.Y, seen)
	case *ssa.Convert:
		return counted(v.X, seen)
	case *ssa.ChangeType:
		return counted(v.X, seen)
	case *ssa.Extract:
		return counted(v.Tuple, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return counted(v.Call.Args[0], seen)
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return true
		}
	}
	return false
}

// widen replaces a counter that grew around a loop by an unknown that is at
// least as large.
func (e *Exec) widen(st *State, old, new *Term) *Term {
	if old == nil || old == new {
		return new
	}
	n, ok := st.lowerBound(new)
	if !ok {
		return new
	}
	if o, ok := st.lowerBound(old); !ok || n <= o {
		return new
	}
	if _, isStr := new.StrVal(); isStr {
		return new
	}
	s := e.Fresh("sym", "loopcount", new.Typ)
	st.lb[s] = n
	return s
}

func (e *Exec) jump(fr *frame, from, to *ssa.BasicBlock, st *State, k K) {
	// a loop without a branch of its own
	if to.Dominates(from) {
		key := to
		fr.visits[key]++
		// an iteration during which the path forked is not a counted loop
		n := 300
		if fr.forks[key] != st.forks {
			fr.loops[key]++
			fr.forks[key] = st.forks
			if fr.loops[key] > e.Visits+1+e.deeper {
				n = 301
			}
		}
		if fr.visits[key] > 300 || n > 300 {
			k(st, nil, Cut, "loop", token.NoPos)
			return
		}
	}
	e.run(fr, to, from, 0, st, k)
}

func (e *Exec) branch(fr *frame, b *ssa.BasicBlock, c *Term, in *ssa.If, st *State, k K) {
	if v, ok := st.Decide(c); ok {
		to := b.Succs[1]
		if v {
			to = b.Succs[0]
		}
		e.jump(fr, b, to, st, k)
		return
	}
	fr.visits[b]++
	if fr.visits[b] > e.Visits+1+e.deeper {
		k(st, nil, Cut, "loop bound", in.Pos())
		return
	}
	st2, fr2 := st.Clone(), fr.clone()
	st.Assume(c, true)
	st2.Assume(c, false)
	e.nextRound(st, c)
	e.jump(fr, b, b.Succs[0], st, k)
	e.jump(fr2, b, b.Succs[1], st2, k)
}

// mapRound: the round of a loop over a map.
type mapRound struct {
	m *Term
	n int64
}

// nextRound: a loop over a map that nothing changed meanwhile comes to its
// n-th round only if the map has n entries.
func (e *Exec) nextRound(st *State, c *Term) {
	r, ok := e.more[c]
	if !ok {
		return
	}
	for _, ev := range st.Events() {
		switch ev.Kind {
		case "unlock", "select", "recv":
			return
		case "mapset", "mapdel":
			if ev.Recv == r.m {
				return
			}
		}
	}
	st.Assume(Binop(token.LSS, LenOf(r.m), Int(r.n), types.Typ[types.Bool]), false)
}

func (e *Exec) panicAt(fr *frame, st *State, pos token.Pos, why string, k K) {
	e.guard(fr.fn, st, Hazard{Kind: "panic", What: why, Pos: pos})
	st.Emit(&Event{Kind: "panic", Name: why, Pos: pos, In: fr.fn})
	e.leave(fr, st, Panic, why, pos, k)
}

// nilCheck ends the path if the pointer is known to be nil, and records a
// use of a pointer that may be nil and was never tested.
func (e *Exec) nilCheck(fr *frame, st *State, p *Term, pos token.Pos, why string, k K) bool {
	if p.Op == "alloc" || p.Op == "fieldaddr" || p.Op == "idxaddr" || p.Op == "global" {
		return false
	}
	if st.KnownNil(p) {
		st.Emit(&Event{Kind: "nilderef", Name: why, Recv: p, Pos: pos, In: fr.fn})
		e.guard(fr.fn, st, Hazard{Kind: "nil", What: why, X: p, Pos: pos})
		e.leave(fr, st, Panic, "nil dereference: "+why, pos, k)
		return true
	}
	if st.mayBe(p) {
		st.Emit(&Event{Kind: "maybenil", Name: why, Recv: p, Pos: pos, In: fr.fn})
		e.guard(fr.fn, st, Hazard{Kind: "nil", What: why, X: p, Pos: pos})
		st.Assume(IsNil(p), false)
	}
	return false
}

// mayBe: a value marked as possibly nil that the path did not test.
func (st *State) mayBe(p *Term) bool {
	for p.Op == "conv" {
		p = p.Args[0]
	}
	if !st.maybe[p] {
		return false
	}
	if p.Op == "mapget" && st.facts[hasKey(p.Args[0], p.Args[1], 0)] {
		return false
	}
	_, known := st.Decide(IsNil(p))
	return !known
}

// nilable marks a value loaded from a place that can hold nil.
func (e *Exec) nilable(st *State, v *Term, typ types.Type) {
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
	default:
		return
	}
	switch v.Op {
	case "field", "mapget", "deref", "sym", "index":
		if v.Op == "sym" && !strings.HasPrefix(v.Aux, "some:") {
			return // a parameter
		}
		if _, known := st.Decide(IsNil(v)); !known {
			st.maybe[v] = true
		}
	}
}

// MayBeNil marks a value that can be nil until it is tested.
func (st *State) MayBeNil(t *Term) { st.maybe[t] = true }

func conv(x *Term, typ types.Type) *Term {
	if x.Op == "nil" {
		return Zero(typ)
	}
	if x.Op == "const" {
		return Const(x.C, typ)
	}
	if x.Op == "conv" && types.Identical(x.Args[0].typOr(typ), typ) {
		return x.Args[0]
	}
	if x.Op == "struct" || x.Op == "zero" {
		r := mk(x.Op, x.Aux, typ, x.Args...)
		return r
	}
	r := mk("conv", "", typ, x)
	r.Fn = x.Fn
	return r
}

func (t *Term) typOr(d types.Type) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Exec) convert(st *State, x *Term, from, to types.Type) *Term {
	switch {
	case isStr(from) && isByteSlice(to):
		return mk("bytes", "", to, x)
	case isByteSlice(from) && isStr(to):
		if e.Copies {
			return mk("copy", "", to, e.Bytes(st, x))
		}
		return mk("conv", "", to, e.Bytes(st, x))
	}
	if c := x; c.Op == "const" {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			v := c.C
			if tb.Info()&types.IsInteger != 0 {
				v = constant.ToInt(v)
			} else if tb.Info()&types.IsFloat != 0 {
				v = constant.ToFloat(v)
			}
			if v.Kind() != constant.Unknown {
				return Const(v, to)
			}
		}
		return mk("conv", "", to, x)
	}
	if narrows(from, to) {
		return mk("narrow", to.String(), to, x)
	}
	return conv(x, to)
}

// narrows: the numeric conversion can lose part of the value.
func narrows(from, to types.Type) bool {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || fb.Info()&types.IsNumeric == 0 || tb.Info()&types.IsNumeric == 0 {
		return false
	}
	if fb.Info()&types.IsFloat != 0 {
		return tb.Info()&types.IsInteger != 0 || sizeof(tb) < sizeof(fb)
	}
	return tb.Info()&types.IsInteger != 0 && sizeof(tb) < sizeof(fb)
}

func sizeof(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

// Bytes resolves a byte slice to its contents where they are known.
func (e *Exec) Bytes(st *State, x *Term) *Term {
	for {
		switch x.Op {
		case "bytes", "conv", "iface", "aliased":
			x = x.Args[0]
			continue
		}
		break
	}
	if x.Op == "bufslice" {
		hi := x.Args[2]
		if hi.Op == "nil" {
			hi = nil
		}
		if r, ok := sliceBytes(e.Bytes(st, x.Args[0]), x.Args[1], hi); ok {
			return r
		}
		return mk("sliced", "", nil, append([]*Term{e.Bytes(st, x.Args[0])}, x.Args[1:]...)...)
	}
	if v, ok := st.mem[mk("content", "", nil, bufBase(x))]; ok && (x.Op != "sliceof" || x.Aux == "full") {
		return v
	}
	if b := bufBase(x); b.Op == "alloc" && b != x && arrayLen(b) >= 0 && !st.escaped[b] {
		return zeros(Int(arrayLen(b)))
	}
	return x
}

func bufBase(x *Term) *Term {
	for x.Op == "sliceof" && x.Aux == "full" || x.Op == "conv" {
		x = x.Args[0]
	}
	return x
}

// bufOf finds the buffer a byte slice is a part of, and where it begins.
func bufOf(x *Term) (base, off *Term, ok bool) {
	for x.Op == "conv" {
		x = x.Args[0]
	}
	off = Int(0)
	if x.Op == "bufslice" {
		off, x = x.Args[1], x.Args[0]
	}
	b := bufBase(x)
	if b.Op == "makeslice" {
		return b, off, true
	}
	if b.Op == "alloc" && arrayLen(b) >= 0 {
		return b, off, true
	}
	return nil, nil, false
}

func arrayLen(b *Term) int64 {
	if p := Deref(b); p != nil {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			if bt, ok := a.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
				return a.Len()
			}
		}
	}
	return -1
}

// zeros is n zero bytes.
func zeros(n *Term) *Term {
	if v, ok := n.IntVal(); ok && v >= 0 && v <= 4096 {
		return Str(string(make([]byte, v)))
	}
	return mk("zeros", "", nil, n)
}

// patch overwrites a part of a buffer.
func (e *Exec) patch(st *State, dst, src *Term) {
	base, off, ok := bufOf(dst)
	if !ok {
		e.SetBytes(st, dst, src)
		return
	}
	old := e.Bytes(st, base)
	if old == base && base.Op == "alloc" {
		old = zeros(Int(arrayLen(base)))
	}
	end := foldBin(token.ADD, off, LenOf(src), types.Typ[types.Int])
	pre, ok1 := sliceBytes(old, Int(0), off)
	post, ok2 := sliceBytes(old, end, nil)
	if !ok1 || !ok2 {
		e.havocBuf(st, dst)
		return
	}
	e.SetBytes(st, base, Concat(pre, src, post))
}

func (e *Exec) havocBuf(st *State, dst *Term) {
	if base, _, ok := bufOf(dst); ok {
		e.SetBytes(st, base, e.Fresh("sym", "buf", nil))
	}
}

// SetBytes sets the contents of a buffer.
func (e *Exec) SetBytes(st *State, buf, content *Term) {
	st.mem[mk("content", "", nil, bufBase(buf))] = content
}

func (e *Exec) slice(fr *frame, in *ssa.Slice, st *State) *Term {
	x := e.val(fr, in.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.val(fr, v)
	}
	lo, hi := get(in.Low), get(in.High)
	if e.Guard != nil && (lo != nil && !isZeroConst(lo) || hi != nil || in.Max != nil) {
		h := Hazard{Kind: "slice", X: x, Lo: lo, Hi: hi, Len: e.lengthOf(st, x, in.X.Type()), Pos: in.Pos()}
		if h.Lo == nil {
			h.Lo = Int(0)
		}
		if in.Max != nil {
			h.What = "max"
		}
		e.guard(fr.fn, st, h)
	}
	if isStr(in.X.Type()) {
		if (lo == nil || isZeroConst(lo)) && hi == nil {
			return x
		}
	}
	if (lo == nil || isZeroConst(lo)) && hi == nil && in.Max == nil {
		if x.Op == "sliceof" {
			return x
		}
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			return mk("sliceof", "full", in.Type(), x)
		}
		return x
	}
	if lo == nil {
		lo = Int(0)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok && isZeroConst(lo) && hi != nil && in.Max == nil {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			if n, ok := hi.IntVal(); ok && n == a.Len() {
				return mk("sliceof", "full", in.Type(), x)
			}
		}
	}
	if base, off, ok := bufOf(x); ok && isByteSlice(in.Type()) {
		st.Emit(&Event{Kind: "slice", Recv: x, Args: []*Term{lo, orNil(hi)}, Pos: in.Pos(), In: fr.fn, Owned: true})
		if hi != nil {
			hi = foldBin(token.ADD, off, stripCmp(hi), types.Typ[types.Int])
		} else if x.Op == "bufslice" {
			hi = x.Args[2]
		}
		lo = foldBin(token.ADD, off, stripCmp(lo), types.Typ[types.Int])
		return mk("bufslice", "", in.Type(), base, lo, orNil(hi))
	}
	if isByteSlice(in.X.Type()) || isStr(in.X.Type()) {
		x = e.Bytes(st, x)
		if r, ok := sliceBytes(x, lo, hi); ok {
			if isStr(in.Type()) {
				return r
			}
			return mk("bytes", "", in.Type(), r)
		}
	}
	st.Emit(&Event{Kind: "slice", Recv: x, Args: []*Term{lo, orNil(hi)}, Pos: in.Pos(), In: fr.fn})
	if hi == nil {
		return mk("sliceof", "from", in.Type(), x, lo)
	}
	return mk("sliceof", "range", in.Type(), x, lo, hi)
}

func orNil(t *Term) *Term {
	if t == nil {
		return Nil
	}
	return t
}

func (e *Exec) index(st *State, x, i *Term, typ types.Type) *Term {
	return mk("index", "", typ, x, i)
}

// lookupConst looks a key up in a table that never changes.
func (e *Exec) lookupConst(fr *frame, in *ssa.Lookup, b *ssa.BasicBlock, i int, m *Term, st *State, k K) {
	key := e.val(fr, in.Index)
	set := func(fr *frame, v *Term, ok bool) {
		if in.CommaOk {
			v = mk("tuple", "", nil, v, Bool(ok))
		}
		fr.env[in] = v
	}
	for j := 0; j+1 < len(m.Args); j += 2 {
		eq := Eq(key, m.Args[j])
		is, known := st.Decide(eq)
		if known && !is {
			continue
		}
		if known {
			set(fr, m.Args[j+1], true)
			e.run(fr, b, nil, i+1, st, k)
			return
		}
		fr2, st2 := fr.clone(), st.Clone()
		st2.Assume(eq, true)
		st.Assume(eq, false)
		set(fr2, m.Args[j+1], true)
		e.run(fr2, b, nil, i+1, st2, k)
	}
	set(fr, Zero(in.X.Type().Underlying().(*types.Map).Elem()), false)
	e.run(fr, b, nil, i+1, st, k)
}

func (e *Exec) lookup(fr *frame, in *ssa.Lookup, st *State) *Term {
	m, key := e.val(fr, in.X), e.val(fr, in.Index)
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		st.Emit(&Event{Kind: "index", Args: []*Term{m, key}, Pos: in.Pos(), In: fr.fn})
		if e.Guard != nil {
			e.guard(fr.fn, st, Hazard{Kind: "index", X: m, Lo: key, Len: e.lengthOf(st, m, in.X.Type()), Pos: in.Pos()})
		}
		return mk("index", "", in.Type(), m, key)
	}
	st.Emit(&Event{Kind: "mapget", Recv: m, Args: []*Term{key}, Pos: in.Pos(), In: fr.fn, Owned: st.isOwned(m)})
	el := mapElem(m, key)
	hk := hasKey(m, key, 0)
	v, has := st.mem[el]
	known, kok := st.facts[hk]
	if !kok && emptyMap(st, m) {
		known, kok = false, true
		st.facts[hk] = false
	}
	if !kok {
		// what was read before is not nil, so it is there
		if isNil, ok := st.Decide(IsNil(mk("mapget", "", mt.Elem(), m, normKey(key)))); ok && !isNil {
			known, kok = true, true
			st.facts[hk] = true
		}
	}
	if !has {
		v = mk("mapget", "", mt.Elem(), m, normKey(key))
		if e.Nilable != nil && !(kok && known) {
			e.nilable(st, v, mt.Elem())
		}
	}
	if kok && !known {
		v = Zero(mt.Elem())
	}
	if in.CommaOk {
		ok := hk
		if kok {
			ok = Bool(known)
		} else {
			v = mk("ifhas", "", mt.Elem(), v, hk)
			v = v.Args[0]
		}
		return mk("tuple", "", nil, v, ok)
	}
	return v
}

func (e *Exec) unop(fr *frame, in *ssa.UnOp, st *State, leave func(*State, Exit, string)) bool {
	x := e.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		if x.Op != "alloc" && x.Op != "fieldaddr" && x.Op != "idxaddr" && x.Op != "global" {
			if st.KnownNil(x) {
				st.Emit(&Event{Kind: "nilderef", Name: "load", Recv: x, Pos: in.Pos(), In: fr.fn})
				e.guard(fr.fn, st, Hazard{Kind: "nil", What: "load", X: x, Pos: in.Pos()})
				leave(st, Panic, "nil dereference")
				return false
			}
			if st.mayBe(x) {
				st.Emit(&Event{Kind: "maybenil", Name: "load", Recv: x, Pos: in.Pos(), In: fr.fn})
				e.guard(fr.fn, st, Hazard{Kind: "nil", What: "load", X: x, Pos: in.Pos()})
				st.Assume(IsNil(x), false)
			}
		}
		typ := in.Type()
		if e.Nilable != nil && x.Op == "fieldaddr" && e.Nilable(x) {
			defer func() {
				if w := fr.env[in]; w != nil {
					e.nilable(st, w, typ)
				}
			}()
		}
		v := e.loadGlobalErr(x, typ)
		if v == nil && x.Op == "global" {
			if _, stored := st.mem[x]; !stored {
				v = e.globalConst(x)
			}
		}
		if v == nil {
			v = st.Load(x, typ)
		}
		if x.Op != "alloc" {
			st.Emit(&Event{Kind: "rd", Recv: x, Res: []*Term{v}, Pos: in.Pos(), In: fr.fn, Owned: st.isOwned(x), Elem: typ})
		}
		fr.env[in] = v
	case token.NOT:
		if b, ok := x.BoolVal(); ok {
			fr.env[in] = Bool(!b)
		} else if x.Op == "un" && x.Aux == "!" {
			fr.env[in] = x.Args[0]
		} else {
			fr.env[in] = mk("un", "!", in.Type(), x)
		}
	case token.SUB:
		if x.Op == "const" {
			fr.env[in] = Const(constant.UnaryOp(token.SUB, x.C, 0), in.Type())
		} else {
			fr.env[in] = mk("un", "-", in.Type(), x)
		}
	case token.ARROW:
		ev := &Event{Kind: "recv", Recv: x, Pos: in.Pos(), In: fr.fn}
		if in.CommaOk {
			tup := in.Type().(*types.Tuple)
			ev.Res = []*Term{e.Fresh("sym", "recv", tup.At(0).Type(), x), e.Fresh("sym", "recvok", types.Typ[types.Bool], x)}
			if _, ok := Period(st, x); ok {
				ev.Res[1] = Bool(true) // tickers and timers are never closed
			}
			fr.env[in] = mk("tuple", "", nil, ev.Res...)
		} else {
			ev.Res = []*Term{e.Fresh("sym", "recv", in.Type(), x)}
			fr.env[in] = ev.Res[0]
		}
		st.Emit(ev)
	default:
		fr.env[in] = mk("un", in.Op.String(), in.Type(), x)
	}
	return true
}

// loadGlobalErr: package-level error variables are sentinels, distinct from
// each other and from every freshly made error.
func (e *Exec) loadGlobalErr(a *Term, typ types.Type) *Term {
	if a.Op == "global" && types.Identical(typ, types.Universe.Lookup("error").Type()) {
		return mk("errval", a.Aux, typ)
	}
	return nil
}

// Sentinel is the value of a package-level error variable.
func Sentinel(name string) *Term {
	return mk("errval", name, types.Universe.Lookup("error").Type())
}

func (e *Exec) binop(op token.Token, x, y *Term, typ types.Type, st *State) *Term {
	if eq, s, ok := emptyTest(op, x, y); ok {
		return foldBin(eq, s, Const(constant.MakeString(""), s.Typ), typ)
	}
	return foldBin(op, x, y, typ)
}

// emptyTest: a comparison of the length of a string that tells whether the
// string is empty.
func emptyTest(op token.Token, x, y *Term) (token.Token, *Term, bool) {
	if x.Op == "const" {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n, ok := y.IntVal()
	if !ok || x.Op != "call" || x.Aux != "len" || len(x.Args) != 1 || x.Args[0].Typ == nil || !isStr(x.Args[0].Typ) {
		return op, nil, false
	}
	switch {
	case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
		return token.EQL, x.Args[0], true
	case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		return token.NEQ, x.Args[0], true
	}
	return op, nil, false
}

func fnOf(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t.Fn
}

func methodName(m *types.Func) string { return m.FullName() }

// callee evaluates the operands of a call: function value, receiver of an
// interface call, arguments.
func (e *Exec) callee(fr *frame, c *ssa.CallCommon) (fnT, recv *Term, args []*Term) {
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if c.IsInvoke() {
		return nil, e.val(fr, c.Value), args
	}
	return e.val(fr, c.Value), nil, args
}

func canonName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok {
		return obj.FullName()
	}
	return fn.String()
}

// CanonName is the name models and rules know a function by.
func CanonName(fn *ssa.Function) string { return canonName(fn) }

func (e *Exec) doCall(fr *frame, in ssa.CallInstruction, fnT, recv *Term, args []*Term, st *State, k K) {
	cc := in.Common()
	pos := in.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		e.builtin(fr, b.Name(), cc, args, st, pos, k)
		return
	}
	c := &Call{E: e, Fr: fr, Instr: in, Sig: cc.Signature(), Pos: pos, Args: args}
	var fn *ssa.Function
	var free []*Term
	full := args
	if cc.IsInvoke() {
		c.Name = methodName(cc.Method)
		c.Recv = recv
		r := recv
		for r.Op == "conv" {
			r = r.Args[0]
		}
		if r.Op == "nil" || st.KnownNil(recv) {
			st.Emit(&Event{Kind: "nilderef", Name: "method of a nil interface: " + c.Name, Recv: recv, Pos: pos, In: fr.fn})
			e.guard(fr.fn, st, Hazard{Kind: "nil", What: "method of a nil interface: " + c.Name, X: recv, Pos: pos})
			k(st, nil, Panic, "method call on a nil interface", pos)
			return
		}
		if st.mayBe(recv) {
			st.Emit(&Event{Kind: "maybenil", Name: "method call " + c.Name, Recv: recv, Pos: pos, In: fr.fn})
			e.guard(fr.fn, st, Hazard{Kind: "nil", What: "method call " + c.Name, X: recv, Pos: pos})
			st.Assume(IsNil(recv), false)
		}
		if r.Op == "iface" {
			if m := e.lookupMethod(r.Typ, cc.Method); m != nil {
				fn = m
				full = append([]*Term{r.Args[0]}, args...)
				c.Name = canonName(fn)
				c.Recv = r.Args[0]
			}
		}
	} else {
		fn = fnOf(fnT)
		if fn != nil {
			t := fnT
			for t.Op == "conv" {
				t = t.Args[0]
			}
			if t.Op == "closure" {
				free = t.Args
			}
			c.Name = canonName(fn)
			if fn.Signature.Recv() != nil && len(args) > 0 {
				c.Recv = args[0]
				c.Args = args[1:]
			} else if len(free) == 1 && strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
				c.Recv = free[0]
			}
		} else {
			c.Name = "dynamic"
			c.Recv = fnT
			if st.KnownNil(fnT) {
				st.Emit(&Event{Kind: "nilderef", Name: "call of a nil function", Recv: fnT, Pos: pos, In: fr.fn})
				e.guard(fr.fn, st, Hazard{Kind: "nil", What: "call of a nil function", X: fnT, Pos: pos})
				k(st, nil, Panic, "call of a nil function", pos)
				return
			}
		}
	}
	c.Fn = fn
	kk := func(st *State, ret ...*Term) { k(st, ret, Return, "", pos) }
	c.K = k
	opaque := e.Opaque != nil && e.Opaque(c.Name, fn)
	if !opaque {
		if m, ok := e.Models[c.Name]; ok {
			if m(c, st, kk) {
				return
			}
		}
		for _, mm := range e.Match {
			if m := mm(c); m != nil {
				if m(c, st, kk) {
					return
				}
			}
		}
		if fatal(c) {
			e.guard(fr.fn, st, Hazard{Kind: "exit", What: c.Name, Pos: pos})
			st.Emit(&Event{Kind: "exit", Name: c.Name, Pos: pos, In: fr.fn})
			k(st, nil, ProcExit, c.Name, pos)
			return
		}
		if fn != nil && len(fn.Blocks) > 0 && e.InRepo(fn) {
			if fr.depth >= e.MaxDepth || e.recursive(fr, fn) {
				st.Emit(&Event{Kind: "call", Name: c.Name, Callee: fn, Recv: c.Recv, Args: c.Args, Pos: pos, In: fr.fn})
				k(st, e.unknownResults(fn.Signature, c.Name, st), Return, "", pos)
				return
			}
			e.call(fn, full, free, st, fr, k)
			return
		}
	}
	if fn == nil || !opaque {
		e.Unknown[c.Name]++
	}
	e.Primitive(c, st, kk)
}

func (e *Exec) recursive(fr *frame, fn *ssa.Function) bool {
	n := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	return n >= 2
}

// FatalLog reports whether a logging call ends the process.
func FatalLog(c *Call) bool { return fatal(c) }

func fatal(c *Call) bool {
	switch c.Name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return true
	}
	if strings.HasPrefix(c.Name, "(*github.com/rs/zerolog.Event)") && c.Recv != nil {
		switch {
		case strings.HasSuffix(c.Name, ".Msg"), strings.HasSuffix(c.Name, ".Msgf"), strings.HasSuffix(c.Name, ".Send"):
			return c.Recv.Contains(func(t *Term) bool {
				return t.Op == "call" && (strings.HasSuffix(t.Aux, "zerolog/log.Fatal") || strings.HasSuffix(t.Aux, "zerolog.Logger).Fatal") || strings.HasSuffix(t.Aux, "zerolog/log.Panic"))
			})
		}
	}
	return false
}

func (e *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := e.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := e.Prog.MethodValue(sel)
	return fn
}

// Primitive records a call as an event. If its last result is an error the
// path forks: the call succeeded, or it failed and its other results are zero.
func (e *Exec) Primitive(c *Call, st *State, k func(*State, ...*Term)) {
	ev := func() *Event {
		return &Event{Kind: "call", Name: c.Name, Callee: c.Fn, Recv: c.Recv, Args: c.Args, Pos: c.Pos, In: c.Fr.fn}
	}
	e.havocArgs(c, st)
	res := c.Sig.Results()
	n := res.Len()
	if n > 0 && isError(res.At(n-1).Type()) {
		st2 := st.Clone()
		ok := e.unknownResults(c.Sig, c.Name, st)
		ok[n-1] = Nil
		for i := 0; i < n-1; i++ {
			if isPtrLike(res.At(i).Type()) {
				st.Assume(IsNil(ok[i]), false)
			}
		}
		x := ev()
		x.Res = ok
		st.Emit(x)
		k(st, ok...)

		bad := make([]*Term, n)
		for i := 0; i < n-1; i++ {
			bad[i] = Zero(res.At(i).Type())
		}
		bad[n-1] = e.AnyErr(shortName(c.Name))
		y := ev()
		y.Res = bad
		y.Failed = true
		st2.Emit(y)
		k(st2, bad...)
		return
	}
	r := e.unknownResults(c.Sig, c.Name, st)
	x := ev()
	x.Res = r
	if e.Guard != nil && n == 2 && isPtrLike(res.At(0).Type()) && types.Identical(res.At(1).Type(), types.Typ[types.Bool]) {
		// the "comma ok" form: no value, no object
		st2 := st.Clone()
		y := *x
		y.Res = []*Term{Zero(res.At(0).Type()), Bool(false)}
		r[1] = Bool(true)
		st.Assume(IsNil(r[0]), false)
		st.Emit(x)
		k(st, r...)
		st2.Emit(&y)
		k(st2, y.Res...)
		return
	}
	st.Emit(x)
	k(st, r...)
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func isError(t types.Type) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		for j := 0; j < i.NumMethods(); j++ {
			if m := i.Method(j); m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
				return true
			}
		}
	}
	return false
}

// IsErrorType reports whether a result type is an error.
func IsErrorType(t types.Type) bool { return isError(t) }

// havocArgs forgets what local variables hold when their address is passed to
// code that is not analysed.
func (e *Exec) havocArgs(c *Call, st *State) {
	if c.Fn != nil && (pureFn(c.Name)) {
		return
	}
	for _, a := range c.Args {
		u := Unbox(a)
		if u.Op == "alloc" && st.owned[u] {
			if p := Deref(u); p != nil {
				switch p.Elem().Underlying().(type) {
				case *types.Array:
					continue
				}
				if structOf(p.Elem()) != nil {
					continue
				}
				st.Store(u, e.Fresh("sym", "havoc", p.Elem()), p.Elem())
			}
		}
		if u.Op == "makeslice" {
			e.havocBuf(st, u)
		}
	}
}

func pureFn(n string) bool {
	return strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strings.")
}

func (e *Exec) typeAssert(fr *frame, in *ssa.TypeAssert, b *ssa.BasicBlock, i int, st *State, k K) bool {
	x := e.val(fr, in.X)
	u := x
	for u.Op == "conv" {
		u = u.Args[0]
	}
	set := func(fr *frame, v *Term, ok bool) {
		if in.CommaOk {
			fr.env[in] = mk("tuple", "", nil, v, Bool(ok))
		} else {
			fr.env[in] = v
		}
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	decide := func(ok bool, v *Term) bool {
		if ok {
			set(fr, v, true)
			return true
		}
		if in.CommaOk {
			set(fr, Zero(in.AssertedType), false)
			return true
		}
		e.panicAt(fr, st, in.Pos(), "failed type assertion to "+in.AssertedType.String(), k)
		return false
	}
	if u.Op == "nil" || st.KnownNil(x) {
		return decide(false, nil)
	}
	if u.Op == "iface" {
		if toIface {
			ok := types.Implements(u.Typ, in.AssertedType.Underlying().(*types.Interface))
			return decide(ok, x)
		}
		return decide(types.Identical(u.Typ, in.AssertedType), u.Args[0])
	}
	atom := mk("assertok", "", in.AssertedType, u)
	v := mk("assert", typeKey(in.AssertedType), in.AssertedType, u)
	if toIface {
		v = x
	}
	if known, ok := st.facts[atom]; ok {
		return decide(known, v)
	}
	if !in.CommaOk {
		e.guard(fr.fn, st, Hazard{Kind: "assert", X: u, Typ: in.AssertedType, Pos: in.Pos()})
		st.Emit(&Event{Kind: "assert", Recv: u, Args: []*Term{v}, Pos: in.Pos(), In: fr.fn, Elem: in.AssertedType})
		st.facts[atom] = true
		set(fr, v, true)
		return true
	}
	fr2, st2 := fr.clone(), st.Clone()
	st.facts[atom] = true
	st2.facts[atom] = false
	set(fr, v, true)
	e.run(fr, b, nil, i+1, st, k)
	set(fr2, Zero(in.AssertedType), false)
	e.run(fr2, b, nil, i+1, st2, k)
	return false
}

func (e *Exec) sel(fr *frame, in *ssa.Select, b *ssa.BasicBlock, i int, st *State, k K) {
	fr.visits[b]++
	var chans []*Term
	for _, s := range in.States {
		chans = append(chans, e.val(fr, s.Chan))
	}
	if fr.visits[b] > e.Visits+1+e.deeper {
		st.Emit(&Event{Kind: "select", Name: "again", Args: chans, Pos: in.Pos(), In: fr.fn})
		k(st, nil, Cut, "select loop bound", in.Pos())
		return
	}
	blocking := "nonblocking"
	if in.Blocking {
		blocking = "blocking"
	}
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for c := lo; c < n; c++ {
		fr2, st2 := fr.clone(), st.Clone()
		st2.Emit(&Event{Kind: "select", Name: blocking, Args: chans, Pos: in.Pos(), In: fr.fn})
		tup := []*Term{Int(int64(c)), e.Fresh("sym", "recvok", types.Typ[types.Bool])}
		for j, s := range in.States {
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				v := e.Fresh("sym", "recv", et, chans[j])
				if j == c {
					st2.Emit(&Event{Kind: "recv", Name: "select", Recv: chans[j], Res: []*Term{v, tup[1]}, Pos: s.Pos, In: fr.fn})
				}
				tup = append(tup, v)
			} else if j == c {
				st2.Emit(&Event{Kind: "send", Name: "select", Recv: chans[j], Args: []*Term{e.val(fr, s.Send)}, Pos: s.Pos, In: fr.fn})
			}
		}
		fr2.env[in] = mk("tuple", "", nil, tup...)
		e.run(fr2, b, nil, i+1, st2, k)
	}
}

func (e *Exec) builtin(fr *frame, name string, cc *ssa.CallCommon, args []*Term, st *State, pos token.Pos, k K) {
	ret := func(t ...*Term) { k(st, t, Return, "", pos) }
	var rt types.Type
	if r := cc.Signature().Results(); r.Len() == 1 {
		rt = r.At(0).Type()
	}
	switch name {
	case "len", "cap":
		x := args[0]
		if isStr(cc.Args[0].Type()) || isByteSlice(cc.Args[0].Type()) {
			x = e.Bytes(st, x)
		}
		if s, ok := x.StrVal(); ok {
			ret(Int(int64(len(s))))
			return
		}
		if t := e.lenField(x); t != nil && name == "len" {
			ret(t)
			return
		}
		switch x.Op {
		case "constmap":
			ret(Int(int64(len(x.Args) / 2)))
			return
		case "nil":
			ret(Int(0))
			return
		case "slicelit":
			ret(Int(int64(len(x.Args))))
			return
		case "append":
			if name == "len" && x.Aux == "" && !isStr(cc.Args[0].Type()) && !isByteSlice(cc.Args[0].Type()) {
				base, n := x, 0
				for base.Op == "append" && base.Aux == "" {
					n += len(base.Args) - 1
					base = base.Args[0]
				}
				switch base.Op {
				case "nil":
					ret(Int(int64(n)))
					return
				case "slicelit":
					ret(Int(int64(n + len(base.Args))))
					return
				case "field", "param", "sym":
					ret(Sum(LenOf(base), int64(n), types.Typ[types.Int]))
					return
				}
			}
		case "makeslice":
			ret(conv(x.Args[0], types.Typ[types.Int]))
			return
		case "sliceof":
			if x.Aux == "full" {
				if p, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						ret(Int(a.Len()))
						return
					}
				}
			}
		case "concat", "be64", "le64":
			if isStr(cc.Args[0].Type()) || isByteSlice(cc.Args[0].Type()) {
				ret(LenOf(x))
				return
			}
		case "alloc":
			if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					ret(Int(a.Len()))
					return
				}
			}
		}
		ver := ""
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			ver = fmt.Sprint(st.vers[x])
			st.Emit(&Event{Kind: "maplen", Recv: x, Pos: pos, In: fr.fn, Owned: st.isOwned(x)})
			if emptyMap(st, x) {
				ret(Int(0))
				return
			}
		}
		ret(mk("call", name, types.Typ[types.Int], appendVer(x, ver)...))
	case "append":
		ret(e.appendModel(fr, cc, args, st, rt))
	case "copy":
		dst, src := args[0], args[1]
		var n *Term
		if isByteSlice(cc.Args[0].Type()) {
			if _, _, ok := bufOf(dst); ok {
				b := e.Bytes(st, src)
				room := LenOf(e.Bytes(st, dst))
				left, known := foldBin(token.SUB, room, LenOf(b), types.Typ[types.Int]).IntVal()
				if known && left < 0 {
					b, known = sliceBytes(b, Int(0), room)
				}
				if known || st.Provable(LenOf(b), room) {
					n = LenOf(b)
					e.patch(st, dst, b)
				} else {
					e.havocBuf(st, dst)
				}
			}
		}
		st.Emit(&Event{Kind: "copy", Args: args, Pos: pos, In: fr.fn})
		if n == nil {
			n = e.Fresh("sym", "copied", types.Typ[types.Int])
		}
		ret(n)
	case "delete":
		m, key := args[0], args[1]
		st.Emit(&Event{Kind: "mapdel", Recv: m, Args: []*Term{key}, Pos: pos, In: fr.fn, Owned: st.isOwned(m)})
		delete(st.mem, mapElem(m, key))
		st.keepInitial(m, key)
		st.facts[hasKey(m, key, 0)] = false
		st.Bump(m)
		ret()
	case "close":
		st.Emit(&Event{Kind: "close", Recv: args[0], Pos: pos, In: fr.fn})
		if st.KnownNil(args[0]) {
			st.Emit(&Event{Kind: "nilderef", Name: "close of a nil channel", Recv: args[0], Pos: pos, In: fr.fn})
			e.guard(fr.fn, st, Hazard{Kind: "nil", What: "close of a nil channel", X: args[0], Pos: pos})
			k(st, nil, Panic, "close of a nil channel", pos)
			return
		}
		ret()
	case "panic":
		e.guard(fr.fn, st, Hazard{Kind: "panic", What: "panic", X: args[0], Pos: pos})
		k(st, nil, Panic, "panic", pos)
	case "recover":
		ret(Nil)
	case "print", "println", "clear":
		if name == "clear" {
			st.Emit(&Event{Kind: "mapclear", Recv: args[0], Pos: pos, In: fr.fn, Owned: st.isOwned(args[0])})
		}
		ret()
	case "min", "max":
		if !isInt(args[0]) || len(args) != 2 {
			ret(mk("call", name, rt, args...))
			return
		}
		split(st, foldBin(token.LSS, args[0], args[1], types.Typ[types.Bool]), func(st *State, less bool) {
			if less == (name == "min") {
				k(st, []*Term{args[0]}, Return, "", pos)
			} else {
				k(st, []*Term{args[1]}, Return, "", pos)
			}
		})
	case "ssa:wrapnilchk":
		ret(args[0])
	default:
		if rt != nil {
			ret(e.Fresh("sym", name, rt))
		} else {
			ret()
		}
	}
}

func appendVer(x *Term, ver string) []*Term {
	if ver == "" || ver == "0" {
		return []*Term{x}
	}
	return []*Term{x, Str(ver)}
}

func (e *Exec) appendModel(fr *frame, cc *ssa.CallCommon, args []*Term, st *State, rt types.Type) *Term {
	base := args[0]
	if isByteSlice(rt) {
		parts := []*Term{e.Bytes(st, base)}
		if len(args) > 1 {
			x := e.Bytes(st, args[1])
			_, buf := st.mem[mk("content", "", nil, bufBase(args[1]))]
			if els, ok := e.sliceElems(st, args[1]); ok && !buf && bufBase(args[1]).Op == "alloc" {
				for _, el := range els {
					if n, ok := el.IntVal(); ok {
						parts = append(parts, Str(string([]byte{byte(n)})))
					} else {
						parts = append(parts, mk("byte", "", nil, el))
					}
				}
			} else {
				parts = append(parts, x)
			}
		}
		c := Concat(parts...)
		return mk("bytes", "", rt, c)
	}
	if len(args) == 1 {
		return base
	}
	if els, ok := e.sliceElems(st, args[1]); ok {
		b := base
		var all []*Term
		if b.Op == "slicelit" {
			all = append(all, b.Args...)
		} else if b.Op == "nil" || b.Op == "makeslice" && isZeroConst(b.Args[0]) {
		} else if bel, ok := e.sliceElems(st, b); ok {
			all = append(all, bel...)
		} else {
			t := mk("append", "", rt, append([]*Term{b}, els...)...)
			for _, el := range els {
				if !st.isOwned(b) {
					st.escape(el)
				}
			}
			return t
		}
		all = append(all, els...)
		return mk("slicelit", "", rt, all...)
	}
	return mk("append", "spread", rt, base, args[1])
}

// SliceElems lists the elements of a slice literal or variadic argument.
func (e *Exec) SliceElems(st *State, t *Term) ([]*Term, bool) { return e.sliceElems(st, t) }

func (e *Exec) sliceElems(st *State, t *Term) ([]*Term, bool) {
	if t.Op == "slicelit" {
		return t.Args, true
	}
	if t.Op == "nil" {
		return nil, true
	}
	if t.Op == "sliceof" && t.Aux == "full" && t.Args[0].Op == "alloc" {
		p, ok := t.Args[0].Typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		a, ok := p.Elem().Underlying().(*types.Array)
		if !ok || a.Len() > 64 {
			return nil, false
		}
		var r []*Term
		for i := int64(0); i < a.Len(); i++ {
			ia := mk("idxaddr", "", types.NewPointer(a.Elem()), t.Args[0], Int(i))
			r = append(r, st.Load(ia, a.Elem()))
		}
		return r, true
	}
	return nil, false
}

// LenOf is the length of a byte term: constants for literals and fixed-width
// encodings, a sum for concatenations.
func LenOf(x *Term) *Term {
	switch x.Op {
	case "const":
		if v, ok := x.StrVal(); ok {
			return Int(int64(len(v)))
		}
	case "be64", "le64":
		return Int(8)
	case "byte":
		return Int(1)
	case "zeros":
		return x.Args[0]
	case "concat":
		s := Int(0)
		for _, a := range x.Args {
			s = foldBin(token.ADD, s, LenOf(a), types.Typ[types.Int])
		}
		return s
	}
	return mk("call", "len", types.Typ[types.Int], x)
}

// sliceBytes cuts a concatenation at part boundaries.
func sliceBytes(x, lo, hi *Term) (*Term, bool) {
	parts := []*Term{x}
	if x.Op == "concat" {
		parts = x.Args
	}
	if v, ok := x.StrVal(); ok && (isConst(lo) && (hi == nil || isConst(hi))) {
		a, ok1 := lo.IntVal()
		b := int64(len(v))
		ok2 := true
		if hi != nil {
			b, ok2 = hi.IntVal()
		}
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(v)) {
			return Str(v[a:b]), true
		}
		return nil, false
	}
	cut := func(at *Term) (int, *Term, *Term, bool) {
		pos := Int(0)
		for i := 0; ; i++ {
			if pos == at {
				return i, nil, nil, true
			}
			if i == len(parts) {
				return 0, nil, nil, false
			}
			if v, ok := parts[i].StrVal(); ok {
				d := foldBin(token.SUB, at, pos, types.Typ[types.Int])
				if n, ok := d.IntVal(); ok && n > 0 && n < int64(len(v)) {
					return i, Str(v[:n]), Str(v[n:]), true
				}
			}
			pos = foldBin(token.ADD, pos, LenOf(parts[i]), types.Typ[types.Int])
		}
	}
	// a cut inside a run of zeros, if it is at no boundary
	bound := cut
	cut = func(at *Term) (int, *Term, *Term, bool) {
		i, a, b, ok := bound(at)
		if ok {
			return i, a, b, ok
		}
		pos := Int(0)
		for i, p := range parts {
			if p.Op == "zeros" {
				d := foldBin(token.SUB, at, pos, types.Typ[types.Int])
				rest := foldBin(token.SUB, p.Args[0], d, types.Typ[types.Int])
				if positive(d) && positive(rest) {
					return i, zeros(d), zeros(rest), true
				}
			}
			pos = foldBin(token.ADD, pos, LenOf(p), types.Typ[types.Int])
		}
		return 0, nil, nil, false
	}
	i, _, rest, ok := cut(stripCmp(lo))
	if !ok {
		return nil, false
	}
	j, head := len(parts), (*Term)(nil)
	if hi != nil {
		var ok bool
		j, head, _, ok = cut(stripCmp(hi))
		if !ok {
			return nil, false
		}
	}
	if i > j || i == j && (rest != nil || head != nil) {
		return nil, false
	}
	var out []*Term
	for n := i; n < j; n++ {
		if n == i && rest != nil {
			out = append(out, rest)
			continue
		}
		out = append(out, parts[n])
	}
	if head != nil {
		out = append(out, head)
	}
	return Concat(out...), true
}

func isConst(t *Term) bool { return t.Op == "const" }

// positive: a sum of lengths and a positive constant.
func positive(t *Term) bool {
	if n, ok := t.IntVal(); ok {
		return n > 0
	}
	if t.Op == "bin" && t.Aux == "+" {
		return positive(t.Args[0]) && positive(t.Args[1])
	}
	return t.Op == "call" && t.Aux == "len"
}

// emptyMap: a map made on the path that nothing was put into yet, or no map.
func emptyMap(st *State, m *Term) bool {
	return m.Op == "makemap" && st.isOwned(m) && st.vers[m] == 0 || m.Op == "nil"
}
