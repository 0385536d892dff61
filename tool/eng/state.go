package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one thing a path did that a rule may care about.
type Event struct {
	Kind   string // call lock unlock rd wr go send recv select close mapset mapdel commit abort txn-begin panic nilderef ...
	Name   string
	Callee *ssa.Function
	Recv   *Term
	Args   []*Term
	Res    []*Term
	Txn    *Term
	Failed bool // the call's error result is non-nil on this path
	Pos    token.Pos
	In     *ssa.Function
	Locks  []Held
	Owned  bool
	Role   string
	Elem   types.Type
	Seq    int
	prev   *Event
}

type Held struct {
	Lock *Term
	Mode byte // 'W' or 'R'
}

func (e *Event) String() string {
	var as []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	s := e.Kind
	if e.Name != "" {
		s += " " + shortName(e.Name)
	}
	if e.Recv != nil {
		s += " on " + e.Recv.String()
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	if e.Failed {
		s += " [failed]"
	}
	return s
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// State is everything known on one path.
type State struct {
	mem     map[*Term]*Term
	facts   map[*Term]bool
	eqc     map[*Term]*Term // x == const, known
	held    []Held
	last    *Event
	nev     int
	vers    map[*Term]int // versions of opaque containers
	escaped map[*Term]bool
	owned   map[*Term]bool
	maybe   map[*Term]bool  // values that can be nil and were not tested yet
	lb      map[*Term]int64 // lower bounds of widened counters
	txn     *Term
	forks   int
}

func NewState() *State {
	return &State{
		mem: map[*Term]*Term{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{},
		vers: map[*Term]int{}, escaped: map[*Term]bool{}, owned: map[*Term]bool{}, maybe: map[*Term]bool{}, lb: map[*Term]int64{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) Clone() *State {
	s.forks++
	return &State{
		mem: cp(s.mem), facts: cp(s.facts), eqc: cp(s.eqc), vers: cp(s.vers),
		held: append([]Held(nil), s.held...), last: s.last, nev: s.nev,
		escaped: cp(s.escaped), owned: cp(s.owned), maybe: cp(s.maybe), lb: cp(s.lb), txn: s.txn, forks: s.forks,
	}
}

func (s *State) Emit(e *Event) *Event {
	e.prev = s.last
	e.Seq = s.nev
	s.nev++
	e.Locks = append([]Held(nil), s.held...)
	if e.Txn == nil {
		e.Txn = s.txn
	}
	s.last = e
	return e
}

// Events in order.
func (s *State) Events() []*Event {
	r := make([]*Event, 0, s.nev)
	for e := s.last; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) Held() []Held { return s.held }

func (s *State) Ver(t *Term) int { return s.vers[t] }
func (s *State) Bump(t *Term)    { s.vers[t]++ }

// --- facts ----------------------------------------------------------------

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "global", "fieldaddr", "idxaddr", "func", "closure", "makemap", "constmap", "makechan", "makeslice", "struct", "iface", "nonnil", "bytes", "concat", "errval", "anyerr", "sliceof":
		return true
	case "const":
		return true
	case "conv":
		return nonNil(t.Args[0])
	}
	return false
}

// Decide evaluates a boolean term under the path's facts.
func (s *State) Decide(t *Term) (bool, bool) {
	if v, ok := t.BoolVal(); ok {
		return v, true
	}
	a, pos := Canon(t)
	if v, ok := a.BoolVal(); ok {
		return v == pos, true
	}
	if v, ok := s.facts[a]; ok {
		return v == pos, true
	}
	if a.Op == "bin" {
		x, y := a.Args[0], a.Args[1]
		switch a.Aux {
		case "==":
			if x == y {
				return pos, true
			}
			if x.Op == "nil" {
				x, y = y, x
			}
			if y.Op == "nil" {
				if nonNil(x) {
					return !pos, true
				}
				return false, false
			}
			if x.Op == "const" {
				x, y = y, x
			}
			if y.Op == "const" {
				if x.Op == "const" {
					return constEq(x, y) == pos, true
				}
				if c, ok := s.eqc[x]; ok {
					return constEq(c, y) == pos, true
				}
				if n, ok := y.IntVal(); ok {
					if l, ok := s.lowerBound(x); ok && l > n {
						return !pos, true
					}
				}
				return false, false
			}
			if cx, ok := s.eqc[x]; ok {
				if cy, ok := s.eqc[y]; ok {
					return constEq(cx, cy) == pos, true
				}
			}
			// a failed write is never badger's "key not found"
			if dbWriteErr(x) && y == ErrKeyNotFound || dbWriteErr(y) && x == ErrKeyNotFound {
				return !pos, true
			}
			// distinct allocations / functions / sentinel errors are distinct values
			if distinctVal(x) && distinctVal(y) {
				return !pos, true
			}
			if v, ok := s.facts[mk("bin", "<", types.Typ[types.Bool], x, y)]; ok && v {
				return !pos, true
			}
			if v, ok := s.facts[mk("bin", "<", types.Typ[types.Bool], y, x)]; ok && v {
				return !pos, true
			}
			lt, ok1 := s.facts[mk("bin", "<", types.Typ[types.Bool], x, y)]
			gt, ok2 := s.facts[mk("bin", "<", types.Typ[types.Bool], y, x)]
			if ok1 && ok2 && !lt && !gt {
				return pos, true
			}
		case "<":
			if x == y {
				return !pos, true
			}
			cx, cy := x, y
			if c, ok := s.eqc[x]; ok {
				cx = c
			}
			if c, ok := s.eqc[y]; ok {
				cy = c
			}
			if cx.Op == "const" && cy.Op == "const" && isNum(cx.C) && isNum(cy.C) {
				return constant.Compare(cx.C, token.LSS, cy.C) == pos, true
			}
			if v, ok := s.facts[mk("bin", "<", types.Typ[types.Bool], y, x)]; ok && v {
				return !pos, true
			}
			p, q := x, y
			if p.ID > q.ID {
				p, q = q, p
			}
			if v, ok := s.facts[mk("bin", "==", types.Typ[types.Bool], p, q)]; ok && v {
				return !pos, true
			}
			if isZeroConst(y) && isCount(x) {
				return !pos, true
			}
			if n, ok := y.IntVal(); ok {
				if l, ok := s.lowerBound(x); ok && l >= n {
					return !pos, true
				}
			}
			if n, ok := x.IntVal(); ok {
				if l, ok := s.lowerBound(y); ok && l > n {
					return pos, true
				}
			}
			eq, ok1 := s.facts[mk("bin", "==", types.Typ[types.Bool], p, q)]
			gt, ok2 := s.facts[mk("bin", "<", types.Typ[types.Bool], y, x)]
			if ok1 && ok2 && !eq && !gt {
				return pos, true
			}
		}
	}
	return false, false
}

// lowerBound of an integer term, where one is known.
func (s *State) lowerBound(t *Term) (int64, bool) {
	if n, ok := t.IntVal(); ok {
		return n, true
	}
	if n, ok := s.lb[t]; ok {
		return n, true
	}
	if t.Op == "bin" && t.Aux == "+" {
		a, ok1 := s.lowerBound(t.Args[0])
		b, ok2 := s.lowerBound(t.Args[1])
		if ok1 && ok2 {
			return a + b, true
		}
	}
	return 0, false
}

func dbWriteErr(t *Term) bool { return t.Op == "anyerr" && strings.HasPrefix(t.Aux, "db.") }

func distinctVal(t *Term) bool {
	switch t.Op {
	case "alloc", "func", "makemap", "makechan", "errval", "sentinel":
		return true
	}
	return false
}

func constEq(a, b *Term) bool {
	if a.C.Kind() == b.C.Kind() || (isNum(a.C) && isNum(b.C)) {
		return constant.Compare(a.C, token.EQL, b.C)
	}
	return false
}

// Assume adds a fact. The caller has established that it is not contradictory.
func (s *State) Assume(t *Term, val bool) {
	a, pos := Canon(t)
	if a.Op == "const" {
		return
	}
	v := val == pos
	s.facts[a] = v
	if a.Op == "bin" && a.Aux == "==" {
		x, y := a.Args[0], a.Args[1]
		if x.Op == "const" {
			x, y = y, x
		}
		if y.Op == "const" && v && x.Op != "const" {
			s.eqc[x] = y
		}
		if x.Op == "nil" {
			delete(s.maybe, y)
		}
		if y.Op == "nil" {
			delete(s.maybe, x)
		}
	}
}

// Known reports whether the fact is established with that value.
func (s *State) Known(t *Term, val bool) bool {
	v, ok := s.Decide(t)
	return ok && v == val
}

func Eq(a, b *Term) *Term                 { return mk("bin", "==", types.Typ[types.Bool], a, b) }
func IsNil(a *Term) *Term                 { return Eq(a, Nil) }
func (s *State) KnownNil(t *Term) bool    { return t.Op == "nil" || s.Known(IsNil(t), true) }
func (s *State) KnownNonNil(t *Term) bool { return s.Known(IsNil(t), false) }

// Facts lists the branch facts of the path, for reports.
func (s *State) Facts() []string {
	var r []string
	for a, v := range s.facts {
		x := a.String()
		if !v {
			x = "!" + x
		}
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

// FactTerms calls f for every established atom.
func (s *State) FactTerms(f func(a *Term, v bool)) {
	for a, v := range s.facts {
		f(a, v)
	}
}

// --- memory ---------------------------------------------------------------

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "fieldaddr", "idxaddr":
			a = a.Args[0]
		case "sliceof":
			a = a.Args[0]
		default:
			return a
		}
	}
}

// Root is the object an address lies in.
func Root(a *Term) *Term { return rootOf(a) }

func FieldAddr(base *Term, name string, typ types.Type) *Term {
	return mk("fieldaddr", name, types.NewPointer(typ), base)
}

func (s *State) isOwned(a *Term) bool {
	r := rootOf(a)
	return s.owned[r] && !s.escaped[r]
}

func elemType(a *Term) types.Type {
	if a.Typ == nil {
		return nil
	}
	switch u := a.Typ.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

// Load reads memory without recording an access.
func (s *State) Load(a *Term, typ types.Type) *Term {
	if a.Op == "phi" {
		return mk("deref", "", typ, a)
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	// a struct assembled from its fields
	if st := structOf(typ); st != nil {
		any := false
		for i := 0; i < st.NumFields() && !any; i++ {
			if s.hasSub(mk("fieldaddr", st.Field(i).Name(), types.NewPointer(st.Field(i).Type()), a)) {
				any = true
			}
		}
		if any {
			args := make([]*Term, st.NumFields())
			for i := range args {
				f := st.Field(i)
				args[i] = s.Load(mk("fieldaddr", f.Name(), types.NewPointer(f.Type()), a), f.Type())
			}
			return mk("struct", "", typ, args...)
		}
	}
	switch a.Op {
	case "fieldaddr":
		base := a.Args[0]
		if v, ok := s.mem[base]; ok {
			return Field(v, a.Aux, typ)
		}
		bt := elemType(base)
		if bt == nil {
			return mk("field", a.Aux, typ, mk("deref", "", nil, base))
		}
		// the value of an enclosing object
		bv := s.loadShallow(base, bt)
		return Field(bv, a.Aux, typ)
	case "idxaddr":
		base := a.Args[0]
		if base.Op == "alloc" || base.Op == "makeslice" {
			if v, ok := s.mem[base]; ok {
				return mk("index", "", typ, v, a.Args[1])
			}
			if _, unk := s.mem[mk("idxhavoc", "", nil, base)]; !unk {
				return Zero(typ)
			}
		}
		if v, ok := s.mem[base]; ok {
			return mk("index", "", typ, v, a.Args[1])
		}
		if base.Op == "slicelit" && s.vers[base] == 0 {
			if n, ok := a.Args[1].IntVal(); ok && n >= 0 && n < int64(len(base.Args)) {
				return base.Args[n]
			}
		}
		return mk("index", fmt.Sprint(s.vers[base]), typ, base, a.Args[1])
	case "alloc":
		return Zero(typ)
	}
	return mk("deref", "", typ, a)
}

func (s *State) hasSub(a *Term) bool {
	if _, ok := s.mem[a]; ok {
		return true
	}
	if e := elemType(a); e != nil {
		if st := structOf(e); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if s.hasSub(mk("fieldaddr", st.Field(i).Name(), types.NewPointer(st.Field(i).Type()), a)) {
					return true
				}
			}
		}
	}
	return false
}

// loadShallow gives the value of an object ignoring overwritten fields (used
// to project a field that was not overwritten).
func (s *State) loadShallow(a *Term, typ types.Type) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	switch a.Op {
	case "fieldaddr":
		if bt := elemType(a.Args[0]); bt != nil {
			return Field(s.loadShallow(a.Args[0], bt), a.Aux, typ)
		}
	case "alloc":
		return Zero(typ)
	case "idxaddr":
		return s.Load(a, typ)
	}
	return mk("deref", "", typ, a)
}

// Store writes memory without recording an access.
func (s *State) Store(a, v *Term, typ types.Type) {
	if st := structOf(typ); st != nil {
		s.dropSub(a, st)
	}
	s.mem[a] = v
	// a store to a field of an object whose whole value is in memory
	if a.Op == "fieldaddr" {
		base := a.Args[0]
		if bv, ok := s.mem[base]; ok {
			if st := structOf(elemType(base)); st != nil {
				args := make([]*Term, st.NumFields())
				for i := range args {
					f := st.Field(i)
					if f.Name() == a.Aux {
						args[i] = v
					} else {
						args[i] = Field(bv, f.Name(), f.Type())
					}
				}
				s.mem[base] = mk("struct", "", elemType(base), args...)
				delete(s.mem, a)
			}
		}
	}
}

func (s *State) dropSub(a *Term, st *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		fa := mk("fieldaddr", st.Field(i).Name(), types.NewPointer(st.Field(i).Type()), a)
		delete(s.mem, fa)
		if sub := structOf(st.Field(i).Type()); sub != nil {
			s.dropSub(fa, sub)
		}
	}
}

// Value resolves pointers to structs into the structs they point to, for
// snapshots of arguments that are read through a pointer.
func (s *State) Value(t *Term) *Term {
	u := Unbox(t)
	if p := Deref(u); p != nil {
		return s.Load(u, p.Elem())
	}
	return u
}

func (s *State) escape(t *Term) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		r := rootOf(x)
		if s.owned[r] {
			s.escaped[r] = true
			if e := elemType(r); e != nil {
				for a, v := range s.mem {
					if rootOf(a) == r {
						w(v)
					}
				}
			}
		}
		for _, a := range x.Args {
			w(a)
		}
	}
	w(t)
}

// MapGet reads a map element.
func mapElem(m, k *Term) *Term { return mk("mapelem", "", nil, m, normKey(k)) }
func normKey(k *Term) *Term    { return Unwrap(k) }
func hasKey(m, k *Term, ver int) *Term {
	return mk("haskey", fmt.Sprint(ver), types.Typ[types.Bool], m, normKey(k))
}

// Memory calls f for every stored cell.
func (s *State) Memory(f func(a, v *Term)) {
	for a, v := range s.mem {
		f(a, v)
	}
}

// Fact reads and SetFact writes a raw atom.
func (s *State) Fact(a *Term) (val, known bool) { v, ok := s.facts[a]; return v, ok }
func (s *State) SetFact(a *Term, v bool)        { s.facts[a] = v }
func (s *State) ClearFact(a *Term)              { delete(s.facts, a) }

// Mem reads a raw cell.
func (s *State) Mem(a *Term) (*Term, bool) { v, ok := s.mem[a]; return v, ok }

// In is the function the call is in.
func (c *Call) In() *ssa.Function { return c.Fr.fn }

// Spawn is the state in which a goroutine started here runs: what is reachable
// from the shared object is unknown, no lock is held, nothing happened yet.
func (s *State) Spawn(shared *Term) *State {
	n := NewState()
	for a, v := range s.mem {
		if shared != nil && rootOf(a) == shared {
			continue
		}
		n.mem[a] = v
	}
	n.owned = cp(s.owned)
	n.escaped = cp(s.escaped)
	for a := range n.owned {
		n.escaped[a] = true
	}
	return n
}

// keepInitial remembers whether a key was in a map before the path changed it.
func (s *State) keepInitial(m, k *Term) {
	i := HadKey(m, k)
	if _, done := s.facts[i]; done || s.isOwned(m) {
		return
	}
	if v, ok := s.facts[hasKey(m, k, 0)]; ok {
		s.facts[i] = v
		return
	}
	if v, ok := s.Decide(IsNil(mk("mapget", "", nil, m, normKey(k)))); ok {
		s.facts[i] = !v
		return
	}
	s.facts[mk("hadkey?", "", types.Typ[types.Bool], m, normKey(k))] = true
}

// HadKey is the atom "the map had the key at the start of the path".
func HadKey(m, k *Term) *Term {
	return mk("hadkey", "", types.Typ[types.Bool], m, normKey(k))
}

// MapHad tells whether the path knows that the map had the key at its start.
func (s *State) MapHad(m, k *Term) (had, known bool) {
	if v, ok := s.facts[HadKey(m, k)]; ok {
		return v, true
	}
	if _, lost := s.facts[mk("hadkey?", "", types.Typ[types.Bool], m, normKey(k))]; lost {
		return false, false
	}
	if v, ok := s.facts[hasKey(m, k, 0)]; ok {
		return v, true
	}
	// a plain read tested against nil
	if v, ok := s.Decide(IsNil(mk("mapget", "", nil, m, normKey(k)))); ok {
		return !v, true
	}
	return false, false
}

// MapLit lists the entries of a map built on the path under constant keys,
// sorted by key.
func (s *State) MapLit(m *Term) (keys []string, vals []*Term, ok bool) {
	m = Unwrap(m)
	if m.Op != "makemap" || !s.isOwned(m) {
		return nil, nil, false
	}
	at := map[string]*Term{}
	for a, v := range s.mem {
		if a.Op != "mapelem" || a.Args[0] != m {
			continue
		}
		k, isStr := a.Args[1].StrVal()
		has, known := s.facts[mk("haskey", "0", types.Typ[types.Bool], m, a.Args[1])]
		if !isStr || !known {
			return nil, nil, false
		}
		if has {
			at[k] = v
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		vals = append(vals, at[k])
	}
	return keys, vals, true
}

// MapElem is the cell of a map element.
func MapElem(m, k *Term) *Term { return mapElem(m, k) }

// SetMem stores a rule's own annotation on the path.
func (s *State) SetMem(a, v *Term) { s.mem[a] = v }
