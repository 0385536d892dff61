package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Hazard is an instruction that can panic or end the process, met on a path
// with the facts that hold there.
type Hazard struct {
	Kind string // index, slice, assert, divide, nil, panic, exit, unlock, closed
	What string
	Fn   *ssa.Function
	Root *ssa.Function // what is being executed, calling Fn directly or not
	Pos  token.Pos
	X    *Term // the indexed, sliced, asserted or dereferenced value; the divisor
	Lo   *Term
	Hi   *Term
	Len  *Term
	Typ  types.Type // asserted type
}

func (e *Exec) guard(fn *ssa.Function, st *State, h Hazard) {
	if e.Guard != nil {
		h.Fn, h.Root = fn, e.root
		e.Guard(st, &h)
	}
}

// lengthOf is the length term of an indexable value.
func (e *Exec) lengthOf(st *State, x *Term, typ types.Type) *Term {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		return Int(a.Len())
	}
	if isByteSlice(typ) || isStr(typ) {
		if base, off, ok := bufOf(x); ok {
			hi := LenOf(e.Bytes(st, base))
			if x.Op == "bufslice" && x.Args[2].Op != "nil" {
				hi = x.Args[2]
			}
			return foldBin(token.SUB, hi, off, types.Typ[types.Int])
		}
		return LenOf(e.Bytes(st, x))
	}
	if t := e.lenField(x); t != nil {
		return t
	}
	switch x.Op {
	case "slicelit":
		return Int(int64(len(x.Args)))
	case "nil":
		return Int(0)
	case "makeslice":
		return x.Args[0]
	case "append":
		if x.Aux != "spread" {
			return foldBin(token.ADD, e.lengthOf(st, x.Args[0], typ), Int(int64(len(x.Args)-1)), types.Typ[types.Int])
		}
	case "sliceof":
		switch x.Aux {
		case "full":
			if p := Deref(x.Args[0]); p != nil {
				return e.lengthOf(st, x.Args[0], p)
			}
		case "from":
			return foldBin(token.SUB, e.lengthOf(st, x.Args[0], typ), x.Args[1], types.Typ[types.Int])
		case "range":
			return foldBin(token.SUB, x.Args[2], x.Args[1], types.Typ[types.Int])
		}
	}
	return LenOf(x)
}

// --- linear inequalities ------------------------------------------------------

// lin is a sum of terms and a constant.
type lin struct {
	c  int64
	co map[*Term]int64
}

func linOf(t *Term) *lin {
	l := &lin{co: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, n int64) {
	if v, ok := t.IntVal(); ok {
		l.c += n * v
		return
	}
	if t.Op == "bin" && (t.Aux == "+" || t.Aux == "-") {
		l.add(t.Args[0], n)
		if t.Aux == "-" {
			n = -n
		}
		l.add(t.Args[1], n)
		return
	}
	if t.Op == "conv" && (sameWidthInt(t.Typ, t.Args[0].Typ) || widens(t.Args[0].Typ, t.Typ)) {
		l.add(t.Args[0], n)
		return
	}
	if l.co[t] += n; l.co[t] == 0 {
		delete(l.co, t)
	}
}

func widens(from, to types.Type) bool {
	a, ok1 := from.Underlying().(*types.Basic)
	b, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || a.Info()&types.IsInteger == 0 || b.Info()&types.IsInteger == 0 {
		return false
	}
	size := map[types.BasicKind]int{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2, types.Int32: 4, types.Uint32: 4,
		types.Int: 8, types.Int64: 8, types.Uint: 8, types.Uint64: 8}
	return size[a.Kind()] > 0 && size[a.Kind()] < size[b.Kind()] && (a.Info()&types.IsUnsigned != 0 || b.Info()&types.IsUnsigned == 0)
}

func (l *lin) clone() *lin { return &lin{l.c, cp(l.co)} }

func (l *lin) plus(o *lin, k int64) {
	l.c += k * o.c
	for t, n := range o.co {
		if l.co[t] += k * n; l.co[t] == 0 {
			delete(l.co, t)
		}
	}
}

// Provable reports whether a <= b follows from the path's facts: b-a is a sum
// of at most four facts of the form s >= 0 and a non-negative constant.
func (s *State) Provable(a, b *Term) bool {
	goal := linOf(b)
	goal.add(a, -1)
	var known []*lin // each >= 0
	terms := map[*Term]bool{}
	note := func(l *lin) {
		for t := range l.co {
			terms[t] = true
		}
	}
	note(goal)
	for f, v := range s.facts {
		if f.Op != "bin" || len(f.Args) != 2 {
			continue
		}
		x, y := f.Args[0], f.Args[1]
		if f.Aux == "==" && x.Typ != nil && isStr(x.Typ) {
			if v, ok := x.StrVal(); ok && v == "" {
				x, y = y, x
			}
			if w, ok := y.StrVal(); ok && w == "" { // an empty string, or one that is not
				l := linOf(LenOf(x))
				if v {
					l = linOf(Int(0))
					l.add(LenOf(x), -1)
				} else {
					l.c--
				}
				known = append(known, l)
			}
			continue
		}
		if !isInt(x) || !isInt(y) {
			continue
		}
		switch {
		case f.Aux == "<" && v: // y-x-1 >= 0
			l := linOf(y)
			l.add(x, -1)
			l.c--
			known = append(known, l)
		case f.Aux == "<": // x-y >= 0
			l := linOf(x)
			l.add(y, -1)
			known = append(known, l)
		case f.Aux == "==" && v:
			l := linOf(x)
			l.add(y, -1)
			m := linOf(y)
			m.add(x, -1)
			known = append(known, l, m)
		case f.Aux == "==": // a count that is not 0 is at least 1
			if isZeroConst(x) {
				x, y = y, x
			}
			if isZeroConst(y) && s.nonNegative(x) {
				l := linOf(x)
				l.c--
				known = append(known, l)
			}
		}
	}
	for f, v := range s.facts {
		if f.Op == "call" && v && len(f.Args) == 2 {
			switch f.Aux {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
				l := linOf(LenOf(f.Args[0]))
				l.add(LenOf(f.Args[1]), -1)
				known = append(known, l)
			}
		}
	}
	for _, l := range known {
		note(l)
	}
	for t := range terms {
		known = append(known, textFacts(t)...)
	}
	for _, l := range known {
		note(l)
	}
	for t := range terms {
		if s.nonNegative(t) {
			known = append(known, &lin{0, map[*Term]int64{t: 1}})
		}
		if n, ok := s.lowerBound(t); ok {
			known = append(known, &lin{-n, map[*Term]int64{t: 1}})
		}
		if t.Op == "bin" && t.Aux == "%" { // x % n is less than n
			l := linOf(t.Args[1])
			l.add(t, -1)
			l.c--
			if s.nonNegative(t.Args[1]) {
				known = append(known, l)
			}
		}
	}
	var prove func(g *lin, depth int) bool
	prove = func(g *lin, depth int) bool {
		if len(g.co) == 0 && g.c >= 0 {
			return true
		}
		if depth == 0 {
			return false
		}
		for _, l := range known {
			// use facts that cancel a term of the goal
			use := false
			for t, n := range g.co {
				if m := l.co[t]; m != 0 && (m > 0) == (n > 0) {
					use = true
				}
			}
			if len(g.co) == 0 {
				use = false
			}
			if use {
				h := g.clone()
				h.plus(l, -1)
				if prove(h, depth-1) {
					return true
				}
			}
		}
		return false
	}
	return prove(goal, 4)
}

// textFacts: what the positions and lengths that functions of the library give
// have in common, each as a sum that is not negative.
func textFacts(t *Term) []*lin {
	if t.Op != "call" || len(t.Args) == 0 {
		return nil
	}
	name := t.Aux
	if name == "len" {
		x := Unwrap(t.Args[0])
		if x.Op != "call" || len(x.Args) == 0 {
			return nil
		}
		switch x.Aux {
		case "strings.Split", "strings.SplitAfter", "bytes.Split":
			if len(x.Args) == 2 && x.Args[1].Op == "const" && !isEmptyConst(x.Args[1]) {
				l := linOf(t)
				l.c--
				return []*lin{l}
			}
		case "strings.SplitN", "bytes.SplitN":
			if n, ok := x.Args[len(x.Args)-1].IntVal(); ok && n != 0 && !isEmptyConst(x.Args[1]) && x.Args[1].Op == "const" {
				l := linOf(t)
				l.c--
				r := []*lin{l}
				if n > 0 {
					r = append(r, &lin{n, map[*Term]int64{t: -1}})
				}
				return r
			}
		case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight",
			"strings.Cut#0", "strings.Cut#1", "strings.CutPrefix#0", "strings.CutSuffix#0":
			l := linOf(LenOf(x.Args[0]))
			l.add(t, -1)
			return []*lin{l}
		}
		return nil
	}
	switch name {
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexAny", "strings.IndexRune",
		"bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte":
		low := linOf(t)
		low.c++
		high := linOf(LenOf(t.Args[0]))
		high.add(t, -1)
		if len(t.Args) > 1 && t.Args[1].Op == "const" && !isEmptyConst(t.Args[1]) {
			high.c--
		}
		return []*lin{low, high}
	case "strings.Count", "bytes.Count":
		return []*lin{linOf(t)}
	}
	return nil
}

func isEmptyConst(t *Term) bool {
	s, ok := t.StrVal()
	return ok && s == ""
}

func isInt(t *Term) bool {
	if t.Typ == nil {
		_, ok := t.IntVal()
		return ok
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (s *State) nonNegative(t *Term) bool {
	if isCount(t) {
		return true
	}
	if n, ok := s.lowerBound(t); ok && n >= 0 {
		return true
	}
	switch t.Op {
	case "conv":
		return s.nonNegative(t.Args[0]) && isInt(t.Args[0])
	case "bin":
		switch t.Aux {
		case "%":
			return s.nonNegative(t.Args[0])
		case "+", "*", "/":
			return s.nonNegative(t.Args[0]) && s.nonNegative(t.Args[1])
		}
	case "call":
		switch t.Aux {
		case "min":
			ok := len(t.Args) > 0
			for _, a := range t.Args {
				ok = ok && s.nonNegative(a)
			}
			return ok
		}
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && b.Kind() != types.Uint64 && b.Kind() != types.Uint && b.Kind() != types.Uintptr {
			return true
		}
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return t.Op != "bin" // differences wrap
		}
	}
	return false
}

// InBounds: 0 <= i < n on this path.
func (s *State) InBounds(i, n *Term) bool {
	return s.Provable(Int(0), i) && s.Provable(foldBin(token.ADD, i, Int(1), types.Typ[types.Int]), n)
}

// DerefType is what a pointer type points to.
func DerefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Exec) lenField(x *Term) *Term {
	if len(e.LenFields) == 0 || x.Op != "field" {
		return nil
	}
	b := x.Args[0]
	p := b
	for p.Op == "deref" {
		p = p.Args[0]
	}
	if p.Typ == nil {
		return nil
	}
	f, ok := e.LenFields[typeKey(DerefType(p.Typ))+"."+x.Aux]
	if !ok {
		return nil
	}
	return Field(b, f, types.Typ[types.Int])
}

// SameEquation: a = b and c = d say the same, up to moving terms across.
func SameEquation(a, b, c, d *Term) bool {
	l, m := linOf(a), linOf(c)
	l.add(b, -1)
	m.add(d, -1)
	same := func(sign int64) bool {
		if l.c != sign*m.c || len(l.co) != len(m.co) {
			return false
		}
		for t, n := range l.co {
			if m.co[t] != sign*n {
				return false
			}
		}
		return true
	}
	return same(1) || same(-1)
}
