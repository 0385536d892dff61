package rules

import (
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// exec makes an interpreter for a rule.
func (c *Ctx) exec(r *Report) *eng.Exec {
	e := eng.New(c.Prog)
	e.InRepo = func(fn *ssa.Function) bool { return c.InRepo(fn) || library(fn) }
	e.Models = eng.StdModels()
	e.Match = append(e.Match, logModel)
	c.lengths()
	e.LenFields = c.pairs
	if r.hazards != nil {
		e.Guard, e.Nilable = r.hazards(e), c.nilable
	}
	return e
}

// logModel: zerolog and prometheus logging have no effect on the properties;
// the chain keeps its origin so that Fatal is still seen.
func logModel(c *eng.Call) eng.Model {
	n := c.Name
	if !strings.HasPrefix(n, "github.com/rs/zerolog") && !strings.HasPrefix(n, "(*github.com/rs/zerolog") && !strings.HasPrefix(n, "(github.com/rs/zerolog") {
		return nil
	}
	last := n[strings.LastIndex(n, ".")+1:]
	if last == "Msg" || last == "Msgf" || last == "Send" {
		return func(c *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
			if eng.FatalLog(c) {
				return false
			}
			k(st)
			return true
		}
	}
	return func(c *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		if c.Sig.Results().Len() != 1 {
			return false
		}
		var as []*eng.Term
		if c.Recv != nil {
			as = append(as, c.Recv)
		}
		k(st, eng.Mk("call", n, c.Sig.Results().At(0).Type(), as...))
		return true
	}
}

// finish records what an execution covered.
func (r *Report) finish(e *eng.Exec, construct string, outs []eng.Outcome) {
	r.Paths += len(outs)
	r.Steps += e.Steps
	for f := range e.Inlined {
		r.Funcs[eng.CanonName(f)] = true
		r.ran[eng.CanonName(f)] = true
	}
	for in, why := range e.Limits {
		// the store commits what it deletes a batch at a time: what it does is
		// the same in each
		if p := in.Parent().Package(); why == "" || p != nil && strings.HasSuffix(p.Pkg.Path(), "/badger-store") {
			continue
		}
		r.Ob(false, "analysis-complete", construct+" rounds", nil, "what happens after more rounds than were followed is not decided: %s at %s", why, r.C.Pos(in.Cond.Pos()))
	}
	r.Ob(!e.Overflow, "analysis-complete", construct, nil, "the path bound was exceeded; the function is not decided")
}

// run executes one function and records coverage.
func (r *Report) run(e *eng.Exec, fn *ssa.Function, st *eng.State, args ...*eng.Term) []eng.Outcome {
	outs := e.Run(fn, st, args...)
	r.finish(e, fn.Name(), outs)
	return outs
}

// path is one outcome with its effects sorted out.
type path struct {
	o    *eng.Outcome
	st   *eng.State
	evs  []*eng.Event
	eff  []*eng.Event // committed writes and deletes, in order
	lost []*eng.Event // writes and deletes that were not committed
	err  *eng.Term
	ok   bool // the operation reports success
	cut  bool
}

func isErrRet(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && eng.IsErrorType(r.At(r.Len()-1).Type())
}

// paths evaluates outcomes; one whose error is undecided counts as both.
func paths(fn *ssa.Function, outs []eng.Outcome) []*path {
	var r []*path
	for i := range outs {
		o := &outs[i]
		p := &path{o: o, st: o.St, evs: o.St.Events(), cut: o.Exit != eng.Return}
		p.effects()
		if p.cut {
			r = append(r, p)
			continue
		}
		if !isErrRet(fn) {
			p.ok = true
			r = append(r, p)
			continue
		}
		p.err = o.Ret[len(o.Ret)-1]
		v, known := o.St.Decide(eng.IsNil(p.err))
		if known {
			p.ok = v
			r = append(r, p)
			continue
		}
		q := *p
		p.ok, q.ok = true, false
		r = append(r, p, &q)
	}
	return r
}

func (p *path) effects() {
	done := map[*eng.Term]bool{}
	for _, e := range p.evs {
		if e.Kind == "commit" && !e.Failed {
			done[e.Txn] = true
		}
	}
	for _, e := range p.evs {
		switch e.Kind {
		case "set", "del", "dropprefix":
			t := e.Txn
			if t == nil || e.Kind != "dropprefix" && e.Recv != nil && e.Recv.Op == "txn" {
				t = e.Recv
			}
			if e.Kind == "dropprefix" && !e.Failed || done[t] && !e.Failed {
				p.eff = append(p.eff, e)
			} else {
				p.lost = append(p.lost, e)
			}
		}
	}
}

// failed lists the calls that reported a failure on the path.
func (p *path) failed() []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Failed {
			r = append(r, e)
		}
	}
	return r
}

func (p *path) kind(k string) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Kind == k {
			r = append(r, e)
		}
	}
	return r
}

// q lists queue operations.
func (p *path) q(role, name string) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Kind == "q" && (role == "" || e.Role == role) && (name == "" || e.Name == name) {
			r = append(r, e)
		}
	}
	return r
}

func qmutates(e *eng.Event) bool {
	switch e.Name {
	case "Enqueue", "UpdatePriority":
		return true
	case "Dequeue", "DeleteByID":
		return e.Res[0].Op != "nil"
	}
	return false
}

func (p *path) qchanges(role string) []*eng.Event {
	var r []*eng.Event
	for _, e := range p.evs {
		if e.Kind == "q" && (role == "" || e.Role == role) && qmutates(e) {
			r = append(r, e)
		}
	}
	return r
}
