package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

type tpos = token.Pos

const addTok = token.ADD

// ErrKeyNotFound is badger's sentinel.
var ErrKeyNotFound = Sentinel(Badger + ".ErrKeyNotFound")

func bcall(c *Call, kind string, st *State, txn *Term, args ...*Term) *Event {
	return st.Emit(&Event{Kind: kind, Recv: c.Recv, Args: args, Txn: txn, Pos: c.Pos, In: c.Fr.fn})
}

func dbver(st *State) int { return st.vers[dbTok] }

var dbTok = Sym("$db", nil)

func badgerModels(m map[string]Model) {
	txnFn := func(update bool) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			f := c.Args[0]
			if fnOf(f) == nil {
				return false
			}
			name := "view"
			if update {
				name = "update"
			}
			txn := c.E.Fresh("txn", name, nil)
			old := st.txn
			st.txn = txn
			st.Emit(&Event{Kind: "txn", Name: name, Recv: c.Recv, Txn: txn, Pos: c.Pos, In: c.Fr.fn})
			c.E.RunFuncIn(c.Fr, f, st, []*Term{txn}, func(st *State, ret []*Term, x Exit, why string, pos tpos) {
				end := func(st *State, kind string, err *Term) {
					name := ""
					if kind == "abort" && (err.Op != "anyerr" || !strings.HasPrefix(err.Aux, "db.commit")) {
						name = "given-up" // by what its function returned
					}
					st.Emit(&Event{Kind: kind, Name: name, Txn: txn, Recv: c.Recv, Pos: c.Pos, In: c.Fr.fn, Failed: kind == "abort"})
					st.txn = old
					c.K(st, []*Term{err}, Return, "", c.Pos)
				}
				if x != Return {
					st.txn = old
					c.K(st, nil, x, why, pos)
					return
				}
				ok := func(st *State) {
					if !update {
						end(st, "txn-end", Nil)
						return
					}
					st2 := st.Clone()
					end(st, "commit", Nil)
					end(st2, "abort", c.E.AnyErr("db.commit"))
				}
				e := ret[0]
				kind := "abort"
				if !update {
					kind = "txn-end"
				}
				if v, known := st.Decide(IsNil(e)); known {
					if v {
						ok(st)
					} else {
						end(st, kind, e)
					}
					return
				}
				st2 := st.Clone()
				st.Assume(IsNil(e), true)
				ok(st)
				st2.Assume(IsNil(e), false)
				end(st2, kind, e)
			})
			return true
		}
	}
	m[BadgerT+"DB).Update"] = txnFn(true)
	m[BadgerT+"DB).View"] = txnFn(false)
	m[BadgerT+"DB).NewTransaction"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		txn := c.E.Fresh("txn", "txn", nil)
		st.Emit(&Event{Kind: "txn", Name: "new", Recv: c.Recv, Args: c.Args, Txn: txn, Pos: c.Pos, In: c.Fr.fn})
		k(st, txn)
		return true
	}
	m[BadgerT+"Txn).Commit"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		bcall(c, "commit", st, c.Recv)
		k(st, Nil)
		bcall(c, "abort", st2, c.Recv).Failed = true
		k(st2, c.E.AnyErr("db.commit"))
		return true
	}
	m[BadgerT+"Txn).Discard"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		bcall(c, "discard", st, c.Recv)
		k(st)
		return true
	}
	set := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		args := []*Term{c.E.Bytes(st, c.Args[0]), c.E.Bytes(st, c.Args[1]), c.Args[0]}
		bcall(c, "set", st, c.Recv, args...)
		st.Bump(dbTok)
		k(st, Nil)
		bcall(c, "set", st2, c.Recv, args...).Failed = true
		k(st2, c.E.AnyErr("db.set"))
		return true
	}
	// an entry that carries no more than a key and a value
	m[Badger+".NewEntry"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := c.E.Fresh("alloc", "entry", c.Sig.Results().At(0).Type())
		st.owned[t] = true
		st.Assume(IsNil(t), false)
		fs := structOf(elemType(t))
		if fs == nil {
			return false
		}
		for i := 0; i < fs.NumFields(); i++ {
			f := fs.Field(i)
			v := Zero(f.Type())
			switch f.Name() {
			case "Key":
				v = c.Args[0]
			case "Value":
				v = c.Args[1]
			}
			st.Store(FieldAddr(t, f.Name(), f.Type()), v, f.Type())
		}
		k(st, t)
		return true
	}
	setEntry := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		en := c.Args[0]
		fs := structOf(elemType(en))
		if en.Op != "alloc" || fs == nil || !st.isOwned(en) {
			return false
		}
		c2 := *c
		c2.Args = []*Term{nil, nil}
		for i := 0; i < fs.NumFields(); i++ {
			f := fs.Field(i)
			v := st.Load(FieldAddr(en, f.Name(), f.Type()), f.Type())
			switch f.Name() {
			case "Key":
				c2.Args[0] = v
			case "Value":
				c2.Args[1] = v
			default:
				if v != Zero(f.Type()) {
					return false
				}
			}
		}
		if c2.Args[0] == nil || c2.Args[1] == nil {
			return false
		}
		st.escape(en)
		return set(&c2, st, k)
	}
	m[BadgerT+"Txn).SetEntry"] = setEntry
	m[BadgerT+"WriteBatch).SetEntry"] = setEntry
	m[BadgerT+"Txn).Set"] = set
	m[BadgerT+"WriteBatch).Set"] = set
	del := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		args := []*Term{c.E.Bytes(st, c.Args[0]), c.Args[0]}
		bcall(c, "del", st, c.Recv, args...)
		st.Bump(dbTok)
		k(st, Nil)
		bcall(c, "del", st2, c.Recv, args...).Failed = true
		k(st2, c.E.AnyErr("db.del"))
		return true
	}
	m[BadgerT+"Txn).Delete"] = del
	m[BadgerT+"WriteBatch).Delete"] = del
	m[BadgerT+"DB).NewWriteBatch"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		txn := c.E.Fresh("txn", "batch", nil)
		st.Emit(&Event{Kind: "txn", Name: "batch", Recv: c.Recv, Txn: txn, Pos: c.Pos, In: c.Fr.fn})
		k(st, txn)
		return true
	}
	m[BadgerT+"WriteBatch).Flush"] = m[BadgerT+"Txn).Commit"]
	m[BadgerT+"WriteBatch).Cancel"] = m[BadgerT+"Txn).Discard"]
	m[BadgerT+"DB).DropPrefix"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		var ps []*Term
		if els, ok := c.E.sliceElems(st, c.Args[0]); ok {
			for _, e := range els {
				ps = append(ps, c.E.Bytes(st, e))
			}
		}
		st2 := st.Clone()
		bcall(c, "dropprefix", st, nil, ps...)
		k(st, Nil)
		bcall(c, "dropprefix", st2, nil, ps...).Failed = true
		k(st2, c.E.AnyErr("db.dropprefix"))
		return true
	}
	m[BadgerT+"DB).DropAll"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		bcall(c, "dropprefix", st, nil)
		k(st, c.E.Fresh("sym", "dropall", errT))
		return true
	}
	m[BadgerT+"Txn).Get"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		key := c.E.Bytes(st, c.Args[0])
		rt := c.Sig.Results().At(0).Type()
		item := mk("item", fmt.Sprint(dbver(st)), rt, key)
		exists := mk("exists", fmt.Sprint(dbver(st)), types.Typ[types.Bool], key)
		st2, st3 := st.Clone(), st.Clone()
		v, known := st.facts[exists]
		if !known || v {
			st.facts[exists] = true
			bcall(c, "get", st, c.Recv, key).Res = []*Term{item}
			st.Assume(IsNil(item), false)
			k(st, item, Nil)
		}
		if !known || !v {
			st2.facts[exists] = false
			ev := bcall(c, "get", st2, c.Recv, key)
			ev.Failed, ev.Name = true, "notfound"
			k(st2, Nil, ErrKeyNotFound)
		}
		ev := bcall(c, "get", st3, c.Recv, key)
		ev.Failed, ev.Name = true, "error"
		// a read failure is an error of its own, not the not-found sentinel
		k(st3, Nil, c.E.FreshErr("get"))
		return true
	}
	stored := func(it *Term) *Term {
		if it.Op == "item" {
			return mk("stored", it.Aux, nil, it.Args[0])
		}
		return mk("stored", "", nil, mk("iterkey", it.Aux, nil, it.Args...))
	}
	keyOf := func(it *Term) *Term {
		if it.Op == "item" {
			return it.Args[0]
		}
		return mk("iterkey", it.Aux, nil, it.Args...)
	}
	m[BadgerT+"Item).Value"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		f := c.Args[0]
		if fnOf(f) == nil {
			return false
		}
		st2 := st.Clone()
		v := mk("aliased", "", nil, stored(c.Recv))
		c.E.RunFuncIn(c.Fr, f, st, []*Term{v}, c.K)
		bcall(c, "readvalue", st2, c.Recv).Failed = true
		k(st2, c.E.FreshErr("value"))
		return true
	}
	m[BadgerT+"Item).ValueCopy"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		v := mk("bytes", "", c.Sig.Results().At(0).Type(), stored(c.Recv))
		// an empty value may come back as nil
		k(st, v, Nil)
		bcall(c, "readvalue", st2, c.Recv).Failed = true
		k(st2, Nil, c.E.FreshErr("valuecopy"))
		return true
	}
	m[BadgerT+"Item).Key"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("aliased", "", c.Sig.Results().At(0).Type(), keyOf(c.Recv)))
		return true
	}
	m[BadgerT+"Item).KeyCopy"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), keyOf(c.Recv)))
		return true
	}
	m[BadgerT+"Txn).NewIterator"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		it := c.E.Fresh("iter", "iter", nil)
		bcall(c, "iter", st, c.Recv, st.Value(c.Args[0])).Res = []*Term{it}
		st.mem[mk("itertxn", "", nil, it)] = c.Recv
		st.mem[mk("iteropts", "", nil, it)] = st.Value(c.Args[0])
		k(st, it)
		return true
	}
	m[BadgerT+"Iterator).Close"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		bcall(c, "iterclose", st, st.mem[mk("itertxn", "", nil, c.Recv)])
		k(st)
		return true
	}
	m[BadgerT+"Iterator).Seek"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		bcall(c, "seek", st, nil, c.E.Bytes(st, c.Args[0]))
		st.Bump(c.Recv)
		k(st)
		return true
	}
	m[BadgerT+"Iterator).Rewind"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		bcall(c, "rewind", st, nil)
		st.Bump(c.Recv)
		k(st)
		return true
	}
	m[BadgerT+"Iterator).Next"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		bcall(c, "next", st, nil)
		st.Bump(c.Recv)
		k(st)
		return true
	}
	m[BadgerT+"Iterator).Valid"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("itervalid", fmt.Sprint(st.Ver(c.Recv)), types.Typ[types.Bool], c.Recv))
		return true
	}
	m[BadgerT+"Iterator).ValidForPrefix"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("itervalidprefix", fmt.Sprint(st.Ver(c.Recv)), types.Typ[types.Bool], c.Recv, c.E.Bytes(st, c.Args[0])))
		return true
	}
	m[BadgerT+"Iterator).Item"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := mk("iteritem", fmt.Sprint(st.Ver(c.Recv)), c.Sig.Results().At(0).Type(), c.Recv)
		bcall(c, "iteritem", st, nil).Res = []*Term{t}
		st.Assume(IsNil(t), false)
		k(st, t)
		return true
	}
}
