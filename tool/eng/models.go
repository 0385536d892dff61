package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// Library models. They describe what a library call does to the facts a path
// knows; no library code is analysed.

var errT = types.Universe.Lookup("error").Type()

const (
	Badger  = "github.com/dgraph-io/badger/v4"
	BadgerT = "(*github.com/dgraph-io/badger/v4."
)

// StdModels is the table for the standard library and the dependencies whose
// meaning does not depend on the rule.
func StdModels() map[string]Model {
	m := map[string]Model{}
	pure := func(names ...string) {
		for _, n := range names {
			n := n
			m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
				k(st, pureResults(c, n)...)
				return true
			}
		}
	}
	// --- errors and formatting
	newErr := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, c.E.FreshErr(shortName(c.Name)))
		return true
	}
	m["errors.New"] = newErr
	// status.Error(codes.OK, ...) is nil, any other code is an error
	statusErr := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		n, ok := Unwrap(c.Args[0]).IntVal()
		switch {
		case !ok:
			return false
		case n == 0:
			k(st, Nil)
		default:
			k(st, c.E.FreshErr(shortName(c.Name)))
		}
		return true
	}
	m["google.golang.org/grpc/status.Error"] = statusErr
	m["google.golang.org/grpc/status.Errorf"] = statusErr
	m["fmt.Errorf"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := c.E.FreshErr(shortName(c.Name))
		if f, ok := c.Args[0].StrVal(); ok && strings.Contains(f, "%w") && len(c.Args) > 1 {
			if els, ok := c.E.sliceElems(st, c.Args[1]); ok {
				for _, el := range els {
					if el.Typ != nil && isError(el.Typ) || el.Op == "errval" || el.Op == "anyerr" {
						st.mem[mk("wrapped", "", nil, t)] = Unbox(el)
					}
				}
			}
		}
		k(st, t)
		return true
	}
	m["errors.Is"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		x := Unbox(c.Args[0])
		for {
			in, ok := st.mem[mk("wrapped", "", nil, x)]
			if !ok || x == Unbox(c.Args[1]) {
				break
			}
			x = in
		}
		k(st, mk("bin", "==", types.Typ[types.Bool], x, Unbox(c.Args[1])))
		return true
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "log.Print", "log.Printf", "log.Println"} {
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			k(st, c.E.unknownResults(c.Sig, c.Name, st)...)
			return true
		}
	}
	m["fmt.Sprintf"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := c.E.sprintf(c, st)
		if c.E.Copies {
			t = mk("copy", "", types.Typ[types.String], t)
		}
		k(st, t)
		return true
	}
	m["bytes.HasPrefix"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		x := c.E.Bytes(st, c.Args[0])
		if x.Op != "iterkey" || len(x.Args) != 1 {
			k(st, pureResults(c, c.Name)...)
			return true
		}
		// the key of the record a scan is at
		k(st, mk("itervalidprefix", x.Aux, types.Typ[types.Bool], x.Args[0], c.E.Bytes(st, c.Args[1])))
		return true
	}
	m["fmt.Appendf"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		c2 := *c
		c2.Args = c.Args[1:]
		k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), Concat(c.E.Bytes(st, c.Args[0]), c.E.sprintf(&c2, st))))
		return true
	}
	sprint := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		els, ok := c.E.sliceElems(st, c.Args[0])
		if !ok || len(els) != 1 {
			k(st, c.E.Fresh("sym", "sprint", types.Typ[types.String]))
			return true
		}
		k(st, fmtVerb(st, 'v', els[0]))
		return true
	}
	m["fmt.Sprint"] = sprint
	m["strconv.Itoa"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, decTerm(c.Args[0]))
		return true
	}
	m["strconv.FormatInt"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		if n, ok := c.Args[1].IntVal(); ok && n == 10 {
			k(st, decTerm(c.Args[0]))
		} else {
			k(st, mk("call", "strconv.FormatInt", types.Typ[types.String], c.Args...))
		}
		return true
	}
	m["strconv.FormatUint"] = m["strconv.FormatInt"]
	m["strconv.FormatBool"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("dec", "", types.Typ[types.String], Unwrap(c.Args[0])))
		return true
	}
	parse := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st2 := st.Clone()
		k(st, mk("parsed", c.Name, c.Sig.Results().At(0).Type(), Unwrap(c.Args[0])), Nil)
		k(st2, Zero(c.Sig.Results().At(0).Type()), c.E.AnyErr(shortName(c.Name)))
		return true
	}
	m["strconv.ParseInt"] = parse
	m["strconv.ParseUint"] = parse
	m["strconv.Atoi"] = parse
	m["strconv.ParseBool"] = parse
	pure("strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "strings.Index",
		"strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimSpace", "strings.ToLower", "strings.ToUpper",
		"strings.Split", "strings.SplitN", "strings.Fields", "bytes.Equal", "bytes.Compare",
		"strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.LastIndex", "strings.Cut",
		"strings.IndexByte", "strings.Count", "strings.ContainsAny", "strings.CutPrefix", "strings.CutSuffix", "strings.SplitAfter", "strings.LastIndexByte",
		"strings.IndexAny", "strings.IndexRune", "bytes.Index", "bytes.IndexByte", "bytes.LastIndex", "bytes.LastIndexByte", "bytes.Contains", "bytes.Count",
		"path/filepath.Join", "net/url.PathEscape", "net/url.QueryEscape", "bytes.HasSuffix", "strings.Replace", "strings.ReplaceAll")
	// a copy has the value of the original
	for _, n := range []string{"strings.Clone", "bytes.Clone"} {
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			k(st, c.Args[0])
			return true
		}
	}
	m["net.JoinHostPort"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, Concat(c.Args[0], Str(":"), c.Args[1]))
		return true
	}
	m["(*net/url.URL).String"] = urlString
	m["strings.Join"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		els, ok := c.E.sliceElems(st, c.Args[0])
		if !ok {
			return false
		}
		var p []*Term
		for i, e := range els {
			if i > 0 {
				p = append(p, c.Args[1])
			}
			p = append(p, e)
		}
		k(st, Concat(p...))
		return true
	}
	// --- binary
	m["(encoding/binary.bigEndian).PutUint64"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		c.E.patch(st, c.Args[0], mk("be64", "", nil, Unwrap(c.Args[1])))
		k(st)
		return true
	}
	m["(encoding/binary.littleEndian).PutUint64"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		c.E.patch(st, c.Args[0], mk("le64", "", nil, Unwrap(c.Args[1])))
		k(st)
		return true
	}
	m["(encoding/binary.bigEndian).AppendUint64"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), Concat(c.E.Bytes(st, c.Args[0]), mk("be64", "", nil, Unwrap(c.Args[1])))))
		return true
	}
	m["(encoding/binary.bigEndian).Uint64"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		b := c.E.Bytes(st, c.Args[0])
		if b.Op == "be64" {
			k(st, conv(b.Args[0], types.Typ[types.Uint64]))
			return true
		}
		st.Emit(&Event{Kind: "be64read", Args: []*Term{b}, Pos: c.Pos, In: c.Fr.fn})
		k(st, mk("unbe64", "", types.Typ[types.Uint64], b))
		return true
	}
	m["(encoding/binary.littleEndian).Uint64"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("unle64", "", types.Typ[types.Uint64], c.E.Bytes(st, c.Args[0])))
		return true
	}
	for _, n := range []string{"bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString", "strings.NewReader"} {
		n := n
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			t := c.E.Fresh("alloc", "buffer", c.Sig.Results().At(0).Type())
			st.mem[mk("content", "", nil, t)] = c.E.Bytes(st, c.Args[0])
			k(st, t)
			return true
		}
	}
	for _, n := range []string{"bytes.Clone", "slices.Clone"} {
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), c.E.Bytes(st, c.Args[0])))
			return true
		}
	}
	joined := func(sep int) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			els, ok := c.E.sliceElems(st, c.Args[0])
			if !ok {
				return false
			}
			var parts []*Term
			for i, el := range els {
				if i > 0 && sep >= 0 {
					parts = append(parts, c.E.Bytes(st, c.Args[sep]))
				}
				parts = append(parts, c.E.Bytes(st, el))
			}
			k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), Concat(parts...)))
			return true
		}
	}
	m["bytes.Join"] = joined(1)
	m["slices.Concat"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		return isByteSlice(c.Sig.Results().At(0).Type()) && joined(-1)(c, st, k)
	}
	// three-way comparison, followed case by case
	compare := func(c *Call, st *State, k func(*State, ...*Term)) bool {
		a, b := c.Args[0], c.Args[1]
		t, ok := c.Sig.Params().At(0).Type().Underlying().(*types.Basic)
		if !ok || t.Info()&(types.IsInteger|types.IsString) == 0 {
			return false
		}
		bt := types.Typ[types.Bool]
		split(st, Eq(a, b), func(st *State, eq bool) {
			if eq {
				k(st, Int(0))
				return
			}
			split(st, foldBin(token.LSS, a, b, bt), func(st *State, less bool) {
				if less {
					k(st, Int(-1))
				} else {
					k(st, Int(1))
				}
			})
		})
		return true
	}
	m["cmp.Compare"] = compare
	m["strings.Compare"] = compare
	m["cmp.Less"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t, ok := c.Sig.Params().At(0).Type().Underlying().(*types.Basic)
		if !ok || t.Info()&(types.IsInteger|types.IsString) == 0 {
			return false
		}
		k(st, foldBin(token.LSS, c.Args[0], c.Args[1], types.Typ[types.Bool]))
		return true
	}
	m["cmp.Or"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		els, ok := c.E.sliceElems(st, c.Args[0])
		if !ok || len(els) == 0 {
			return false
		}
		t, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok || t.Info()&(types.IsInteger|types.IsString) == 0 {
			return false
		}
		zero := Int(0)
		if t.Info()&types.IsString != 0 {
			zero = Str("")
		}
		var from func(st *State, i int)
		from = func(st *State, i int) {
			if i == len(els)-1 {
				k(st, els[i])
				return
			}
			split(st, Eq(els[i], zero), func(st *State, eq bool) {
				if eq {
					from(st, i+1)
				} else {
					k(st, els[i])
				}
			})
		}
		from(st, 0)
		return true
	}
	// what has been written to a buffer that starts out empty
	written := func(c *Call, st *State) (*Term, bool) {
		if v, ok := st.mem[mk("content", "", nil, c.Recv)]; ok {
			return v, true
		}
		if c.Recv.Op == "alloc" && st.isOwned(c.Recv) {
			if v, ok := st.mem[c.Recv]; !ok || v.Op == "zero" {
				return Str(""), true
			}
		}
		return nil, false
	}
	for _, t := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		write := func(part func(c *Call, st *State) *Term) Model {
			return func(c *Call, st *State, k func(*State, ...*Term)) bool {
				old, ok := written(c, st)
				p := part(c, st)
				if !ok || p == nil {
					return false
				}
				st.mem[mk("content", "", nil, c.Recv)] = Concat(old, p)
				if c.Sig.Results().Len() == 1 {
					k(st, Nil)
				} else {
					k(st, LenOf(p), Nil)
				}
				return true
			}
		}
		bytesOf := func(c *Call, st *State) *Term { return c.E.Bytes(st, c.Args[0]) }
		m[t+"Write"] = write(bytesOf)
		m[t+"WriteString"] = write(bytesOf)
		m[t+"WriteByte"] = write(func(c *Call, st *State) *Term {
			if n, ok := c.Args[0].IntVal(); ok {
				return Str(string([]byte{byte(n)}))
			}
			return mk("byte", "", nil, c.Args[0])
		})
		m[t+"WriteRune"] = write(func(c *Call, st *State) *Term {
			if n, ok := c.Args[0].IntVal(); ok {
				return Str(string(rune(n)))
			}
			return nil
		})
		m[t+"Grow"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			if n, ok := c.Args[0].IntVal(); !ok || n < 0 {
				return false
			}
			k(st)
			return true
		}
		m[t+"String"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			v, ok := written(c, st)
			if !ok {
				return false
			}
			if c.E.Copies {
				v = mk("copy", "", types.Typ[types.String], v)
			}
			k(st, v)
			return true
		}
	}
	m["fmt.Fprintf"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		w := Unbox(c.Args[0])
		name := ""
		if w.Typ != nil {
			name = w.Typ.String()
		}
		if name != "*bytes.Buffer" && name != "*strings.Builder" {
			return false
		}
		c2 := *c
		c2.Recv, c2.Args = w, c.Args[1:]
		old, ok := written(&c2, st)
		if !ok {
			return false
		}
		p := c.E.sprintf(&c2, st)
		st.mem[mk("content", "", nil, w)] = Concat(old, p)
		k(st, LenOf(p), Nil)
		return true
	}
	m["(*bytes.Buffer).Bytes"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		if v, ok := written(c, st); ok {
			k(st, mk("bytes", "", c.Sig.Results().At(0).Type(), v))
		} else {
			k(st, mk("call", "bufbytes", c.Sig.Results().At(0).Type(), c.Recv))
		}
		return true
	}
	// --- locks
	lock := func(mode byte) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			l := c.Recv
			for _, h := range st.held {
				if h.Lock == l {
					st.Emit(&Event{Kind: "relock", Name: string(mode) + "/" + string(h.Mode), Recv: l, Pos: c.Pos, In: c.Fr.fn})
				}
			}
			st.Emit(&Event{Kind: "lock", Name: string(mode), Recv: l, Pos: c.Pos, In: c.Fr.fn})
			st.held = append(append([]Held(nil), st.held...), Held{l, mode})
			k(st)
			return true
		}
	}
	unlock := func(mode byte) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			l := c.Recv
			found := -1
			for i := len(st.held) - 1; i >= 0; i-- {
				if st.held[i].Lock == l && st.held[i].Mode == mode {
					found = i
					break
				}
			}
			if found < 0 {
				st.Emit(&Event{Kind: "badunlock", Name: string(mode), Recv: l, Pos: c.Pos, In: c.Fr.fn})
				c.E.guard(c.Fr.fn, st, Hazard{Kind: "unlock", X: l, Pos: c.Pos})
			} else {
				h := append([]Held(nil), st.held[:found]...)
				st.held = append(h, st.held[found+1:]...)
			}
			st.Emit(&Event{Kind: "unlock", Name: string(mode), Recv: l, Pos: c.Pos, In: c.Fr.fn})
			k(st)
			return true
		}
	}
	m["(*sync.Mutex).Lock"] = lock('W')
	m["(*sync.RWMutex).Lock"] = lock('W')
	m["(*sync.RWMutex).RLock"] = lock('R')
	m["(*sync.Mutex).Unlock"] = unlock('W')
	m["(*sync.RWMutex).Unlock"] = unlock('W')
	m["(*sync.RWMutex).RUnlock"] = unlock('R')
	trylock := func(mode byte) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			st2 := st.Clone()
			st.Emit(&Event{Kind: "lock", Name: string(mode), Recv: c.Recv, Pos: c.Pos, In: c.Fr.fn})
			st.held = append(append([]Held(nil), st.held...), Held{c.Recv, mode})
			k(st, True)
			k(st2, False)
			return true
		}
	}
	m["(*sync.Mutex).TryLock"] = trylock('W')
	m["(*sync.RWMutex).TryLock"] = trylock('W')
	m["(*sync.RWMutex).TryRLock"] = trylock('R')
	m["(*sync.Once).Do"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		done := mk("call", "once-done", types.Typ[types.Bool], c.Recv)
		f := c.Args[0]
		if v, ok := st.Decide(done); ok && v {
			k(st)
			return true
		} else if !ok {
			st2 := st.Clone()
			st2.Assume(done, true)
			k(st2)
		}
		st.Assume(done, false)
		if fnOf(f) == nil {
			st.facts[done] = true
			k(st)
			return true
		}
		c.E.RunFuncIn(c.Fr, f, st, nil, func(st *State, ret []*Term, x Exit, why string, pos tpos) {
			st.facts[done] = true
			c.K(st, nil, x, why, pos)
		})
		return true
	}
	// --- atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		m["sync/atomic.Add"+t] = atomicOp("add")
		m["sync/atomic.Load"+t] = atomicOp("load")
		m["sync/atomic.Store"+t] = atomicOp("store")
		m["sync/atomic.Swap"+t] = atomicOp("swap")
		m["sync/atomic.CompareAndSwap"+t] = atomicOp("cas")
		m["(*sync/atomic."+t+").Add"] = atomicOp("add")
		m["(*sync/atomic."+t+").Load"] = atomicOp("load")
		m["(*sync/atomic."+t+").Store"] = atomicOp("store")
		m["(*sync/atomic."+t+").Swap"] = atomicOp("swap")
		m["(*sync/atomic."+t+").CompareAndSwap"] = atomicOp("cas")
	}
	m["(*sync/atomic.Bool).Load"] = atomicOp("load")
	m["(*sync/atomic.Bool).Store"] = atomicOp("store")
	m["(*sync/atomic.Bool).Swap"] = atomicOp("swap")
	m["(*sync/atomic.Bool).CompareAndSwap"] = atomicOp("cas")
	// --- time
	m["time.Now"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		t := c.E.Fresh("now", "now", c.Sig.Results().At(0).Type())
		st.Emit(&Event{Kind: "call", Name: "time.Now", Callee: c.Fn, Res: []*Term{t}, Pos: c.Pos, In: c.Fr.fn})
		k(st, t)
		return true
	}
	// a timer or ticker whose period is known gets another one
	for _, n := range []string{"(*time.Ticker).Reset", "(*time.Timer).Reset"} {
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			t := Unwrap(c.Recv)
			if _, ok := st.mem[mk("period", "", nil, t)]; !ok || len(c.Args) == 0 {
				return false
			}
			st.mem[mk("period", "", nil, t)] = c.Args[0]
			if s := structOf(elemType(t)); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "C" {
						if ch, ok := st.mem[FieldAddr(t, "C", s.Field(i).Type())]; ok {
							st.mem[mk("period", "", nil, ch)] = c.Args[0]
						}
					}
				}
			}
			return false
		}
	}
	for _, n := range []string{"Round", "Truncate"} {
		n := n
		m["(time.Time)."+n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			// the whole second stays the same, and the rest does not matter here
			if d, ok := Unwrap(c.Args[0]).IntVal(); ok && (d <= 0 || n == "Truncate" && 1_000_000_000%d == 0) {
				k(st, c.Recv)
				return true
			}
			return false
		}
	}
	for _, n := range []string{"UTC", "Local", "In"} {
		m["(time.Time)."+n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			k(st, c.Recv)
			return true
		}
	}
	m["(time.Time).Add"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		k(st, mk("timeadd", "", c.Sig.Results().At(0).Type(), c.Recv, c.Args[0]))
		return true
	}
	m["(time.Time).Unix"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		// unix(now + n*second) = unix(now) + n
		if c.Recv.Op == "timeadd" {
			if n, ok := seconds(c.Recv.Args[1]); ok {
				u := mk("unix", "", types.Typ[types.Int64], c.Recv.Args[0])
				k(st, mk("bin", "+", types.Typ[types.Int64], u, n))
				return true
			}
		}
		k(st, mk("unix", "", types.Typ[types.Int64], c.Recv))
		return true
	}
	m["time.Sleep"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		st.Emit(&Event{Kind: "call", Name: "time.Sleep", Args: c.Args, Pos: c.Pos, In: c.Fr.fn})
		k(st)
		return true
	}
	for _, n := range []string{"time.NewTicker", "time.NewTimer"} {
		n := n
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			t := c.E.Fresh("alloc", n[5:], c.Sig.Results().At(0).Type())
			ct := types.Type(types.NewChan(types.RecvOnly, nil))
			if s := structOf(elemType(t)); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "C" {
						ct = s.Field(i).Type()
					}
				}
			}
			ch := c.E.Fresh("makechan", n[8:]+".C", ct)
			st.mem[mk("period", "", nil, t)] = c.Args[0]
			st.mem[mk("period", "", nil, ch)] = c.Args[0]
			st.mem[FieldAddr(t, "C", ct)] = ch
			st.Emit(&Event{Kind: "call", Name: n, Callee: c.Fn, Args: c.Args, Res: []*Term{t}, Pos: c.Pos, In: c.Fr.fn})
			k(st, t)
			return true
		}
	}
	for _, n := range []string{"time.After", "time.Tick"} {
		n := n
		m[n] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
			t := c.E.Fresh("makechan", n[5:], c.Sig.Results().At(0).Type())
			st.mem[mk("period", "", nil, t)] = c.Args[0]
			st.Emit(&Event{Kind: "call", Name: n, Callee: c.Fn, Args: c.Args, Res: []*Term{t}, Pos: c.Pos, In: c.Fr.fn})
			k(st, t)
			return true
		}
	}
	badgerModels(m)
	msgpackModels(m)
	jsonModels(m)
	raftModels(m)
	return m
}

func pureResults(c *Call, n string) []*Term {
	args := c.Args
	if c.Recv != nil {
		args = append([]*Term{c.Recv}, args...)
	}
	norm := make([]*Term, len(args))
	for i, a := range args {
		norm[i] = Unwrap(a)
	}
	res := c.Sig.Results()
	if res.Len() == 1 {
		return []*Term{mk("call", n, res.At(0).Type(), norm...)}
	}
	r := make([]*Term, res.Len())
	for i := range r {
		r[i] = mk("call", fmt.Sprintf("%s#%d", n, i), res.At(i).Type(), norm...)
	}
	return r
}

// TimerChan is the channel of a ticker or timer that was made on the path.
func TimerChan(st *State, t *Term) *Term {
	t = Unwrap(t)
	if s := structOf(elemType(t)); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "C" {
				return st.mem[FieldAddr(t, "C", s.Field(i).Type())]
			}
		}
	}
	return nil
}

// Period of a ticker, timer or timer channel.
func Period(st *State, ch *Term) (*Term, bool) {
	ch = Unbox(ch)
	if ch.Op == "field" && ch.Aux == "C" && ch.Args[0].Op == "deref" {
		ch = ch.Args[0].Args[0]
	}
	if ch.Op == "zero" {
		return nil, false
	}
	p, ok := st.mem[mk("period", "", nil, ch)]
	return p, ok
}

// seconds matches a duration of n seconds.
func seconds(d *Term) (*Term, bool) {
	u := Unwrap(d)
	if n, ok := u.IntVal(); ok {
		if n%1_000_000_000 == 0 {
			return Int(n / 1_000_000_000), true
		}
		return nil, false
	}
	if u.Op == "bin" && u.Aux == "*" {
		a, b := Unwrap(u.Args[0]), Unwrap(u.Args[1])
		if n, ok := a.IntVal(); ok && n == 1_000_000_000 {
			return b, true
		}
		if n, ok := b.IntVal(); ok && n == 1_000_000_000 {
			return a, true
		}
	}
	return nil, false
}

// Seconds matches a duration of n seconds.
func Seconds(d *Term) (*Term, bool) { return seconds(d) }

func decTerm(x *Term) *Term {
	u := Unwrap(x)
	if n, ok := u.IntVal(); ok {
		return Str(fmt.Sprint(n))
	}
	return mk("dec", "", types.Typ[types.String], u)
}

func fmtVerb(st *State, verb byte, a *Term) *Term {
	u := a
	var typ types.Type
	if u.Op == "iface" {
		typ = u.Typ
		u = u.Args[0]
	} else if u.Typ != nil {
		typ = u.Typ
	}
	x := Unwrap(u)
	if x.Op == "const" {
		switch x.C.Kind() {
		case constant.String:
			if verb == 's' || verb == 'v' {
				return x
			}
		case constant.Int:
			if verb == 'd' || verb == 'v' {
				return Str(x.C.ExactString())
			}
		case constant.Bool:
			if verb == 't' || verb == 'v' {
				return Str(x.C.ExactString())
			}
		}
	}
	if typ != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				return x
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				return mk("dec", "", types.Typ[types.String], x)
			case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
				return mk("dec", "", types.Typ[types.String], x)
			}
		}
		if isByteSlice(typ) && verb == 's' {
			return x
		}
	}
	return mk("fmt", string(verb), types.Typ[types.String], x)
}

func (e *Exec) sprintf(c *Call, st *State) *Term {
	f, ok := Unwrap(c.Args[0]).StrVal()
	els, ok2 := e.sliceElems(st, c.Args[1])
	if !ok || !ok2 {
		return e.Fresh("sym", "sprintf", types.Typ[types.String])
	}
	var parts []*Term
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			lit += string(f[i])
			continue
		}
		i++
		if f[i] == '%' {
			lit += "%"
			continue
		}
		spec := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			spec += string(f[i])
			i++
		}
		if i >= len(f) {
			break
		}
		if lit != "" {
			parts = append(parts, Str(lit))
			lit = ""
		}
		if n >= len(els) {
			parts = append(parts, mk("fmt", "missing", nil))
			continue
		}
		if spec != "" {
			parts = append(parts, mk("fmt", spec+string(f[i]), types.Typ[types.String], Unwrap(els[n])))
		} else {
			parts = append(parts, fmtVerb(st, f[i], els[n]))
		}
		n++
	}
	if lit != "" {
		parts = append(parts, Str(lit))
	}
	return Concat(parts...)
}

func atomicOp(op string) Model {
	return func(c *Call, st *State, k func(*State, ...*Term)) bool {
		addr := c.Recv
		args := c.Args
		if addr == nil {
			addr, args = c.Args[0], c.Args[1:]
		}
		ev := &Event{Kind: "atomic", Name: op, Recv: addr, Args: args, Pos: c.Pos, In: c.Fr.fn, Owned: st.isOwned(addr)}
		var cell *Term = mk("atomcell", "", nil, addr)
		cur, ok := st.mem[cell]
		var typ types.Type
		if c.Sig.Results().Len() > 0 {
			typ = c.Sig.Results().At(0).Type()
		}
		if !ok {
			cur = mk("atomload", fmt.Sprint(st.Ver(addr)), typ, addr)
		}
		ev.Res = []*Term{cur}
		st.Emit(ev)
		if !ev.Owned {
			// other goroutines can change it at any time
			k2 := k
			k = func(st *State, r ...*Term) {
				delete(st.mem, cell)
				st.Bump(addr)
				k2(st, r...)
			}
		}
		switch op {
		case "add":
			nv := foldBin(addTok, cur, args[0], typ)
			st.mem[cell] = nv
			k(st, nv)
		case "load":
			st.mem[cell] = cur
			k(st, cur)
		case "store":
			st.mem[cell] = args[0]
			k(st)
		case "swap":
			st.mem[cell] = args[0]
			k(st, cur)
		case "cas":
			eq := mk("bin", "==", types.Typ[types.Bool], cur, args[0])
			if v, ok := st.Decide(eq); ok {
				if v {
					st.mem[cell] = args[1]
				}
				k(st, Bool(v))
				return true
			}
			st2 := st.Clone()
			st.Assume(eq, true)
			st.mem[cell] = args[1]
			k(st, True)
			st2.Assume(eq, false)
			st2.mem[cell] = cur
			k(st2, False)
		}
		return true
	}
}

const msgpackPkg = "github.com/hashicorp/go-msgpack/v2/codec"

// msgpackModels: an encoder appends msgpack(value, handle) to its writer, a
// decoder reads its reader's content into the value it is given.
func msgpackModels(m map[string]Model) {
	handle := func(c *Call, st *State, h *Term) *Term {
		h = Unwrap(h)
		if p := Deref(h); p != nil {
			return st.Load(h, p.Elem())
		}
		return h
	}
	mkCoder := func(op string, raw bool) Model {
		return func(c *Call, st *State, k func(*State, ...*Term)) bool {
			t := c.E.Fresh("alloc", op, c.Sig.Results().At(0).Type())
			st.Assume(IsNil(t), false)
			src := Unwrap(c.Args[0])
			if raw {
				if op == "msgdecoder" {
					src = c.E.Bytes(st, c.Args[0])
				}
				op := op + "raw"
				st.mem[mk(op, "", nil, t)] = src
			} else {
				st.mem[mk(op, "", nil, t)] = src
			}
			st.mem[mk("handle", "", nil, t)] = handle(c, st, c.Args[1])
			k(st, t)
			return true
		}
	}
	m[msgpackPkg+".NewEncoder"] = mkCoder("msgencoder", false)
	m[msgpackPkg+".NewEncoderBytes"] = mkCoder("msgencoder", true)
	m[msgpackPkg+".NewDecoder"] = mkCoder("msgdecoder", false)
	m[msgpackPkg+".NewDecoderBytes"] = mkCoder("msgdecoder", true)
	m["(*"+msgpackPkg+".Encoder).Encode"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		h, ok := st.mem[mk("handle", "", nil, c.Recv)]
		if !ok {
			return false
		}
		st2 := st.Clone()
		v := mk("msgpack", "", nil, Unwrap(c.Args[0]), h)
		if w, ok := st.mem[mk("msgencoder", "", nil, c.Recv)]; ok {
			key := mk("content", "", nil, w)
			if old, had := st.mem[key]; had && old.Op != "nil" {
				st.mem[key] = Concat(old, v)
			} else {
				st.mem[key] = v
			}
		} else if w, ok := st.mem[mk("msgencoderraw", "", nil, c.Recv)]; ok {
			bt := types.NewSlice(types.Typ[types.Byte])
			st.Store(w, mk("bytes", "", bt, v), bt)
		}
		st.Emit(&Event{Kind: "msgencode", Args: []*Term{Unwrap(c.Args[0]), h}, Pos: c.Pos, In: c.Fr.fn})
		k(st, Nil)
		st2.Emit(&Event{Kind: "msgencode", Args: []*Term{Unwrap(c.Args[0]), h}, Pos: c.Pos, In: c.Fr.fn, Failed: true})
		k(st2, c.E.AnyErr("msgpack.Encode"))
		return true
	}
	m["(*"+msgpackPkg+".Decoder).Decode"] = func(c *Call, st *State, k func(*State, ...*Term)) bool {
		h, ok := st.mem[mk("handle", "", nil, c.Recv)]
		if !ok {
			return false
		}
		var src *Term
		if w, ok := st.mem[mk("msgdecoder", "", nil, c.Recv)]; ok {
			src = st.mem[mk("content", "", nil, w)]
		} else {
			src = st.mem[mk("msgdecoderraw", "", nil, c.Recv)]
		}
		if src == nil {
			src = c.E.Fresh("sym", "input", nil)
		}
		c.E.havocArgs(c, st)
		st2 := st.Clone()
		args := []*Term{src, Unwrap(c.Args[0]), h}
		st.Emit(&Event{Kind: "msgdecode", Args: args, Pos: c.Pos, In: c.Fr.fn})
		k(st, Nil)
		st2.Emit(&Event{Kind: "msgdecode", Args: args, Pos: c.Pos, In: c.Fr.fn, Failed: true})
		k(st2, c.E.AnyErr("msgpack.Decode"))
		return true
	}
}

// urlString is the text of a URL that was put together from a scheme, a host
// and a path that needs no escaping.
func urlString(c *Call, st *State, k func(*State, ...*Term)) bool {
	if c.Recv == nil || c.Recv.Op != "alloc" {
		return false
	}
	s := structOf(DerefType(c.Recv.Typ))
	if s == nil {
		return false
	}
	part := map[string]*Term{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		part[f.Name()] = st.Load(FieldAddr(c.Recv, f.Name(), f.Type()), f.Type())
	}
	for n, v := range part {
		switch n {
		case "Scheme", "Host", "Path", "RawQuery":
		default:
			if v != Zero(v.Typ) && v.Op != "nil" {
				return false
			}
		}
	}
	path, ok := part["Path"].StrVal()
	scheme, ok2 := part["Scheme"].StrVal()
	if !ok || !ok2 || scheme == "" || strings.ContainsAny(path, "%?# ") || path != "" && path[0] != '/' {
		return false
	}
	t := Concat(Str(scheme+"://"), part["Host"], Str(path))
	if q, ok := part["RawQuery"].StrVal(); !ok || q != "" {
		t = Concat(t, Str("?"), part["RawQuery"])
	}
	k(st, t)
	return true
}

// split goes on with every value a condition can have.
func split(st *State, cond *Term, k func(*State, bool)) {
	if a, pos := Canon(cond); a.Op == "const" {
		v, _ := a.BoolVal()
		k(st, v == pos)
		return
	}
	if v, known := st.Decide(cond); known {
		k(st, v)
		return
	}
	for _, v := range []bool{true, false} {
		s := st.Clone()
		s.Assume(cond, v)
		k(s, v)
	}
}
