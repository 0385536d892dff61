package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"doqcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F01", "Path analysis of the command's construction (which flags it defines and which setting each is bound to) and of what runs once the flags are parsed; the decoder's names are computed from the configuration's types; then the program's entry is run once per setting with that setting unknown and all others unset, following its value to where it is used.", 150, ruleF01)
}

const (
	cobraPkg  = "github.com/spf13/cobra"
	pflagPkg  = "github.com/spf13/pflag"
	badgerPkg = "github.com/dgraph-io/badger/v4"
)

func ruleF01(c *Ctx, r *Report) {
	c.flagsRule(r)
	c.oneConfig(r)
	c.storageSettings(r)
	c.serverSettings(r)
	c.queueSettings(r)
}

// flagKinds are the types a flag can have and the kinds of field it can be
// decoded into: text into anything, the others into their own kind.
var flagKinds = map[string]types.BasicInfo{
	"String": 0, "Bool": types.IsBoolean, "Float64": types.IsFloat, "Float32": types.IsFloat,
	"Int": types.IsInteger, "Int8": types.IsInteger, "Int16": types.IsInteger, "Int32": types.IsInteger, "Int64": types.IsInteger,
	"Uint": types.IsInteger, "Uint8": types.IsInteger, "Uint16": types.IsInteger, "Uint32": types.IsInteger, "Uint64": types.IsInteger, "Count": types.IsInteger,
}

// flagDef is a flag the program defines.
type flagDef struct {
	name, kind string
	set        string // of which set
	ptr        *eng.Term
	seq        int
}

// commandModels: the libraries of the command line do as they are asked.
func (c *Ctx) commandModels(e *eng.Exec) {
	e.Match = append([]func(*eng.Call) eng.Model{func(call *eng.Call) eng.Model {
		n := strings.TrimLeft(call.Name, "(*")
		if n == pflagPkg+".FlagSet).VisitAll" {
			return c.visitFlags
		}
		for _, p := range []string{cobraPkg, pflagPkg, viperPkg} {
			if strings.HasPrefix(n, p+".") {
				return sureModel(e)
			}
		}
		return nil
	}}, e.Match...)
}

// visitFlags calls back with every flag that is defined by then.
func (c *Ctx) visitFlags(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
	cb := strip(call.Args[0])
	if cb.Fn == nil || len(cb.Fn.Params) != 1 {
		return false
	}
	p := &path{st: st, evs: st.Events()}
	set := p.setOf(call.Recv)
	var names []string
	for _, f := range p.flags() {
		if f.set == set && f.name != "" {
			names = append(names, f.name)
		}
	}
	sort.Strings(names)
	typ := cb.Fn.Params[0].Type()
	var next func(st *eng.State, i int)
	next = func(st *eng.State, i int) {
		if i == len(names) {
			k(st)
			return
		}
		fl := call.E.Fresh("sym", "flag", typ)
		st.Assume(eng.IsNil(fl), false)
		st.Store(eng.FieldAddr(fl, "Name", types.Typ[types.String]), eng.Str(names[i]), types.Typ[types.String])
		st.Emit(&eng.Event{Kind: "call", Name: "(*" + pflagPkg + ".FlagSet).Lookup", Recv: call.Recv, Args: []*eng.Term{eng.Str(names[i])}, Res: []*eng.Term{fl}, Pos: call.Pos, In: cb.Fn})
		call.E.RunFunc(cb, st, []*eng.Term{fl}, func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
			if x != eng.Return {
				call.K(st, nil, x, why, pos)
				return
			}
			next(st, i+1)
		})
	}
	next(st, 0)
	return true
}

// flags lists the definitions of flags on a path.
func (p *path) flags() []*flagDef {
	var r []*flagDef
	for _, e := range p.evs {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*"+pflagPkg+".FlagSet).") {
			continue
		}
		kind := last(e.Name)
		short, isVar := false, false
		if _, ok := flagKinds[kind]; !ok {
			k := strings.TrimSuffix(kind, "P")
			short = k != kind
			v := strings.TrimSuffix(k, "Var")
			isVar = v != k
			if _, ok := flagKinds[v]; !ok {
				continue
			}
			kind = v
		}
		f := &flagDef{kind: kind, set: p.setOf(e.Recv), seq: e.Seq}
		i := 0
		if isVar {
			f.ptr = strip(e.Args[0])
			i = 1
		} else if len(e.Res) > 0 {
			f.ptr = strip(e.Res[0])
		}
		if s, ok := strip(e.Args[i]).StrVal(); ok {
			f.name = s
		}
		_ = short
		r = append(r, f)
	}
	return r
}

// setOf names the set of flags a term is.
func (p *path) setOf(t *eng.Term) string {
	t = strip(t)
	for _, e := range p.evs {
		if e.Kind == "call" && len(e.Res) > 0 && strip(e.Res[0]) == t {
			return last(e.Name)
		}
	}
	return t.String()
}

// bound lists which setting is bound to which flag.
func (p *path) bound(defs []*flagDef) (map[string][]*flagDef, []string) {
	r := map[string][]*flagDef{}
	var bad []string
	find := func(name, set string, seq int) *flagDef {
		for _, f := range defs {
			if f.name == name && f.seq < seq && (set == "" || f.set == set) {
				return f
			}
		}
		return nil
	}
	for _, e := range p.evs {
		if e.Kind != "call" || !strings.HasPrefix(strings.TrimLeft(e.Name, "(*"), viperPkg+".") {
			continue
		}
		switch last(e.Name) {
		case "BindPFlag":
			key, ok := strip(e.Args[0]).StrVal()
			if !ok {
				bad = append(bad, fmt.Sprintf("the setting %s that a flag is bound to is not known", e.Args[0]))
				continue
			}
			var f *flagDef
			fl := strip(e.Args[1])
			for _, l := range p.evs {
				if l.Kind != "call" || len(l.Res) == 0 || strip(l.Res[0]) != fl || len(l.Args) == 0 {
					continue
				}
				if s, ok := strip(l.Args[0]).StrVal(); ok {
					switch {
					case l.Name == "(*"+pflagPkg+".FlagSet).Lookup":
						f = find(s, p.setOf(l.Recv), l.Seq)
					case l.Name == "(*"+cobraPkg+".Command).Flag":
						f = find(s, "", l.Seq)
					}
				}
			}
			if f == nil {
				bad = append(bad, fmt.Sprintf("the setting %s is bound to a flag that is not defined then", key))
				continue
			}
			r[strings.ToLower(key)] = append(r[strings.ToLower(key)], f)
		case "BindPFlags":
			set := p.setOf(e.Args[0])
			for _, f := range defs {
				if f.set == set && f.seq < e.Seq {
					r[strings.ToLower(f.name)] = append(r[strings.ToLower(f.name)], f)
				}
			}
		case "Set":
			bad = append(bad, fmt.Sprintf("the setting %s is given a value that no flag or file can change", e.Args[0]))
		}
	}
	return r, bad
}

// flagsRule: flags, settings, fields and the configuration file.
func (c *Ctx) flagsRule(r *Report) {
	icc, load, typ := c.Func("pkg/config", "InitCobraCommand"), c.Func("pkg/config", "LoadConfig"), c.Named("pkg/config", "Config")
	if !r.Anchor(icc != nil && load != nil && typ != nil, "InitCobraCommand, LoadConfig and Config") {
		return
	}
	e := c.exec(r)
	e.Visits = 100
	c.commandModels(e)
	leaves := settingsOf(typ)
	keys := map[string]int{}
	for _, l := range leaves {
		keys[l.key]++
	}
	for _, l := range leaves {
		r.Ob(keys[l.key] == 1, "decoded-apart", l.key, nil, "two fields are decoded from the setting %s", l.key)
	}
	for k := range settingUses {
		r.Ob(keys[k] == 1, "decoded", k, nil, "no field is decoded from the setting %s", k)
	}
	n := 0
	for _, p := range paths(icc, r.run(e, icc, nil)) {
		if p.cut || p.o.Exit != eng.Return {
			continue
		}
		n++
		defs := p.flags()
		byName := map[string][]*flagDef{}
		for _, f := range defs {
			r.Ob(f.name != "", "defined-once", "a flag", p.o, "the name of a flag is not known")
			byName[f.name] = append(byName[f.name], f)
		}
		for name, fs := range byName {
			r.Ob(len(fs) == 1, "defined-once", name, p.o, "the flag --%s is defined %d times", name, len(fs))
		}
		bound, bad := p.bound(defs)
		for _, b := range bad {
			r.Ob(false, "bound-to-its-name", b, p.o, "%s", b)
		}
		for _, l := range leaves {
			fs := bound[l.key]
			if !r.Ob(len(fs) > 0, "bound-to-its-name", l.key, p.o, "the setting %s is not bound to a flag", l.key) {
				continue
			}
			f := fs[len(fs)-1]
			r.Ob(strings.EqualFold(f.name, l.key), "bound-to-its-name", l.key, p.o, "the setting %s is bound to the flag --%s", l.key, f.name)
			b, isB := l.path[len(l.path)-1].Type().Underlying().(*types.Basic)
			k := flagKinds[f.kind]
			r.Ob(isB && (k == 0 || b.Info()&k != 0), "read-as-defined", l.key, p.o, "the flag --%s is a %s, the field a %s", f.name, f.kind, l.path[len(l.path)-1].Type())
		}
		for key := range bound {
			r.Ob(keys[key] > 0 || key == "config" || key == "help", "decoded", key, p.o, "no field is decoded from the setting %s", key)
		}
		c.fileRule(r, e, p, defs, load, leaves)
	}
	r.Ob(n > 0, "instances", "InitCobraCommand", nil, "the command's construction does not return")
}

// fileRule: what happens once the flags are parsed, up to the decoded
// configuration.
func (c *Ctx) fileRule(r *Report, e *eng.Exec, p *path, defs []*flagDef, load *ssa.Function, leaves []leaf) {
	var file *flagDef
	for _, f := range defs {
		if f.name == "config" {
			file = f
		}
	}
	if !r.Ob(file != nil && file.kind == "String" && file.ptr != nil, "config-file", "--config", p.o, "no flag --config is defined") {
		return
	}
	name := eng.Sym("flag:config", text)
	// what runs after the flags are parsed and before the configuration is loaded
	var late []*eng.Term
	for _, x := range p.evs {
		if x.Kind == "call" && x.Name == cobraPkg+".OnInitialize" {
			l, ok := e.SliceElems(p.st, strip(x.Args[0]))
			if !ok {
				l = p.list(strip(x.Args[0]))
			}
			late = append(late, l...)
		}
	}
	cmd := strip(p.o.Ret[0])
	for _, f := range []string{"PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE"} {
		if v := eng.Unbox(follow(p.st, cmd, []string{f})); v.Fn != nil {
			late = append(late, v)
		}
	}
	e2 := c.exec(r)
	e2.Visits = 100
	c.viperModels(e2, nil)
	given := map[bool]int{}
	finish := func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
		o := &eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos}
		if x != eng.Return || len(ret) < 2 {
			r.Ob(x == eng.ProcExit, "loaded", "LoadConfig", o, "loading the configuration does not return")
			return
		}
		empty, known := st.Decide(isEmptyStr(name))
		set, read, dec := -1, -1, -1
		deflt, failed := false, false
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "decode":
				dec = ev.Seq
				failed = failed || ev.Failed
			case ev.Kind != "call" || !strings.HasPrefix(strings.TrimLeft(ev.Name, "(*"), viperPkg+"."):
			case last(ev.Name) == "SetConfigFile":
				if strip(ev.Args[0]) == name {
					set = ev.Seq
				} else {
					r.Ob(false, "config-file", "--config", o, "the file %s is read instead of the one given", ev.Args[0])
				}
			case last(ev.Name) == "SetConfigName":
				deflt = true
			case last(ev.Name) == "ReadInConfig" || last(ev.Name) == "MergeInConfig":
				read = ev.Seq
			}
		}
		reported := st.KnownNonNil(ret[1])
		if !known || !empty {
			given[true]++
			r.Ob(set >= 0 && read > set && dec > read || reported, "config-file", "--config", o, "the file given with --config is not read before the configuration is decoded")
		} else {
			given[false]++
			r.Ob(deflt && read >= 0 && dec > read || reported, "config-file", "default", o, "without --config the default file is not read")
		}
		if failed {
			r.Ob(reported, "loaded", "LoadConfig", o, "a configuration that cannot be decoded is not reported")
			return
		}
		if !st.KnownNil(ret[1]) {
			return
		}
		for _, l := range leaves {
			var ch []string
			for _, v := range l.path {
				ch = append(ch, v.Name())
			}
			v := follow(st, ret[0], ch)
			r.Ob(settingName(v) == l.key, "decoded", l.key, o, "the field %s of the loaded configuration is %s, not the setting %s", strings.Join(ch, "."), v, l.key)
		}
	}
	var then func(st *eng.State, i int)
	then = func(st *eng.State, i int) {
		if i == len(late) {
			e2.RunFunc(eng.FuncTerm(load), st, nil, finish)
			return
		}
		f := eng.Unbox(late[i])
		if !r.Ob(f.Fn != nil, "config-file", "OnInitialize", p.o, "a function that runs before the command is not known") {
			return
		}
		var args []*eng.Term
		for _, q := range f.Fn.Params {
			args = append(args, eng.Sym(q.Name(), q.Type()))
		}
		e2.RunFunc(f, st, args, func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
			if x == eng.Return {
				then(st, i+1)
				return
			}
			o := &eng.Outcome{St: st, Exit: x, Why: why, Pos: pos}
			r.Ob(x == eng.ProcExit, "config-file", "OnInitialize", o, "what runs before the command does not return")
		})
	}
	for _, none := range []bool{true, false} {
		st := p.st.Clone()
		st.Assume(isEmptyStr(name), none)
		st.Store(file.ptr, name, text)
		then(st, 0)
	}
	for _, g := range []bool{true, false} {
		r.Ob(given[g] > 0, "instances", fmt.Sprintf("--config given %v", g), nil, "no path loads the configuration")
	}
}

// oneConfig: there is one configuration, the one that was loaded, and nothing
// but the identity a node discovers is changed in it.
func (c *Ctx) oneConfig(r *Report) {
	typ := c.Named("pkg/config", "Config")
	load := c.Func("pkg/config", "LoadConfig")
	if typ == nil || load == nil {
		return
	}
	settable := map[string]bool{"cluster.node_id": true, "raft.address": true}
	fields := map[string]string{} // owner type and field -> setting
	isPart := map[string]bool{types.Type(typ).String(): true}
	for _, l := range settingsOf(typ) {
		t := types.Type(typ)
		for _, v := range l.path[:len(l.path)-1] {
			t = v.Type()
			isPart[t.String()] = true
		}
		fields[t.String()+"."+l.path[len(l.path)-1].Name()] = l.key
	}
	n := 0
	for _, f := range c.ReachableFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					if !types.Identical(eng.DerefType(in.Type()), typ) || f == load || f.Parent() == load {
						continue
					}
					// a copy of the loaded one is as good
					n++
					ok := false
					for _, u := range *in.Referrers() {
						if s, isS := u.(*ssa.Store); isS && s.Addr == in {
							ok = true
						}
					}
					r.ObAt(ok, "one-configuration", funcName(f), in.Pos(), "another configuration than the loaded one is made")
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					t := eng.DerefType(fa.X.Type())
					if !isPart[t.String()] {
						continue
					}
					fl := t.Underlying().(*types.Struct).Field(fa.Field)
					key := fields[t.String()+"."+fl.Name()]
					n++
					r.ObAt(settable[key], "one-configuration", "write of "+fl.Name(), in.Pos(), "the setting %s is changed after it was loaded", key)
				}
			}
		}
	}
	r.Ob(n > 0, "instances", "uses of the configuration", nil, "nothing changes the node's identity: the rule sees no write of a setting")
}

// settingUses: the settings and where their use is decided.
var settingUses = map[string]string{
	"profiling.enabled": "server", "profiling.port": "server", "prometheus.enabled": "server", "logging.level": "server", "http.port": "server",
	"grpc.address": "server", "raft.address": "server", "storage.data_dir": "server", "storage.gc_interval": "server", "storage.gc_discard_ratio": "server",
	"storage.compression": "Compression", "storage.zstd_compression_level": "ZSTDCompressionLevel", "storage.block_cache_size": "BlockCacheSize",
	"storage.index_cache_size": "IndexCacheSize", "storage.base_table_size": "BaseTableSize", "storage.num_compactors": "NumCompactors",
	"storage.num_level_zero_tables": "NumLevelZeroTables", "storage.num_level_zero_tables_stall": "NumLevelZeroTablesStall",
	"storage.num_memtables": "NumMemtables", "storage.value_log_file_size": "ValueLogFileSize",
	"cluster.node_id": "server", "cluster.service_name": "server", "cluster.join_addr": "server",
	"queue.acknowledgement_check_interval": "queue", "queue.acknowledgement_timeout": "queue", "queue.stats.window_side": "queue",
}

// optionsModel: a WithX method of badger's options changes X.
func optionsModel(e *eng.Exec) func(*eng.Call) eng.Model {
	return func(call *eng.Call) eng.Model {
		f := strings.TrimPrefix(call.Name, "("+badgerPkg+".Options).With")
		if f == call.Name || call.Recv == nil || len(call.Args) != 1 {
			return nil
		}
		s, ok := call.Recv.Typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				ft := s.Field(i).Type()
				return func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
					a := e.Fresh("alloc", "options", types.NewPointer(call.Recv.Typ))
					st.Store(a, call.Recv, call.Recv.Typ)
					st.Store(eng.FieldAddr(a, f, ft), call.Args[0], ft)
					k(st, st.Load(a, call.Recv.Typ))
					return true
				}
			}
		}
		return nil
	}
}

// storageSettings: each option of the database is the setting of its name when
// that is set, and the database's default otherwise.
func (c *Ctx) storageSettings(r *Report) {
	f := c.entry(r)
	if f == nil {
		return
	}
	var keys []string
	for k, u := range settingUses {
		if u != "server" && u != "queue" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		field := settingUses[key]
		o := clusterStart
		o.free = func(s string) bool { return s == key }
		o.stop = func(n string) bool { return n == badgerPkg+".Open" }
		e := c.exec(r)
		c.serverModels(e, o)
		e.Match = append([]func(*eng.Call) eng.Model{optionsModel(e)}, e.Match...)
		samples := []any{int64(0), int64(1), int64(7), int64(1) << 20}
		if field == "Compression" {
			samples = []any{"", "none", "snappy", "zstd"}
		}
		number := map[any]int64{"none": 0, "snappy": 1, "zstd": 2}
		seen := map[any]int{}
		for _, p := range paths(f, r.run(e, f, nil)) {
			var open, deflt *eng.Event
			for _, x := range p.evs {
				if x.Kind == "call" && x.Name == badgerPkg+".Open" {
					open = x
				}
				if x.Kind == "call" && x.Name == badgerPkg+".DefaultOptions" {
					deflt = x
				}
			}
			if open == nil {
				continue
			}
			if !r.Ob(deflt != nil && len(deflt.Res) == 1, "database-options", key, p.o, "the database is not opened with its default options as a start") {
				continue
			}
			opts := strip(open.Args[0])
			get := func(f string) (v, base *eng.Term) {
				return follow(p.st, opts, []string{f}), follow(p.st, deflt.Res[0], []string{f})
			}
			for _, s := range samples {
				v := &evaluator{p: p, in: func(t *eng.Term) (any, bool) {
					if settingName(t) == key {
						return s, true
					}
					return nil, false
				}}
				if yes, _ := v.happens(); !yes {
					continue
				}
				seen[s]++
				x, base := get(field)
				if s == "" || s == int64(0) {
					r.Ob(x == base, "default-unless-set", key, p.o, "without the setting %s the option %s is %s, not its default", key, field, x)
					continue
				}
				want := s
				if field == "Compression" {
					want = number[s]
				}
				got, ok := v.val(x)
				r.Ob(ok && got == want, "takes-effect", key, p.o, "with %s = %v the option %s is %s", key, s, field, x)
			}
			for _, k := range keys {
				if g := settingUses[k]; g != field {
					x, base := get(g)
					r.Ob(x == base, "own-use", g, p.o, "the setting %s changes the option %s", key, g)
				}
			}
			for _, g := range []string{"InMemory", "ReadOnly", "Dir", "ValueDir"} {
				x, base := get(g)
				r.Ob(x == base, "own-use", g, p.o, "the option %s is changed", g)
			}
		}
		for _, s := range samples {
			r.Ob(seen[s] > 0, "instances", key, nil, "no path opens the database with %s = %v", key, s)
		}
	}
}

// withSettings runs the program's entry with some settings unknown.
func (c *Ctx) withSettings(r *Report, keys ...string) (*eng.Exec, []*path) {
	f := c.entry(r)
	if f == nil {
		return nil, nil
	}
	o := clusterStart
	o.free = func(s string) bool {
		for _, k := range keys {
			if s == k {
				return true
			}
		}
		return false
	}
	sure := o.sure
	o.sure = func(n string) bool {
		return sure(n) && !strings.HasSuffix(n, "zerolog.ParseLevel") || strings.HasPrefix(n, "net.Listen") || strings.HasPrefix(n, "net.ResolveTCPAddr")
	}
	e := c.exec(r)
	c.serverModels(e, o)
	// consensus does what it is asked
	e.Models["("+raftPkg+".Future).Error"] = func(call *eng.Call, st *eng.State, k func(*eng.State, ...*eng.Term)) bool {
		st.Emit(&eng.Event{Kind: "futwait", Recv: call.Recv, Res: []*eng.Term{eng.Nil}, Pos: call.Pos, In: call.In()})
		k(st, eng.Nil)
		return true
	}
	return e, paths(f, r.run(e, f, nil))
}

// tasks runs the goroutines a path starts, each on its own.
func (p *path) tasks(e *eng.Exec, f func(q *path)) {
	for _, ev := range p.evs {
		if ev.Kind != "go" || len(ev.Args) == 0 {
			continue
		}
		t := eng.Unbox(ev.Args[0])
		if t.Fn == nil || len(t.Fn.Blocks) == 0 {
			continue
		}
		e.RunFunc(t, p.st.Spawn(nil), ev.Args[1:], func(st *eng.State, ret []*eng.Term, x eng.Exit, why string, pos token.Pos) {
			o := &eng.Outcome{Ret: ret, St: st, Exit: x, Why: why, Pos: pos}
			f(&path{o: o, st: st, evs: st.Events(), cut: x == eng.Cut})
		})
	}
}

// portText: ":" and the setting.
func portText(t, port *eng.Term) bool {
	t = strip(t)
	if t.Op != "concat" || len(t.Args) != 2 {
		return false
	}
	s, ok := t.Args[0].StrVal()
	if !ok || s != ":" && s != "0.0.0.0:" {
		return false
	}
	x := strip(t.Args[1])
	return same(x, port) || x.Op == "dec" && same(x.Args[0], port)
}

var text = types.Typ[types.String]

// callsTo lists the calls of a library function on a path.
func (p *path) callsTo(name string) []*eng.Event {
	var l []*eng.Event
	for _, x := range p.evs {
		if x.Kind == "call" && x.Name == name {
			l = append(l, x)
		}
	}
	return l
}

// serverSettings: the settings the program's start uses.
func (c *Ctx) serverSettings(r *Report) {
	// what is looked for on a path that serves requests
	use := func(what string, keys []string, f func(e *eng.Exec, p *path) string) {
		e, ps := c.withSettings(r, keys...)
		n := 0
		for _, p := range ps {
			if p.serves() == nil {
				continue
			}
			n++
			why := f(e, p)
			r.Ob(why == "", "takes-effect", what, p.o, "%s", why)
		}
		r.Ob(n > 0, "instances", what, nil, "no path of the program's start serves requests")
	}
	use("http.port", []string{"http.port"}, func(e *eng.Exec, p *path) string {
		port := setting("http.port", text)
		x := p.serves()
		if !portText(x.Args[0], port) {
			return fmt.Sprintf("HTTP is served on %s, not on the port of the setting", x.Args[0])
		}
		return c.fieldsOf(p, "pkg/http", "Proxy", text, func(v *eng.Term) bool { return same(v, port) }, "the port requests are forwarded to")
	})
	use("grpc.address", []string{"grpc.address"}, func(e *eng.Exec, p *path) string {
		addr := setting("grpc.address", text)
		var lis *eng.Event
		for _, x := range p.callsTo("net.Listen") {
			if !same(x.Args[1], addr) {
				return fmt.Sprintf("gRPC is served on %s", x.Args[1])
			}
			lis = x
		}
		if v, known := p.st.Decide(isEmptyStr(addr)); known && v {
			if lis != nil {
				return "gRPC is served without an address"
			}
			return ""
		}
		if lis == nil {
			return "gRPC is not served on the address of the setting"
		}
		served := false
		all := p.callsTo("(*google.golang.org/grpc.Server).Serve")
		p.tasks(e, func(q *path) { all = append(all, q.callsTo("(*google.golang.org/grpc.Server).Serve")...) })
		for _, x := range p.evs {
			if x.Kind == "go" && (strings.HasSuffix(x.Name, "Server).Serve") || len(x.Args) > 0 && strings.Contains(x.Args[0].String(), "Server).Serve")) {
				all = append(all, x)
			}
		}
		for _, x := range all {
			for _, a := range x.Args {
				served = served || eng.Unbox(strip(a)) == eng.Unbox(strip(lis.Res[0]))
			}
		}
		if !served {
			return "gRPC is not served on the address listened on"
		}
		return c.fieldsOf(p, "pkg/grpc", "GRPCProxy", types.Typ[types.Int], func(v *eng.Term) bool {
			return v.Contains(func(t *eng.Term) bool {
				for _, x := range p.evs {
					if x.Kind == "call" && last(x.Name) == "Addr" && len(x.Res) > 0 && strip(x.Res[0]) == t && x.Recv != nil && strip(x.Recv) == strip(lis.Res[0]) {
						return true
					}
				}
				return false
			}) && strings.HasSuffix(v.String(), ".Port")
		}, "the port streams are forwarded to")
	})
	use("raft.address", []string{"raft.address"}, func(e *eng.Exec, p *path) string {
		for _, x := range p.callsTo(raftPkg + ".NewTCPTransport") {
			if !same(x.Args[0], setting("raft.address", text)) {
				return fmt.Sprintf("consensus listens on %s", x.Args[0])
			}
			return ""
		}
		return "consensus listens nowhere"
	})
	use("cluster.node_id", []string{"cluster.node_id"}, func(e *eng.Exec, p *path) string {
		for _, x := range p.callsTo(raftPkg + ".NewRaft") {
			if v := follow(p.st, x.Args[0], []string{"LocalID"}); !same(v, setting("cluster.node_id", text)) {
				return fmt.Sprintf("consensus runs as %s", v)
			}
			return ""
		}
		return "consensus does not run"
	})
	use("storage.data_dir", []string{"storage.data_dir", "cluster.node_id"}, func(e *eng.Exec, p *path) string {
		dir := setting("storage.data_dir", text)
		var at []string
		for _, n := range []string{badgerPkg + ".DefaultOptions", raftPkg + ".NewFileSnapshotStore"} {
			l := p.callsTo(n)
			if len(l) != 1 {
				return fmt.Sprintf("%s is called %d times", n, len(l))
			}
			parts := pathParts(e, p, l[0].Args[0])
			if len(parts) < 2 || !same(parts[0], dir) {
				return fmt.Sprintf("%s stores in %s, not below the data directory", last(n), parts)
			}
			at = append(at, fmt.Sprint(parts))
		}
		if at[0] == at[1] {
			return "the database and the snapshots share a directory"
		}
		return ""
	})
	use("storage.gc", []string{"storage.gc_interval", "storage.gc_discard_ratio"}, func(e *eng.Exec, p *path) string {
		const none = "the garbage collection is not run at the interval and with the ratio of the settings"
		why := none
		p.tasks(e, func(q *path) {
			var tick *eng.Term
			for _, x := range q.evs {
				if x.Kind == "recv" {
					if per, ok := eng.Period(q.st, x.Recv); ok {
						tick = per
					}
				}
				if x.Kind == "call" && x.Name == "time.Sleep" {
					tick = x.Args[0]
				}
				if x.Kind != "call" || x.Name != "(*"+badgerPkg+".DB).RunValueLogGC" {
					continue
				}
				if tick == nil {
					why = "the garbage collection does not wait"
					continue
				}
				s, ok := eng.Seconds(tick)
				switch {
				case !ok || settingName(s) != "storage.gc_interval":
					why = fmt.Sprintf("the garbage collection is run every %s", tick)
				case settingName(x.Args[0]) != "storage.gc_discard_ratio":
					why = fmt.Sprintf("the garbage collection is run with the ratio %s", x.Args[0])
				case why == none:
					why = ""
				}
			}
		})
		return why
	})
	use("profiling", []string{"profiling.enabled", "profiling.port"}, func(e *eng.Exec, p *path) string {
		on, known := p.st.Decide(setting("profiling.enabled", types.Typ[types.Bool]))
		all := p.callsTo("net/http.ListenAndServe")
		p.tasks(e, func(q *path) { all = append(all, q.callsTo("net/http.ListenAndServe")...) })
		for _, x := range all {
			if !portText(x.Args[0], setting("profiling.port", types.Typ[types.Int32])) {
				return fmt.Sprintf("profiles are served on %s, not on the port of the setting", x.Args[0])
			}
		}
		started := len(p.callsTo("github.com/pkg/profile.Start")) > 0
		switch {
		case !known:
			return "the setting profiling.enabled is not looked at"
		case on && len(all) == 0:
			return "profiling is enabled and profiles are not served"
		case !on && (len(all) > 0 || started):
			return "profiling is not enabled and done"
		}
		return ""
	})
	use("prometheus.enabled", []string{"prometheus.enabled"}, func(e *eng.Exec, p *path) string {
		on, known := p.st.Decide(setting("prometheus.enabled", types.Typ[types.Bool]))
		var served *eng.Term
		reg := false
		for _, x := range p.evs {
			if x.Kind != "call" {
				continue
			}
			if strings.HasSuffix(x.Name, "fiberprometheus/v2.NewWithRegistry") {
				served = eng.Unbox(strip(x.Args[0]))
			}
			if strings.HasSuffix(x.Name, "FiberPrometheus).RegisterAt") {
				reg = true
			}
		}
		switch {
		case !known:
			return "the setting prometheus.enabled is not looked at"
		case !on && reg:
			return "metrics are not enabled and served"
		case !on:
			return ""
		case !reg || served == nil:
			return "metrics are enabled and not served"
		}
		// the queues' metrics are registered where they are served from
		n := 0
		for _, x := range p.evs {
			if x.Kind == "call" && x.Recv != nil && (last(x.Name) == "MustRegister" || last(x.Name) == "Register") && strings.Contains(x.Name, "prometheus/client_golang") {
				n++
				if eng.Unbox(strip(x.Recv)) != served {
					return fmt.Sprintf("metrics are registered with %s and served from %s", x.Recv, served)
				}
			}
		}
		if n == 0 {
			return "metrics are enabled and none are registered"
		}
		return ""
	})
	use("logging.level", []string{"logging.level"}, func(e *eng.Exec, p *path) string {
		lvl := setting("logging.level", text)
		ps := p.callsTo("github.com/rs/zerolog.ParseLevel")
		if len(ps) != 1 || !same(ps[0].Args[0], lvl) {
			return "the level of the log is not read from the setting"
		}
		set := p.callsTo("github.com/rs/zerolog.SetGlobalLevel")
		if len(set) == 0 {
			return "the level of the log is not set"
		}
		if x := set[len(set)-1].Args[0]; !ps[0].Failed && strip(x) != strip(ps[0].Res[0]) {
			return fmt.Sprintf("the level of the log is set to %s", x)
		}
		return ""
	})
	// joining and discovery
	r.Only(func() {
		if j := c.joinerRule(r); j != nil {
			c.joinsWith(r, j)
		}
	}, "joins-where-told", "-instances")
	r.Only(func() { c.endpointRule(r) }, "own-service", "own-port", "-instances")
}

// pathParts splits a path that is put together.
func pathParts(e *eng.Exec, p *path, t *eng.Term) []*eng.Term {
	t = strip(t)
	if t.Op == "call" && (t.Aux == "path/filepath.Join" || t.Aux == "path.Join") && len(t.Args) == 1 {
		l, ok := e.SliceElems(p.st, t.Args[0])
		if !ok {
			l = p.list(t.Args[0])
		}
		var r []*eng.Term
		for _, x := range l {
			r = append(r, pathParts(e, p, x)...)
		}
		return r
	}
	if t.Op == "concat" {
		return t.Args
	}
	return []*eng.Term{t}
}

// fieldsOf looks at the fields of a type that the program's start fills.
func (c *Ctx) fieldsOf(p *path, pkg, name string, t types.Type, ok func(*eng.Term) bool, what string) string {
	n := c.Named(pkg, name)
	if n == nil {
		return "there is no type " + name
	}
	set, bad := false, ""
	p.st.Memory(func(a, v *eng.Term) {
		if a.Op != "fieldaddr" || a.Args[0].Typ == nil || !types.Identical(eng.DerefType(a.Args[0].Typ), n) {
			return
		}
		if ft := structField(n, a.Aux); ft == nil || !types.Identical(ft.Underlying(), t.Underlying()) {
			return
		}
		if ok(strip(v)) {
			set = true
		} else {
			bad = fmt.Sprintf("%s is %s", what, v)
		}
	})
	switch {
	case set:
		return ""
	case bad != "":
		return bad
	}
	return what + " is not set"
}

// queueSettings: what the queues do with theirs is decided where the queues
// are; here it counts that it is this setting.
func (c *Ctx) queueSettings(r *Report) {
	r.Only(func() { table["Q05"].Run(c, r) }, "deadline", "check-interval", "-instances")
	r.Only(func() { table["Q13"].Run(c, r) }, "window-configured", "-instances")
	for _, x := range []string{"deadline", "check-interval", "window-configured"} {
		r.Ob(r.Rules[x] > 0, "instances", x, nil, "the rule %s has nothing to decide", x)
	}
}
