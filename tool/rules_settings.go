package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F05", "dataflow of every setting, as a symbol, from the caller or the stored file to the fingerprinter, the numbers of shards and workers and the stored file; layout check that every setting has a key in the stored file; write effects on the stored file", ruleF05)
}

var settingNames = []string{"NumShards", "NumShatters", "SeqLen", "DocFlushRate", "BlotConfig.SeqLen", "BlotConfig.Interleave", "TokenConfig.Name"}

// keep: where settings flow in one session.
type keepRule struct {
	r    *Rule
	e    *Engine
	what string
	want map[string]*Term
	cfg  map[*Term]bool // paths of the stored settings
	seen map[string]int
}

func (k *keepRule) field(st *State, obj *Term, path string) *Term {
	if st, ok := obj.Typ.Underlying().(*types.Struct); ok {
		// a copy
		for _, n := range strings.Split(path, ".") {
			i := -1
			for j := 0; st != nil && j < st.NumFields(); j++ {
				if st.Field(j).Name() == n {
					i = j
				}
			}
			if i < 0 {
				return nil
			}
			t := st.Field(i).Type()
			obj = k.e.fieldVal(obj, i, t)
			st, _ = t.Underlying().(*types.Struct)
		}
		return obj
	}
	t := deref(obj.Typ)
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return nil
	}
	a, ft := k.e.fieldPath(obj, t, path)
	if a == nil {
		return nil
	}
	return k.e.load(st, a, ft)
}

// equal: a value must be the setting.
func (k *keepRule) equal(st *State, ev *Event, key, what string, got, want *Term) {
	r := k.r
	r.oblige("flows", what)
	if got == want {
		return
	}
	if got == nil {
		r.undecided("%s is not resolved", what)
		return
	}
	if g, ok := got.isStr(); ok {
		if w, ok := want.isStr(); ok && g != w {
			r.v(ev, key, "%s is %q, not %q", what, g, w)
			return
		}
	}
	if _, ok := want.isInt(); ok {
	} else if b := basicOf(want.Typ); b == nil || b.Info()&types.IsInteger == 0 {
		r.undecided("%s is not resolved: %s", what, got)
		return
	}
	if k.e.provesEq(st, got, want) {
		return
	}
	for _, s := range []*Term{got, want} {
		if s.contains(func(x *Term) bool {
			return x.Kind == KHv || x.Kind == KInit || x.Kind == KSym && !strings.HasPrefix(x.Name, "arg:set:") || x.Kind == KApp && !arith(x)
		}) {
			if x := s; x == got && x.contains(func(x *Term) bool { return x.Kind == KHv || x.Kind == KApp && !arith(x) }) {
				r.undecided("%s is not resolved: %s", what, got)
				return
			}
		}
	}
	if env, ok := k.differ(st, got, want); ok {
		r.v(ev, key, "%s is %s, not %s (differ for %s)", what, got, want, env)
	} else {
		r.undecided("%s is %s, not shown to be %s", what, got, want)
	}
}

// differ: an instantiation under which the two are different, with what is
// counted by surrounding loops at its start.
func (k *keepRule) differ(st *State, a, b *Term) (instEnv, bool) {
	e := k.e
	fix := map[*Term][]int64{}
	for f := range st.facts {
		at := map[*Term]bool{}
		e.atoms(f, at)
		for x := range at {
			if x.Kind == KSym && strings.HasPrefix(x.Name, "φ") || x.Kind == KHv {
				fix[x] = []int64{0, 1}
			}
		}
	}
	free := func(t *Term) bool { return e.inputAtom(t) || fix[t] != nil }
	return e.instances(st, []*Term{a, b}, free, fix, func(env instEnv, ev func(*Term) (*big.Int, bool)) bool {
		x, ok := ev(a)
		y, ok2 := ev(b)
		return ok && ok2 && x.Cmp(y) != 0
	})
}

func arith(x *Term) bool {
	switch x.Name {
	case "mul", "mod", "quo", "conv", "and", "or", "shl", "shr":
		return true
	}
	return false
}

func (k *keepRule) on(ev *Event) {
	e, st := k.e, ev.St
	switch ev.Kind {
	case "enter":
		if ev.Fn.Name() == "FromConfig" && pkgOf(ev.Fn) == "blotter" && len(ev.Args) == 1 {
			k.seen["fingerprinter"]++
			for _, f := range []string{"SeqLen", "Interleave"} {
				k.equal(st, ev, "blot-"+f, fmt.Sprintf("%s: %s given to the fingerprinter", k.what, f), k.field(st, ev.Args[0], f), k.want["BlotConfig."+f])
			}
		}
		if ev.Fn.Name() == "FromConfig" && pkgOf(ev.Fn) == "token" && len(ev.Args) == 1 {
			k.seen["tokenizer"]++
			k.equal(st, ev, "token", k.what+": name given to the tokenizer", k.field(st, ev.Args[0], "Name"), k.want["TokenConfig.Name"])
		}
	case "makeslice":
		if pkgOf(ev.Fr.Fn) == "blotter" && ev.Res != nil {
			if s, ok := ev.Res.Typ.Underlying().(*types.Slice); ok {
				if b := basicOf(s.Elem()); b != nil && b.Kind() == types.Uint32 {
					k.seen["window"]++
					if len(ev.Args) == 2 && ev.Args[1] != nil && e.provesEq(st, ev.Args[1], k.want["BlotConfig.SeqLen"]) {
						k.r.oblige("flows", k.what+": words in the window of the fingerprinter")
						break
					}
					k.equal(st, ev, "window", k.what+": words in the window of the fingerprinter", e.T.Len(ev.Res), k.want["BlotConfig.SeqLen"])
				}
			}
		}
	case "call":
		if strings.HasPrefix(ev.Name, "encoding/json.Marshal") && len(ev.Args) > 0 {
			o := unbox(ev.Args[0])
			t := o.Typ
			if d := deref(t); d != nil {
				t = d
			}
			if namedName(t) != "Config" && k.field(st, o, "NumShards") == nil {
				return
			}
			k.seen["stored"]++
			for _, f := range settingNames {
				k.equal(st, ev, "stored-"+f, fmt.Sprintf("%s: stored %s", k.what, f), k.field(st, o, f), k.want[f])
			}
		}
		k.file(ev)
	}
}

// file: the stored settings are replaced.
func (k *keepRule) file(ev *Event) {
	op := fsOp(ev)
	if op == nil || !op.OK || k.cfg == nil {
		return
	}
	st := ev.St
	if !k.cfg[op.Path] {
		return
	}
	switch op.Op {
	case "open":
		if !op.FlagsK {
			st.flags["cfgfile"] = "?"
			return
		}
		if op.Flags&int64(os.O_WRONLY|os.O_RDWR) != 0 {
			st.flags["cfgfile"] = "old"
			if op.Flags&int64(os.O_TRUNC) != 0 {
				st.flags["cfgfile"] = "empty"
			}
		}
	case "truncate", "remove":
		st.flags["cfgfile"] = "empty"
	case "rename":
		st.flags["cfgfile"] = "?"
	case "write", "writeat":
		if st.flags["cfgwritten"] == "" {
			if n := len(ev.Args); n > 1 {
				isJSON := func(x *Term) bool { return x.Kind == KApp && x.Name == "json" }
				if c := k.e.contentOf(st, ev.Args[1]); c != nil && c.contains(isJSON) || ev.Args[1].contains(isJSON) {
					st.flags["cfgwritten"] = "1"
				} else {
					st.flags["cfgwritten"] = "?"
				}
			}
		}
	}
}

func (r *Rule) newKeep(s *session, what string) *keepRule {
	k := &keepRule{r: r, e: s.e, what: what, want: s.set, seen: map[string]int{}}
	return k
}

// configPath: where the settings of this session are stored.
func (k *keepRule) configPath(s *session) {
	fn := k.r.need("", "Config", "Path")
	if fn == nil {
		return
	}
	e := k.e
	old := e.H
	e.H = Hooks{}
	k.cfg = map[*Term]bool{}
	for _, root := range []*Term{s.Root, s.RootS} {
		st := newState()
		c := e.arg("pathcfg", fn.Params[0].Type())
		a, t := e.fieldPath(c, deref(c.Typ), "IndexRoot")
		if a == nil {
			return
		}
		e.store(st, a, root, t)
		for _, o := range k.r.run(e, fn, st, c) {
			if o.kind == "" && len(results(o.ret)) == 1 {
				k.cfg[results(o.ret)[0]] = true
			}
		}
	}
	e.H = old
}

func ruleF05(r *Rule) {
	keepKeys(r)
	tok := (&settingsRule{r: r})
	tok.defaults()
	set := func(e *Engine) map[string]*Term {
		g := &settingsGen{e: e}
		b := g.in("window", 1, 1<<16)
		m := g.with(2, "NumShards", e.T.Int(3), "NumShatters", e.T.Int(5), "SeqLen", e.T.MulC(b, 2), "BlotConfig.SeqLen", b)
		m["TokenConfig.Name"] = e.T.Str(tok.tok)
		return m
	}
	least := func(e *Engine) map[string]*Term {
		o := e.T.Int(1)
		m := (&settingsGen{e: e}).with(1, "NumShards", o, "NumShatters", o, "SeqLen", o, "BlotConfig.SeqLen", o, "DocFlushRate", o)
		m["TokenConfig.Name"] = e.T.Str(tok.tok)
		return m
	}
	for _, set := range []func(e *Engine) map[string]*Term{set, least} {
		for _, w := range []string{"IndexerFromConfig", "OpenIndexer"} {
			keepWrite(r, w, set)
		}
		keepRead(r, set)
	}
	for _, w := range []string{"ReadConfigFromRoot", "ReadConfig"} {
		for il := int64(1); il <= 2; il++ {
			keepStored(r, w, il, tok.tok)
		}
	}
	keepCounts(r)
	keepArgs(r)
	keepVerb(r, tok.tok)
}

// keepWrite: a writing session, up to storing the settings.
func keepWrite(r *Rule, which string, set func(e *Engine) map[string]*Term) {
	s := r.newSession(which)
	if s == nil {
		return
	}
	e := s.e
	e.OneFault, e.NoFault, e.UnrollMax = false, true, 8
	s.set = set(e)
	if s.Cfg != nil {
		s.applySettings(s.st, s.Cfg, deref(s.Cfg.Typ))
	}
	k := r.newKeep(s, which)
	k.configPath(s)
	s.on(func(ev *Event, op *FsOp) { k.on(ev) })
	s.construct()
	if s.Cfg == nil && s.nset == 0 {
		r.undecided("%s: no decoding of stored settings recognised", which)
		return
	}
	if k.seen["fingerprinter"] == 0 || k.seen["window"] == 0 {
		r.undecided("%s: no fingerprinter recognised", which)
	}
	outs := s.success()
	if len(outs) == 0 {
		r.undecided("%s has no successful outcome", which)
		return
	}
	_, ends := s.method(outs[0], "Close")
	n := 0
	for _, o := range ends {
		if o.kind != "" || e.nilness(o.st, retErr(o)) != -1 {
			continue
		}
		n++
		r.oblige("closed sessions", which)
		switch {
		case o.st.flags["cfgwritten"] == "?" || o.st.flags["cfgfile"] == "?":
			r.undecided("%s: how the settings are stored is not resolved", which)
		case o.st.flags["cfgwritten"] == "":
			if k.seen["stored"] > 0 || len(k.cfg) == 0 {
				r.undecided("%s: where the settings are stored is not resolved", which)
			} else {
				r.failAt(o.st, o.pos, "notstored:"+which, "%s: Close succeeds without having stored the settings", which)
			}
		case o.st.flags["cfgfile"] == "old":
			r.failAt(o.st, o.pos, "overwritten:"+which, "%s: Close writes the settings over the old ones, of which a longer rest remains", which)
		}
	}
	if n == 0 {
		r.undecided("%s: Close has no successful outcome", which)
	}
	if k.seen["stored"] == 0 {
		r.undecided("%s: no encoding of settings recognised", which)
	}
}

// keepStored: reading the stored settings gives all of them.
func keepStored(r *Rule, which string, il int64, tok string) {
	fn := r.need("", "", which)
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	e := r.engine()
	e.NoFault = true
	s := &session{r: r, e: e, set: (&settingsGen{e: e}).good(il)}
	s.set["TokenConfig.Name"] = e.T.Str(tok)
	e.H.On = func(ev *Event) { s.fixDecoded(ev) }
	k := r.newKeep(s, which)
	ok := 0
	for _, o := range r.run(e, fn, newState(), e.arg("path", fn.Params[0].Type())) {
		if o.kind != "" || e.nilness(o.st, retErr(o)) != -1 {
			continue
		}
		ok++
		for _, f := range settingNames {
			if f == "TokenConfig.Name" {
				continue
			}
			if got := k.field(o.st, results(o.ret)[0], f); got != nil {
				k.after(o, fn, "stored-"+f, which+": "+f, got, s.set[f])
			}
		}
	}
	if ok == 0 || s.nset == 0 {
		r.undecided("%s: no decoding of stored settings recognised", which)
	}
}

// keepRead: an index opened for queries.
func keepRead(r *Rule, set func(e *Engine) map[string]*Term) {
	s := r.newSession("OpenIndex")
	if s == nil {
		return
	}
	e := s.e
	e.OneFault, e.NoFault, e.UnrollMax = false, true, 8
	s.set = set(e)
	k := r.newKeep(s, "OpenIndex")
	s.on(func(ev *Event, op *FsOp) { k.on(ev) })
	s.construct()
	outs := s.success()
	if s.nset == 0 || len(outs) == 0 {
		r.undecided("OpenIndex: no decoding of stored settings recognised")
		return
	}
	for m, f := range map[string]string{"SeqLen": "SeqLen", "NumShards": "NumShards", "NumShatters": "NumShatters"} {
		fn := r.need("", "Index", m)
		if fn == nil {
			continue
		}
		for _, o := range r.run(e, fn, outs[0].st.clone(), results(outs[0].ret)[0]) {
			if o.kind == "" && len(results(o.ret)) == 1 {
				k.after(o, fn, m, "Index."+m, results(o.ret)[0], s.set[f])
			}
		}
	}
	for _, m := range []string{"Blotter", "TokenFunc"} {
		if fn := r.need("", "Index", m); fn != nil {
			r.run(e, fn, outs[0].st.clone(), results(outs[0].ret)[0])
		}
	}
	if k.seen["fingerprinter"] == 0 {
		r.undecided("OpenIndex: no fingerprinter recognised")
	}
}

// after: the same obligation, judged once a path has ended.
func (k *keepRule) after(o Out, fn *ssa.Function, key, what string, got, want *Term) {
	r := k.r
	r.oblige("flows", what)
	if got == want || k.e.provesEq(o.st, got, want) {
		return
	}
	if got.contains(func(x *Term) bool { return x.Kind == KHv || x.Kind == KApp && !arith(x) }) {
		r.undecided("%s is not resolved: %s", what, got)
		return
	}
	if env, ok := k.e.separate(o.st, got, want, 64); ok {
		r.failAt(o.st, fn.Pos(), key, "%s is %s, not %s (differ for %s)", what, got, want, env)
	} else {
		r.undecided("%s is %s, not shown to be %s", what, got, want)
	}
}

// keepCounts: as many workers and shards run as the settings say.
func keepCounts(r *Rule) {
	for _, w := range []string{"IndexerFromConfig", "OpenIndexer"} {
		p := r.newPipeOn(w, 3, 4, 2, 5)
		if p == nil {
			continue
		}
		fn := r.need("", "Indexer", "Add")
		if fn == nil {
			return
		}
		ch, _, ok := p.add(p.e.arg("doc", fn.Params[1].Type()))
		if !ok {
			continue
		}
		p.firstRecv()
		workers, shards := 0, map[*Term]bool{}
		for _, g := range p.gos {
			switch {
			case g.ch == ch:
				workers++
			case g.ch != nil:
				shards[g.ch] = true
			}
		}
		r.oblige("workers and shards", fmt.Sprintf("%s: %d workers, %d shards", w, workers, len(shards)))
		if workers == 0 || len(shards) == 0 {
			r.undecided("%s: workers and shards are not recognised", w)
			continue
		}
		if workers != 5 {
			r.fail(p.s.Fn.Pos(), "workers:"+w, "%s starts %d workers where the settings say 5", w, workers)
		}
		if len(shards) != 3 {
			r.fail(p.s.Fn.Pos(), "shards:"+w, "%s starts %d shards where the settings say 3", w, len(shards))
		}
	}
}

// keepArgs: settings made from arguments.
func keepArgs(r *Rule) {
	fn := r.need("", "", "NewConfig")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	e := r.engine()
	e.NoFault = true
	g := &settingsGen{e: e}
	n, w := g.in("shards", 1, 256), g.in("window", 1, 1<<16)
	k := &keepRule{r: r, e: e, seen: map[string]int{}}
	for _, o := range r.run(e, fn, newState(), e.arg("root", fn.Params[0].Type()), n, w) {
		if o.kind != "" || e.nilness(o.st, retErr(o)) != -1 {
			continue
		}
		c := results(o.ret)[0]
		for f, v := range map[string]*Term{"NumShards": n, "SeqLen": w} {
			if got := k.field(o.st, c, f); got != nil {
				k.after(o, fn, "newconfig", "NewConfig: "+f, got, v)
			}
		}
		s, i := k.field(o.st, c, "BlotConfig.SeqLen"), k.field(o.st, c, "BlotConfig.Interleave")
		if s != nil && i != nil {
			if iv, ok := i.isInt(); ok {
				k.after(o, fn, "newconfig", "NewConfig: words in all windows of the fingerprinter", e.T.MulC(s, iv), w)
			}
		}
	}
}

// keepVerb: the index verb uses its flags, or the configuration file.
func keepVerb(r *Rule, tok string) {
	for _, file := range []bool{false, true} {
		e := r.engine()
		e.OneFault, e.NoFault, e.Unroll, e.UnrollMax = false, true, true, 8
		cl := r.newCli(e, "index")
		if cl == nil {
			return
		}
		g := &settingsGen{e: e}
		t, n, w := g.in("window", 1, 1<<16), g.in("shards", 1, 256), g.in("workers", 1, 256)
		cl.Flags = map[string]*Term{"t": t, "n": n, "s": w, "a": e.T.Bool(false), "c": e.T.Str("")}
		what := "the index verb"
		k := &keepRule{r: r, e: e, what: what, seen: map[string]int{}}
		k.want = map[string]*Term{"NumShards": n, "NumShatters": w, "SeqLen": t, "BlotConfig.SeqLen": t, "BlotConfig.Interleave": e.T.Int(1)}
		if file {
			k.what = "the index verb with a configuration file"
			k.want = g.good(2)
			k.want["TokenConfig.Name"] = e.T.Str(tok)
			cl.Flags["c"] = e.T.mk(&Term{Kind: KSym, Name: "arg:cfgfile", Typ: types.Typ[types.String]})
		}
		for f := range cl.Flags {
			if cl.ptrs[f] == nil {
				r.undecided("the index verb has no flag -%s", f)
				return
			}
		}
		s := &session{r: r, e: e, set: k.want}
		if !file {
			s.set = nil
		}
		e.H.Go = func(ev *Event) string { return "skip" }
		e.H.On = func(ev *Event) {
			if ev.Kind == "enter" && ev.Fn.Name() == "IndexerFromConfig" && len(ev.Args) == 1 {
				if k.seen["made"]++; file && ev.St.flags["decoded"] == "" && cl.Flags["c"].Kind == KSym {
					// the path on which the name is empty
					if v, ok := e.truth(ev.St, e.T.Eq(cl.Flags["c"], e.T.Str(""), types.Typ[types.String])); !ok || !v {
						r.v(ev, "cfgfile", "%s: the file is not read", k.what)
					}
					return
				}
				for _, f := range settingNames {
					if want := k.want[f]; want != nil {
						k.equal(ev.St, ev, "verb-"+f, fmt.Sprintf("%s: %s", k.what, f), k.field(ev.St, ev.Args[0], f), want)
					}
				}
			}
			if file {
				n := s.nset
				s.fixDecoded(ev)
				if s.nset > n {
					ev.St.flags["decoded"] = "1"
				}
			}
		}
		cl.over = func(ev *Event) ([]Out, bool) {
			if ev.Fn != nil && ev.Fn.Name() == "IndexerFromConfig" {
				return nil, false
			}
			if op := fsOp(ev); op != nil && op.Op == "mkdir" {
				return []Out{{st: ev.St, kind: "cut", pos: ev.Ins.Pos()}}, true
			}
			return nil, false
		}
		cl.Args = e.T.Nil
		cl.run()
		if k.seen["made"] == 0 {
			r.undecided("%s: IndexerFromConfig is not reached", k.what)
		}
	}
}

// keepKeys: every setting has a key of its own in the stored file.
func keepKeys(r *Rule) {
	t := r.P.typeOf(modPath, "Config")
	if t == nil {
		r.undecided("Config not found")
		return
	}
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			if o, _, _ := types.LookupFieldOrMethod(x, true, nil, m); o != nil {
				r.undecided("Config has its own %s", m)
				return
			}
		}
	}
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		keys := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			name := f.Name()
			full := strings.TrimPrefix(path+"."+name, ".")
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			key := strings.Split(tag, ",")[0]
			known := false
			for _, s := range settingNames {
				known = known || s == full || strings.HasPrefix(s, full+".")
			}
			if full == "IndexRoot" {
				continue
			}
			if !known {
				continue
			}
			r.oblige("stored keys", full)
			if !f.Exported() || tag == "-" {
				r.fail(f.Pos(), "unstored:"+full, "the setting %s is not stored", full)
				continue
			}
			if key == "" {
				key = name
			}
			key = strings.ToLower(key)
			if o := keys[key]; o != "" {
				r.fail(f.Pos(), "key:"+full, "the settings %s and %s are stored under one key", o, full)
			}
			keys[key] = full
			walk(f.Type(), full)
		}
	}
	walk(t, "")
	for _, f := range settingNames {
		a := false
		tt := t
		for _, p := range strings.Split(f, ".") {
			a = false
			if st, ok := tt.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == p {
						a, tt = true, st.Field(i).Type()
						break
					}
				}
			}
			if !a {
				break
			}
		}
		if !a {
			r.undecided("Config.%s not found", f)
		}
	}
	_ = sort.Strings
}
