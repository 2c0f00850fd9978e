package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

func init() {
	register("V02", "abstract interpretation of every way to create or open an index over classes of settings (intervals, linear relations): from unusable ones no path may create an index file, start a worker or succeed; from consistent ones no path without a failing file operation may end in an error", ruleV02)
}

// settingsClass is a set of configurations: each field a constant or a symbol
// with a range.
type settingsClass struct {
	name string
	set  func(n *settingsGen) map[string]*Term
}

type settingsGen struct {
	e *Engine
	k int
}

func (g *settingsGen) in(name string, lo, hi int64) *Term {
	g.k++
	s := g.e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:set:%s%d", name, g.k), Typ: types.Typ[types.Int]})
	s.rng = &Rng{big.NewInt(lo), big.NewInt(hi)}
	return s
}

// good: consistent settings; m is the interleaving.
func (g *settingsGen) good(m int64) map[string]*Term {
	s := g.in("window", 1, 1<<16)
	return map[string]*Term{
		"NumShards": g.in("shards", 1, 256), "NumShatters": g.in("workers", 1, 256), "DocFlushRate": g.in("rate", 1, 1<<20),
		"SeqLen": g.e.T.MulC(s, m), "BlotConfig.SeqLen": s, "BlotConfig.Interleave": g.e.T.Int(m),
	}
}

func (g *settingsGen) with(m int64, kv ...interface{}) map[string]*Term {
	r := g.good(m)
	for i := 0; i < len(kv); i += 2 {
		r[kv[i].(string)] = kv[i+1].(*Term)
	}
	return r
}

const (
	lowest  = -(1 << 40)
	highest = 1 << 40
)

var badSettings = []settingsClass{
	{"no shards", func(g *settingsGen) map[string]*Term { return g.with(1, "NumShards", g.in("shards", lowest, 0)) }},
	{"too many shards", func(g *settingsGen) map[string]*Term { return g.with(1, "NumShards", g.in("shards", 1<<16+1, highest)) }},
	{"65536 shards", func(g *settingsGen) map[string]*Term { return g.with(1, "NumShards", g.e.T.Int(1<<16)) }},
	{"no workers", func(g *settingsGen) map[string]*Term { return g.with(1, "NumShatters", g.in("workers", lowest, 0)) }},
	{"a flush rate below one", func(g *settingsGen) map[string]*Term { return g.with(1, "DocFlushRate", g.in("rate", lowest, 0)) }},
	{"a window length below one", func(g *settingsGen) map[string]*Term {
		s := g.in("window", lowest, 0)
		return g.with(1, "SeqLen", s, "BlotConfig.SeqLen", s)
	}},
	{"a fingerprinter's window length below one", func(g *settingsGen) map[string]*Term {
		return g.with(1, "BlotConfig.SeqLen", g.in("blotwindow", lowest, 0))
	}},
	{"no interleaving", func(g *settingsGen) map[string]*Term { return g.with(1, "BlotConfig.Interleave", g.e.T.Int(0)) }},
	{"no interleaving and no window", func(g *settingsGen) map[string]*Term {
		return g.with(1, "BlotConfig.Interleave", g.e.T.Int(0), "SeqLen", g.e.T.Int(0))
	}},
	{"a negative interleaving and window length", func(g *settingsGen) map[string]*Term {
		s := g.in("window", 1, 1<<16)
		return g.with(1, "BlotConfig.Interleave", g.e.T.Int(-1), "SeqLen", s, "BlotConfig.SeqLen", g.e.T.MulC(s, -1))
	}},
	{"a window longer than the fingerprinter's", func(g *settingsGen) map[string]*Term {
		s := g.in("window", 1, 1<<16)
		return g.with(1, "SeqLen", g.e.T.Add(s, g.in("more", 1, 1<<16)), "BlotConfig.SeqLen", s)
	}},
	{"a window shorter than the fingerprinter's", func(g *settingsGen) map[string]*Term {
		s := g.in("window", 1, 1<<16)
		return g.with(1, "SeqLen", s, "BlotConfig.SeqLen", g.e.T.Add(s, g.in("more", 1, 1<<16)))
	}},
	{"an interleaved window that is not a multiple", func(g *settingsGen) map[string]*Term {
		s := g.in("window", 1, 1<<16)
		return g.with(2, "SeqLen", g.e.T.Add(g.e.T.MulC(s, 2), g.e.T.Int(1)), "BlotConfig.SeqLen", s)
	}},
	{"interleaving not counted in the window length", func(g *settingsGen) map[string]*Term {
		s := g.in("window", 1, 1<<16)
		return g.with(2, "SeqLen", s, "BlotConfig.SeqLen", s)
	}},
}

var goodSettings = []settingsClass{
	{"consistent settings", func(g *settingsGen) map[string]*Term { return g.good(1) }},
	{"consistent interleaved settings", func(g *settingsGen) map[string]*Term { return g.good(3) }},
	{"the smallest settings", func(g *settingsGen) map[string]*Term {
		o := g.e.T.Int(1)
		return g.with(1, "NumShards", o, "NumShatters", o, "DocFlushRate", o, "SeqLen", o, "BlotConfig.SeqLen", o)
	}},
}

type settingsRule struct {
	r   *Rule
	tok string // the default tokenizer
}

// defaults reads the default tokenizer off DefaultConfig.
func (c *settingsRule) defaults() {
	r := c.r
	fn := r.need("", "", "DefaultConfig")
	if fn == nil {
		return
	}
	e := r.engine()
	e.NoFault = true
	for _, o := range r.run(e, fn, newState(), e.arg("root", fn.Params[0].Type())) {
		if o.kind != "" || e.nilness(o.st, retErr(o)) != -1 {
			continue
		}
		p := results(o.ret)[0]
		if a, t := e.fieldPath(p, deref(p.Typ), "TokenConfig.Name"); a != nil {
			if v, ok := e.load(o.st, a, t).isStr(); ok {
				c.tok = v
			}
		}
	}
	if c.tok == "" {
		r.undecided("no default tokenizer found")
	}
}

func settingsText(m map[string]*Term) string {
	var ks []string
	for k, v := range m {
		s := v.String()
		if v.rng != nil {
			s = fmt.Sprintf("%s in [%s,%s]", s, v.rng.lo, v.rng.hi)
		}
		ks = append(ks, k+"="+s)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// session: one constructor with one class of settings.
func (c *settingsRule) session(which string, cl settingsClass) *session {
	s := c.r.newSession(which)
	if s == nil {
		return nil
	}
	e := s.e
	e.OneFault, e.NoFault, e.UnrollMax = false, true, 8
	s.set = cl.set(&settingsGen{e: e})
	if c.tok != "" {
		s.set["TokenConfig.Name"] = e.T.Str(c.tok)
	}
	if s.Cfg != nil {
		s.applySettings(s.st, s.Cfg, deref(s.Cfg.Typ))
	}
	return s
}

// cut ends a path that has shown what it can.
func (c *settingsRule) cut(ev *Event) []Out {
	return []Out{{st: ev.St, kind: "cut", pos: ev.Ins.Pos()}}
}

func (c *settingsRule) bad(which string, cl settingsClass) {
	r := c.r
	s := c.session(which, cl)
	if s == nil {
		return
	}
	e := s.e
	judge := func(ev *Event, key, what string) {
		r.v(ev, key+":"+which, "%s with %s (%s) %s", which, cl.name, settingsText(s.set), what)
	}
	s.on(func(ev *Event, op *FsOp) {
		if ev.Kind == "go" {
			judge(ev, "worker", "starts a worker")
			return
		}
		if op == nil || !op.OK || op.Path == nil || op.Path == s.Root || !op.Path.contains(func(x *Term) bool { return x == s.Root }) {
			if op != nil && op.Op == "mkdir" && op.OK {
				judge(ev, "mkdir", "creates the index directory")
			}
			return
		}
		if c.lockPath(s, op.Path) {
			return
		}
		switch {
		case op.Op == "mkdir":
			judge(ev, "mkdir", "creates a directory")
		case op.Op == "open" && op.FlagsK && op.Flags&int64(os.O_CREATE|os.O_TRUNC) != 0:
			judge(ev, "create", "creates an index file")
		case op.Op == "write" || op.Op == "writeat" || op.Op == "truncate":
			judge(ev, "write", "writes to an index file")
		}
	})
	s.construct()
	r.oblige("unusable settings", which+": "+cl.name)
	if s.Cfg == nil && s.nset == 0 {
		r.undecided("%s: no decoding of stored settings recognised", which)
		return
	}
	n := 0
	for _, o := range s.Outs {
		switch {
		case o.kind == "panic":
			r.failAt(o.st, o.pos, "panic:"+which, "%s with %s (%s) panics", which, cl.name, settingsText(s.set))
		case o.kind != "":
		case e.nilness(o.st, retErr(o)) == -1:
			r.failAt(o.st, o.pos, "accepted:"+which, "%s with %s (%s) succeeds", which, cl.name, settingsText(s.set))
		default:
			n++
		}
	}
	if n == 0 && len(r.finds) == 0 {
		r.undecided("%s with %s has no outcome", which, cl.name)
	}
}

// lockPath: the lock file is not an index file.
func (c *settingsRule) lockPath(s *session, p *Term) bool {
	return p.contains(func(x *Term) bool { v, ok := x.isStr(); return ok && strings.HasSuffix(v, ".lock") })
}

// onSettings: the conditions of a path that are about the settings.
func onSettings(st *State) (key string, about []*Term) {
	var ks []string
	for b, v := range st.facts {
		if b.contains(func(x *Term) bool { return x.Kind == KSym && strings.HasPrefix(x.Name, "arg:set:") }) {
			ks = append(ks, fmt.Sprintf("%s=%v", b, v))
			about = append(about, b)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " "), about
}

// rejects judges the failing paths of usable settings: one is due to the
// settings if no successful path has the same conditions on them.
func (c *settingsRule) rejects(e *Engine, key, what string, ok, failed []Out) {
	r := c.r
	good := map[string]bool{}
	for _, o := range ok {
		k, _ := onSettings(o.st)
		good[k] = true
	}
	for _, o := range failed {
		k, about := onSettings(o.st)
		if good[k] {
			r.undecided("%s may fail for another reason than the settings", what)
			continue
		}
		if env, can := e.possible(o.st, about...); can {
			r.failAt(o.st, o.pos, key, "%s fails though no operation failed, for instance for %s", what, env)
		} else {
			r.undecided("%s may fail without a failing operation", what)
		}
	}
}

func (c *settingsRule) good(which string, cl settingsClass) {
	r := c.r
	s := c.session(which, cl)
	if s == nil {
		return
	}
	e := s.e
	s.on(func(ev *Event, op *FsOp) {
		if op != nil && op.Op == "read" && s.nset > 0 {
			// what follows may be due to what was read
			ev.St.flags["read"] = "1"
		}
	})
	s.construct()
	r.oblige("usable settings", which+": "+cl.name)
	var ok, failed []Out
	for _, o := range s.Outs {
		switch {
		case o.st.flags["read"] != "" && (o.kind != "" || e.nilness(o.st, retErr(o)) != -1):
		case o.kind == "panic":
			r.failAt(o.st, o.pos, "panic:"+which, "%s with %s (%s) panics", which, cl.name, settingsText(s.set))
		case o.kind != "":
		case e.nilness(o.st, retErr(o)) == -1:
			ok = append(ok, o)
		default:
			if os.Getenv("V02DBG") != "" {
				fmt.Println("ERR", which, cl.name, retErr(o), r.P.Pos(o.pos))
			}
			if s.Cfg == nil && s.nset == 0 {
				continue
			}
			failed = append(failed, o)
		}
	}
	c.rejects(e, "rejected:"+which, fmt.Sprintf("%s with %s (%s)", which, cl.name, settingsText(s.set)), ok, failed)
	if len(ok) == 0 {
		r.undecided("%s with %s has no successful outcome", which, cl.name)
	}
}

// verb: settings given by the flags of the index verb (or to CreateIndexer).
func (c *settingsRule) verb(name string, flags func(g *settingsGen) map[string]*Term, bad bool) {
	r := c.r
	e := r.engine()
	e.OneFault, e.NoFault, e.Unroll, e.UnrollMax = false, true, true, 8
	cl := r.newCli(e, "index")
	if cl == nil {
		return
	}
	cl.Flags = flags(&settingsGen{e: e})
	text := settingsText(cl.Flags)
	for f := range cl.Flags {
		if cl.ptrs[f] == nil {
			r.undecided("the index verb has no flag -%s", f)
			return
		}
	}
	cl.Flags["a"] = e.T.Bool(false)
	cl.Flags["c"] = e.T.Str("")
	cl.Flags["v"] = e.T.Bool(false)
	e.H.Go = func(ev *Event) string { return "skip" }
	made, failed := 0, 0
	var oks, nots []Out
	isMade := func(ev *Event) bool {
		if ev.Kind != "leave" || ev.Res == nil || pkgOf(ev.Fn) != "" {
			return false
		}
		rs := results(ev.Res)
		sr := ev.Fn.Signature.Results()
		return len(rs) == 2 && sr.Len() == 2 && namedName(sr.At(0).Type()) == "Indexer" && ev.Fr.Parent != nil && ev.Fr.Parent.Fn != nil && pkgOf(ev.Fr.Parent.Fn) == "cmd/dupi"
	}
	e.H.On = func(ev *Event) {
		if isMade(ev) {
			er := results(ev.Res)[1]
			if e.nilness(ev.St, er) == -1 {
				made++
				ev.St.flags["made"] = "1"
				oks = append(oks, Out{st: ev.St.clone(), pos: ev.Ins.Pos()})
				if bad {
					r.v(ev, "verb-accepted", "the index verb with %s (%s) creates an index", name, text)
				}
			} else {
				failed++
				ev.St.flags["notmade"] = "1"
				nots = append(nots, Out{st: ev.St.clone(), pos: ev.Ins.Pos()})
			}
			return
		}
		if !bad || ev.St.flags["made"] != "" {
			return
		}
		if ev.Kind == "go" {
			r.v(ev, "verb-worker", "the index verb with %s (%s) starts a worker", name, text)
			return
		}
		if op := fsOp(ev); op != nil && op.OK && op.Op == "mkdir" {
			r.v(ev, "verb-mkdir", "the index verb with %s (%s) creates a directory", name, text)
		}
	}
	// once the index exists or not all is seen
	cl.over = func(ev *Event) ([]Out, bool) {
		if ev.St.flags["made"] != "" && (fsOp(ev) != nil || strings.HasPrefix(ev.Name, "path/filepath.Walk")) {
			return []Out{{st: ev.St, kind: "cut", pos: ev.Ins.Pos()}}, true
		}
		return nil, false
	}
	cl.Args = e.T.Nil
	for _, o := range cl.run() {
		switch {
		case o.kind == "panic":
			r.failAt(o.st, o.pos, "verb-panic", "the index verb with %s (%s) panics", name, text)
		case o.kind == "exit" || o.kind == "cut":
			if bad && o.kind == "exit" {
				failed++
			}
		case bad && o.st.flags["made"] == "":
			if e.nilness(o.st, retErr(o)) == -1 {
				r.failAt(o.st, o.pos, "verb-silent", "the index verb with %s (%s) ends successfully", name, text)
			} else {
				failed++
			}
		}
	}
	if !bad {
		c.rejects(e, "verb-rejected", fmt.Sprintf("the index verb with %s (%s)", name, text), oks, nots)
	}
	r.oblige("index verb settings", name+": "+text)
	if !bad && made == 0 && len(r.finds) == 0 || bad && failed == 0 && len(r.finds) == 0 {
		r.undecided("the index verb with %s: nothing recognised (flags %s)", name, cl.names())
	}
}

// create: settings given to CreateIndexer.
func (c *settingsRule) create(name string, args func(g *settingsGen) (shards, window *Term), bad bool) {
	r := c.r
	s := r.newSession("CreateIndexer")
	if s == nil || len(s.args) != 3 {
		return
	}
	e := s.e
	e.OneFault, e.NoFault, e.UnrollMax = false, true, 8
	s.args[1], s.args[2] = args(&settingsGen{e: e})
	text := settingsText(map[string]*Term{"nbuckets": s.args[1], "seqLen": s.args[2]})
	s.on(func(ev *Event, op *FsOp) {
		if !bad {
			return
		}
		if ev.Kind == "go" {
			r.v(ev, "create-worker", "CreateIndexer with %s (%s) starts a worker", name, text)
		} else if op != nil && op.OK && op.Op == "mkdir" {
			r.v(ev, "create-mkdir", "CreateIndexer with %s (%s) creates the index directory", name, text)
		}
	})
	ok := 0
	var oks, failed []Out
	for _, o := range s.construct() {
		switch {
		case o.kind == "panic":
			r.failAt(o.st, o.pos, "create-panic", "CreateIndexer with %s (%s) panics", name, text)
		case o.kind != "":
		case e.nilness(o.st, retErr(o)) == -1:
			ok++
			oks = append(oks, o)
			if bad {
				r.failAt(o.st, o.pos, "create-accepted", "CreateIndexer with %s (%s) succeeds", name, text)
			}
		case !bad:
			failed = append(failed, o)
		}
	}
	c.rejects(e, "create-rejected", fmt.Sprintf("CreateIndexer with %s (%s)", name, text), oks, failed)
	r.oblige("CreateIndexer settings", name+": "+text)
	if !bad && ok == 0 {
		r.undecided("CreateIndexer with %s has no successful outcome", name)
	}
}

func (c *settingsRule) flags() {
	type fl = map[string]*Term
	c.verb("usable settings", func(g *settingsGen) fl {
		return fl{"t": g.in("window", 1, 1<<16), "n": g.in("shards", 1, 256), "s": g.in("workers", 1, 256)}
	}, false)
	c.verb("no workers", func(g *settingsGen) fl {
		return fl{"t": g.in("window", 1, 1<<16), "n": g.in("shards", 1, 256), "s": g.in("workers", lowest, 0)}
	}, true)
	c.verb("no shards", func(g *settingsGen) fl {
		return fl{"t": g.in("window", 1, 1<<16), "n": g.in("shards", lowest, 0), "s": g.in("workers", 1, 256)}
	}, true)
	c.verb("too many shards", func(g *settingsGen) fl {
		return fl{"t": g.in("window", 1, 1<<16), "n": g.in("shards", 1<<16, highest), "s": g.in("workers", 1, 256)}
	}, true)
	c.verb("a window length below one", func(g *settingsGen) fl {
		return fl{"t": g.in("window", lowest, 0), "n": g.in("shards", 1, 256), "s": g.in("workers", 1, 256)}
	}, true)
	c.create("usable settings", func(g *settingsGen) (*Term, *Term) { return g.in("shards", 1, 256), g.in("window", 1, 1<<16) }, false)
	c.create("no shards", func(g *settingsGen) (*Term, *Term) { return g.in("shards", lowest, 0), g.in("window", 1, 1<<16) }, true)
	c.create("too many shards", func(g *settingsGen) (*Term, *Term) { return g.in("shards", 1<<16, highest), g.in("window", 1, 1<<16) }, true)
	c.create("a window length below one", func(g *settingsGen) (*Term, *Term) { return g.in("shards", 1, 256), g.in("window", lowest, 0) }, true)
}

func ruleV02(r *Rule) {
	c := &settingsRule{r: r}
	c.defaults()
	for _, w := range []string{"IndexerFromConfig", "OpenIndexer", "OpenIndex"} {
		for _, cl := range badSettings {
			c.bad(w, cl)
		}
		for _, cl := range goodSettings {
			c.good(w, cl)
		}
	}
	c.flags()
}
