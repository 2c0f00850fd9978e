package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register("E01", "error-propagation analysis: one file operation at a time fails, on every path of the writing constructors, of Add, of the shards' goroutines storing a batch, and of Close; every path with a failure must end in an error of the call, or leave a state from which every path of Close returns an error", ruleE01)
}

// faultRule follows the one operation that fails on a path.
type faultRule struct {
	r    *Rule
	e    *Engine
	s    *session
	what string
	seen map[string]bool
}

// note remembers what failed on a path.
func (f *faultRule) note(ev *Event, op *FsOp) {
	st := ev.St
	if op == nil {
		return
	}
	if op.Op == "open" && op.OK && op.H != nil && op.FlagsK && op.Flags&3 != 0 {
		st.flags[fmt.Sprintf("w:%d", op.H.ID)] = "1"
	}
	if !op.OK && st.fault != nil && st.flags["fop"] == "" {
		st.flags["fop"] = op.Op
		if op.Op == "open" && op.FlagsK && op.Flags&3 == 0 {
			st.flags["fro"] = "1"
		}
		if op.H != nil {
			if st.flags[fmt.Sprintf("w:%d", op.H.ID)] == "" && !(op.FlagsK && op.Flags&3 != 0) {
				st.flags["fro"] = "1" // not opened for writing, as far as seen
			}
		}
		if id := op.Op + f.r.P.Pos(ev.Ins.Pos()); !f.seen[id] {
			f.seen[id] = true
			f.r.oblige("operations that may fail", op.Op+" at "+f.r.P.Pos(ev.Ins.Pos()))
		}
	}
}

// harmless: nothing is lost if this fails.
func (f *faultRule) harmless(st *State) bool {
	switch st.flags["fop"] {
	case "close":
		return st.flags["fro"] != ""
	case "stat", "open":
		// what is not there, and was not to be made
		if st.flags["fop"] == "open" && st.flags["fro"] == "" {
			return false
		}
		for t, v := range st.facts {
			if v && t.Kind == KApp && (t.Name == "os.IsNotExist" || t.Name == "errors.Is" && strings.Contains(t.Args[1].String(), "NotExist")) && t.contains(func(x *Term) bool { return x == st.fault }) {
				return true
			}
		}
	}
	return false
}

func (f *faultRule) lost(o Out, who string) {
	r := f.r
	key := who + ":" + f.s.faultName(o.st)
	r.failAt(o.st, o.pos, key, "%s: %s returns no error, %s", f.what, who, f.s.faultName(o.st))
}

func ruleE01(r *Rule) {
	for _, which := range []string{"IndexerFromConfig", "CreateIndexer", "OpenIndexer"} {
		if r.broken() {
			return
		}
		errConstruct(r, which)
	}
	for _, which := range []string{"IndexerFromConfig", "OpenIndexer"} {
		if r.broken() {
			return
		}
		errIndexing(r, which)
	}
}

func errConstruct(r *Rule, which string) {
	s := r.newSession(which)
	if s == nil {
		return
	}
	e := s.e
	f := &faultRule{r: r, e: e, s: s, what: which, seen: map[string]bool{}}
	s.on(func(ev *Event, op *FsOp) { f.note(ev, op) })
	outs := s.construct()
	r.ended(s, outs)
	for _, o := range outs {
		if o.kind != "" || o.st.fault == nil || f.harmless(o.st) {
			continue
		}
		if e.nilness(o.st, retErr(o)) < 0 {
			f.lost(o, which)
		}
	}
}

// faulty runs f with one failing operation allowed.
func (p *pipe) faulty(on func(ev *Event, op *FsOp), run func()) {
	e := p.e
	e.NoFault, e.OneFault = false, true
	h := e.H
	p.s.goInline = true
	e.H.Go = func(ev *Event) string { return "inline" }
	e.H.On = func(ev *Event) {
		p.s.joins(ev)
		op := fsOp(ev)
		p.s.track(ev, op)
		if on != nil {
			on(ev, op)
		}
	}
	run()
	e.H = h
	p.s.goInline = false
	e.NoFault, e.OneFault = true, false
}

func errIndexing(r *Rule, which string) {
	r.Rate = 1
	p := r.newPipeOn(which, 2, 1, 1, 1)
	r.Rate = 0
	if p == nil {
		return
	}
	e := p.e
	add, cl := r.need("", "Indexer", "Add"), r.need("", "Indexer", "Close")
	if add == nil || cl == nil {
		return
	}
	f := &faultRule{r: r, e: e, s: p.s, what: p.what, seen: map[string]bool{}}
	// a record is buffered, so that the records are flushed by Close
	doc, _, _ := r.textDoc(e, p.st, "doc", add.Params[1].Type())
	ch, req, ok := p.add(doc)
	if !ok {
		return
	}
	p.firstRecv()
	w := p.goFor(ch)
	if w == nil {
		r.undecided("%s: no goroutine receives what Add sends", p.what)
		return
	}
	// close after a failure: no path may end well
	after := func(st *State, who string) {
		st = st.clone()
		st.viols = nil
		var outs []Out
		fault := st.fault
		e.NoFault, e.OneFault = true, false
		h := e.H
		p.s.goInline = true
		e.H.Go = func(ev *Event) string { return "inline" }
		e.H.On, e.H.Key, e.H.Send = nil, nil, nil
		outs = r.run(e, cl, st, p.x)
		e.H = h
		p.s.goInline = false
		r.oblige("Closes after a failure", p.what+": "+who+", "+p.s.faultName(st))
		n := 0
		for _, o := range outs {
			if o.kind != "" {
				continue
			}
			n++
			if e.nilness(o.st, retErr(o)) < 0 {
				o.st.fault = fault
				r.failAt(o.st, o.pos, "close:"+who+":"+p.s.faultName(o.st), "%s: %s loses its error, and Close then returns no error (%s)", p.what, who, p.s.faultName(o.st))
				return
			}
		}
		if n == 0 {
			r.undecided("%s: Close has no outcome after a failure of %s", p.what, who)
		}
	}
	// Add
	var outs []Out
	p.faulty(f.note, func() {
		outs = r.run(e, add, p.st.clone(), p.x, e.arg("docb", add.Params[1].Type()))
	})
	for _, o := range outs {
		if r.broken() {
			return
		}
		if o.kind != "" || o.st.fault == nil || f.harmless(o.st) {
			continue
		}
		r.oblige("failing Adds", p.what+", "+p.s.faultName(o.st))
		if e.nilness(o.st, retErr(o)) < 0 {
			after(o.st, "Add")
		}
	}
	// the goroutines
	tk := r.newFprint(e, "text", "WW")
	p.toks, p.seq = nil, [][]tokSpec{tk.toks}
	p.blot = func(ev *Event, i int) *Term { return e.T.Int(int64(i) % 2) }
	ends := p.serve(w, p.st, req)
	if len(ends) == 0 {
		r.undecided("%s: the worker does not ask for another document", p.what)
		return
	}
	served := 0
	for c, vals := range p.sent(ends[0]) {
		g := p.goFor(c)
		if g == nil || len(vals) == 0 || r.broken() {
			continue
		}
		served++
		st := ends[0].clone()
		st.viols, st.tr = nil, nil
		if !p.fill(st) {
			return
		}
		var fends []*State
		p.faulty(f.note, func() { fends = p.serve(g, st, vals[0]) })
		n := 0
		for _, fs := range fends {
			if fs.fault == nil || f.harmless(fs) || r.broken() {
				continue
			}
			n++
			after(fs, "storing postings")
		}
		if n == 0 {
			r.undecided("%s: storing postings does not fail on any path", p.what)
		}
	}
	if served == 0 {
		r.undecided("%s: no goroutine stores postings", p.what)
	}
	if r.broken() {
		return
	}
	// Close
	st := p.st.clone()
	st.viols, st.tr = nil, nil
	p.fill(st)
	p.faulty(f.note, func() {
		e.H.Send = nil
		outs = r.run(e, cl, st, p.x)
	})
	n := 0
	for _, o := range outs {
		if o.kind != "" || o.st.fault == nil || f.harmless(o.st) {
			continue
		}
		n++
		r.oblige("failing Closes", p.what+", "+p.s.faultName(o.st))
		if e.nilness(o.st, retErr(o)) < 0 {
			f.lost(o, "Close")
			return
		}
	}
	if n == 0 {
		r.undecided("%s: Close has no failing outcome", p.what)
	}
}

// fill makes the buffered postings of the first slots arbitrary.
func (p *pipe) fill(st *State) bool {
	e, r := p.e, p.r
	a := r.need("internal/shard", "poster", "AddPost")
	if a == nil {
		return false
	}
	pt := deref(a.Params[0].Type())
	xf, xt := e.fieldNamed(p.x, deref(p.x.Typ), "shards")
	if xf == nil {
		r.undecided("Indexer.shards not found")
		return false
	}
	sl := e.load(st, xf, xt)
	et := elemOfSlice(xt)
	if sl.Kind != KSlice {
		r.undecided("the shards are not resolved")
		return false
	}
	ind, _ := postersOf(et)
	for i := int64(0); i < p.n; i++ {
		sa := e.indexAddr(sl.Args[0], e.T.Add(sl.Args[1], e.T.Int(i)), et)
		ia, _ := e.fieldNamed(sa, et, ind)
		if ia == nil {
			r.undecided("the posters of a shard are not found")
			return false
		}
		pa := e.indexAddr(ia, e.T.Int(0), pt)
		fa, ft := e.fieldNamed(pa, pt, "posts")
		if fa == nil {
			r.undecided("poster.posts not found")
			return false
		}
		old := e.load(st, fa, ft)
		if old.Kind == KSlice {
			n := e.arg(fmt.Sprintf("buffered%d", i), types.Typ[types.Int])
			n.rng = &Rng{big.NewInt(0), big.NewInt(520)}
			e.store(st, fa, e.T.mk(&Term{Kind: KSlice, Args: []*Term{old.Args[0], old.Args[1], e.T.Add(old.Args[1], n)}, Typ: old.Typ}), ft)
		} else {
			e.store(st, fa, e.arg(fmt.Sprintf("buffer%d", i), ft), ft)
		}
	}
	return true
}
