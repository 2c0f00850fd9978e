package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "interleaving-aware typestate analysis of the worker goroutine: at every point of a worker's paths where another worker can run (no lock it needs is held), the next document's worker is analysed from there up to its first hand-over of postings or its blocking; hand-overs, acknowledgements and joined goroutines are counted on each path; document ids by value numbering; shards' acknowledgements against what was stored; locksets of what two workers write", ruleC02)
}

func ruleC02(r *Rule) {
	ns := []int64{1, 2}
	if r.Tier == "thorough" {
		ns = append(ns, 3)
	}
	for _, which := range []string{"IndexerFromConfig", "OpenIndexer"} {
		for _, n := range ns {
			if r.broken() {
				return
			}
			orderRun(r, which, n)
		}
	}
	orderOnce(r)
}

// order: worker a has a document whose turn it is, worker b the next one.
type order struct {
	r     *Rule
	e     *Engine
	p     *pipe
	a, b  *goRec
	ch    *Term
	req2  *Term
	acks  map[*Term]bool // channels the shards send on
	inB   bool
	waitB int // how often b waited on this nested path
	total int // batches a hands over
	what  string
	how   string
	bad   bool

	handed, blocked bool // of the last run of b
}

// syncOp: the method of package sync a call is about, and its receiver.
func syncOp(ev *Event) (string, *Term) {
	if ev.Com == nil {
		return "", nil
	}
	var n string
	if ev.Com.IsInvoke() {
		n = ev.Com.Method.FullName()
	} else if ev.Fn != nil {
		n = ev.Fn.String()
	}
	if !strings.HasPrefix(n, "(*sync.") && !strings.HasPrefix(n, "(sync.") {
		return "", nil
	}
	n = strings.TrimPrefix(strings.TrimPrefix(n, "(*sync."), "(sync.")
	var recv *Term
	if len(ev.Args) > 0 {
		recv = unbox(ev.Args[0])
	} else if ev.Val != nil {
		recv = unbox(ev.Val)
	}
	switch {
	case strings.HasSuffix(n, "Mutex).Lock"), strings.HasSuffix(n, "Mutex).RLock"), n == "Locker).Lock":
		return "lock", recv
	case strings.HasSuffix(n, "Mutex).Unlock"), strings.HasSuffix(n, "Mutex).RUnlock"), n == "Locker).Unlock":
		return "unlock", recv
	case n == "Cond).Wait":
		return "wait", recv
	case n == "Cond).Broadcast":
		return "broadcast", recv
	case n == "Cond).Signal":
		return "signal", recv
	}
	return "", nil
}

func (c *order) heldKey(recv *Term) *Term { return c.e.T.App("held", nil, orNil(c.e.T, recv)) }

func (c *order) anyHeld(st *State) bool {
	for k, v := range st.chans {
		if k.Kind == KApp && k.Name == "held" && len(v) > 0 {
			return true
		}
	}
	return false
}

func (c *order) override(ev *Event) ([]Out, bool) {
	op, recv := syncOp(ev)
	st := ev.St
	void := func() ([]Out, bool) { return []Out{{st: st}}, true }
	switch op {
	case "lock":
		k := c.heldKey(recv)
		if len(st.chans[k]) > 0 {
			if c.inB {
				c.blocked = true
				return nil, true // held by a
			}
			return nil, true
		}
		if c.inB {
			return void()
		}
		st.chans[k] = []*Term{c.e.T.T}
		return void()
	case "unlock":
		delete(st.chans, c.heldKey(recv))
		if !c.inB {
			st.flags["dirty"] = "1"
		}
		return void()
	case "broadcast":
		if !c.inB {
			st.flags["woken"], st.flags["dirty"] = "1", "1"
		}
		return void()
	case "signal":
		return void()
	case "wait":
		if !c.inB {
			c.bad = true
			c.r.failAt(st, ev.Ins.Pos(), "stuck", "%s: the worker waits for another document although every document added before has been passed on", c.what)
			return nil, true
		}
		c.waitB++
		if st.flags["waited"] != "" {
			c.blocked = true
			return nil, true
		}
		// woken for another reason than its turn
		st.flags["waited"] = "1"
		return void()
	}
	return c.p.override(ev)
}

func (c *order) cnt(st *State, k string, d int64) int64 { return c.p.s.count(st, k, d) }

func (c *order) on(ev *Event) {
	st := ev.St
	if st == nil {
		return
	}
	if c.inB {
		if ev.Kind == "send" && ev.Addr != c.b.ch && !c.acks[nil] {
			if c.p.goFor(ev.Addr) == nil {
				return
			}
			c.handed = true
			c.judge(st, ev.Ins.Pos())
		}
		return
	}
	if st.flags["dirty"] != "" {
		delete(st.flags, "dirty")
		c.tryB(st)
	}
	c.p.s.joins(ev)
	switch ev.Kind {
	case "store":
		if ev.Addr != nil && c.sharedObj(ev.Addr) {
			st.flags["dirty"] = "1"
		}
	case "send":
		if g := c.p.goFor(ev.Addr); g != nil && ev.Addr != c.a.ch {
			c.cnt(st, "out", 1)
			c.cnt(st, "handed", 1)
			if ev.Fr != nil && ev.Ins.Parent() != nil {
				st.flags["dirty"] = "1"
			}
		}
	case "recv":
		if c.acks[ev.Addr] {
			c.cnt(st, "out", -1)
		}
	}
}

// sharedObj: made by the constructor, or global.
func (c *order) sharedObj(t *Term) bool {
	for i := 0; t != nil && i < 64; i++ {
		switch t.Kind {
		case KFieldA, KIndexA, KInit, KSlice, KIface, KHv:
			t = t.Args[0]
		case KAlloc, KSym:
			f := topFn(t.Frame)
			return f == c.p.s.Fn
		case KGlobal:
			return true
		default:
			return false
		}
	}
	return false
}

// judge: b hands postings over; is a done?
func (c *order) judge(st *State, pos token.Pos) {
	r := c.r
	switch {
	case int(c.cnt(st, "handed", 0)) < c.total:
		c.bad = true
		r.failAt(st, pos, "early", "%s: the postings of the next document are handed to a shard when %d of %d batches of this one have been", c.what, c.cnt(st, "handed", 0), c.total)
	case c.cnt(st, "out", 0) > 0:
		c.bad = true
		r.failAt(st, pos, "early", "%s: the postings of the next document are handed to a shard before the shards have acknowledged all of this one's", c.what)
	case c.p.s.running(st) > 0:
		c.bad = true
		r.failAt(st, pos, "early", "%s: the postings of the next document are handed to a shard while goroutines that hand over this one's are not waited for", c.what)
	}
}

// tryB analyses b from here up to its first hand-over or until it blocks.
func (c *order) tryB(st *State) {
	if c.bad {
		return
	}
	r, e := c.r, c.e
	r.oblige("points where the next document's worker may run", c.what)
	s2 := st.clone()
	s2.viols = nil
	h := e.H
	ictx := e.ictx
	c.inB, c.handed, c.blocked, c.waitB = true, false, false, 0
	gave := false
	e.H.On, e.H.Override = c.on, c.override
	e.H.Go = func(ev *Event) string { return "inline" }
	e.H.Recv = func(st *State, ch *Term) (*Term, *Term, bool) {
		if ch == c.b.ch {
			if st.flags["gave"] != "" {
				return nil, e.T.F, true
			}
			st.flags["gave"] = "1"
			gave = true
			return c.req2, e.T.T, true
		}
		return nil, e.T.T, true
	}
	delete(s2.flags, "waited")
	e.ictx = "next"
	fr := e.frame(nil, nil, c.b.fn)
	e.ictx = ""
	binds := []*Term(nil)
	if c.b.f.Kind == KClosure {
		binds = c.b.f.Args
	}
	outs := e.runFn(s2, fr, c.b.fn, c.b.args, binds)
	e.npaths += len(outs)
	e.ictx = ictx
	e.H = h
	c.inB = false
	if !gave {
		r.undecided("%s: the next document's worker does not take it", c.what)
		c.bad = true
	}
	if st.flags["woken"] != "" && c.blocked && !c.handed && c.waitB > 0 {
		// woken, and found that it is not its turn
		delete(st.flags, "woken")
	}
}

func orderRun(r *Rule, which string, n int64) {
	p := r.newPipeOn(which, n, 1, 1, 2)
	if p == nil {
		return
	}
	e := p.e
	fn := r.need("", "Indexer", "Add")
	if fn == nil {
		return
	}
	doc, _, _ := r.textDoc(e, p.st, "doc", fn.Params[1].Type())
	ch, req, id, ok := p.addID(doc)
	if !ok {
		return
	}
	doc2, _, _ := r.textDoc(e, p.st, "doc2", fn.Params[1].Type())
	_, req2, id2, ok := p.addID(doc2)
	if !ok {
		return
	}
	if id != nil && id2 != nil {
		r.mustEqual(e, p.st, fn.Pos(), "next", p.what+": id of the next document", id2, e.T.Add(id, e.T.Int(1)), 32)
	}
	p.firstRecv()
	c := &order{r: r, e: e, p: p, ch: ch, req2: req2}
	var ws []*goRec
	nshard := map[*Term]int{}
	for _, g := range p.gos {
		if g.ch == ch {
			ws = append(ws, g)
		} else if g.ch != nil {
			nshard[g.ch]++
		}
	}
	if len(ws) < 2 {
		r.undecided("%s: %d of 2 workers receive what Add sends", p.what, len(ws))
		return
	}
	for _, g := range p.gos {
		if nshard[g.ch] > 1 {
			r.failAt(p.st, g.fn.Pos(), "servers", "%s: two goroutines store the postings of one shard", p.what)
			return
		}
	}
	c.a, c.b = ws[0], ws[1]
	e.H.Key = func(st *State) string {
		return chanKey(st) + fmt.Sprint(st.flags["dirty"], st.flags["woken"], st.flags["gave"], st.flags["waited"], st.flags["ann"], st.gh["running"], st.gh["out"], st.gh["handed"])
	}
	e.Peel = 6
	p.blot = func(ev *Event, i int) *Term {
		q := e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:fp%d", i), Typ: types.Typ[types.Uint16]})
		return e.T.Add(e.T.MulC(q, n), e.T.Int(int64(i)%n))
	}
	// how a shard answers
	pats := []string{"WW", "", "o", "WoWWW"}
	c.acks = map[*Term]bool{}
	for _, pat := range pats {
		if r.broken() {
			return
		}
		f, f2 := r.newFprint(e, "text", pat), r.newFprint(e, "text2", "W")
		c.what = fmt.Sprintf("%s, text %q", p.what, pat)
		p.toks, p.seq = nil, [][]tokSpec{f.toks, f2.toks}
		// a alone
		plain := p.serve(c.a, p.st, req)
		if len(plain) == 0 {
			h := e.H
			e.H.Override = c.override
			p.serve(c.a, p.st, req)
			e.H = h
			if !c.bad {
				r.undecided("%s: the worker does not ask for another document", c.what)
			}
			return
		}
		c.total = -1
		for _, st := range plain {
			t := 0
			for ch, vals := range p.sent(st) {
				g := p.goFor(ch)
				if g == nil {
					r.undecided("%s: postings are sent where no goroutine receives", c.what)
					return
				}
				t += len(vals)
				for _, v := range vals {
					c.how = "all stored"
					c.stores(g, st, v, id)
					c.how = "storing fails"
					p.refuse = e.T.mk(&Term{Kind: KSym, Name: "err:AddPost", Typ: types.Universe.Lookup("error").Type(), NonNil: true})
					c.stores(g, st, v, id)
					p.refuse = nil
				}
			}
			if c.total >= 0 && c.total != t {
				r.undecided("%s: the number of batches differs between paths", c.what)
				return
			}
			c.total = t
		}
		r.oblige("documents passed on", fmt.Sprintf("%s: %d batches", c.what, c.total))
		if r.broken() || len(c.acks) == 0 {
			if !r.broken() {
				r.undecided("%s: the shards do not acknowledge what they have stored", c.what)
			}
			return
		}
		c.bad = false
		h := e.H
		over := e.H.Override
		e.H.Override = c.override
		e.H.On = c.on
		p.s.goInline = true
		// before a has begun
		st0 := p.st.clone()
		c.tryB(st0)
		ends := p.serve(c.a, p.st, req)
		p.s.goInline = false
		e.H.On = nil
		if !c.bad && len(ends) == 0 {
			r.undecided("%s: the worker does not ask for another document", c.what)
		}
		for _, st := range ends {
			if c.bad {
				break
			}
			pos := c.a.fn.Pos()
			if c.cnt(st, "out", 0) > 0 || p.s.running(st) > 0 {
				r.failAt(st, pos, "pending", "%s: the worker takes another document before all postings of this one are acknowledged", c.what)
				break
			}
			if c.anyHeld(st) {
				r.failAt(st, pos, "held", "%s: the worker takes another document and holds a lock", c.what)
				break
			}
			woken := st.flags["woken"] != ""
			c.tryB(st)
			if c.bad {
				break
			}
			if !c.handed {
				if c.blocked {
					r.failAt(st, pos, "turn", "%s: after this document the next one still waits for its turn", c.what)
				} else if c.total > 0 {
					r.undecided("%s: the next document is not handed over", c.what)
				}
				break
			}
			if !woken {
				r.failAt(st, pos, "wake", "%s: workers that wait for their turn are not all woken once it has come", c.what)
				break
			}
		}
		e.H = h
		e.H.Override = over
	}
	if r.broken() {
		return
	}
	c.overtake(req, req2)
	if r.broken() {
		return
	}
	c.races(req, req2)
	if n == 1 && !r.broken() {
		c.afterFailure(fn, which)
	}
}

// overtake: if a document without postings can be done with before the one
// before it, that one still gets its turn.
func (c *order) overtake(req, req2 *Term) {
	r, e, p := c.r, c.e, c.p
	for _, pat := range []string{"", "o"} {
		f, f2 := r.newFprint(e, "text", pat), r.newFprint(e, "text2", "WW")
		p.toks, p.seq = nil, [][]tokSpec{f.toks, f2.toks}
		c.what = fmt.Sprintf("%s, after a later document with text %q", p.what, pat)
		h := e.H
		e.H.Override = func(ev *Event) ([]Out, bool) {
			if op, _ := syncOp(ev); op == "wait" {
				return nil, true
			}
			return p.override(ev)
		}
		var ends []*State
		for _, st := range p.serve(c.b, p.st, req2) {
			ends = append(ends, st)
		}
		r.oblige("later documents first", c.what)
		for _, st := range ends {
			e.H.Override = c.override
			c.bad = false
			p.serve(c.a, st, req)
			if c.bad {
				break
			}
		}
		e.H = h
	}
}

// addID: add, and the id the record was given.
func (p *pipe) addID(doc *Term) (ch, req, id *Term, ok bool) {
	old := p.e.H.On
	n := 0
	p.e.H.On = func(ev *Event) {
		if ev.Kind == "leave" && ev.Fn != nil && ev.Fn.Name() == "Add" && pkgOf(ev.Fn) == "dmd" {
			rs := results(ev.Res)
			if len(rs) == 2 && p.e.nilness(ev.St, rs[1]) <= 0 {
				if id != nil && id != rs[0] {
					n++
				}
				id = rs[0]
			}
		}
	}
	p.added = nil
	ch, req, ok = p.add(doc)
	p.e.H.On = old
	for _, o := range p.added {
		m := 0
		for _, v := range p.sent(o.st) {
			m += len(v)
		}
		p.r.oblige("successful Adds", p.what)
		if m != 1 {
			p.r.failAt(o.st, p.r.need("", "Indexer", "Add").Pos(), "passed", "%s: Add succeeds and passes the document on %d times", p.what, m)
			return nil, nil, nil, false
		}
	}
	if n > 0 || id == nil {
		id = nil
		if ok {
			p.r.undecided("%s: the id of the record is not resolved", p.what)
		}
	}
	return
}

// stores: a shard stores all of a batch, under the document's id, and then
// acknowledges it.
func (c *order) stores(g *goRec, st *State, batch, id *Term) {
	r, e, p := c.r, c.e, c.p
	oldOn := e.H.On
	type ack struct {
		st *State
		ev *Event
		n  int
	}
	var acks []ack
	e.H.On = func(ev *Event) {
		if ev.Kind == "send" {
			acks = append(acks, ack{ev.St.clone(), ev, len(ev.St.chans[e.T.App("filings", nil)])})
			c.acks[ev.Addr] = true
		}
	}
	fs, ok := p.file(g, st, batch)
	e.H.On = oldOn
	if !ok && len(p.ends) == 0 && len(acks) == 0 && len(c.acks) > 0 {
		r.failAt(st, g.fn.Pos(), "ack", "%s: the shard does not acknowledge a batch (%s) and takes no other", c.what, c.how)
		return
	}
	if !ok {
		r.undecided("%s: the shard does not take the postings in one way", c.what)
		return
	}
	r.oblige("postings acknowledged", fmt.Sprintf("%s: %d", c.what, len(fs)))
	for _, a := range acks {
		if a.n < len(fs) {
			r.failAt(a.st, a.ev.Ins.Pos(), "ack", "%s: the shard acknowledges a batch when %d of its %d postings are stored", c.what, a.n, len(fs))
			return
		}
	}
	if len(acks) == 0 && len(c.acks) > 0 && !r.broken() {
		r.failAt(st, g.fn.Pos(), "ack", "%s: the shard does not acknowledge a batch of %d postings (%s)", c.what, len(fs), c.how)
		return
	}
	if len(acks) > 1 {
		r.failAt(acks[1].st, acks[1].ev.Ins.Pos(), "ack", "%s: the shard acknowledges one batch %d times", c.what, len(acks))
	}
	for _, f := range fs {
		if id != nil {
			r.mustEqual(e, f.st, g.fn.Pos(), "id", c.what+": document id a posting is stored under", f.doc, id, 32)
		}
	}
}

// races: what two workers write without a lock must be different.
func (c *order) races(req, req2 *Term) {
	r, e, p := c.r, c.e, c.p
	f, f2 := r.newFprint(e, "text", "WW"), r.newFprint(e, "text2", "WW")
	p.toks, p.seq = nil, [][]tokSpec{f.toks, f2.toks}
	what := p.what
	writes := func(g *goRec, req *Term) map[*Term]token.Pos {
		m := map[*Term]token.Pos{}
		over := e.H.Override
		e.H.Override = func(ev *Event) ([]Out, bool) {
			op, recv := syncOp(ev)
			switch op {
			case "lock":
				ev.St.chans[c.heldKey(recv)] = []*Term{e.T.T}
			case "unlock":
				delete(ev.St.chans, c.heldKey(recv))
			}
			if op != "" {
				return []Out{{st: ev.St}}, true
			}
			return p.override(ev)
		}
		// what a goroutine it starts does, its starter waits for
		e.H.On = func(ev *Event) {
			if ev.Kind == "store" && ev.Addr != nil && !c.anyHeld(ev.St) && c.sharedObj(ev.Addr) {
				m[ev.Addr] = ev.Ins.Pos()
			}
		}
		p.serve(g, p.st, req)
		e.H.On, e.H.Override = nil, over
		return m
	}
	wa, wb := writes(c.a, req), writes(c.b, req)
	for a, pos := range wa {
		r.oblige("writes of a worker without a lock", fmt.Sprint(what, " ", r.P.Pos(pos)))
		if _, ok := wb[a]; ok {
			r.fail(pos, "race:"+r.P.Pos(pos), "%s: two workers write the same memory (%s) without a lock", what, a)
			return
		}
	}
}

// afterFailure: a document that is not accepted takes no id of its own.
func (c *order) afterFailure(fn *ssa.Function, which string) {
	r := c.r
	// every record is written when there is another
	r.Rate = 1
	p := r.newPipeOn(which, 1, 1, 1, 1)
	r.Rate = 0
	if p == nil {
		return
	}
	c = &order{r: r, e: p.e, p: p, what: p.what}
	e := p.e
	p.blot = func(ev *Event, i int) *Term { return e.T.Int(int64(i)) }
	ch, req, ok := p.add(e.arg("docs", fn.Params[1].Type()))
	if !ok {
		return
	}
	p.firstRecv()
	if c.a = p.goFor(ch); c.a == nil {
		r.undecided("%s: no goroutine receives what Add sends", p.what)
		return
	}
	f := r.newFprint(e, "text", "W")
	p.toks, p.seq = nil, [][]tokSpec{f.toks}
	ends := p.serve(c.a, p.st, req)
	if len(ends) == 0 {
		r.undecided("%s: the worker does not ask for another document", p.what)
		return
	}
	st := ends[0].clone()
	for k := range st.chans {
		if k.Kind == KApp && k.Name == "sent" {
			delete(st.chans, k)
		}
	}
	e.NoFault, e.OneFault = false, true
	st.viols, st.tr = nil, nil
	doc := e.arg("docf", fn.Params[1].Type())
	outs := r.run(e, fn, st, p.x, doc)
	e.NoFault, e.OneFault = true, false
	seen := map[string]bool{}
	for _, o := range outs {
		if r.broken() {
			break
		}
		if o.kind != "" || e.nilness(o.st, retErr(o)) < 0 {
			continue
		}
		fl := p.s.faultName(o.st)
		if seen[fl] {
			continue
		}
		seen[fl] = true
		for _, v := range p.sent(o.st) {
			if len(v) > 0 {
				r.failAt(o.st, fn.Pos(), "refused", "%s, %s: Add fails and the document is passed on all the same", p.what, fl)
			}
		}
		r.oblige("failing Adds", p.what+", "+fl)
		p.st = o.st.clone()
		p.st.fault = nil
		d2 := e.arg("docg", fn.Params[1].Type())
		_, req, ok := p.add(d2)
		if !ok {
			continue
		}
		c.what = fmt.Sprintf("%s, after an Add that failed (%s)", p.what, fl)
		over := e.H.Override
		e.H.Override = c.override
		c.bad = false
		ends := p.serve(c.a, p.st, req)
		e.H.Override = over
		if len(ends) == 0 && !c.bad {
			r.undecided("%s: the worker does not ask for another document", c.what)
		}
	}
}

// orderOnce: storing the id a list ends with once more leaves the list as it
// is, in a new list and in one that was read from an index.
func orderOnce(r *Rule) {
	if r.broken() {
		return
	}
	w := r.newPostWriter()
	if w == nil || w.start == nil || w.cur == "" {
		r.undecided("the writer of posting lists is not resolved")
		return
	}
	e, T := w.e, w.e.T
	v := e.arg("v", types.Typ[types.Uint32])
	v.rng = &Rng{big.NewInt(1), big.NewInt(1<<32 - 1)}
	for _, variant := range []string{"new", "reopened"} {
		var sts []*State
		if variant == "new" {
			for _, o := range okOuts(e, w.add, r.run(e, w.add, w.start.clone(), w.p, v, w.f)) {
				sts = append(sts, o.st)
			}
		} else {
			st := w.start.clone()
			n := e.arg("total", types.Typ[types.Uint32])
			n.rng = &Rng{big.NewInt(1), big.NewInt(1 << 30)}
			w.set(st, w.cur, v)
			w.set(st, w.total, n)
			sts = append(sts, st)
		}
		if len(sts) == 0 {
			r.undecided("AddPost has no successful outcome on a %s list", variant)
		}
		for _, st := range sts {
			st.tr, st.viols = nil, nil
			n0, p0 := w.field(st, w.total), w.field(st, "posts")
			for _, o := range okOuts(e, w.add, r.run(e, w.add, st.clone(), w.p, v, w.f)) {
				r.oblige("repeated ids", variant+" list")
				what := "storing the last id of a " + variant + " list again: "
				r.mustEqual(e, o.st, w.add.Pos(), "once", what+"number of ids", w.field(o.st, w.total), n0, 32)
				if p1 := w.field(o.st, "posts"); p0 != nil && p1 != nil {
					r.mustEqual(e, o.st, w.add.Pos(), "once", what+"bytes of the list", T.Len(p1), T.Len(p0), 64)
				}
			}
		}
	}
}
