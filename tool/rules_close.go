package main

import (
	"fmt"
	"go/token"
	"math/big"
	"strings"
)

func init() {
	register("C03", "typestate analysis of Close with the goroutines it starts inlined and their ends tracked: stop requests handed to workers before the first flush, every shard closed and waited for, every file written that opening reads; of the worker on a stop request; of the shard's goroutine after an acknowledgement; per-slot flush of a shard", ruleC03)
}

func ruleC03(r *Rule) {
	ws := [][2]int64{{1, 1}, {2, 2}, {2, 3}, {3, 1}}
	if r.Tier == "thorough" {
		ws = append(ws, [2]int64{4, 1}, [2]int64{3, 4})
	}
	for _, which := range []string{"IndexerFromConfig", "OpenIndexer"} {
		for _, w := range ws {
			if r.broken() {
				return
			}
			closeRun(r, which, w[0], w[1])
		}
	}
	closeSlots(r)
}

func closeRun(r *Rule, which string, n, workers int64) {
	p := r.newPipeOn(which, n, 1, 1, workers)
	if p == nil {
		return
	}
	e := p.e
	add, cl := r.need("", "Indexer", "Add"), r.need("", "Indexer", "Close")
	if add == nil || cl == nil {
		return
	}
	p.what += fmt.Sprintf(", %d workers", workers)
	doc, _, _ := r.textDoc(e, p.st, "doc", add.Params[1].Type())
	ch, req, ok := p.add(doc)
	if !ok {
		return
	}
	p.firstRecv()
	var ws []*goRec
	shards := map[*Term]*goRec{}
	for _, g := range p.gos {
		if g.ch == ch {
			ws = append(ws, g)
		} else if g.ch != nil {
			shards[g.ch] = g
		}
	}
	if int64(len(ws)) != workers {
		r.undecided("%s: %d goroutines receive what Add sends", p.what, len(ws))
		return
	}
	if int64(len(shards)) != n {
		r.undecided("%s: %d goroutines store postings", p.what, len(shards))
		return
	}
	s := p.s
	paths := map[string]*Term{}
	for _, m := range []string{"Path", "FnamesPath", "DmdPath"} {
		if t := r.apiPath(e, m, s.Root); t != nil {
			paths[m] = t
		}
	}
	// Close
	s.goInline = true
	e.H.Go = func(ev *Event) string { return "inline" }
	e.H.Key = func(st *State) string {
		return fmt.Sprint(chanKey(st), st.gh["running"], st.gh["down"], st.gh["announced"], st.flags["flushing"], st.flags["rclosed"])
	}
	reported := false
	say := func(st *State, pos token.Pos, key, f string, a ...interface{}) {
		if !reported {
			reported = true
			r.failAt(st, pos, key, p.what+": "+f, a...)
		}
	}
	// touch: posting data is about to be changed by Close
	touch := func(ev *Event, what string) {
		st := ev.St
		r.oblige("flushes in Close", p.what+": "+what)
		if st.flags["flushing"] != "" {
			return
		}
		st.flags["flushing"] = "1"
		if d := s.count(st, "down", 0); d < workers {
			if st.flags["waits"] != "" || st.flags["rclosed"] != "" && st.flags["recvd"] != "" {
				r.undecided("%s: how Close waits for the workers is not resolved", p.what)
				return
			}
			say(st, ev.Ins.Pos(), "wait", "Close %s when %d of %d workers were told to stop", what, d, workers)
		}
	}
	var downs []*Term
	e.H.On = func(ev *Event) {
		st := ev.St
		if st == nil {
			return
		}
		s.joins(ev)
		op := fsOp(ev)
		lk := st.flags["lk"]
		s.track(ev, op)
		if lk != "" && st.flags["lk"] == "" && s.running(st) > 0 {
			say(st, ev.Ins.Pos(), "unlock", "Close gives up the lock while %d goroutines it started are not waited for", s.running(st))
		}
		switch ev.Kind {
		case "send":
			if ev.Addr == ch {
				downs = append(downs, ev.Val)
				s.count(st, "down", 1)
			}
		case "recv":
			st.flags["recvd"] = "1"
		case "close":
			if ev.Addr == ch {
				st.flags["rclosed"] = "1"
			}
			if shards[ev.Addr] != nil {
				touch(ev, "closes a shard's channel")
			}
		case "enter":
			if ev.Fn != nil && pkgOf(ev.Fn) == "internal/shard" && ev.Fn.Signature.Recv() != nil {
				switch {
				case ev.Fn.Name() == "Close" && namedName(ev.Fn.Signature.Recv().Type()) == "Indexer":
					touch(ev, "flushes a shard")
					sh, _ := slotOf(ev.Args[0])
					if sh == nil {
						st.flags["shard?"] = "1"
						break
					}
					st.flags["shard"+sh.String()] = "1"
				}
			}
		case "call":
			if strings.HasSuffix(ev.Name, "WaitGroup).Wait") && goFrame(ev.Fr) == nil {
				st.flags["waits"] = "1"
			}
		}
		if op == nil || !op.OK {
			return
		}
		switch op.Op {
		case "open":
			if op.FlagsK && op.Flags&3 != 0 && op.H != nil {
				st.flags[fmt.Sprintf("w:%d", op.H.ID)] = "1"
			}
		case "close":
			for m, t := range paths {
				if op.H != nil && op.Path == t && st.flags[fmt.Sprintf("w:%d", op.H.ID)] != "" {
					st.flags["wrote:"+m] = "1"
				}
			}
		case "rename":
			for m, t := range paths {
				for _, a := range ev.Args {
					if a == t {
						st.flags["wrote:"+m] = "1"
					}
				}
			}
		}
	}
	st := p.st.clone()
	st.viols, st.tr = nil, nil
	e.Peel = 4
	over := e.H.Override
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if ev.Fn != nil && ev.Fn.Name() == "flushTo" && pkgOf(ev.Fn) == "internal/shard" {
			return []Out{{st: ev.St, ret: e.T.Nil}}, true
		}
		return over(ev)
	}
	outs := r.run(e, cl, st, p.x)
	e.H.On, e.H.Go = nil, nil
	e.H.Override = over
	s.goInline = false
	ok2 := okOuts(e, cl, outs)
	if len(ok2) == 0 {
		r.undecided("%s: Close has no successful outcome", p.what)
	}
	for _, o := range ok2 {
		r.oblige("successful Closes", p.what)
		if k := s.running(o.st); k > 0 {
			say(o.st, o.pos, "running", "Close returns success while %d goroutines it started are not waited for", k)
		}
		for i := int64(0); i < n; i++ {
			if o.st.flags["shard?"] == "" && o.st.flags["shard"+fmt.Sprint(i)] == "" {
				say(o.st, o.pos, "shard", "Close returns success without flushing shard %d", i)
			}
		}
		for m := range paths {
			if o.st.flags["wrote:"+m] == "" {
				say(o.st, o.pos, "file:"+m, "Close returns success without having written the file of Config.%s", m)
			}
		}
	}
	if r.broken() {
		return
	}
	if len(downs) == 0 {
		r.undecided("%s: Close sends the workers nothing", p.what)
		return
	}
	// the channel hands over
	if c := p.caps[ch]; c != nil {
		if v, ok := c.isInt(); ok && v > 0 {
			r.failAt(p.st, cl.Pos(), "buffered", "%s: the channel to the workers holds up to %d requests, so one to stop may be sent while another is not begun", p.what, v)
			return
		}
	}
	// a worker told to stop stops
	toks := p.r.newFprint(e, "text", "WW")
	p.toks, p.seq = nil, [][]tokSpec{toks.toks}
	p.blot = func(ev *Event, i int) *Term { return e.T.Int(int64(i) % n) }
	seen := map[*Term]bool{}
	for _, d := range downs {
		if seen[d] {
			continue
		}
		seen[d] = true
		for _, first := range [][]*Term{nil, {req}} {
			w := ws[0]
			r.oblige("workers told to stop", p.what)
			ends := p.serve(w, ok2[0].st, append(append([]*Term{}, first...), d)...)
			if len(ends) > 0 {
				r.failAt(ends[0], w.fn.Pos(), "stop", "%s: a worker that is told to stop asks for another request, so another worker may not be told", p.what)
				return
			}
		}
	}
	// a shard is done with a batch when it acknowledges it
	ends := p.serve(ws[0], p.st, req)
	if len(ends) == 0 {
		r.undecided("%s: the worker does not ask for another document", p.what)
		return
	}
	for c, vals := range p.sent(ends[0]) {
		g := shards[c]
		if g == nil || len(vals) == 0 {
			continue
		}
		e.H.On = func(ev *Event) {
			st := ev.St
			switch ev.Kind {
			case "send":
				st.flags["acked"] = "1"
			case "recv":
				delete(st.flags, "acked")
			case "store", "enter":
				if st.flags["acked"] == "" {
					return
				}
				var a *Term
				if ev.Kind == "store" {
					a = ev.Addr
				} else if len(ev.Args) > 0 && ev.Fn != nil && ev.Fn.Signature.Recv() != nil {
					a = ev.Args[0]
				}
				if a == nil {
					return
				}
				if _, slot := slotOf(a); slot != nil {
					say(st, ev.Ins.Pos(), "after", "a shard works on its postings (%s) after it has acknowledged the batch", shortFn(ev.Fr.Fn))
				}
			}
		}
		p.over = func(ev *Event) ([]Out, bool) {
			if ev.Fn != nil && ev.Fn.Name() == "AddPost" && pkgOf(ev.Fn) == "internal/shard" {
				if ev.St.flags["acked"] != "" {
					say(ev.St, ev.Ins.Pos(), "after", "a shard stores postings after it has acknowledged the batch")
				}
				return []Out{{st: ev.St, ret: e.T.Nil}}, true
			}
			return nil, false
		}
		r.oblige("acknowledged batches", p.what)
		p.serve(g, ends[0], vals[0])
		// and when there is no other
		r.oblige("shards told to stop", p.what)
		p.closed(g, p.st)
		e.H.On, p.over = nil, nil
	}
}

// closed runs a goroutine whose channel is closed.
func (p *pipe) closed(g *goRec, st *State) {
	e := p.e
	e.H.Recv = func(st *State, ch *Term) (*Term, *Term, bool) { return nil, e.T.F, true }
	e.H.Go = func(ev *Event) string { return "inline" }
	st = st.clone()
	st.flags["acked"] = "1"
	on := e.H.On
	e.H.On = func(ev *Event) {
		if ev.Kind != "recv" && on != nil {
			on(ev)
		}
	}
	e.RunClosure(g.f, st, g.args)
	e.H.Recv, e.H.Go, e.H.On = nil, nil, on
}

// closeSlots: a shard flushes each of its lists that has buffered postings.
func closeSlots(r *Rule) {
	if r.broken() {
		return
	}
	t := r.newDirTrip(-1)
	if t == nil {
		return
	}
	e := t.e
	flush := r.need("internal/shard", "poster", "flushTo")
	if flush == nil {
		return
	}
	st := newState()
	e.resetAlloc(st, t.x)
	args := []*Term{t.x, e.T.Int(0), t.root}
	for i := 3; i < len(t.a.create.Params); i++ {
		args = append(args, e.arg("flushrate", t.a.create.Params[i].Type()))
	}
	outs := okOuts(e, t.a.create, r.run(e, t.a.create, st, args...))
	if len(outs) == 0 {
		r.undecided("InitCreate has no successful outcome")
		return
	}
	st = outs[0].st
	for j := 0; j < t.n; j++ {
		p := t.poster(t.x, j)
		if p == nil {
			r.undecided("the posters of a shard are not an array")
			return
		}
		if a, ft := e.fieldNamed(p, t.pt, "posts"); a != nil {
			v := e.arg(fmt.Sprintf("posts_%d", j), ft)
			n := e.T.Len(v)
			e.assume(st, e.T.LeInt(e.T.Int(1), n), true)
			e.store(st, a, v, ft)
		}
		if a, ft := e.fieldNamed(p, t.pt, "total"); a != nil {
			v := e.arg(fmt.Sprintf("total_%d", j), ft)
			v.rng = &Rng{big.NewInt(1), big.NewInt(1<<32 - 1)}
			e.store(st, a, v, ft)
		}
	}
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if ev.Fn != flush {
			return nil, false
		}
		_, slot := slotOf(ev.Args[0])
		if slot == nil {
			ev.St.flags["slot?"] = "1"
		} else {
			ev.St.flags["slot"+slot.String()] = "1"
		}
		return []Out{{st: ev.St, ret: e.T.Nil}}, true
	}
	e.H.Key = func(st *State) string { return argKey(st) + fmt.Sprint(st.flags["slot0"], st.flags["slot1"]) }
	couts := okOuts(e, t.a.closeFn, r.run(e, t.a.closeFn, st, t.x))
	if len(couts) == 0 {
		r.undecided("Close of a shard has no successful outcome")
	}
	for _, o := range couts {
		r.oblige("slots flushed", "first and last")
		for j := 0; j < t.n; j++ {
			if o.st.flags["slot?"] == "" && o.st.flags[fmt.Sprintf("slot%d", j)] == "" {
				r.failAt(o.st, o.pos, "slot", "Close of a shard returns success without flushing the buffered postings of the %s slot", []string{"first", "last"}[j])
				return
			}
		}
	}
}
