package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E02", "error-propagation analysis of the reading side: one file operation at a time fails, on every path of opening an index, of reading a posting list, of queries and of loading documents; every such path must return an error that is not io.EOF; the end of a list is reported only on paths on which a position read is -1; data-flow check that counts of reads that may be short are used", ruleE02)
}

// readsRule judges the outcomes of calls that read.
type readsRule struct {
	r    *Rule
	e    *Engine
	what string
	f    *faultRule
	n    int // failing outcomes
	ok   int
}

func (r *Rule) newReads(e *Engine, s *session, what string) *readsRule {
	return &readsRule{r: r, e: e, what: what, f: &faultRule{r: r, e: e, s: s, what: what, seen: map[string]bool{}}}
}

// complete: the failing read got all that was asked for, as far as the path
// has looked at its count.
func complete(st *State) bool {
	if st.flags["whole"] != "" {
		return true
	}
	for t, v := range st.facts {
		if v && strings.HasPrefix(t.Name, "eq") && t.contains(func(x *Term) bool { return x.Kind == KSym && strings.HasPrefix(x.Name, "partial") }) {
			st.flags["whole"] = "1"
			return true
		}
	}
	return false
}

func (c *readsRule) on(ev *Event) {
	if ev.St.fault != nil {
		complete(ev.St)
	}
	f := ev.St.fault
	if f != nil && ev.St.flags["eof"] == "" && f.MayEOF && endOfFile(ev.St, f) {
		ev.St.flags["eof"] = "1"
	}
	c.f.note(ev, fsOp(ev))
	if ev.Kind == "call" {
		c.limited(ev)
		c.short(ev)
	}
}

// limited: whatever was read up to a limit is of that length before anything
// else is read.
func (c *readsRule) limited(ev *Event) {
	e, st := c.e, ev.St
	k := e.T.App("limited", nil)
	if v := st.heap[k]; v != nil && st.fault == nil {
		if op := fsOp(ev); op != nil && op.Op == "read" {
			delete(st.heap, k)
			c.r.oblige("limited reads", c.what+": "+c.r.P.Pos(ev.Ins.Pos()))
			l, lim := v.Args[0], v.Args[1]
			n, _ := v.Args[2].isInt()
			if !e.provesEq(st, l, lim) && !e.provesLe(st, lim, l) && factsAbout(st, l) <= n {
				c.r.v(ev, "limited", "%s: text cut short by the end of the file passes for whole: nothing compares the length read with the one asked for", c.what)
			}
		}
	}
	if strings.HasSuffix(ev.Name, ".ReadAll") && len(ev.Args) == 1 {
		r := unbox(ev.Args[0])
		rs := results(ev.Res)
		if r.Kind == KApp && r.Name == "limitreader" && len(r.Args) == 2 && len(rs) == 2 && e.nilness(st, rs[1]) < 0 {
			l := e.T.Len(rs[0])
			st.heap[k] = e.tuple(l, r.Args[1], e.T.Int(factsAbout(st, l)))
		}
	}
}

// factsAbout: how many facts of a path are about t.
func factsAbout(st *State, t *Term) int64 {
	n := int64(0)
	for f := range st.facts {
		if f.contains(func(x *Term) bool { return x == t }) {
			n++
		}
	}
	return n
}

// short: a read that may be short, and nobody looks at its count.
func (c *readsRule) short(ev *Event) {
	n := ev.Name
	switch {
	case n == "(*os.File).Read", n == "(*bufio.Reader).Read", strings.HasPrefix(n, "invoke:(io.") && strings.HasSuffix(n, ".Read"):
	default:
		return
	}
	v, ok := ev.Ins.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		x, ok := u.(*ssa.Extract)
		if !ok {
			return // passed on as it is
		}
		if x.Index == 0 && x.Referrers() != nil && len(*x.Referrers()) > 0 {
			return
		}
	}
	c.r.v(ev, "short", "%s: the count of %s is not looked at: a short read passes for a full one", c.what, n)
}

// judge one outcome of fn.
func (c *readsRule) judge(fn *ssa.Function, o Out) {
	r, e, st := c.r, c.e, o.st
	if o.kind != "" {
		return
	}
	er := retErr(o)
	if st.fault == nil {
		if e.nilness(st, er) < 0 {
			c.ok++
		}
		return
	}
	c.n++
	if c.f.harmless(st) {
		return
	}
	if complete(st) {
		return
	}
	name := (&session{}).faultName(st)
	key := fn.Name() + ":" + name
	switch {
	case e.nilness(st, er) < 0:
		r.failAt(st, o.pos, "lost:"+key, "%s: %s returns no error, %s", c.what, fn.Name(), name)
	case isSentinelEOF(er):
		r.failAt(st, o.pos, "eof:"+key, "%s: %s returns io.EOF, %s", c.what, fn.Name(), name)
	case er.MayEOF && !notEOF(st, er):
		r.failAt(st, o.pos, "bare:"+key, "%s: %s returns the error of a read as it is, which may be io.EOF, %s", c.what, fn.Name(), name)
	}
}

func isSentinelEOF(t *Term) bool { return t != nil && strings.HasSuffix(t.String(), "sentinel:io.EOF") }

// notEOF: the path has found that the error is not io.EOF.
func notEOF(st *State, f *Term) bool {
	for t, v := range st.facts {
		if !v && len(t.Args) == 2 && (t.Args[0] == f && isSentinelEOF(t.Args[1]) || t.Args[1] == f && isSentinelEOF(t.Args[0])) {
			return true
		}
	}
	return false
}

func ruleE02(r *Rule) {
	readsOpen(r)
	if !r.broken() {
		readsList(r)
	}
	if !r.broken() {
		readsQuery(r)
	}
}

func readsOpen(r *Rule) {
	s := r.newSession("OpenIndex")
	if s == nil {
		return
	}
	c := r.newReads(s.e, s, "OpenIndex")
	s.on(func(ev *Event, op *FsOp) { c.on(ev) })
	outs := s.construct()
	r.ended(s, outs)
	for _, o := range outs {
		c.judge(s.Fn, o)
	}
	c.done()
}

func (c *readsRule) done() {
	c.r.oblige("failing outcomes", fmt.Sprintf("%s: %d", c.what, c.n))
	if c.n == 0 || c.ok == 0 {
		c.r.undecided("%s: %d failing and %d successful outcomes", c.what, c.n, c.ok)
	}
}

// readsList: the first documents of an arbitrary list.
func readsList(r *Rule) {
	a := r.shardAPI()
	if a == nil {
		return
	}
	e := r.engine()
	e.OneFault, e.NoFault = true, false
	e.Unroll, e.UnrollMax = true, 6
	c := r.newReads(e, nil, "a posting list")
	x := e.arg("index", types.NewPointer(a.it))
	x.NonNil = true
	slot := e.arg("slot", a.readState.Params[1].Type())
	eofs := 0
	for _, o := range okOuts(e, a.readState, r.run(e, a.readState, newState(), x, slot)) {
		rs := results(o.ret)[0]
		cur := []*State{o.st}
		for call := 1; call <= 2 && !r.broken(); call++ {
			var nx []*State
			e.H.On = c.on
			for _, st := range cur {
				for _, o := range r.run(e, a.next, st.clone(), rs) {
					c.judge(a.next, o)
					if o.kind != "" || o.st.fault != nil {
						continue
					}
					if isSentinelEOF(retErr(o)) {
						eofs++
						if !c.ends(o.st) {
							r.failAt(o.st, o.pos, "end", "the end of a list is reported on a path on which no position is known to be -1")
						}
					} else if e.nilness(o.st, retErr(o)) < 0 && len(nx) < 40 {
						nx = append(nx, o.st)
					}
				}
			}
			cur = nx
		}
	}
	e.H.On = nil
	r.oblige("ends of lists", fmt.Sprint(eofs))
	c.done()
	if eofs == 0 {
		r.undecided("a posting list: no end is reported")
	}
}

// ends: some position is -1 on this path.
func (c *readsRule) ends(st *State) bool {
	e := c.e
	m1 := e.T.Int(-1)
	found := false
	for t, v := range st.facts {
		if !v || found {
			continue
		}
		t.walk(func(x *Term) bool {
			if b := basicOf(x.Typ); b != nil && b.Kind() == types.Int64 && x.Kind != KConst && e.provesEq(st, x, m1) {
				found = true
			}
			return true
		})
	}
	return found
}

// readsQuery: queries, and documents of an open index.
func readsQuery(r *Rule) {
	e := r.engine()
	q := r.newQpipe(e, 2, 1)
	if q == nil {
		return
	}
	start, get, next := r.need("", "Index", "StartQuery"), r.need("", "Query", "Get"), r.need("", "Query", "Next")
	rs := r.need("internal/shard", "ReadState", "Next")
	if start == nil || get == nil || next == nil || rs == nil {
		return
	}
	errT := types.Universe.Lookup("error").Type()
	eof := e.T.mk(&Term{Kind: KInit, Args: []*Term{e.T.mk(&Term{Kind: KGlobal, Name: "sentinel:io.EOF", Typ: types.NewPointer(errT)})}, Typ: errT})
	// a list answers with a document, an error, or its end
	q.over = func(ev *Event) ([]Out, bool) {
		if ev.Fn != rs {
			return nil, false
		}
		k := e.T.App("reads", nil)
		n := len(ev.St.chans[k])
		var outs []Out
		if ev.St.fault == nil {
			f := ev.St.clone()
			er := e.T.mk(&Term{Kind: KSym, Name: "err:reading a list", Typ: errT, NonNil: true})
			f.fault = er
			f.flags["fop"] = "list"
			f.note(ev.Ins.Pos(), "reading a list fails")
			outs = append(outs, Out{st: f, ret: e.tuple(e.arg("nodoc", types.Typ[types.Uint32]), er), pos: ev.Ins.Pos()})
		}
		d := ev.St.clone()
		outs = append(outs, Out{st: d, ret: e.tuple(e.T.Int(0), eof), pos: ev.Ins.Pos()})
		if n < 2 {
			ev.St.chans[k] = append(append([]*Term{}, ev.St.chans[k]...), e.T.Int(int64(n)))
			outs = append(outs, Out{st: ev.St, ret: e.tuple(e.arg(fmt.Sprintf("docid%d", n), types.Typ[types.Uint32]), e.T.Nil), pos: ev.Ins.Pos()})
		}
		return outs, true
	}
	qs := okOuts(e, start, r.run(e, start, q.st.clone(), q.x, e.arg("strategy", start.Params[1].Type())))
	if len(qs) == 0 {
		r.undecided("StartQuery has no outcome")
		return
	}
	x := results(qs[0].ret)[0]
	judge := func(what string, fn *ssa.Function, st *State, args ...*Term) {
		if r.broken() {
			return
		}
		c := r.newReads(e, q.s, what)
		e.OneFault, e.NoFault = true, false
		st = st.clone()
		st.tr, st.viols = nil, nil
		e.H.On = c.on
		for _, o := range r.run(e, fn, st, args...) {
			c.judge(fn, o)
		}
		e.H.On = nil
		e.OneFault, e.NoFault = false, true
		c.done()
	}
	for _, room := range []int64{-1, 0, 1, 2} {
		st := qs[0].st.clone()
		bt := deref(get.Params[1].Type())
		b := q.newBlot(st, "blot", bt, e.arg("wanted", types.Typ[types.Uint32]), room)
		if room != 0 {
			judge(fmt.Sprintf("Get with room for %d", room), get, st, x, b)
		}
		if room == 0 {
			continue
		}
		blots := int64(1)
		if room != 1 {
			blots = 2
		}
		st = qs[0].st.clone()
		dt := next.Params[1].Type()
		al := e.alloc("dst", nil, q, dt)
		e.resetAlloc(st, al)
		for i := int64(0); i < blots; i++ {
			q.fillBlot(st, e.indexAddr(al, e.T.Int(i), bt), bt, e.T.Int(0), room, fmt.Sprint("dst", i))
		}
		dst := e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(blots)}, Typ: dt})
		judge(fmt.Sprintf("Next for %d blots with room for %d", blots, room), next, st, x, dst)
	}
	// the other calls that may fail
	q.over = nil
	for _, t := range []struct{ recv, name string }{{"Doc", "Load"}, {"Index", "Stats"}, {"Index", "FindBlot"}, {"Index", "FindBlots"}} {
		fn := r.P.Fn("", t.recv, t.name)
		if fn == nil {
			r.undecided("%s.%s not found", t.recv, t.name)
			continue
		}
		st := q.st.clone()
		var args []*Term
		for i, p := range fn.Params {
			a := e.arg(t.name+p.Name(), p.Type())
			if i == 0 && t.recv == "Index" {
				a = q.x
			} else if namedName(p.Type()) == "Doc" {
				a.NonNil = true
				if fa, ft := e.fieldNamed(a, deref(p.Type()), "Dat"); fa != nil {
					e.store(st, fa, e.T.Nil, ft)
				}
			}
			args = append(args, a)
		}
		q.toks, q.seq = nil, nil
		judge(t.recv+"."+t.name, fn, st, args...)
	}
}
