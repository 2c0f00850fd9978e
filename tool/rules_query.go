package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q01", "dataflow of documents from posting lists to the caller's buffers, over every length of the lists and shape of the buffers within bounds: the buffer keeps its base and is filled from its length up to its capacity, the documents placed are exactly those read, in order; slice bounds checked on every path", ruleQ01)
}

// lists answers for posting lists: with the next document or the end, both
// followed; once ended they stay so.
type lists struct {
	q    *qpipe
	next *ssa.Function // shard.ReadState.Next
	docs int64         // at most so many documents on a path
	ends int           // at most so many ends
	errT types.Type
	eof  *Term
	n    int
}

func (q *qpipe) newLists(docs int64, ends int) *lists {
	e := q.e
	l := &lists{q: q, docs: docs, ends: ends, next: q.r.need("internal/shard", "ReadState", "Next")}
	l.errT = types.Universe.Lookup("error").Type()
	l.eof = e.sentinelEOF()
	if l.next == nil {
		return nil
	}
	return l
}

func (e *Engine) sentinelEOF() *Term {
	t := types.Universe.Lookup("error").Type()
	return e.T.Init(e.T.mk(&Term{Kind: KGlobal, Name: "sentinel:io.EOF", Typ: types.NewPointer(t)}), t)
}

func (l *lists) key() *Term { return l.q.e.T.App("reads", nil) }

func (l *lists) log(st *State, t *Term) {
	k := l.key()
	st.chans[k] = append(append([]*Term{}, st.chans[k]...), t)
}

// docid: the i-th document read on a path.
func (l *lists) docid(i int64) *Term {
	return l.q.e.arg(fmt.Sprintf("docid%d", i), types.Typ[types.Uint32])
}

func (l *lists) count(st *State) (docs int64, ends int) {
	for _, t := range st.chans[l.key()] {
		if t.Kind == KConst {
			ends++
		} else {
			docs++
		}
	}
	return
}

// call answers reads of lists, and finds documents.
func (l *lists) call(ev *Event) ([]Out, bool) {
	e := l.q.e
	if ev.Fn == nil {
		return nil, false
	}
	if ev.Fn == l.next {
		l.n++
		ended := fmt.Sprintf("ended:%d", ev.Args[0].ID)
		end := func(st *State) Out {
			return Out{st: st, ret: e.tuple(e.T.Int(0), l.eof), pos: ev.Ins.Pos()}
		}
		if ev.St.flags[ended] != "" {
			return []Out{end(ev.St)}, true
		}
		docs, ends := l.count(ev.St)
		var outs []Out
		if ends < l.ends {
			st := ev.St.clone()
			st.flags[ended] = "1"
			l.log(st, e.T.Int(-1))
			st.note(ev.Ins.Pos(), "the list ends")
			outs = append(outs, end(st))
		}
		if docs < l.docs {
			l.log(ev.St, l.docid(docs))
			ev.St.note(ev.Ins.Pos(), fmt.Sprintf("document %d is read", docs))
			outs = append(outs, Out{st: ev.St, ret: e.tuple(l.docid(docs), e.T.Nil), pos: ev.Ins.Pos()})
		}
		if outs == nil {
			outs = []Out{{st: ev.St, kind: "cut", pos: ev.Ins.Pos()}}
		}
		return outs, true
	}
	if ev.Fn.Name() == "Lookup" && pkgOf(ev.Fn) == "dmd" && len(ev.Args) == 2 {
		rs := ev.Fn.Signature.Results()
		if rs.Len() == 4 {
			i := e.T.App("pathof", rs.At(0).Type(), ev.Args[1])
			z := e.T.App("endof", rs.At(2).Type(), ev.Args[1])
			return []Out{{st: ev.St, ret: e.tuple(i, ev.Args[1], z, e.T.Nil), pos: ev.Ins.Pos()}}, true
		}
	}
	return nil, false
}

// forget: a new read state starts its list.
func (l *lists) on(ev *Event) {
	if ev.Kind == "leave" && ev.Res != nil && ev.Fn != nil && namedName(ev.Fn.Signature.Results().At(0).Type()) == "ReadState" {
		delete(ev.St.flags, fmt.Sprintf("ended:%d", results(ev.Res)[0].ID))
	}
}

// bufRule is a caller's Blot before a call.
type bufRule struct {
	addr     *Term
	room     int64 // capacity, -1 if none given
	have     int64 // documents in it
	base     *Term
	name     string
	oldStart []*Term
}

type queryRule struct {
	r  *Rule
	e  *Engine
	q  *qpipe
	l  *lists
	bt types.Type // Blot

	cur []*bufRule // buffers of the call analysed
}

// key keeps paths with different documents in the buffers apart.
func (c *queryRule) key(st *State) string {
	k := chanKey(st)
	for _, w := range c.cur {
		if fa, ft := c.e.fieldNamed(w.addr, c.bt, "Docs"); fa != nil {
			if v := c.e.load(st, fa, ft); v.Kind == KSlice {
				k += fmt.Sprint("|", v.Args[0].ID, v.Args[1].ID, v.Args[2].ID)
			}
		}
	}
	return k
}

// fill puts a caller's Blot at a.
func (c *queryRule) fill(st *State, a *Term, name string, b *Term, room, have int64) *bufRule {
	e := c.e
	w := &bufRule{addr: a, room: room, have: have, name: name}
	if fa, ft := e.fieldNamed(a, c.bt, "Blot"); fa != nil {
		e.store(st, fa, b, ft)
	}
	fa, ft := e.fieldNamed(a, c.bt, "Docs")
	if fa == nil {
		return nil
	}
	if room < 0 {
		e.store(st, fa, e.T.Nil, ft)
		return w
	}
	d := e.alloc(name+".docs", nil, c.q, ft)
	e.resetAlloc(st, d)
	w.base = d
	st.heap[e.T.App("capof", types.Typ[types.Int], d)] = e.T.Int(room)
	dt := elemOfSlice(ft)
	for i := int64(0); i < room; i++ {
		if sa, sty := e.fieldNamed(e.indexAddr(d, e.T.Int(i), dt), dt, "Start"); sa != nil {
			v := e.arg(fmt.Sprintf("%s.old%d", name, i), sty)
			w.oldStart = append(w.oldStart, v)
			e.store(st, sa, v, sty)
		}
	}
	e.store(st, fa, e.T.mk(&Term{Kind: KSlice, Args: []*Term{d, e.T.Int(0), e.T.Int(have)}, Typ: ft}), ft)
	return w
}

// docs: the documents in a Blot now; ok if they are resolved.
func (c *queryRule) docs(st *State, w *bufRule) (base *Term, ds []*Term, ok bool) {
	e := c.e
	fa, ft := e.fieldNamed(w.addr, c.bt, "Docs")
	v := e.load(st, fa, ft)
	if v.Kind == KNil {
		return e.T.Nil, nil, true
	}
	if v.Kind != KSlice {
		return nil, nil, false
	}
	lo, ok1 := v.Args[1].isInt()
	hi, ok2 := v.Args[2].isInt()
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	dt := elemOfSlice(ft)
	for i := lo; i < hi; i++ {
		sa, sty := e.fieldNamed(e.indexAddr(v.Args[0], e.T.Int(i), dt), dt, "Start")
		if sa == nil {
			return nil, nil, false
		}
		ds = append(ds, e.load(st, sa, sty))
	}
	if lo != 0 {
		base = e.T.Nil
	} else {
		base = v.Args[0]
	}
	return base, ds, true
}

// after judges a call that ended with no error: bufs are those counted as
// filled, reads what was read during the call.
func (c *queryRule) after(o Out, what string, bufs []*bufRule, reads []*Term) {
	r, e, st := c.r, c.e, o.st
	var read []*Term
	for _, t := range reads {
		if t.Kind != KConst {
			read = append(read, t)
		}
	}
	i := 0
	for _, w := range bufs {
		base, ds, ok := c.docs(st, w)
		if !ok {
			r.undecided("%s: the documents in the buffer are not resolved", what)
			return
		}
		if w.room >= 0 {
			if base != w.base {
				r.failAt(st, o.pos, "replaced", "%s: the caller's buffer (room for %d, %d in it) is replaced", what, w.room, w.have)
				return
			}
			if int64(len(ds)) > w.room {
				r.failAt(st, o.pos, "grown", "%s: %d documents in a buffer with room for %d", what, len(ds), w.room)
				return
			}
		}
		if int64(len(ds)) < w.have {
			r.failAt(st, o.pos, "shrunk", "%s: the buffer held %d documents and now holds %d", what, w.have, len(ds))
			return
		}
		for j, d := range ds {
			if int64(j) < w.have {
				if j < len(w.oldStart) && d != w.oldStart[j] && c.resolved(d) {
					r.failAt(st, o.pos, "overwritten", "%s: document %d that was in the buffer is overwritten (%s)", what, j, d)
					return
				}
				continue
			}
			if i >= len(read) {
				r.failAt(st, o.pos, "invented", "%s: %d documents are returned of which only %d were read", what, i+1, len(read))
				return
			}
			if d != read[i] {
				if !c.resolved(d) {
					r.undecided("%s: a returned document is not resolved: %s", what, d)
					return
				}
				r.failAt(st, o.pos, "order", "%s: document %d returned is %s, and %s was read", what, i, d, read[i])
				return
			}
			i++
		}
	}
	full := len(bufs) == 1 && strings.HasPrefix(what, "Get")
	if full {
		// what is read ahead is read again by the next query
		_, ds, _ := c.docs(st, bufs[0])
		full = int64(len(ds)) == bufs[0].room
	}
	if i < len(read) && !full {
		r.failAt(st, o.pos, "lost", "%s: %d documents were read, and %d are returned", what, len(read), i)
		return
	}
	// without a buffer, all of the list
	if n := len(bufs); n == 1 && bufs[0].room < 0 && len(reads) > 0 && reads[len(reads)-1].Kind != KConst {
		r.failAt(st, o.pos, "partial", "%s: no buffer was given, and the list is left before its end", what)
	}
	_ = e
}

// resolved: a value that is known.
func (c *queryRule) resolved(t *Term) bool {
	return t.Kind == KConst || t.Kind == KSym && strings.HasPrefix(t.Name, "arg:")
}

func (c *queryRule) panics(o Out, what string) {
	if o.kind == "panic" {
		c.r.failAt(o.st, o.pos, "panic", "%s panics", what)
	}
}

func ruleQ01(r *Rule) {
	start, get, next := r.need("", "Index", "StartQuery"), r.need("", "Query", "Get"), r.need("", "Query", "Next")
	if start == nil || get == nil || next == nil {
		return
	}
	for _, n := range []int64{1, 2} {
		if r.broken() {
			return
		}
		queryShapes(r, n, start, get, next)
	}
}

func queryShapes(r *Rule, n int64, start, get, next *ssa.Function) {
	e := r.engine()
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	e.NoFault, e.Unroll, e.UnrollMax, e.CapAppend = true, true, 32, true
	c := &queryRule{r: r, e: e, q: q, bt: deref(get.Params[1].Type())}
	e.H.Key = c.key
	c.l = q.newLists(3, 2)
	if c.l == nil {
		return
	}
	qs := okOuts(e, start, r.run(e, start, q.st.clone(), q.x, e.arg("strategy", start.Params[1].Type())))
	if len(qs) == 0 {
		r.undecided("StartQuery has no outcome")
		return
	}
	q.over = c.l.call
	e.H.On = func(ev *Event) {
		c.l.on(ev)
		if ev.Kind == "slice" && len(ev.Args) > 2 {
			hi, ok1 := ev.Args[1].isInt()
			lim, ok2 := ev.Args[2].isInt()
			if ok1 && ok2 && hi > lim {
				r.v(ev, "bounds", "a query slices a buffer with room for %d up to %d and panics", lim, hi)
			}
		}
	}
	x := results(qs[0].ret)[0]
	checked := 0
	// Get, twice with the same blot
	for room := int64(-1); room <= 3; room++ {
		for have := int64(0); have == 0 || have <= room; have++ {
			if r.broken() {
				return
			}
			st := qs[0].st.clone()
			st.tr, st.viols = nil, nil
			a := e.alloc("blot", nil, q, get.Params[1].Type())
			e.resetAlloc(st, a)
			w := c.fill(st, a, "blot", e.arg("wanted", types.Typ[types.Uint32]), room, have)
			what := fmt.Sprintf("Get, %d shards, %s", n, shape(w))
			ok := 0
			c.cur = []*bufRule{w}
			for _, o := range r.run(e, get, st, x, a) {
				c.panics(o, what)
				if o.kind != "" || e.nilness(o.st, retErr(o)) >= 0 {
					continue
				}
				ok++
				c.after(o, what, []*bufRule{w}, o.st.chans[c.l.key()])
			}
			checked += ok
			r.oblige("buffers of Get", what)
			if ok == 0 {
				r.undecided("%s: no successful outcome", what)
			}
		}
	}
	// Next, two calls
	dt := next.Params[1].Type()
	shapes := [][][2]int64{{}, {{-1, 0}}, {{0, 0}}, {{1, 0}}, {{2, 0}}, {{2, 1}}, {{2, 2}}, {{-1, 0}, {-1, 0}}, {{1, 0}, {2, 1}}, {{-1, 0}, {1, 0}}, {{1, 0}, {-1, 0}}}
	for _, sh := range shapes {
		if r.broken() {
			return
		}
		what := fmt.Sprintf("Next, %d shards", n)
		cur := []*State{qs[0].st.clone()}
		for call := 1; call <= 2 && len(cur) > 0; call++ {
			var nx []*State
			for _, st := range cur {
				st = st.clone()
				st.tr, st.viols = nil, nil
				before := len(st.chans[c.l.key()])
				al := e.alloc("dst", nil, q, dt)
				e.resetAlloc(st, al)
				var ws []*bufRule
				what := what
				for i, s := range sh {
					w := c.fill(st, e.indexAddr(al, e.T.Int(int64(i)), c.bt), fmt.Sprint("dst", i), e.arg(fmt.Sprint("oldblot", i), types.Typ[types.Uint32]), s[0], s[1])
					ws = append(ws, w)
					what += ", " + shape(w)
				}
				what += fmt.Sprintf(", call %d", call)
				dst := e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(int64(len(sh)))}, Typ: dt})
				r.oblige("buffers of Next", what)
				c.cur = ws
				for _, o := range r.run(e, next, st, x, dst) {
					c.panics(o, what)
					if o.kind != "" || r.broken() {
						continue
					}
					rs := results(o.ret)
					k, is := rs[0].isInt()
					reads := o.st.chans[c.l.key()][before:]
					end := isSentinelEOF(rs[1])
					if !end && e.nilness(o.st, rs[1]) >= 0 {
						continue
					}
					if !is {
						r.undecided("%s: the number returned is not resolved", what)
						continue
					}
					if k < 0 || k > int64(len(ws)) {
						r.failAt(o.st, o.pos, "count", "%s: %d is returned for %d blots", what, k, len(ws))
						return
					}
					checked++
					c.after(o, what, ws[:k], reads)
					if !end && len(nx) < 12 {
						nx = append(nx, o.st)
					}
				}
			}
			cur = nx
		}
	}
	e.H.On = nil
	r.oblige("outcomes", fmt.Sprintf("%d shards: %d", n, checked))
	if c.l.n == 0 {
		r.undecided("no list is read")
	}
}

func shape(w *bufRule) string {
	if w.room < 0 {
		return "no buffer"
	}
	return fmt.Sprintf("room for %d, %d in it", w.room, w.have)
}
