package main

import (
	"fmt"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N04", "progress analysis of the query operations: every turn of their loops changes the state, and every call with room for documents reads on in some list or reports the end", ruleN04)
}

type progress struct {
	r    *Rule
	e    *Engine
	l    *lists
	what string
	n    int
	busy bool
}

// same: a turn of a loop left the state as it was.
func (p *progress) same(was, st *State) bool {
	k := p.l.key()
	if len(was.chans[k]) != len(st.chans[k]) {
		return false
	}
	roots := map[*Term]bool{}
	marker := func(a *Term) bool {
		return a.Kind == KApp && (a.Name == "ver" || a.Name == "verc")
	}
	for a, v := range was.heap {
		if marker(a) {
			continue
		}
		roots[addrPath(a)[0]] = true
		if st.heap[a] != v {
			return false
		}
	}
	for a := range st.heap {
		if was.heap[a] != nil || marker(a) {
			continue
		}
		root := addrPath(a)[0]
		if root.Kind != KAlloc || roots[root] {
			return false
		}
	}
	return true
}

func (p *progress) edge(e *Engine, was, st *State, fr *Frame, head *ssa.BasicBlock, old, new map[ssa.Value]*Term) {
	if p.r.broken() {
		return
	}
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if old[ph] == nil || old[ph] != new[ph] {
			return
		}
	}
	// an iteration over a map or string has state of its own
	for _, in := range head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return
		}
	}
	p.n++
	p.r.oblige("turns of loops without counters", fmt.Sprintf("%s: %s", p.what, shortFn(head.Parent())))
	if !p.same(was, st) {
		return
	}
	ev := &Event{E: e, Kind: "loop", St: st, Fr: fr, Ins: head.Instrs[len(head.Instrs)-1]}
	for _, b := range head.Parent().Blocks {
		if ev.Ins.Pos().IsValid() {
			break
		}
		if b == head || head.Dominates(b) {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					ev.Ins = in
					break
				}
			}
		}
	}
	p.r.v(ev, "loop", "%s: a turn of a loop in %s can leave everything as it was, so the loop does not end", p.what, shortFn(head.Parent()))
}

func ruleN04(r *Rule) {
	start, get, next := r.need("", "Index", "StartQuery"), r.need("", "Query", "Get"), r.need("", "Query", "Next")
	if start == nil || get == nil || next == nil {
		return
	}
	ns := []int64{1, 2}
	if r.Tier == "thorough" {
		ns = append(ns, 3)
	}
	for _, n := range ns {
		for _, first := range []int64{0, 65534, 65535} {
			if r.broken() {
				return
			}
			progressAll(r, n, first, start, get, next)
		}
	}
}

func progressAll(r *Rule, n, first int64, start, get, next *ssa.Function) {
	e := r.engine()
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	p := &progress{r: r, e: e, what: fmt.Sprintf("%d shards from position %d", n, first)}
	e.NoFault, e.Unroll, e.UnrollMax, e.CapAppend, e.FreeMem = true, true, 32, true, true
	p.l = q.newLists(2, 3)
	if p.l == nil {
		return
	}
	v := &visit{r: r, e: e, q: q, l: p.l, n: n, first: first, counts: map[*Term]bool{}, blotAt: r.need("internal/shard", "Index", "BlotAt"), count: r.need("internal/shard", "Index", "Count")}
	if v.blotAt == nil || v.count == nil {
		return
	}
	for s := int64(0); s < n; s++ {
		for i := first; i < first+4 && i <= 65535; i++ {
			if _, c := v.slot(q.st, s, i); c == nil {
				r.undecided("%s: the slots of a shard are not resolved", p.what)
				return
			}
		}
	}
	q.over = func(ev *Event) ([]Out, bool) {
		if first != 0 && ev.Fn != nil && ev.Fn.Name() == "ReadStateAt" && recvName(ev.Fn) == "Index" && len(ev.Args) == 2 {
			if i, ok := ev.Args[1].isInt(); ok && i == 0 && ev.St.flags["started"] == "" && !p.busy {
				p.busy = true
				defer func() { p.busy = false }()
				return e.Run(ev.Fn, ev.St, []*Term{ev.Args[0], e.T.Int(first)}), true
			}
		}
		if ev.Fn != p.l.next {
			return p.l.call(ev)
		}
		sh, sl := v.list(ev.St, ev.Args[0])
		if sh == nil || sl == nil {
			return p.l.call(ev)
		}
		done := fmt.Sprintf("done:%d:%d", sh.ID, sl.ID)
		if ev.St.flags["ended:"+fmt.Sprint(ev.Args[0].ID)] == "" && ev.St.flags[done] != "" {
			r.v(ev, "again", "%s: a posting list that was read to its end is read from its start again by the same query", p.what)
			return []Out{{st: ev.St, kind: "cut", pos: ev.Ins.Pos()}}, true
		}
		outs, ok := p.l.call(ev)
		for _, o := range outs {
			if o.kind == "" && isSentinelEOF(results(o.ret)[1]) {
				o.st.flags[done] = "1"
			}
		}
		return outs, ok
	}
	e.H.On = p.l.on
	e.H.Key = func(st *State) string {
		d, n := p.l.count(st)
		var ended []string
		for f := range st.flags {
			if strings.HasPrefix(f, "ended:") || strings.HasPrefix(f, "done:") {
				ended = append(ended, f)
			}
		}
		// what is known of the counts: a choice depends on it later
		for t, val := range st.facts {
			if v.ofCount(t) {
				ended = append(ended, fmt.Sprint(t.ID, val))
			}
		}
		sort.Strings(ended)
		return fmt.Sprint(chanKey(st), "|", d, "|", n, "|", ended)
	}
	e.H.Edge = p.edge
	defer func() { e.H.Edge, e.H.On, e.H.Key = nil, nil, nil }()
	qs := okOuts(e, start, r.run(e, start, q.st.clone(), q.x, e.arg("strategy", start.Params[1].Type())))
	if len(qs) == 0 {
		r.undecided("%s: StartQuery has no outcome", p.what)
		return
	}
	dt := next.Params[1].Type()
	bt := elemOfSlice(dt)
	calls, ends := 0, 0
	for _, room := range []int64{-1, 0, 1, 2} {
		for _, qo := range qs {
			x := results(qo.ret)[0]
			qo.st.flags["started"] = "1"
			// the positions before the first analysed were read
			for s := int64(0); first > 0 && s < n; s++ {
				for i := int64(0); i < 2; i++ {
					if sl, _ := v.slot(q.st, s, i); sl != nil {
						qo.st.flags[fmt.Sprintf("done:%d:%d", e.T.Int(s).ID, sl.ID)] = "1"
					}
				}
			}
			cur := []*State{qo.st}
			for call := 1; call <= 3 && !r.broken(); call++ {
				var nx []*State
				for _, st := range cur {
					st = st.clone()
					st.tr, st.viols = nil, nil
					d0, n0 := p.l.count(st)
					al := e.alloc("dst", nil, fmt.Sprint(p.what, room, call), dt)
					e.resetAlloc(st, al)
					q.fillBlot(st, e.indexAddr(al, e.T.Int(0), bt), bt, e.T.Int(0), room, "dst0")
					dst := e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(1)}, Typ: dt})
					for _, o := range r.run(e, next, st, x, dst) {
						if o.kind != "" || r.broken() {
							continue
						}
						rs := results(o.ret)
						if isSentinelEOF(rs[1]) {
							ends++
							continue
						}
						if e.nilness(o.st, rs[1]) >= 0 {
							continue
						}
						if room == 0 {
							continue
						}
						calls++
						r.oblige("calls", fmt.Sprintf("%s: call %d with room for %d", p.what, call, room))
						d, n := p.l.count(o.st)
						if d == d0 && n == n0 && !movedOn(e, st, o.st, x) {
							r.failAt(o.st, o.pos, "call", "%s: a call of Next with room for documents reads nothing and does not report the end; so will the next", p.what)
							return
						}
						if len(nx) < 24 {
							nx = append(nx, o.st)
						}
					}
				}
				cur = nx
			}
		}
	}
	// Get reads one list to its end, or to the end of the buffer.
	for _, room := range []int64{-1, 0, 1, 2} {
		if r.broken() {
			return
		}
		st := qs[0].st.clone()
		t := deref(get.Params[1].Type())
		b := e.alloc("blot", nil, fmt.Sprint(p.what, "get", room), get.Params[1].Type())
		e.resetAlloc(st, b)
		q.fillBlot(st, b, t, e.arg("blot", types.Typ[types.Uint32]), room, "get")
		for _, o := range r.run(e, get, st, results(qs[0].ret)[0], b) {
			if o.kind == "" {
				calls++
				r.oblige("calls", fmt.Sprintf("%s: Get with room for %d", p.what, room))
			}
		}
	}
	if calls == 0 || ends == 0 || p.n == 0 {
		r.undecided("%s: %d calls, %d ends and %d turns are seen", p.what, calls, ends, p.n)
	}
}

// movedOn: the query itself changed.
func movedOn(e *Engine, was, st *State, q *Term) bool {
	for a, v := range st.heap {
		if root := addrPath(a)[0]; root.Kind == KAlloc && was.heap[a] != nil && was.heap[a] != v && !strings.Contains(root.Name, "dst") {
			return true
		}
	}
	return false
}
