package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// qpipe is an index opened for queries with n shards, whose posting files and
// directories hold anything.
type qpipe struct {
	r    *Rule
	e    *Engine
	s    *session
	n, k int64
	what string
	st   *State
	x    *Term
	over func(ev *Event) ([]Out, bool)
	toker
}

func (r *Rule) newQpipe(e *Engine, n, k int64) *qpipe {
	return r.newQpipeOn(e, n, k, 1)
}

func (r *Rule) newQpipeOn(e *Engine, n, k, il int64) *qpipe {
	s := r.newSessionIn(e, "OpenIndex")
	if s == nil {
		return nil
	}
	q := &qpipe{r: r, e: e, s: s, n: n, k: k, what: fmt.Sprintf("%d shards, windows of %d", n, k)}
	if il != 1 {
		q.what += fmt.Sprintf(" interleaved %d", il)
	}
	q.toker = toker{tr: r, te: e}
	e.OneFault, e.NoFault, e.UnrollMax, e.Peel = false, true, 16, 6
	s.fixed = map[string]int64{"NumShards": n, "NumShatters": 1, "SeqLen": k, "BlotConfig.SeqLen": k / il, "BlotConfig.Interleave": il, "DocFlushRate": 100}
	s.on(nil)
	e.H.Override = q.override
	e.H.Recv, e.H.Send, e.H.Go = nil, nil, nil
	all := s.construct()
	outs := okOuts(e, s.Fn, all)
	if len(outs) == 0 {
		debugOuts(r, e, all)
		r.undecided("%s: OpenIndex has no successful outcome", q.what)
		return nil
	}
	q.st, q.x = outs[0].st, results(outs[0].ret)[0]
	e.H.On = nil
	return q
}

func (q *qpipe) override(ev *Event) ([]Out, bool) {
	if q.over != nil {
		if o, ok := q.over(ev); ok {
			return o, ok
		}
	}
	if o, ok := q.toker.call(ev); ok {
		return o, ok
	}
	e := q.e
	if ev.Fn == nil {
		return nil, false
	}
	switch {
	case ev.Fn.Name() == "Init" && pkgOf(ev.Fn) == "internal/shard" && recvName(ev.Fn) == "Index":
		e.havoc(ev.St, ev.Args[0])
		return []Out{{st: ev.St, ret: e.T.Nil}}, true
	case ev.Fn.Name() == "readFnames" && pkgOf(ev.Fn) == "":
		rs := ev.Fn.Signature.Results()
		if rs.Len() == 2 {
			return []Out{{st: ev.St, ret: e.tuple(e.arg("fnames", rs.At(0).Type()), e.T.Nil)}}, true
		}
	}
	return nil, false
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return namedName(r.Type())
	}
	return ""
}

// reads: makes Posts.next record which list it reads from, answering with a
// symbolic document id.
func (q *qpipe) reads(ev *Event) ([]Out, bool) {
	e := q.e
	if ev.Fn == nil || ev.Fn.Name() != "next" || recvName(ev.Fn) != "Posts" || len(ev.Args) == 0 {
		return nil, false
	}
	pt := deref(ev.Args[0].Typ)
	if pt == nil {
		pt = deref(ev.Fn.Params[0].Type())
	}
	st, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	var sh, sl *Term
	for i := 0; i < st.NumFields(); i++ {
		if b := basicOf(st.Field(i).Type()); b != nil && b.Kind() == types.Int64 {
			v := e.load(ev.St, e.fieldAddr(ev.Args[0], i, st), st.Field(i).Type())
			if a, b := slotOf(v); b != nil {
				sh, sl = a, b
			}
		}
	}
	// the file it is read from
	var fsh *Term
	if len(ev.Args) > 1 {
		fsh, _ = slotOf(ev.Args[1])
	}
	k := e.T.App("reads", nil)
	n := int64(len(ev.St.chans[k]))
	ev.St.chans[k] = append(append([]*Term{}, ev.St.chans[k]...), e.T.App("read", nil, orNil(e.T, sh), orNil(e.T, sl), orNil(e.T, fsh)))
	return []Out{{st: ev.St, ret: e.tuple(e.arg(fmt.Sprintf("docid%d", n+1), types.Typ[types.Uint32]), e.T.Nil)}}, true
}

// newBlot makes a caller's Blot with room for c documents (c < 0: none given).
func (q *qpipe) newBlot(st *State, name string, t types.Type, b *Term, c int64) *Term {
	e := q.e
	a := e.alloc(name, nil, q, types.NewPointer(t))
	e.resetAlloc(st, a)
	q.fillBlot(st, a, t, b, c, name)
	return a
}

func (q *qpipe) fillBlot(st *State, a *Term, t types.Type, b *Term, c int64, name string) {
	e := q.e
	if fa, ft := e.fieldNamed(a, t, "Blot"); fa != nil && b != nil {
		e.store(st, fa, b, ft)
	}
	if fa, ft := e.fieldNamed(a, t, "Docs"); fa != nil {
		if c < 0 {
			e.store(st, fa, e.T.Nil, ft)
			return
		}
		d := e.alloc(name+".docs", nil, q, ft)
		e.resetAlloc(st, d)
		st.heap[e.T.App("capof", types.Typ[types.Int], d)] = e.T.Int(c)
		e.store(st, fa, e.T.mk(&Term{Kind: KSlice, Args: []*Term{d, e.T.Int(0), e.T.Int(0)}, Typ: ft}), ft)
	}
}

// answers: lists answer with symbolic documents, which are found.
func (q *qpipe) answers(ev *Event) ([]Out, bool) {
	if o, ok := q.reads(ev); ok {
		return o, ok
	}
	if ev.Fn != nil && ev.Fn.Name() == "docid2Doc" && len(ev.Args) == 3 {
		q.e.havoc(ev.St, ev.Args[2])
		return []Out{{st: ev.St, ret: q.e.T.Nil}}, true
	}
	return nil, false
}
