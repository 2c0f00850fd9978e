package main

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	register("B01", "value numbering, for every residue class of fingerprints modulo the number of shards, of the shard and slot a posting is handed to and of the shard and slot whose list a query reads; Split/Join and reductions are compared on the same terms", ruleB01)
}

func ruleB01(r *Rule) {
	ns := []int64{1, 2, 3}
	if r.Tier == "thorough" {
		ns = []int64{1, 2, 3, 4, 5, 7, 8, 11}
	}
	for _, n := range ns {
		routeIndex(r, n)
		routeJoin(r, n)
		routeReport(r, n)
		routeFind(r, n)
		routeFinds(r, n)
	}
}

// routeIndex: where the posting of a word with fingerprint n*q+res goes.
func routeIndex(r *Rule, n int64) {
	p := r.newPipe(n, 1, 1)
	if p == nil {
		return
	}
	e, T := p.e, p.e.T
	fn := r.need("", "Indexer", "Add")
	if fn == nil {
		return
	}
	doc := e.arg("doc", fn.Params[1].Type())
	ch, req, ok := p.add(doc)
	if !ok {
		return
	}
	p.firstRecv()
	w := p.goFor(ch)
	if w == nil {
		r.undecided("%s: no goroutine receives what Add sends", p.what)
		return
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	for res := int64(0); res < n; res++ {
		what := fmt.Sprintf("%d shards, fingerprint %d*q+%d", n, n, res)
		q := T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:q%d.%d", n, res), Typ: types.Typ[types.Uint32]})
		q.rng = &Rng{big.NewInt(0), big.NewInt((1<<32 - 1 - res) / n)}
		b := T.Add(T.MulC(q, n), T.Int(res))
		p.toks = []tokSpec{{true, e.arg("w", bytesT), e.arg("pos", types.Typ[types.Uint32]), nil}}
		p.blot = func(ev *Event, i int) *Term { return b }
		ends := p.serve(w, p.st, req)
		if len(ends) == 0 {
			r.undecided("%s: the worker does not ask for another document", what)
			continue
		}
		for _, st := range ends {
			var fs []filing
			okAll := true
			for ch, vals := range p.sent(st) {
				g := p.goFor(ch)
				if g == nil {
					r.undecided("%s: postings are sent where no goroutine receives", what)
					okAll = false
					continue
				}
				for _, v := range vals {
					f, ok := p.file(g, st, v)
					if !ok {
						r.undecided("%s: the shard does not take the postings in one way", what)
						okAll = false
					}
					fs = append(fs, f...)
				}
			}
			if !okAll {
				continue
			}
			r.oblige("filed postings", fmt.Sprintf("%s: %d", what, len(fs)))
			if len(fs) != 1 {
				r.failAt(st, w.fn.Pos(), "count", "%s: %d postings are filed for one fingerprint of one document", what, len(fs))
				continue
			}
			f := fs[0]
			sh, sl, ok := routeQuery(r, e, n, b, what)
			if !ok {
				continue
			}
			r.mustEqual(e, f.st, w.fn.Pos(), "shard", what+": shard the posting is filed in", f.shard, sh, 32)
			r.mustEqual(e, f.st, w.fn.Pos(), "slot", what+": slot the posting is filed under", f.slot, sl, 16)
		}
	}
}

// routeQuery: the list a query for fingerprint b reads.
func routeQuery(r *Rule, e *Engine, n int64, b *Term, what string) (sh, sl *Term, ok bool) {
	h := e.H
	defer func() { e.H = h }()
	start, get := r.need("", "Index", "StartQuery"), r.need("", "Query", "Get")
	if start == nil || get == nil {
		return
	}
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	outs := okOuts(e, start, r.run(e, start, q.st.clone(), q.x, e.T.Int(0)))
	if len(outs) == 0 {
		r.undecided("%s: StartQuery has no outcome", what)
		return
	}
	q.over = q.answers
	bl := q.newBlot(outs[0].st, "blot", deref(get.Params[1].Type()), b, 1)
	for _, o := range okOuts(e, get, r.run(e, get, outs[0].st, results(outs[0].ret)[0], bl)) {
		rd := o.st.chans[e.T.App("reads", nil)]
		if len(rd) == 0 || rd[0].Args[0] == e.T.Nil || rd[0].Args[1] == e.T.Nil {
			r.undecided("%s: the list a query reads is not resolved (%v)", what, rd)
			return
		}
		if sh != nil && (sh != rd[0].Args[0] || sl != rd[0].Args[1]) {
			r.undecided("%s: a query reads one of several lists", what)
			return
		}
		sh, sl = rd[0].Args[0], rd[0].Args[1]
		r.oblige("queried lists", fmt.Sprintf("%s: shard %s slot %s", what, sh, sl))
		if f := rd[0].Args[2]; f != e.T.Nil {
			r.mustEqual(e, o.st, get.Pos(), "file", what+": posting file of the shard", f, sh, 32)
		}
	}
	return sh, sl, sh != nil
}

// residue makes the fingerprint n*q+res for an arbitrary q.
func residue(e *Engine, n, res int64) (q, b *Term) {
	T := e.T
	q = T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:q%d.%d", n, res), Typ: types.Typ[types.Uint32]})
	q.rng = &Rng{big.NewInt(0), big.NewInt((1<<32 - 1 - res) / n)}
	return q, T.Add(T.MulC(q, n), T.Int(res))
}

// routeJoin: SplitBlot agrees with where queries look, JoinBlot is its inverse.
func routeJoin(r *Rule, n int64) {
	split, join := r.need("", "Index", "SplitBlot"), r.need("", "Index", "JoinBlot")
	if split == nil || join == nil {
		return
	}
	e := r.engine()
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	for res := int64(0); res < n; res++ {
		_, b := residue(e, n, res)
		what := fmt.Sprintf("%d shards, fingerprint %d*q+%d", n, n, res)
		for _, o := range r.run(e, split, q.st.clone(), q.x, b) {
			if o.kind != "" || len(results(o.ret)) != 2 {
				r.undecided("%s: SplitBlot is not resolved", what)
				continue
			}
			sh, sl, ok := routeQuery(r, e, n, b, what)
			if !ok {
				continue
			}
			r.mustEqual(e, o.st, split.Pos(), "split", what+": shard of SplitBlot", results(o.ret)[0], sh, 32)
			r.mustEqual(e, o.st, split.Pos(), "split", what+": slot of SplitBlot", results(o.ret)[1], sl, 16)
		}
		sl := e.arg("slot", types.Typ[types.Uint16])
		what = fmt.Sprintf("%d shards, fingerprint joined from shard %d and a slot", n, res)
		for _, o := range r.run(e, join, q.st.clone(), q.x, e.T.Int(res), sl) {
			if o.kind != "" || o.ret == nil {
				r.undecided("%s: JoinBlot is not resolved", what)
				continue
			}
			sh, s2, ok := routeQuery(r, e, n, o.ret, what)
			if !ok {
				continue
			}
			r.mustEqual(e, o.st, join.Pos(), "join", what+": shard it is filed in", sh, e.T.Int(res), 32)
			r.mustEqual(e, o.st, join.Pos(), "join", what+": slot it is filed under", s2, sl, 16)
			for _, so := range r.run(e, split, o.st.clone(), q.x, o.ret) {
				if so.kind == "" && len(results(so.ret)) == 2 {
					r.mustEqual(e, so.st, join.Pos(), "inverse", what+": shard after splitting", results(so.ret)[0], e.T.Int(res), 32)
					r.mustEqual(e, so.st, join.Pos(), "inverse", what+": slot after splitting", results(so.ret)[1], sl, 16)
				}
			}
		}
	}
}

// routeReport: a fingerprint reported by Next leads to the list its documents
// were read from.
func routeReport(r *Rule, n int64) {
	start, next := r.need("", "Index", "StartQuery"), r.need("", "Query", "Next")
	if start == nil || next == nil {
		return
	}
	e := r.engine()
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	e.FreeMem = true
	for _, so := range okOuts(e, start, r.run(e, start, q.st.clone(), q.x, e.T.Int(0))) {
		q.over = q.answers
		ft := next.Params[1].Type()
		bt := elemOfSlice(ft)
		st := so.st
		al := e.alloc("dst", nil, q, ft)
		e.resetAlloc(st, al)
		a := e.indexAddr(al, e.T.Int(0), bt)
		q.fillBlot(st, a, bt, e.arg("oldblot", types.Typ[types.Uint32]), 1, "dst")
		dst := e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(1)}, Typ: ft})
		for _, o := range okOuts(e, next, r.run(e, next, st, results(so.ret)[0], dst)) {
			rd := o.st.chans[e.T.App("reads", nil)]
			if len(rd) == 0 {
				continue
			}
			last := rd[len(rd)-1]
			ba, bty := e.fieldNamed(a, bt, "Blot")
			got := e.load(o.st, ba, bty)
			if debugPipe {
				fmt.Println("REPORT", got, last)
			}
			what := fmt.Sprintf("%d shards, list %s of shard %s", n, last.Args[1], last.Args[2])
			if last.Args[0] == e.T.Nil || last.Args[1] == e.T.Nil {
				r.undecided("%d shards: the list Next reads is not resolved (%s)", n, last)
				continue
			}
			sh, sl, ok := routeQuery(r, e, n, got, what)
			q.over = q.answers
			if !ok {
				continue
			}
			r.mustEqual(e, o.st, next.Pos(), "report", what+": shard the reported fingerprint leads to", sh, last.Args[0], 32)
			r.mustEqual(e, o.st, next.Pos(), "report", what+": slot the reported fingerprint leads to", sl, last.Args[1], 16)
		}
	}
}

// routeFind: a text with one word of fingerprint n*q+res is found under a
// reported fingerprint exactly if both are filed in the same place.
func routeFind(r *Rule, n int64) {
	find, join := r.need("", "Index", "FindBlot"), r.need("", "Index", "JoinBlot")
	if find == nil || join == nil {
		return
	}
	e := r.engine()
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	T := e.T
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	q.toks = []tokSpec{{true, e.arg("w", bytesT), e.arg("pos", types.Typ[types.Uint32]), nil}}
	doc := e.arg("doc", find.Params[2].Type())
	st := q.st.clone()
	if a, t := e.fieldNamed(doc, deref(doc.Typ), "Dat"); a != nil {
		d := T.mk(&Term{Kind: KSym, Name: "arg:dat", Typ: t, NonNil: true})
		e.store(st, a, d, t)
	}
	for res := int64(0); res < n; res++ {
		qq, b := residue(e, n, res)
		q.blot = func(ev *Event, i int) *Term { return b }
		for s := int64(0); s < n; s++ {
			for _, same := range []bool{true, false} {
				sl := T.Mod(qq, T.Int(1<<16), types.Typ[types.Uint32])
				if !same {
					sl = e.arg("slot", types.Typ[types.Uint16])
				}
				what := fmt.Sprintf("%d shards, word with fingerprint %d*q+%d looked for in shard %d", n, n, res, s)
				for _, jo := range r.run(e, join, st.clone(), q.x, T.Int(s), sl) {
					if jo.kind != "" {
						continue
					}
					for _, o := range r.run(e, find, jo.st.clone(), q.x, jo.ret, doc) {
						if o.kind != "" || len(results(o.ret)) != 3 {
							continue
						}
						r.oblige("searches of a text", what)
						found := e.nilness(o.st, results(o.ret)[2])
						switch {
						case found < 0 && s != res:
							if _, ok := e.possible(o.st, qq, sl); ok {
								r.failAt(o.st, find.Pos(), "find", "%s: found although it is filed in shard %d", what, res)
							}
						case found < 0 && !same:
							r.mustEqual(e, o.st, find.Pos(), "find", what+": slot it was found under", sl, T.Mod(qq, T.Int(1<<16), types.Typ[types.Uint32]), 16)
						case found > 0 && s == res && same:
							if _, ok := e.possible(o.st, qq, sl); ok {
								r.failAt(o.st, find.Pos(), "find", "%s: not found although it is filed there", what)
							} else {
								r.undecided("%s: not shown to be found", what)
							}
						}
					}
				}
			}
		}
	}
}

// routeFinds: texts are reported under fingerprints that lead to where the
// text's own fingerprint is filed.
func routeFinds(r *Rule, n int64) {
	find := r.P.Fn("", "Index", "FindBlots")
	if find == nil {
		r.undecided("Index.FindBlots not found")
		return
	}
	e := r.engine()
	q := r.newQpipe(e, n, 1)
	if q == nil {
		return
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	q.toks = []tokSpec{{true, e.arg("w", bytesT), e.arg("pos", types.Typ[types.Uint32]), nil}}
	doc := e.arg("doc", find.Params[2].Type())
	st := q.st.clone()
	if a, t := e.fieldNamed(doc, deref(doc.Typ), "Dat"); a != nil {
		e.store(st, a, e.T.mk(&Term{Kind: KSym, Name: "arg:dat", Typ: t, NonNil: true}), t)
	}
	m := e.arg("wanted", find.Params[1].Type())
	for res := int64(0); res < n; res++ {
		qq, b := residue(e, n, res)
		q.blot = func(ev *Event, i int) *Term { return b }
		type upd struct {
			key *Term
			st  *State
		}
		var us []upd
		e.H.On = func(ev *Event) {
			if ev.Kind == "mapupdate" && len(ev.Args) > 0 {
				// the fingerprints asked for and the text are the caller's
				us = append(us, upd{ev.Args[0], forget(ev.St, "arg:wanted", "arg:dat", "arg:w")})
			}
		}
		r.run(e, find, st.clone(), q.x, m, doc)
		e.H.On = nil
		what := fmt.Sprintf("%d shards, text with fingerprint %d*q+%d", n, n, res)
		for _, u := range us {
			sh, sl, ok := routeQuery(r, e, n, u.key, what)
			if !ok {
				continue
			}
			r.mustEqual(e, u.st, find.Pos(), "findkey", what+": shard of the fingerprint it is reported under", sh, e.T.Int(res), 32)
			r.mustEqual(e, u.st, find.Pos(), "findkey", what+": slot of the fingerprint it is reported under", sl, e.T.Mod(qq, e.T.Int(1<<16), types.Typ[types.Uint32]), 16)
		}
	}
}

// forget drops what a path assumed about the named inputs.
func forget(st *State, names ...string) *State {
	st = st.clone()
	for f := range st.facts {
		if f.contains(func(x *Term) bool {
			if x.Kind == KSym {
				for _, n := range names {
					if x.Name == n {
						return true
					}
				}
			}
			return false
		}) {
			delete(st.facts, f)
		}
	}
	return st
}
