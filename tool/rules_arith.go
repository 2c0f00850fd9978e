package main

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	register("B06", "value numbering of post.Make composed with each accessor of a posting, for symbolic 32-bit document ids and fingerprints", ruleB06)
	register("A02", "value numbering of Letter, Unletter, Shift and String of package trigram over symbolic runes, letters and codes", ruleA02)
}

// noPanic: a path that certainly exists and panics.
func (r *Rule) noPanic(e *Engine, key, what string, outs []Out) []Out {
	var res []Out
	for _, o := range outs {
		if o.kind == "panic" {
			r.oblige("no panic", what)
			if env, ok := e.feasible(o.st); ok {
				r.failAt(o.st, o.pos, key, "%s panics (e.g. %s)", what, env)
			} else {
				r.undecided("%s may panic at %s", what, r.P.Pos(o.pos))
			}
			continue
		}
		res = append(res, o)
	}
	return res
}

func ruleB06(r *Rule) {
	mk := r.need("post", "", "Make")
	docid, blot, split := r.need("post", "T", "Docid"), r.need("post", "T", "Blot"), r.need("post", "T", "Split")
	if mk == nil || docid == nil || blot == nil || split == nil {
		return
	}
	e := r.engine()
	u32 := types.Typ[types.Uint32]
	d, b := e.arg("docid", u32), e.arg("blot", u32)
	for _, o := range r.noPanic(e, "panic", "Make", r.run(e, mk, newState(), d, b)) {
		p := results(o.ret)[0]
		for _, g := range r.noPanic(e, "panic", "Docid", r.run(e, docid, o.st.clone(), p)) {
			r.mustEqual(e, g.st, g.pos, "docid", "Make(docid, blot).Docid()", results(g.ret)[0], d, 32)
		}
		for _, g := range r.noPanic(e, "panic", "Blot", r.run(e, blot, o.st.clone(), p)) {
			r.mustEqual(e, g.st, g.pos, "blot", "Make(docid, blot).Blot()", results(g.ret)[0], b, 32)
		}
		for _, g := range r.noPanic(e, "panic", "Split", r.run(e, split, o.st.clone(), p)) {
			r.mustEqual(e, g.st, g.pos, "split", "first of Make(docid, blot).Split()", results(g.ret)[0], d, 32)
			r.mustEqual(e, g.st, g.pos, "split", "second of Make(docid, blot).Split()", results(g.ret)[1], b, 32)
		}
	}
}

func ruleA02(r *Rule) {
	letter, unletter := r.need("attic/trigram", "", "Letter"), r.need("attic/trigram", "", "Unletter")
	shift, str := r.need("attic/trigram", "T", "Shift"), r.need("attic/trigram", "T", "String")
	zero := r.P.Fn("attic/trigram", "", "Zero")
	if letter == nil || unletter == nil || shift == nil || str == nil {
		return
	}
	const nl, ntri = 37, 37 * 37 * 37
	e := r.engine()
	T := e.T
	letterOf := func(st *State, x *Term) []Out {
		return r.noPanic(e, "panic", "Letter", r.run(e, letter, st.clone(), x))
	}
	for _, o := range letterOf(newState(), e.arg("r", types.Typ[types.Int32])) {
		r.mustBe(e, o.st, o.pos, "class", "Letter(r)", results(o.ret)[0], T.Int(0), T.Int(nl-1))
	}
	// printed and mapped back
	c := e.arg("c", types.Typ[types.Uint8])
	st := newState()
	e.assume(st, T.LeInt(c, T.Int(nl-1)), true)
	for _, o := range r.noPanic(e, "panic", "Unletter", r.run(e, unletter, st, c)) {
		for _, l := range letterOf(o.st, results(o.ret)[0]) {
			r.mustEqual(e, l.st, l.pos, "back", "Letter(Unletter(c))", results(l.ret)[0], c, 8)
		}
	}
	// shifting
	t, lc := e.arg("t", types.Typ[types.Uint16]), e.arg("letter", types.Typ[types.Uint8])
	st = newState()
	e.assume(st, T.LeInt(lc, T.Int(nl-1)), true)
	e.assume(st, T.LeInt(t, T.Int(ntri-1)), true)
	want := T.Add(T.MulC(T.Mod(t, T.Int(nl*nl), types.Typ[types.Uint16]), nl), lc)
	for _, o := range r.noPanic(e, "panic", "Shift", r.run(e, shift, st, t, lc)) {
		r.mustEqual(e, o.st, o.pos, "shift", "t.Shift(letter)", results(o.ret)[0], want, 16)
		r.mustBe(e, o.st, o.pos, "below", "t.Shift(letter)", results(o.ret)[0], T.Int(0), T.Int(ntri-1))
	}
	if zero != nil {
		for _, o := range r.noPanic(e, "panic", "Zero", r.run(e, zero, newState())) {
			r.mustBe(e, o.st, o.pos, "zero", "Zero()", results(o.ret)[0], T.Int(0), T.Int(ntri-1))
		}
	}
	// printing: the three letters, oldest first
	x, y, z := e.arg("l0", types.Typ[types.Uint8]), e.arg("l1", types.Typ[types.Uint8]), e.arg("l2", types.Typ[types.Uint8])
	ls := []*Term{x, y, z}
	st = newState()
	code := T.Int(0)
	for _, l := range ls {
		l.rng = &Rng{big.NewInt(0), big.NewInt(nl - 1)}
		code = T.Add(T.MulC(code, nl), l)
	}
	for _, o := range r.noPanic(e, "panic", "String", r.run(e, str, st, code)) {
		got := results(o.ret)[0]
		var runes []*Term
		if got.Kind == KApp && got.Name == "str" {
			if vs, ok := e.listOf(o.st, got.Args[0]); ok {
				runes = vs
			}
		}
		if runes == nil {
			r.undecided("letters printed by String not resolved: %s", got)
			continue
		}
		if len(runes) != 3 {
			r.failAt(o.st, o.pos, "print", "String prints %d letters", len(runes))
			continue
		}
		for i, ru := range runes {
			for _, l := range letterOf(o.st, ru) {
				r.mustEqual(e, l.st, l.pos, "print", fmt.Sprintf("letter %d printed by String", i), results(l.ret)[0], ls[i], 8)
			}
		}
	}
}
