package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F02", "short histories of NewAdder/Add/Close with constant flush rates and symbolic records, one step of Add from any state, and their composition with Lookup, NumDocs, Indexer.Add and docid2Doc: ids, offsets, encodings and field order by value numbering", ruleF02)
}

// okOuts: the outcomes that are normal returns without (or possibly without)
// an error.
func okOuts(e *Engine, fn *ssa.Function, outs []Out) []Out {
	rs := fn.Signature.Results()
	hasErr := rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
	var r []Out
	for _, o := range outs {
		if o.kind == "" && (!hasErr || e.nilness(o.st, retErr(o)) <= 0) {
			r = append(r, o)
		}
	}
	return r
}

func (e *Engine) arg(name string, t types.Type) *Term {
	nn := false
	if t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			nn = true
		}
	}
	return e.T.mk(&Term{Kind: KSym, Name: "arg:" + name, Typ: t, NonNil: nn})
}

func ruleF02(r *Rule) {
	rates := [][3]int64{{1, 2, 2}, {2, 3, 2}, {3, 4, 3}, {100, 3, 2}}
	if r.Tier == "thorough" {
		rates = append(rates, [3]int64{2, 6, 5}, [3]int64{4, 9, 4}, [3]int64{5, 4, 5}, [3]int64{7, 6, 8})
	}
	rcd := int64(0)
	for _, h := range rates {
		if n := dmdHistory(r, h[0], int(h[1]), int(h[2])); n > 0 {
			rcd = n
		}
	}
	dmdStep(r)
	if rcd > 0 {
		dmdResume(r, rcd)
	}
	dmdIndexer(r)
	dmdReader(r)
}

// dmdHistory: two sessions with na and nb records at flush rate fr. Returns
// the size of a record, if known.
func dmdHistory(r *Rule, fr int64, na, nb int) int64 {
	newAdder, add, closeA := r.need("dmd", "", "NewAdder"), r.need("dmd", "Adder", "Add"), r.need("dmd", "Adder", "Close")
	newT, lookup, num := r.need("dmd", "", "New"), r.need("dmd", "T", "Lookup"), r.need("dmd", "T", "NumDocs")
	last := r.P.Fn("dmd", "Adder", "Last")
	if newAdder == nil || add == nil || closeA == nil || newT == nil || lookup == nil {
		return 0
	}
	what := fmt.Sprintf("flush rate %d, %d+%d documents", fr, na, nb)
	e := r.engine()
	e.NoFault, e.Unroll, e.UnrollMax = true, true, 12
	d := r.newDisk(e)
	e.Disk = nil
	d.tracked = func(p *Term) bool { return true }
	T := e.T
	u32 := types.Typ[types.Uint32]
	root := e.arg("root", types.Typ[types.String])
	st := newState()
	type rec struct {
		id   *Term
		vals []*Term
	}
	var recs []rec
	n := 0
	one := func(fn *ssa.Function, st *State, args ...*Term) (Out, bool) {
		outs := okOuts(e, fn, r.run(e, fn, st, args...))
		if len(outs) != 1 {
			r.undecided("%s: %s has %d outcomes", what, shortFn(fn), len(outs))
			return Out{}, false
		}
		return outs[0], true
	}
	for sess, cnt := range []int{na, nb} {
		o, ok := one(newAdder, st, root, T.Int(fr))
		if !ok {
			return 0
		}
		a := results(o.ret)[0]
		st = o.st
		for i := 0; i < cnt; i++ {
			n++
			var vals []*Term
			for j := 0; j < 3; j++ {
				vals = append(vals, e.arg(fmt.Sprintf("v%d_%d", n, j), u32))
			}
			o, ok := one(add, st, append([]*Term{a}, vals...)...)
			if !ok {
				return 0
			}
			st = o.st
			id := results(o.ret)[0]
			r.oblige("id", fmt.Sprintf("%s: document %d gets id %s", what, n, id))
			if e.same(st, id, T.Int(int64(n)), 32) < 0 {
				r.fail(add.Pos(), "ids", "%s: document %d (session %d) gets id %s", what, n, sess+1, id)
				return 0
			} else if _, ok := unconv(id).isInt(); !ok {
				r.undecided("%s: id of document %d not resolved: %s", what, n, id)
				return 0
			}
			recs = append(recs, rec{id, vals})
			if last != nil {
				if o, ok := one(last, st.clone(), a); ok {
					if e.same(o.st, results(o.ret)[0], id, 32) < 0 {
						r.fail(last.Pos(), "last", "%s: Last gives %s after id %s was handed out", what, results(o.ret)[0], id)
					}
				}
			}
		}
		o, ok = one(closeA, st, a)
		if !ok {
			return 0
		}
		st = o.st
	}
	// look up
	o, ok := one(newT, st, root)
	if !ok {
		return 0
	}
	st = o.st
	t := results(o.ret)[0]
	var path *Term
	for _, it := range st.items.list(nil) {
		if it.Kind == "disk" {
			path = it.Args[0]
		}
	}
	if path == nil {
		r.fail(closeA.Pos(), "nothing", "%s: nothing is written", what)
		return 0
	}
	cs, good := d.cells(st, path)
	if !good {
		for _, it := range st.items.list(nil) {
			if it.Kind == "disk" && it.Name == "lost" {
				r.fail(closeA.Pos(), "unflushed", "%s: buffered records are dropped when the file is closed", what)
				return 0
			}
		}
		r.undecided("%s: the record file is truncated", what)
		return 0
	}
	names := []string{"path id", "start", "end"}
	for i, rc := range recs {
		o, ok := one(lookup, st.clone(), t, rc.id)
		if !ok {
			return 0
		}
		for j := 0; j < 3; j++ {
			got := results(o.ret)[j]
			v, k, why := d.evalRead(st, cs, got)
			r.oblige("lookup", fmt.Sprintf("%s: %s of document %d is read at %s", what, names[j], i+1, got))
			switch {
			case k < 0:
				r.fail(lookup.Pos(), "lookup:enc", "%s: %s of document %d: %s", what, names[j], i+1, why)
			case k == 0:
				r.undecided("%s: %s of document %d: %s", what, names[j], i+1, why)
			case e.same(st, v, rc.vals[j], 32) == 1:
			case inputsOnly(v):
				r.fail(lookup.Pos(), "lookup:val", "%s: looking up the id of document %d gives as %s %s instead of %s", what, i+1, names[j], v, rc.vals[j])
			default:
				r.undecided("%s: %s of document %d is %s", what, names[j], i+1, v)
			}
		}
	}
	size := e.get(st, e.sizeKey(path))
	if num != nil {
		if o, ok := one(num, st.clone(), t); ok {
			v := unconv(results(o.ret)[0])
			r.oblige("number of documents", fmt.Sprintf("%s: NumDocs = %s", what, v))
			if k, ok := v.isInt(); ok && k != int64(n) {
				r.fail(num.Pos(), "numdocs", "%s: NumDocs gives %d", what, k)
			} else if !ok {
				r.undecided("%s: NumDocs gives %s", what, v)
			}
		}
	}
	if k, ok := size.isInt(); ok && k%int64(n+1) == 0 {
		return k / int64(n+1)
	}
	return 0
}

// dmdStep: one Add from any state of an adder with any flush rate.
func dmdStep(r *Rule) {
	add, last := r.P.Fn("dmd", "Adder", "Add"), r.P.Fn("dmd", "Adder", "Last")
	if add == nil || last == nil {
		return
	}
	e := r.engine()
	e.OneFault = true
	T := e.T
	u32 := types.Typ[types.Uint32]
	a := e.arg("adder", add.Signature.Recv().Type())
	st := newState()
	lo := okOuts(e, last, r.run(e, last, st, a))
	if len(lo) != 1 {
		r.undecided("Last has %d outcomes from any state", len(lo))
		return
	}
	before := results(lo[0].ret)[0]
	for _, o := range r.run(e, add, lo[0].st, a, e.arg("fid", u32), e.arg("start", u32), e.arg("end", u32)) {
		if o.kind != "" || e.nilness(o.st, retErr(o)) > 0 {
			continue
		}
		id := results(o.ret)[0]
		r.oblige("one step of Add", fmt.Sprintf("id %s after last %s", id, before))
		if e.same(o.st, id, T.Add(before, T.Int(1)), 32) < 0 {
			r.failAt(o.st, o.pos, "step:id", "Add hands out %s when the last id was %s", id, before)
		}
		for _, l := range okOuts(e, last, r.run(e, last, o.st.clone(), a)) {
			if e.same(l.st, results(l.ret)[0], id, 32) < 0 {
				r.failAt(o.st, o.pos, "step:last", "after Add returned %s the last id is %s", id, results(l.ret)[0])
			}
		}
	}
}

// dmdResume: NewAdder on an existing file of any size.
func dmdResume(r *Rule, rcd int64) {
	newAdder, add := r.P.Fn("dmd", "", "NewAdder"), r.P.Fn("dmd", "Adder", "Add")
	e := r.engine()
	e.NoFault = true
	T := e.T
	u32 := types.Typ[types.Uint32]
	root := e.arg("root", types.Typ[types.String])
	st := newState()
	var sizes []*Term
	e.H.On = func(ev *Event) {
		if ev.Kind == "call" && ev.Name == "invoke:(io/fs.FileInfo).Size" {
			sizes = append(sizes, ev.Res)
		}
	}
	for _, o := range okOuts(e, newAdder, r.run(e, newAdder, st, root, e.arg("rate", types.Typ[types.Int]))) {
		if len(sizes) == 0 {
			r.undecided("NewAdder does not ask for the size of the record file")
			return
		}
		S := sizes[len(sizes)-1]
		a := results(o.ret)[0]
		for _, o2 := range okOuts(e, add, r.run(e, add, o.st.clone(), a, e.arg("fid", u32), e.arg("start", u32), e.arg("end", u32))) {
			id := results(o2.ret)[0]
			cnt := T.Quo(S, T.Int(rcd), types.Typ[types.Int64])
			want := cnt
			if v, ok := e.truth(o2.st, T.EqInt(e.mod2(cnt, 32), T.Int(0))); ok && v {
				want = T.Int(1)
			}
			r.oblige("resume", fmt.Sprintf("first id of a later session: %s", id))
			switch e.same(o2.st, id, want, 32) {
			case -1:
				r.failAt(o2.st, o2.pos, "resume", "a later session starts with id %s although %s records are stored", id, want)
			case 0:
				r.undecided("first id of a later session: %s, records stored %s", id, want)
			}
		}
	}
}

// dmdIndexer: what Indexer.Add records is the document's path, start and end,
// and the id handed on is the recorded one.
func dmdIndexer(r *Rule) {
	add := r.need("", "Indexer", "Add")
	if add == nil {
		return
	}
	e := r.engine()
	e.NoFault = true
	T := e.T
	u32 := types.Typ[types.Uint32]
	x := e.arg("x", add.Params[0].Type())
	doc := e.arg("doc", add.Params[1].Type())
	dt := deref(doc.Typ)
	st := newState()
	init := map[string]*Term{}
	for _, f := range []string{"Path", "Start", "End"} {
		if a, t := e.fieldNamed(doc, dt, f); a != nil {
			init[f] = e.load(st, a, t)
		} else {
			r.undecided("Doc.%s not found", f)
			return
		}
	}
	pid := e.arg("pathid", u32)
	did := e.arg("did", u32)
	seen := 0
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if ev.Fn == nil {
			return nil, false
		}
		switch shortFn(ev.Fn) {
		case "(*dmd.Adder).Add", "dmd.(*Adder).Add", "(*Adder).Add":
			seen++
			ok := len(ev.Args) == 4
			r.oblige("recorded fields", fmt.Sprintf("%v", ev.Args))
			if ok {
				for i, f := range []string{"", "", "Start", "End"} {
					if f != "" && ev.Args[i] != init[f] && inputsOnly(ev.Args[i]) {
						r.v(ev, "fields:"+f, "the %s recorded for a document is %s", f, ev.Args[i])
					}
				}
				if ev.Args[1] != pid && inputsOnly(ev.Args[1]) {
					r.v(ev, "fields:path", "the path id recorded for a document is %s, not that of its path", ev.Args[1])
				}
			}
			return []Out{{st: ev.St, ret: e.tuple(did, T.Nil)}}, true
		}
		if ev.Fn.Name() == "addPath" && len(ev.Args) == 2 {
			if ev.Args[1] != init["Path"] && inputsOnly(ev.Args[1]) {
				r.v(ev, "path", "the path registered for a document is %s, not its own", ev.Args[1])
			}
			return []Out{{st: ev.St, ret: e.tuple(pid, T.Nil)}}, true
		}
		return nil, false
	}
	r.run(e, add, st, x, doc)
	if seen == 0 {
		r.undecided("Indexer.Add does not call dmd.Adder.Add")
	}
}

// dmdReader: the document made from a looked up record.
func dmdReader(r *Rule) {
	fn := r.P.Fn("", "Index", "docid2Doc")
	if fn == nil {
		r.undecided("docid2Doc not found")
		return
	}
	e := r.engine()
	e.NoFault = true
	T := e.T
	u32 := types.Typ[types.Uint32]
	x := e.arg("x", fn.Params[0].Type())
	did := e.arg("did", fn.Params[1].Type())
	doc := e.arg("doc", fn.Params[2].Type())
	dt := deref(doc.Typ)
	fid, start, end := e.arg("rec.fid", u32), e.arg("rec.start", u32), e.arg("rec.end", u32)
	path := T.mk(&Term{Kind: KSym, Name: "arg:abspath", Typ: types.Typ[types.String]})
	looked := 0
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if ev.Fn == nil {
			return nil, false
		}
		if ev.Fn.Name() == "Lookup" && pkgOf(ev.Fn) == "dmd" && len(ev.Args) == 2 {
			looked++
			if ev.Args[1] != did && inputsOnly(ev.Args[1]) {
				r.v(ev, "lookupid", "record %s is looked up for document %s", ev.Args[1], did)
			}
			return []Out{{st: ev.St, ret: e.tuple(fid, start, end, T.Nil)}}, true
		}
		if ev.Fn.Name() == "abs" && len(ev.Args) == 2 && namedName(ev.Args[0].Typ) == "fnames" {
			if ev.Args[1] != fid && inputsOnly(ev.Args[1]) {
				r.v(ev, "pathof", "the path of a document is looked up under %s, not its path id", ev.Args[1])
			}
			return []Out{{st: ev.St, ret: path}}, true
		}
		return nil, false
	}
	for _, o := range okOuts(e, fn, r.run(e, fn, newState(), x, did, doc)) {
		if looked == 0 {
			r.undecided("docid2Doc does not look records up")
			return
		}
		for _, w := range []struct {
			f string
			v *Term
		}{{"Path", path}, {"Start", start}, {"End", end}} {
			a, t := e.fieldNamed(doc, dt, w.f)
			if a == nil {
				continue
			}
			got := e.load(o.st, a, t)
			r.oblige("fields of a returned document", w.f)
			if got != w.v {
				if inputsOnly(got) {
					r.failAt(o.st, o.pos, "doc:"+w.f, "the %s of a looked up document is %s instead of %s", w.f, got, w.v)
				} else {
					r.undecided("the %s of a looked up document is %s", w.f, got)
				}
			}
		}
	}
}
