package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F03", "posting directory round trip by value numbering of file layout: what Close writes for each slot (symbolic poster fields) against what InitAppend and Init read at which offset in which encoding, and where the values end up", ruleF03)
}

// dirTrip: a shard is created, the fields of its posters take arbitrary
// values, it is closed, and opened again. The number of slots is scaled down.
type dirTrip struct {
	r   *Rule
	e   *Engine
	d   *disk
	a   *shardAPI
	st  *State // after Close
	cur *State
	x   *Term
	// arbitrary values by slot and field
	vals  []map[string]*Term
	pt    types.Type // poster
	ft    map[string]types.Type
	ind   string // field of the indexer with the posters
	paths []*Term
	root  *Term
	n     int
	all   []Out // of InitAppend
}

// posterField: the field of the indexer that is an array or slice of structs.
func postersOf(t types.Type) (string, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		var el types.Type
		switch x := s.Field(i).Type().Underlying().(type) {
		case *types.Array:
			el = x.Elem()
		case *types.Slice:
			el = x.Elem()
		}
		if el != nil && namedName(el) == "poster" {
			return s.Field(i).Name(), el
		}
	}
	return "", nil
}

// newDirTrip: slot empty has no postings.
func (r *Rule) newDirTrip(empty int) *dirTrip {
	a := r.shardAPI()
	if a == nil {
		return nil
	}
	e := r.engine()
	e.NoFault, e.Unroll, e.UnrollMax = true, true, 12
	e.Peel, e.Scale = 12, true
	e.H.Key = argKey
	t := &dirTrip{r: r, e: e, a: a, ft: map[string]types.Type{}, n: 2}
	t.ind, t.pt = postersOf(a.xt)
	if t.pt == nil {
		r.undecided("the posters of a shard indexer are not found")
		return nil
	}
	t.d = r.newDisk(e)
	t.d.tracked = func(p *Term) bool { return true }
	e.H.Go = func(ev *Event) string { return "inline" }
	T := e.T
	t.root = e.arg("root", types.Typ[types.String])
	t.x = e.alloc("shard", nil, t, types.NewPointer(a.xt))
	st := newState()
	e.resetAlloc(st, t.x)
	args := []*Term{t.x, T.Int(0), t.root}
	for i := 3; i < len(a.create.Params); i++ {
		args = append(args, e.arg("flushrate", a.create.Params[i].Type()))
	}
	outs := okOuts(e, a.create, r.run(e, a.create, st, args...))
	if len(outs) == 0 {
		r.undecided("InitCreate has no successful outcome")
		return nil
	}
	st = outs[0].st
	for j := 0; j < t.n; j++ {
		m := map[string]*Term{}
		t.vals = append(t.vals, m)
		p := t.poster(t.x, j)
		s := t.pt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			b := basicOf(f.Type())
			if b == nil || b.Info()&types.IsInteger == 0 || b.Kind() == types.Uint16 {
				continue
			}
			v := e.arg(fmt.Sprintf("%s_%d", f.Name(), j), f.Type())
			switch {
			case j == empty && b.Kind() == types.Int64:
				v = T.Int(-1)
			case j == empty:
				v = T.Int(0)
			case b.Kind() == types.Int64:
				v.rng = &Rng{big.NewInt(0), big.NewInt(1 << 62)}
			case b.Kind() == types.Uint32:
				v.rng = &Rng{big.NewInt(1), big.NewInt(1<<32 - 1)}
			}
			fa, ft := e.fieldNamed(p, t.pt, f.Name())
			e.store(st, fa, v, ft)
			m[f.Name()] = v
			t.ft[f.Name()] = ft
		}
	}
	size := e.arg("size", types.Typ[types.Int64])
	size.rng = &Rng{big.NewInt(0), big.NewInt(1 << 62)}
	st.heap[e.sizeKey(t.root)] = size
	for _, m := range t.vals {
		for _, v := range m {
			if v.rng != nil && v.Kind == KSym && basicOf(v.Typ).Kind() == types.Int64 {
				e.assume(st, T.LeInt(T.Add(v, T.Int(9)), size), true)
			}
		}
		if c, n := m["current"], m["total"]; c != nil && n != nil && c.Kind == KSym && n.Kind == KSym {
			e.assume(st, T.LeInt(n, c), true)
		}
	}
	couts := okOuts(e, a.closeFn, r.run(e, a.closeFn, st, t.x))
	if len(couts) == 0 {
		r.undecided("Close of a shard has no successful outcome")
		return nil
	}
	t.st = couts[0].st
	if os.Getenv("DISKDUMP") != "" {
		t.d.dump(t.st)
	}
	seen := map[*Term]bool{}
	for _, it := range t.st.items.list(nil) {
		if it.Kind == "disk" && !seen[it.Args[0]] {
			seen[it.Args[0]] = true
			t.paths = append(t.paths, it.Args[0])
		}
	}
	if len(couts) > 1 {
		r.undecided("Close of a shard without buffered postings has %d outcomes", len(couts))
	}
	return t
}

func (t *dirTrip) poster(x *Term, j int) *Term {
	ia, it := t.e.fieldNamed(x, t.a.xt, t.ind)
	if _, ok := it.Underlying().(*types.Slice); ok {
		return nil
	}
	return t.e.indexAddr(ia, t.e.T.Int(int64(j)), t.pt)
}

// eval resolves the values read from files within v: 1 all of them, -1 one is
// not what is stored there, 0 unknown.
func (t *dirTrip) eval(v *Term) (*Term, int, string) {
	m := map[*Term]*Term{}
	res, why := 1, ""
	v.walk(func(x *Term) bool {
		if x.Kind != KApp || !strings.HasSuffix(x.Name, "file") || len(x.Args) != 2 || m[x] != nil {
			return true
		}
		p := x.Args[0]
		if q := t.e.pathKey(p); t.cur.heap[q] != nil {
			p = t.cur.heap[q]
		}
		known := false
		for _, path := range t.paths {
			if path == p {
				cs, ok := t.d.cells(t.cur, path)
				if !ok {
					break
				}
				w, k, y := t.d.evalRead(t.cur, cs, x)
				if k > 0 {
					m[x], known = w, true
				} else if k < 0 && res >= 0 {
					res, why, known = -1, y, true
				}
			}
		}
		if !known && res > 0 {
			res, why = 0, "read from "+p.String()
		}
		return false
	})
	if res > 0 && len(m) > 0 {
		v = t.e.T.subst(v, m, map[*Term]*Term{})
	}
	return v, res, why
}

// same compares a value read with the one that was in a poster.
func (t *dirTrip) same(st *State, fn *ssa.Function, key, what string, got, want *Term) {
	r, e := t.r, t.e
	t.cur = st
	r.oblige(key, fmt.Sprintf("%s: %s", what, got))
	v, k, why := t.eval(got)
	switch {
	case k < 0:
		r.failAt(st, fn.Pos(), key, "%s: %s", what, why)
	case k == 0:
		r.undecided("%s: %s (%s)", what, got, why)
	case e.same(st, v, want, 32) > 0:
	default:
		t.differ(st, fn, key, what, v, want)
	}
}

func (t *dirTrip) differ(st *State, fn *ssa.Function, key, what string, v, want *Term) {
	if env, ok := t.e.separate(st, v, want, 64); ok {
		t.r.failAt(st, fn.Pos(), key, "%s is %s after reading the index again instead of %s (e.g. %s)", what, v, want, env)
		return
	}
	t.r.undecided("%s is read as %s, not shown to be %s", what, v, want)
}

// rejected: no reader refuses what Close wrote.
func (t *dirTrip) rejected(fn *ssa.Function, all []Out) {
	if os.Getenv("DIRDBG") != "" {
		fmt.Println("ALL", shortFn(fn), len(all))
	}
	for _, o := range all {
		if o.kind == "" && t.e.nilness(o.st, retErr(o)) <= 0 {
			continue
		}
		if m := misread(o.st); m != "" {
			if os.Getenv("DIRDBG") != "" {
				fmt.Println("MIS", m)
			}
			continue
		}
		if os.Getenv("DIRDBG") != "" {
			fmt.Println("ERR", t.r.P.Pos(o.pos), o.ret)
			for b, v := range o.st.facts {
				fmt.Println("   ", v, b)
			}
		}
		if env, ok := t.e.reachable(o.st); ok {
			how := "refuses"
			if o.kind != "" {
				how = "panics on"
			}
			t.r.failAt(o.st, o.pos, "rejects", "%s %s what Close wrote (e.g. %s)", shortFn(fn), how, env)
			return
		}
	}
}

// currentField: the field of a poster that AddPost sets to the document id.
func (t *dirTrip) currentField() string {
	add := t.r.need("internal/shard", "poster", "AddPost")
	if add == nil {
		return ""
	}
	e := t.r.engine()
	e.NoFault = true
	p := e.arg("p", add.Params[0].Type())
	v := e.arg("v", add.Params[1].Type())
	var args = []*Term{p, v}
	for i := 2; i < len(add.Params); i++ {
		args = append(args, e.arg(fmt.Sprintf("a%d", i), add.Params[i].Type()))
	}
	count := map[string]int{}
	n := 0
	for _, o := range okOuts(e, add, t.r.run(e, add, newState(), args...)) {
		changed := false
		for f := range t.ft {
			a, ft := e.fieldNamed(p, t.pt, f)
			if e.load(o.st, a, ft) != e.load(newState(), a, ft) {
				changed = true
			}
		}
		if !changed {
			continue
		}
		n++
		for f := range t.ft {
			a, ft := e.fieldNamed(p, t.pt, f)
			if unconv(e.load(o.st, a, ft)) == v {
				count[f]++
			}
		}
	}
	for f, c := range count {
		if c == n && n > 0 {
			return f
		}
	}
	return ""
}

func ruleF03(r *Rule) {
	for empty := 0; empty < 2; empty++ {
		t := r.newDirTrip(empty)
		if t == nil {
			return
		}
		t.appendSide()
		t.querySide()
	}
}

// appendSide: InitAppend restores what the posters held.
func (t *dirTrip) appendSide() (*Term, []Out) {
	r, e, T, a := t.r, t.e, t.e.T, t.a
	cur := t.currentField()
	if cur == "" {
		r.undecided("the field with the last document id of a posting list is not found")
	}
	y := e.alloc("shard2", nil, t, types.NewPointer(a.xt))
	st := t.st.clone()
	e.resetAlloc(st, y)
	args := []*Term{y, T.Int(0), t.root}
	for i := 3; i < len(a.appendTo.Params); i++ {
		args = append(args, e.arg("flushrate", a.appendTo.Params[i].Type()))
	}
	all := r.run(e, a.appendTo, st, args...)
	t.all = all
	outs := okOuts(e, a.appendTo, all)
	t.rejected(a.appendTo, all)
	if len(outs) == 0 {
		t.allFail(a.appendTo, all)
		return y, nil
	}
	for _, o := range outs {
		for j := 0; j < t.n; j++ {
			for _, f := range []string{"head", "total", cur} {
				if t.ft[f] == nil {
					continue
				}
				fa, ft := e.fieldNamed(t.poster(y, j), t.pt, f)
				t.same(o.st, a.appendTo, "append:"+f, fmt.Sprintf("%s of slot %d when appending", f, j), e.load(o.st, fa, ft), t.vals[j][f])
			}
		}
	}
	return y, outs
}

func (t *dirTrip) allFail(fn *ssa.Function, all []Out) {
	mis := ""
	for _, o := range all {
		if m := misread(o.st); m != "" {
			mis = m
		}
	}
	if mis != "" {
		t.r.fail(fn.Pos(), "misread", "%s cannot read what Close wrote: %s", shortFn(fn), mis)
	} else {
		t.r.undecided("%s has no successful outcome on what Close wrote", shortFn(fn))
	}
}

// headField: the field of Posts with the position of the first node.
func (r *Rule) headField() string {
	fn := r.need("internal/shard", "", "newPosts")
	if fn == nil {
		return ""
	}
	e := r.engine()
	e.NoFault = true
	h := e.arg("head", fn.Params[0].Type())
	for _, o := range okOuts(e, fn, r.run(e, fn, newState(), h)) {
		p := results(o.ret)[0]
		s := deref(p.Typ).Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			fa, ft := e.fieldNamed(p, deref(p.Typ), s.Field(i).Name())
			if basicOf(ft) != nil && unconv(e.load(o.st, fa, ft)) == h {
				return s.Field(i).Name()
			}
		}
	}
	return ""
}

// querySide: Init and ReadStateFor find what the posters held.
func (t *dirTrip) querySide() {
	r, e, T, a := t.r, t.e, t.e.T, t.a
	hf := r.headField()
	if hf == "" {
		r.undecided("the field of Posts with the position of the first node is not found")
	}
	z := e.alloc("index", nil, t, types.NewPointer(a.it))
	st := t.st.clone()
	e.resetAlloc(st, z)
	all := r.run(e, a.init, st, z, t.root)
	outs := okOuts(e, a.init, all)
	t.rejected(a.init, all)
	if len(outs) == 0 {
		t.allFail(a.init, all)
		return
	}
	num := r.P.Fn("internal/shard", "Index", "NumPosts")
	for _, o := range outs {
		for j := 0; j < t.n; j++ {
			for _, so := range okOuts(e, a.readState, r.run(e, a.readState, o.st.clone(), z, T.Int(int64(j)))) {
				rs := results(so.ret)[0]
				rt := deref(rs.Typ)
				if fa, ft := e.fieldNamed(rs, rt, "Total"); fa != nil {
					t.same(so.st, a.init, "query:total", fmt.Sprintf("number of postings of slot %d in a query", j), e.load(so.st, fa, ft), t.vals[j]["total"])
				}
				fa, ft := e.fieldNamed(rs, rt, "Posts")
				if fa == nil || hf == "" {
					r.undecided("the posting list of a ReadState is not found")
					continue
				}
				ps := e.load(so.st, fa, ft)
				ha, ht := e.fieldNamed(ps, deref(ps.Typ), hf)
				if ha == nil {
					r.undecided("the posting list of a ReadState is not resolved")
					continue
				}
				t.same(so.st, a.init, "query:head", fmt.Sprintf("position of the posting list of slot %d in a query", j), e.load(so.st, ha, ht), t.vals[j]["head"])
			}
		}
		_ = num
	}
	_ = strings.Contains
}

// argKey keeps paths with different conditions on the inputs apart.
func argKey(st *State) string {
	var ids []int
	for f, v := range st.facts {
		if !inputsOnly(f) {
			continue
		}
		id := f.ID
		if !v {
			id = -id
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}
