package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q02", "typestate of a query over ghost cursors, one for each shard: every list read is that of the current slot of its shard, the shard has a most frequent current slot, cursors move by one and only at the end of the current list, the end is reported only when no current slot has documents left to compare, and again afterwards; the comparison that orders the slots is analysed for all counts", ruleQ02)
}

type visit struct {
	r      *Rule
	e      *Engine
	q      *qpipe
	l      *lists
	n      int64
	first  int64 // position the shards start at
	what   string
	blotAt *ssa.Function
	count  *ssa.Function
	busy   bool
	reads  int

	counts  map[*Term]bool // the counts of the slots
	counted map[*Term]bool // the facts about them
}

// shardAt: the address of a shard of the index.
func (v *visit) shardAt(st *State, s int64) *Term {
	e := v.e
	xf, xt := e.fieldNamed(v.q.x, deref(v.q.x.Typ), "shards")
	if xf == nil {
		return nil
	}
	sl := e.load(st, xf, xt)
	if sl.Kind != KSlice {
		return nil
	}
	return e.indexAddr(sl.Args[0], e.T.Add(sl.Args[1], e.T.Int(s)), elemOfSlice(xt))
}

// slot: what the i-th most frequent slot of a shard is, and its count.
func (v *visit) slot(st *State, s, i int64) (slot, count *Term) {
	e := v.e
	a := v.shardAt(st, s)
	if a == nil {
		return nil, nil
	}
	h, b := e.H, v.busy
	e.H = Hooks{}
	v.busy = true
	defer func() { e.H, v.busy = h, b }()
	for _, o := range v.r.run(e, v.blotAt, st.clone(), a, e.T.Int(i)) {
		if o.kind == "" {
			slot = o.ret
		}
	}
	if slot == nil {
		return nil, nil
	}
	for _, o := range v.r.run(e, v.count, st.clone(), a, e.T.Conv(slot, types.Typ[types.Uint16], v.count.Params[1].Type())) {
		if o.kind == "" {
			count = o.ret
		}
	}
	if count != nil && !v.counts[count] {
		v.counts[count], v.counted = true, map[*Term]bool{}
	}
	return
}

func (v *visit) cursor(st *State, s int64) int64 {
	if f := st.flags[fmt.Sprint("cur:", s)]; f != "" {
		n, _ := strconv.ParseInt(f, 10, 64)
		return n
	}
	return v.first
}

// field of a read state.
func (v *visit) field(st *State, rs *Term, name string) *Term {
	t := deref(v.l.next.Params[0].Type())
	fa, ft := v.e.fieldNamed(rs, t, name)
	if fa == nil {
		return nil
	}
	return v.e.load(st, fa, ft)
}

// list: the shard and slot of a list that is read.
func (v *visit) list(st *State, rs *Term) (sh, sl *Term) {
	e := v.e
	p := v.field(st, rs, "Posts")
	if p == nil {
		return nil, nil
	}
	pt := deref(p.Typ)
	if pt == nil {
		return nil, nil
	}
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if b := basicOf(s.Field(i).Type()); b != nil && b.Kind() == types.Int64 {
			if a, b := slotOf(e.load(st, e.fieldAddr(p, i, s), s.Field(i).Type())); b != nil {
				sh, sl = a, b
			}
		}
	}
	return
}

// call judges and answers the reads of lists.
func (v *visit) call(ev *Event) ([]Out, bool) {
	e, r, st := v.e, v.r, ev.St
	if v.busy {
		return nil, false
	}
	if v.first != 0 && ev.Fn != nil && ev.Fn.Name() == "ReadStateAt" && recvName(ev.Fn) == "Index" && len(ev.Args) == 2 {
		i, ok := ev.Args[1].isInt()
		if ok && i == 0 && st.flags["started"] == "" {
			v.busy = true
			defer func() { v.busy = false }()
			return e.Run(ev.Fn, st, []*Term{ev.Args[0], e.T.Int(v.first)}), true
		}
	}
	if ev.Fn != v.l.next {
		return v.l.call(ev)
	}
	v.reads++
	rs := ev.Args[0]
	sh, sl := v.list(st, rs)
	if sh == nil || sl == nil {
		r.undecided("%s: the list that is read is not resolved", v.what)
		return []Out{{st: st, kind: "cut", pos: ev.Ins.Pos()}}, true
	}
	s, ok := sh.isInt()
	if !ok || s < 0 || s >= v.n {
		r.undecided("%s: the shard of the list that is read is not resolved: %s", v.what, sh)
		return []Out{{st: st, kind: "cut", pos: ev.Ins.Pos()}}, true
	}
	cur := v.cursor(st, s)
	if cur > 65535 {
		r.v(ev, "over", "%s: shard %d is read again after its last slot", v.what, s)
		return []Out{{st: st, kind: "cut", pos: ev.Ins.Pos()}}, true
	}
	want, cnt := v.slot(st, s, cur)
	if want == nil || cnt == nil {
		r.undecided("%s: the slots of a shard are not resolved", v.what)
		return []Out{{st: st, kind: "cut", pos: ev.Ins.Pos()}}, true
	}
	r.oblige("lists read", fmt.Sprintf("%s: position %d of shard %d", v.what, cur, s))
	if sl != want && !e.provesEq(st, sl, want) {
		pos := int64(-1)
		for i := v.first; i < v.first+6 && i <= 65535; i++ {
			if w, _ := v.slot(st, s, i); w == sl {
				pos = i
			}
		}
		if pos >= 0 {
			r.v(ev, "slot", "%s: the list at position %d of shard %d is read, its current position is %d", v.what, pos, s, cur)
		} else if _, k := sl.isInt(); k {
			r.v(ev, "slot", "%s: slot %s of shard %d is read, not the one at its current position %d", v.what, sl, s, cur)
		} else {
			r.undecided("%s: the slot that is read is not resolved: %s", v.what, sl)
		}
		return []Out{{st: st, kind: "cut", pos: ev.Ins.Pos()}}, true
	}
	// the most frequent one
	for j := int64(0); j < v.n; j++ {
		c := v.cursor(st, j)
		if j == s || c > 65535 {
			continue
		}
		_, oc := v.slot(st, j, c)
		if oc == nil {
			continue
		}
		r.oblige("choices", fmt.Sprintf("%s: shard %d at %d before shard %d at %d", v.what, s, cur, j, c))
		if e.provesLe(st, oc, cnt) {
			continue
		}
		// there may be more documents for the other's
		z := st.clone()
		if e.assume(z, e.T.LeInt(oc, cnt), false) {
			if !v.sound(z) {
				continue
			}
			r.v(ev, "choice", "%s: shard %d is read at position %d, and nothing shows that shard %d has no more documents at its position %d", v.what, s, cur, j, c)
			return []Out{{st: st, kind: "cut", pos: ev.Ins.Pos()}}, true
		}
	}
	outs, _ := v.l.call(ev)
	for _, o := range outs {
		if o.kind != "" {
			continue
		}
		if isSentinelEOF(results(o.ret)[1]) {
			// only now may the shard move on
			o.st.flags[fmt.Sprint("cur:", s)] = fmt.Sprint(cur + 1)
		}
	}
	return outs, true
}

// sound: the counts of a shard do not increase with the position.
func (v *visit) sound(st *State) bool {
	e := v.e
	for s := int64(0); s < v.n; s++ {
		var last *Term
		for i := v.first; i <= v.cursor(st, s) && i <= 65535; i++ {
			_, c := v.slot(st, s, i)
			if c == nil {
				return true
			}
			if last != nil && !e.assume(st, e.T.LeInt(c, last), true) {
				return false
			}
			last = c
		}
	}
	return true
}

// ofCount: whether a term is about the counts of slots.
func (v *visit) ofCount(t *Term) bool {
	is, ok := v.counted[t]
	if !ok {
		is = t.contains(func(x *Term) bool { return v.counts[x] })
		v.counted[t] = is
	}
	return is
}

// over: no shard has a slot left with more than one document.
func (v *visit) over(o Out, key, what string) bool {
	e, r := v.e, v.r
	for s := int64(0); s < v.n; s++ {
		c := v.cursor(o.st, s)
		if c > 65535 {
			continue
		}
		_, cnt := v.slot(o.st, s, c)
		if cnt == nil {
			r.undecided("%s: the slots of a shard are not resolved", v.what)
			return false
		}
		r.oblige("ends", fmt.Sprintf("%s: shard %d at %d", v.what, s, c))
		if e.provesLe(o.st, cnt, e.T.Int(1)) {
			continue
		}
		z := o.st.clone()
		if e.assume(z, e.T.LeInt(e.T.Int(2), cnt), true) && v.sound(z) {
			r.failAt(o.st, o.pos, key, "%s: %s, and nothing shows that shard %d has no slot with several documents at its position %d", v.what, what, s, c)
			return false
		}
	}
	return true
}

func ruleQ02(r *Rule) {
	ns := []int64{1, 2}
	if os.Getenv("VERIF_TIER") == "thorough" {
		ns = append(ns, 3)
	}
	for _, n := range ns {
		for _, first := range []int64{0, 65535} {
			if !r.broken() {
				visitAll(r, n, first)
			}
		}
	}
	if !r.broken() {
		visitOrder(r)
	}
}

func visitAll(r *Rule, n, first int64) {
	start, next := r.need("", "Index", "StartQuery"), r.need("", "Query", "Next")
	v := &visit{r: r, n: n, first: first, blotAt: r.need("internal/shard", "Index", "BlotAt"), count: r.need("internal/shard", "Index", "Count")}
	if start == nil || next == nil || v.blotAt == nil || v.count == nil {
		return
	}
	e := r.engine()
	v.e = e
	v.counts, v.counted = map[*Term]bool{}, map[*Term]bool{}
	v.q = r.newQpipe(e, n, 1)
	if v.q == nil {
		return
	}
	v.what = fmt.Sprintf("%d shards", n)
	if first != 0 {
		v.what += fmt.Sprintf(" from position %d", first)
	}
	e.NoFault, e.Unroll, e.UnrollMax, e.CapAppend, e.FreeMem = true, true, 32, true, true
	v.l = v.q.newLists(2, 3)
	if v.l == nil {
		return
	}
	for s := int64(0); s < n; s++ {
		for i := first; i < first+4 && i <= 65535; i++ {
			if _, c := v.slot(v.q.st, s, i); c == nil {
				r.undecided("%s: the slots of a shard are not resolved", v.what)
				return
			}
		}
	}
	e.H.Key = func(st *State) string {
		k := chanKey(st)
		for s := int64(0); s < n; s++ {
			k += fmt.Sprint("|", v.cursor(st, s))
		}
		// what is known of the counts: a choice depends on it later
		var known []string
		for t, val := range st.facts {
			if v.ofCount(t) {
				known = append(known, fmt.Sprint(t.ID, val))
			}
		}
		sort.Strings(known)
		return k + strings.Join(known, ",")
	}
	e.H.On = v.l.on
	v.q.over = v.call
	qs := okOuts(e, start, r.run(e, start, v.q.st.clone(), v.q.x, e.arg("strategy", start.Params[1].Type())))
	if len(qs) == 0 {
		r.undecided("%s: StartQuery has no outcome", v.what)
		return
	}
	bt := elemOfSlice(next.Params[1].Type())
	dt := next.Params[1].Type()
	ends := 0
	for _, room := range []int64{-1, 1} {
		for _, qo := range qs {
			x := results(qo.ret)[0]
			qo.st.flags["started"] = "1"
			var cur []*State
			cur = append(cur, qo.st)
			for call := 1; call <= 3 && !r.broken(); call++ {
				var nx []*State
				for _, st := range cur {
					st = st.clone()
					st.tr, st.viols = nil, nil
					was := st.flags["eof"] != ""
					al := e.alloc("dst", nil, v.q, dt)
					e.resetAlloc(st, al)
					v.q.fillBlot(st, e.indexAddr(al, e.T.Int(0), bt), bt, e.T.Int(0), room, "dst0")
					dst := e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(1)}, Typ: dt})
					for _, o := range r.run(e, next, st, x, dst) {
						if o.kind == "panic" {
							r.failAt(o.st, o.pos, "panic", "%s: Next panics", v.what)
						}
						if o.kind != "" || r.broken() {
							continue
						}
						rs := results(o.ret)
						if isSentinelEOF(rs[1]) {
							ends++
							if !v.over(o, "end", "the end is reported") {
								continue
							}
							o.st.flags["eof"] = "1"
						} else if e.nilness(o.st, rs[1]) < 0 {
							if was {
								r.failAt(o.st, o.pos, "again", "%s: the end was reported, and a later call reports something else", v.what)
								continue
							}
							if k, is := rs[0].isInt(); is && k == 0 {
								v.over(o, "short", "no blot is reported")
							}
						} else {
							if was {
								r.failAt(o.st, o.pos, "again", "%s: the end was reported, and a later call fails with another error", v.what)
							}
							continue
						}
						if len(nx) < 16 {
							nx = append(nx, o.st)
						}
					}
				}
				cur = nx
			}
		}
	}
	e.H.On = nil
	r.oblige("ends of queries", fmt.Sprintf("%s: %d", v.what, ends))
	if v.reads == 0 || ends == 0 {
		r.undecided("%s: %d reads and %d ends are seen", v.what, v.reads, ends)
	}
}

// slotOrder is the sorting of the slots when a shard is opened.
type slotOrder struct {
	r            *Rule
	t            *dirTrip
	x            *Term
	perm, counts string
	n            int
	busy         bool
}

// byType: the field that is an array of values of a kind.
func byType(t types.Type, k types.BasicKind) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		a, ok := s.Field(i).Type().Underlying().(*types.Array)
		if ok && a.Len() == 1<<16 && basicOf(a.Elem()) != nil && basicOf(a.Elem()).Kind() == k {
			return s.Field(i).Name()
		}
	}
	return ""
}

func (v *slotOrder) elem(st *State, field string, i *Term) (addr, val *Term, typ types.Type) {
	e := v.t.e
	fa, ft := e.fieldNamed(v.x, v.t.a.it, field)
	at := ft.Underlying().(*types.Array).Elem()
	addr = e.indexAddr(fa, i, at)
	return addr, e.load(st, addr, at), at
}

// visitOrder: after Init the slots of a shard are sorted by their counts.
// There are two slots; the order is that of a call of package sort with a
// comparison that is analysed for both orders of the slots, or is known.
func visitOrder(r *Rule) {
	t := r.newDirTrip(-1)
	if t == nil {
		return
	}
	e, T := t.e, t.e.T
	v := &slotOrder{r: r, t: t, perm: byType(t.a.it, types.Uint16), counts: byType(t.a.it, types.Uint32)}
	if v.perm == "" || v.counts == "" {
		r.undecided("the order and the counts of the slots are not found")
		return
	}
	v.x = e.alloc("index", nil, t, types.NewPointer(t.a.it))
	st := t.st.clone()
	e.resetAlloc(st, v.x)
	on, over := e.H.On, e.H.Override
	e.H.Override = func(ev *Event) ([]Out, bool) {
		v.call(ev)
		if over != nil {
			return over(ev)
		}
		return nil, false
	}
	pa, _ := e.fieldNamed(v.x, t.a.it, v.perm)
	ca, _ := e.fieldNamed(v.x, t.a.it, v.counts)
	e.H.On = func(ev *Event) {
		if on != nil {
			on(ev)
		}
		if ev.Kind != "store" || v.busy || ev.St.flags["sorted"] == "" {
			return
		}
		for a := ev.Addr; a != nil && len(a.Args) > 0; a = a.Args[0] {
			if a == pa || a == ca {
				r.v(ev, "later", "a slot is changed after the slots are sorted")
			}
		}
	}
	outs := okOuts(e, t.a.init, r.run(e, t.a.init, st, v.x, t.root))
	e.H.Override, e.H.On = over, on
	if len(outs) == 0 {
		r.undecided("Init of a shard has no successful outcome on what Close wrote")
	}
	for _, o := range outs {
		if r.broken() {
			return
		}
		r.oblige("orders", fmt.Sprintf("%d calls of package sort", v.n))
		if o.st.flags["sorted"] != "" {
			continue
		}
		_, p0, _ := v.elem(o.st, v.perm, T.Int(0))
		_, p1, _ := v.elem(o.st, v.perm, T.Int(1))
		if !v.both(o.st, p0, p1) {
			if _, ok := unconv(p0).isInt(); !ok {
				r.undecided("the order of the slots after Init is not resolved: %s", p0)
				continue
			}
			r.failAt(o.st, o.pos, "all", "after Init the first two of two slots are %s and %s", p0, p1)
			continue
		}
		_, c0, _ := v.elem(o.st, v.counts, p0)
		_, c1, _ := v.elem(o.st, v.counts, p1)
		if e.provesLe(o.st, c1, c0) {
			continue
		}
		z := o.st.clone()
		if e.assume(z, T.LeInt(T.Add(c0, T.Int(1)), c1), true) {
			r.failAt(o.st, o.pos, "unsorted", "a shard is opened, and its slots are not sorted: nothing shows that the first has no fewer documents than the second")
		}
	}
}

func (v *slotOrder) both(st *State, p0, p1 *Term) bool {
	a, ok := unconv(p0).isInt()
	b, is := unconv(p1).isInt()
	return ok && is && a+b == 1 && a >= 0 && b >= 0
}

func (v *slotOrder) call(ev *Event) {
	e, r, T := v.t.e, v.r, v.t.e.T
	if v.busy || ev.Fn == nil || ev.Fn.Pkg == nil || ev.Fn.Pkg.Pkg.Path() != "sort" || len(ev.Args) == 0 {
		return
	}
	var less func(st *State, i, j int64) []Out
	switch ev.Fn.Name() {
	case "Slice", "SliceStable":
		cl := ev.Args[1]
		sl := unbox(ev.Args[0])
		pa, pt := e.fieldNamed(v.x, v.t.a.it, v.perm)
		if sl.Kind != KSlice || len(sl.Args) < 3 {
			return
		}
		_ = pt
		if sl.Args[0] != pa {
			return
		}
		if n, ok := sl.Args[2].isInt(); !ok || n != 1<<16 && n != 2 {
			r.v(ev, "part", "%s of the %d slots are sorted", sl.Args[2], 1<<16)
			return
		}
		if o, ok := sl.Args[1].isInt(); !ok || o != 0 {
			r.v(ev, "part", "the slots are sorted from %s", sl.Args[1])
			return
		}
		less = func(st *State, i, j int64) []Out {
			return e.RunClosure(cl, st, []*Term{T.Int(i), T.Int(j)})
		}
	case "Sort", "Stable":
		y := ev.Args[0]
		rev := false
		for y.Kind == KApp && strings.HasSuffix(y.Name, "sort.Reverse") && len(y.Args) == 1 {
			y, rev = y.Args[0], !rev
		}
		if y.Kind != KIface {
			return
		}
		m := e.P.SSA.LookupMethod(y.Typ, nil, "Less")
		if m == nil || m.Blocks == nil {
			return
		}
		less = func(st *State, i, j int64) []Out {
			if rev {
				i, j = j, i
			}
			return e.Run(m, st, []*Term{y.Args[0], T.Int(i), T.Int(j)})
		}
	default:
		return
	}
	v.busy = true
	defer func() { v.busy = false }()
	v.n++
	_, p0, _ := v.elem(ev.St, v.perm, T.Int(0))
	_, p1, _ := v.elem(ev.St, v.perm, T.Int(1))
	if !v.both(ev.St, p0, p1) {
		r.v(ev, "all", "the slots that are sorted are not all of them: of two, %s and %s", p0, p1)
		return
	}
	for turn := int64(0); turn < 2; turn++ {
		for i := int64(0); i < 2; i++ {
			st := ev.St.clone()
			a0, _, et := v.elem(st, v.perm, T.Int(0))
			a1, _, _ := v.elem(st, v.perm, T.Int(1))
			e.store(st, a0, T.Int(turn), et)
			e.store(st, a1, T.Int(1-turn), et)
			_, pi, _ := v.elem(st, v.perm, T.Int(i))
			_, pj, _ := v.elem(st, v.perm, T.Int(1-i))
			_, ci, _ := v.elem(st, v.counts, pi)
			_, cj, _ := v.elem(st, v.counts, pj)
			outs := less(st, i, 1-i)
			if len(outs) == 0 {
				r.undecided("the comparison of two slots is not resolved")
				return
			}
			for _, o := range outs {
				if o.kind == "panic" {
					r.v(ev, "less", "the comparison of two slots panics")
					return
				}
				if o.kind != "" {
					continue
				}
				for _, b := range []bool{true, false} {
					z := o.st.clone()
					if !e.assume(z, results(o.ret)[0], b) {
						continue
					}
					r.oblige("comparisons", fmt.Sprintf("order %d, slot %d: %v", turn, i, b))
					lo, hi := ci, cj
					if !b {
						lo, hi = cj, ci
					}
					if e.assume(z, T.LeInt(T.Add(lo, T.Int(1)), hi), true) {
						if b {
							r.v(ev, "less", "a slot is sorted before another one that has more documents: %s before %s", ci, cj)
						} else {
							r.v(ev, "less", "a slot is not sorted before another one that has fewer documents: %s and %s", ci, cj)
						}
						return
					}
				}
			}
		}
	}
	ev.St.flags["sorted"] = "1"
}
