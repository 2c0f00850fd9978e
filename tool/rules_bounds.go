package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("V01", "range analysis of values read from files: every index, slice bound and allocation that depends on one is bounded on every path; entries that refer to others refer to earlier ones; positions that are followed only go forward", ruleV01)
}

type bounds struct {
	r    *Rule
	e    *Engine
	what string
	// init: the loads of these parts of the initial memory hold values that
	// were read from files.
	init func(t *Term) bool
	n    int
	// quiet: what is not shown after some turns of a loop was in the first.
	quiet bool
}

// read: a value decoded from a file.
func (b *bounds) read(t *Term) bool {
	switch t.Kind {
	case KApp:
		return strings.HasSuffix(t.Name, "file") && len(t.Args) == 2 || strings.HasPrefix(t.Name, "fileread")
	case KSym:
		return strings.HasPrefix(t.Name, "dec:") || strings.HasPrefix(t.Name, "bad")
	case KInit:
		return b.init != nil && b.init(t)
	}
	return false
}

func (b *bounds) tainted(t *Term) bool {
	found := false
	t.walk(func(x *Term) bool {
		if b.read(x) {
			found = true
		}
		// where a value comes from is not part of it
		return !found && !(x.Kind == KApp && strings.HasPrefix(x.Name, "len")) && x.Kind != KInit
	})
	return found
}

func (b *bounds) free(t *Term) bool {
	switch t.Kind {
	case KInit:
		return true
	case KSym:
		for _, p := range []string{"arg:", "readlen", "partial", "dec:", "bad", "declen"} {
			if strings.HasPrefix(t.Name, p) {
				return true
			}
		}
	case KApp:
		return b.read(t) || strings.Contains(t.Name, "varintlen") || t.Name == "size" || t.Name == "filesize" || t.Name == "fsize" || t.Name == "len" || t.Name == "cap"
	}
	return false
}

// checked: some condition on this path bounds a value from above.
func (b *bounds) checked(st *State, v *Term) bool {
	for t, val := range st.facts {
		if !t.contains(func(x *Term) bool { return x == v }) {
			continue
		}
		if !val && strings.HasPrefix(t.String(), "eq") {
			continue
		}
		// v is larger than a constant: no bound
		if !val && len(t.Args) == 1 {
			at := map[*Term]bool{}
			b.e.atoms(t, at)
			if len(at) == 1 {
				z := newState()
				z.facts[t] = val
				if b.e.assume(z, b.e.T.LeInt(b.e.T.Int(1<<40), v), true) {
					continue
				}
			}
		}
		return true
	}
	return false
}

// need: lo <= hi on this path.
func (b *bounds) need(ev *Event, key, what string, lo, hi *Term) {
	e, r, st := b.e, b.r, ev.St
	if x, ok := lo.isInt(); ok {
		if y, ok := hi.isInt(); ok && x > y {
			r.v(ev, key, "%s: %s", b.what, what)
			return
		}
	}
	if !b.tainted(lo) && !b.tainted(hi) {
		return
	}
	b.n++
	r.oblige("bounds", fmt.Sprintf("%s: %s", b.what, what))
	if e.provesLe(st, lo, hi) {
		return
	}
	z := st.clone()
	if !e.assume(z, e.T.LeInt(lo, hi), false) {
		return
	}
	b.relax(z, lo, hi)
	env, ok := e.instances(z, []*Term{lo, hi}, b.free, nil, func(instEnv, func(*Term) (*big.Int, bool)) bool { return true })
	if os.Getenv("VDBG") != "" {
		fmt.Println("UNPROVEN", ok, z, key, b.what, r.P.Pos(ev.Ins.Pos()), lo, "<=", hi)
	}
	if ok {
		r.v(ev, key, "%s: %s (e.g. %s)", b.what, what, env)
		return
	}
	var at = map[*Term]bool{}
	e.atoms(lo, at)
	for a := range at {
		if b.read(a) && !b.checked(st, a) {
			r.v(ev, key, "%s: %s, and the value that was read is not checked", b.what, what)
			return
		}
	}
	b.later(ev, key, what)
}

// relax drops what is known of the lengths of encodings of the values, and of
// what is stored at positions that depend on them.
func (b *bounds) relax(st *State, ts ...*Term) {
	at := map[*Term]bool{}
	for _, t := range ts {
		b.e.atoms(t, at)
	}
	for t := range st.facts {
		fa := map[*Term]bool{}
		b.e.atoms(t, fa)
		direct, lens := false, false
		for a := range fa {
			direct = direct || at[a]
			lens = lens || a.Kind == KApp && a.contains(func(x *Term) bool { return at[x] })
		}
		if lens && !direct {
			delete(st.facts, t)
		}
	}
	st.leOK = false
}

func (b *bounds) later(ev *Event, key, what string) {
	k := key + b.r.P.Pos(ev.Ins.Pos())
	if ev.St.flags["maybe:"+k] == "" {
		ev.St.flags["maybe:"+k] = b.what + ": not shown: " + what
	}
}

// selfRef: an index that an element of the slice itself holds.
func selfRef(i, base *Term) bool {
	i = unconv(i)
	if i.Kind != KInit || len(i.Args) == 0 || i.Args[0].Kind != KFieldA || len(i.Args[0].Args) == 0 {
		return false
	}
	a := i.Args[0].Args[0]
	if pt := deref(a.Typ); pt != nil {
		if et := elemOfSlice(base.Typ); et != nil {
			return types.Identical(pt, et)
		}
	}
	return false
}

func (b *bounds) on(ev *Event) {
	e, T := b.e, b.e.T
	switch ev.Kind {
	case "index":
		if ev.Addr != nil && ev.Addr.Typ != nil && selfRef(ev.Args[0], ev.Addr) {
			b.r.oblige("references", b.what)
			return
		}
		b.need(ev, "index", fmt.Sprintf("index %s of %s elements", ev.Args[0], ev.Args[1]), T.Add(ev.Args[0], T.Int(1)), ev.Args[1])
		b.need(ev, "index", fmt.Sprintf("index %s", ev.Args[0]), T.Int(0), ev.Args[0])
	case "slice":
		b.need(ev, "slice", fmt.Sprintf("slice to %s of %s", ev.Args[1], ev.Args[2]), ev.Args[1], ev.Args[2])
		b.need(ev, "slice", fmt.Sprintf("slice from %s to %s", ev.Args[0], ev.Args[1]), ev.Args[0], ev.Args[1])
		b.need(ev, "slice", fmt.Sprintf("slice from %s", ev.Args[0]), T.Int(0), ev.Args[0])
	case "makeslice":
		for _, n := range ev.Args {
			b.alloc(ev, n)
		}
	case "call":
		if strings.HasSuffix(ev.Name, ".Grow") && len(ev.Args) > 0 {
			b.alloc(ev, ev.Args[len(ev.Args)-1])
		}
	}
	_ = e
}

// alloc: n is at most a megabyte, or what a file holds.
func (b *bounds) alloc(ev *Event, n *Term) {
	e, T := b.e, b.e.T
	if n == nil || !b.tainted(n) {
		return
	}
	b.need(ev, "make", fmt.Sprintf("%s elements are allocated", n), T.Int(0), n)
	var sizes []*Term
	for t := range ev.St.facts {
		t.walk(func(x *Term) bool {
			if x.Name == "size" || x.Name == "filesize" || x.Name == "fsize" {
				sizes = append(sizes, x)
			}
			return true
		})
	}
	if os.Getenv("VDBG") != "" {
		fmt.Println("SIZES", sizes, ev.St)
	}
	sort.Slice(sizes, func(i, j int) bool { return sizes[i].ID < sizes[j].ID })
	for _, s := range sizes {
		if e.provesLe(ev.St, n, s) {
			b.n++
			b.r.oblige("allocations", fmt.Sprintf("%s: %s", b.what, n))
			return
		}
	}
	b.need(ev, "make", fmt.Sprintf("%s elements are allocated", n), n, T.Int(1<<20))
}

// edge: a position read from a file that a loop continues at is further on.
func (b *bounds) edge(e *Engine, _, st *State, fr *Frame, head *ssa.BasicBlock, old, new map[ssa.Value]*Term) {
	r := b.r
	var bad *Term
	n := 0
	for _, in := range head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		bt := basicOf(ph.Type())
		o, w := old[ph], new[ph]
		if bt == nil || bt.Info()&types.IsInteger == 0 || bt.Info()&types.IsUnsigned != 0 || o == nil || w == nil {
			continue
		}
		n++
		if e.provesLe(st, e.T.Add(o, e.T.Int(1)), w) || e.provesLe(st, e.T.Add(w, e.T.Int(1)), o) {
			return // a counter, or a position that goes forward
		}
		if b.jump(w) || o == w {
			z := st.clone()
			if e.assume(z, e.T.LeInt(w, o), true) {
				bad = w
			}
		}
	}
	if n == 0 || bad == nil {
		return
	}
	ev := &Event{E: e, Kind: "loop", St: st, Fr: fr, Ins: head.Instrs[len(head.Instrs)-1]}
	for _, in := range head.Instrs {
		if in.Pos().IsValid() {
			ev.Ins = in
			break
		}
	}
	r.v(ev, "loop", "%s: a loop in %s continues at %s, and nothing shows that this is further on", b.what, shortFn(head.Parent()), bad)
}

func (b *bounds) jump(t *Term) bool {
	return b.tainted(t) || t.contains(func(x *Term) bool { return strings.HasPrefix(x.Name, "declen") })
}

// run analyses fn for any arguments.
func (b *bounds) run(fn *ssa.Function, st *State, args ...*Term) []Out {
	e, r := b.e, b.r
	e.H.On = func(ev *Event) { b.on(ev) }
	e.H.Edge = b.edge
	outs := r.run(e, fn, st, args...)
	e.H.On, e.H.Edge = nil, nil
	seen := map[string]bool{}
	for _, o := range outs {
		for k, v := range o.st.flags {
			if strings.HasPrefix(k, "maybe:") && !seen[k] && !b.quiet {
				seen[k] = true
				r.undecided("%s", v)
			}
		}
		if o.kind == "panic" && o.st.fault == nil {
			r.oblige("panics", b.what)
		}
	}
	return outs
}

func (r *Rule) newBounds(what string) *bounds {
	e := r.engine()
	e.NoFault, e.OneFault = false, true
	return &bounds{r: r, e: e, what: what}
}

// fieldsRead: loads of the named fields hold values read from files.
func fieldsRead(names ...string) func(t *Term) bool {
	return func(t *Term) bool {
		if len(t.Args) == 0 {
			return false
		}
		for _, n := range names {
			if strings.HasSuffix(t.Args[0].String(), "."+n) {
				return true
			}
		}
		return false
	}
}

func ruleV01(r *Rule) {
	boundsList(r)
	boundsNames(r)
	for _, f := range [][3]string{{"", "Index", "docid2Doc"}, {"", "Doc", "Load"}, {"internal/shard", "poster", "readToLink"}, {"internal/shard", "poster", "initAppend"}, {"internal/shard", "Index", "Init"}, {"dmd", "T", "Lookup"}, {"dmd", "T", "NumDocs"}} {
		if r.broken() {
			return
		}
		fn := r.need(f[0], f[1], f[2])
		if fn == nil {
			return
		}
		b := r.newBounds(f[2])
		b.init = fieldsRead("Start", "End", "parent", "head")
		if f[2] == "readToLink" {
			b.e.Peel, b.quiet = 12, true
		}
		var args []*Term
		for i, p := range fn.Params {
			a := b.e.arg(fmt.Sprintf("a%d", i), p.Type())
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				a.NonNil = true
			}
			args = append(args, a)
		}
		b.run(fn, newState(), args...)
		r.oblige("functions", fmt.Sprintf("%s: %d bounds", f[2], b.n))
	}
}

// boundsList: the first documents of an arbitrary posting list.
func boundsList(r *Rule) {
	a := r.shardAPI()
	if a == nil {
		return
	}
	b := r.newBounds("a posting list")
	e := b.e
	e.Peel, b.quiet = 12, true
	x := e.arg("index", types.NewPointer(a.it))
	slot := e.arg("slot", a.readState.Params[1].Type())
	e.NoFault = true
	rsOuts := okOuts(e, a.readState, r.run(e, a.readState, newState(), x, slot))
	e.NoFault = false
	for _, o := range rsOuts {
		rs := results(o.ret)[0]
		pos := func(st *State) *Term {
			fa, ft := e.fieldNamed(rs, deref(rs.Typ), "Posts")
			if fa == nil {
				return nil
			}
			p := e.load(st, fa, ft)
			s, ok := deref(p.Typ).Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			for i := 0; i < s.NumFields(); i++ {
				if bt := basicOf(s.Field(i).Type()); bt != nil && bt.Kind() == types.Int64 {
					return e.load(st, e.fieldAddr(p, i, s), s.Field(i).Type())
				}
			}
			return nil
		}
		was := pos(o.st)
		if was == nil {
			r.undecided("the position of a posting list is not found")
			return
		}
		n := 0
		for _, p := range b.run(a.next, o.st.clone(), rs) {
			if p.kind != "" || e.nilness(p.st, retErr(p)) >= 0 {
				continue
			}
			n++
			is := pos(p.st)
			r.oblige("progress", "a posting list: "+is.String())
			if is == was || e.provesEq(p.st, is, e.T.Int(-1)) || e.provesLe(p.st, e.T.Add(was, e.T.Int(1)), is) {
				continue
			}
			z := p.st.clone()
			if e.assume(z, e.T.LeInt(is, was), true) && e.assume(z, e.T.EqInt(is, e.T.Int(-1)), false) {
				r.failAt(p.st, p.pos, "progress", "a posting list continues at %s, and nothing shows that this is after %s", is, was)
				return
			}
		}
		if n == 0 || b.n == 0 {
			r.undecided("a posting list: %d documents and %d bounds are seen", n, b.n)
		}
	}
}

// boundsNames: the entries of the names refer to earlier ones.
func boundsNames(r *Rule) {
	fn := r.need("", "", "readFnames")
	if fn == nil {
		return
	}
	for _, peel := range []int{4} {
		b := r.newBounds("path names")
		e, T := b.e, b.e.T
		e.Peel, e.Unroll, e.UnrollMax = peel, true, 4
		e.NoFault, b.quiet = true, true
		outs := okOuts(e, fn, b.run(fn, newState(), e.arg("file", fn.Params[0].Type())))
		k := 0
		for _, o := range outs {
			x := results(o.ret)[0]
			xt := deref(x.Typ)
			s, ok := xt.Underlying().(*types.Struct)
			if !ok {
				r.undecided("path names: the result is not resolved")
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				et := elemOfSlice(s.Field(i).Type())
				if et == nil {
					continue
				}
				es, ok := et.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				d := e.load(o.st, e.fieldAddr(x, i, s), s.Field(i).Type())
				n, ok := T.Len(d).isInt()
				if !ok || d.Kind == KNil {
					continue
				}
				for j := int64(1); j < n; j++ {
					for f := 0; f < es.NumFields(); f++ {
						if bt := basicOf(es.Field(f).Type()); bt == nil || bt.Info()&types.IsInteger == 0 {
							continue
						}
						p := e.load(o.st, e.fieldAddr(e.indexAddr(d, T.Int(j), et), f, es), es.Field(f).Type())
						if !b.tainted(p) {
							continue
						}
						k++
						r.oblige("references", fmt.Sprintf("path names: %s of entry %d", es.Field(f).Name(), j))
						if e.provesLe(o.st, T.Add(p, T.Int(1)), T.Int(j)) {
							continue
						}
						z := o.st.clone()
						if e.assume(z, T.LeInt(T.Int(j), p), true) {
							r.failAt(o.st, o.pos, "reference", "path names: %s of entry %d may be an entry that is not before it: %s", es.Field(f).Name(), j, p)
							return
						}
					}
				}
			}
		}
		if peel > 0 && k == 0 && !r.broken() {
			r.undecided("path names: no references between entries are seen")
		}
		r.oblige("functions", fmt.Sprintf("readFnames: %d bounds", b.n))
	}
}
