package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F01", "path name table by value numbering: tables built from symbolic names are written and read back on one symbolic file; every id, name, parent and lookup must come back as the same term, nothing may be left over", ruleF01)
}

// fnTrip writes a table of path names and reads it back.
type fnTrip struct {
	r                         *Rule
	e                         *Engine
	d                         *disk
	add, abs, write, read, mk *ssa.Function
	paths                     map[*Term][]*Term // a path and its parts
	f                         *Term
}

func ruleF01(r *Rule) {
	// parts: names by number, 0 is another name than 1
	shapes := [][][]int{
		{},
		{{0}},
		{{0}, {1}},
		{{0, 1}},
		{{0, 1}, {0, 2}, {0}},
		{{0, 0}, {1, 0}},
		{{0, 1, 0}, {1, 0}, {2}},
		{{0, 1, 0}, {0, 1, 2}, {0, 1}, {1, 0, 2}, {0, 1, 3}},
		{{0, 1}, {2, 1}, {0, 2}, {2, 0}, {2}},
		{{0}, {1}, {2}, {3}, {1, 1, 1}},
	}
	for _, s := range shapes {
		t := r.newFnTrip()
		if t == nil {
			return
		}
		t.trip(s)
	}
	t := r.newFnTrip()
	t.widths()
	for _, c := range []string{"IndexerFromConfig", "OpenIndexer", "OpenIndex"} {
		t.flow(c)
	}
}

func (r *Rule) newFnTrip() *fnTrip {
	t := &fnTrip{r: r, paths: map[*Term][]*Term{}}
	t.add = r.need("", "fnames", "addPath")
	t.abs = r.need("", "fnames", "abs")
	t.write = r.need("", "fnames", "write")
	t.read = r.need("", "", "readFnames")
	t.mk = r.need("", "", "newFnames")
	if t.add == nil || t.abs == nil || t.write == nil || t.read == nil || t.mk == nil {
		return nil
	}
	e := r.engine()
	t.e = e
	e.NoFault, e.Unroll, e.UnrollMax = true, true, 12
	e.Peel = 8
	e.H.Override = t.split
	t.d = r.newDisk(e)
	return t
}

func (t *fnTrip) file(name string) *Term {
	return t.e.T.mk(&Term{Kind: KSym, Name: "file@" + name, Typ: types.NewPointer(t.r.P.typeOf("os", "File")), NonNil: true})
}

// partsOf: the parts of a path or of the rest of one.
func (t *fnTrip) partsOf(p *Term) []*Term {
	if ps := t.paths[p]; ps != nil {
		return ps
	}
	if p.Kind == KSlice {
		ps := t.paths[p.Args[0]]
		if lo, ok := p.Args[1].isInt(); ok && ps != nil && lo == 1 && p.Args[2] == t.e.T.Len(p.Args[0]) {
			if s, ok := ps[0].isStr(); ok && s == "" {
				return ps[1:]
			}
		}
	}
	return nil
}

// rest: a string made of the parts.
func (t *fnTrip) rest(ps []*Term) *Term {
	if len(ps) == 1 {
		return ps[0]
	}
	v := t.e.T.App("pathof", types.Typ[types.String], ps...)
	t.paths[v] = ps
	return v
}

// split: what the standard functions on paths give for the symbolic ones.
func (t *fnTrip) split(ev *Event) ([]Out, bool) {
	e, T := t.e, t.e.T
	str := types.Typ[types.String]
	done := func(v *Term) ([]Out, bool) { return []Out{{st: ev.St, ret: v}}, true }
	isSep := func(x *Term) bool { s, ok := x.isStr(); return ok && s == "/" }
	if len(ev.Args) == 0 {
		return nil, false
	}
	if ev.Name == "strings.Join" {
		l, ok := e.listOf(ev.St, ev.Args[0])
		if !ok {
			return nil, false
		}
		var ps []*Term
		for i, x := range l {
			if i > 0 {
				ps = append(ps, ev.Args[1])
			}
			ps = append(ps, x)
		}
		return done(T.Cat(ps...))
	}
	ps := t.partsOf(ev.Args[0])
	if ps == nil {
		return nil, false
	}
	lead := false
	if s, ok := ps[0].isStr(); ok && s == "" {
		lead = true
	}
	switch ev.Name {
	case "path/filepath.Abs":
		return done(e.tuple(ev.Args[0], T.Nil))
	case "path/filepath.Clean", "path/filepath.ToSlash", "path.Clean":
		return done(ev.Args[0])
	case "path/filepath.IsAbs", "path.IsAbs":
		return done(T.Bool(lead))
	case "strings.HasPrefix":
		if isSep(ev.Args[1]) {
			return done(T.Bool(lead))
		}
	case "strings.TrimPrefix", "strings.TrimLeft", "strings.Trim":
		if isSep(ev.Args[1]) && lead {
			return done(t.rest(ps[1:]))
		}
	case "strings.Cut":
		if isSep(ev.Args[1]) && len(ps) > 1 {
			return done(e.tuple(ps[0], t.rest(ps[1:]), T.T))
		}
	case "strings.Split":
		if !isSep(ev.Args[1]) {
			return nil, false
		}
		a := e.alloc("split", ev.Fr, ev.Args[0], types.NewPointer(types.NewArray(str, int64(len(ps)))))
		for i, p := range ps {
			e.store(ev.St, e.indexAddr(a, T.Int(int64(i)), str), p, str)
		}
		return done(T.mk(&Term{Kind: KSlice, Args: []*Term{a, T.Int(0), T.Int(int64(len(ps)))}, Typ: types.NewSlice(str)}))
	}
	return nil, false
}

func (t *fnTrip) trip(shape [][]int) {
	r, e, T := t.r, t.e, t.e.T
	str := types.Typ[types.String]
	st := newState()
	var names []*Term
	name := func(i int) *Term {
		for len(names) <= i {
			n := e.arg(fmt.Sprintf("name%d", len(names)), str)
			l := T.Len(n)
			l.rng = &Rng{big.NewInt(1), big.NewInt(1 << 16)}
			e.assume(st, T.Eq(n, T.Str(""), str), false)
			for _, o := range names {
				e.assume(st, T.Eq(o, n, str), false)
			}
			names = append(names, n)
		}
		return names[i]
	}
	nodes := map[string]int{"": 0}
	var paths, want []*Term
	var ids []int
	path := func(p []int) {
		a := e.arg(fmt.Sprintf("path%d", len(paths)), str)
		ps := []*Term{T.Str("")}
		cat := []*Term{}
		key := ""
		for _, x := range p {
			ps = append(ps, name(x))
			cat = append(cat, T.Str("/"), name(x))
			key += fmt.Sprintf("/%d", x)
			if _, ok := nodes[key]; !ok {
				nodes[key] = len(nodes)
			}
		}
		t.paths[a] = ps
		paths, want, ids = append(paths, a), append(want, T.Cat(cat...)), append(ids, nodes[key])
	}
	// all names and what is known of them first
	for i := 0; i < 6; i++ {
		name(i)
	}
	mo := okOuts(e, t.mk, r.run(e, t.mk, st))
	if len(mo) != 1 {
		r.undecided("newFnames has %d outcomes", len(mo))
		return
	}
	st = mo[0].st
	tab := results(mo[0].ret)[0]
	for _, p := range shape {
		path(p)
	}
	if st = t.addAll(st, tab, paths, ids, "a new table"); st == nil {
		return
	}
	if !t.absAll(st, tab, ids, want, "a new table") {
		return
	}
	for session := 1; session <= 2; session++ {
		var end *Term
		f := t.file(fmt.Sprintf("names%d", session))
		w := T.mk(&Term{Kind: KIface, Args: []*Term{f}, Typ: f.Typ})
		st.heap[e.sizeKeyOf(st, f)] = T.Int(0)
		st.heap[e.posKey(handleOf(f))] = T.Int(0)
		wo := okOuts(e, t.write, r.run(e, t.write, st, tab, w))
		if len(wo) != 1 {
			r.undecided("writing the table %v has %d outcomes", shape, len(wo))
			return
		}
		st = wo[0].st
		if os.Getenv("F01DBG") != "" {
			t.d.dump(st)
		}
		for k := range st.flags {
			if strings.HasPrefix(k, "unflushed:") && st.flags[k] != "" {
				r.failAt(st, t.write.Pos(), "unflushed", "writing the table %v succeeds with bytes left in a buffer", shape)
				return
			}
		}
		end = e.posOf(st, f)
		st.heap[e.posKey(handleOf(f))] = T.Int(0)
		what := fmt.Sprintf("the table %v read back", shape)
		if session > 1 {
			what = fmt.Sprintf("the table %v read back, extended and read back again", shape)
		}
		ro := r.run(e, t.read, st, w)
		ok := okOuts(e, t.read, ro)
		for _, o := range ro {
			if m := misread(o.st); m != "" {
				r.failAt(o.st, t.read.Pos(), "misread", "%s: %s", what, m)
				return
			}
		}
		if len(ok) != 1 {
			for _, o := range ro {
				if o.kind == "" && e.nilness(o.st, retErr(o)) <= 0 {
					continue
				}
				if open := undecidedSince(o.st, st); len(open) == 0 {
					r.failAt(o.st, o.pos, "rejects", "%s: refused", what)
					return
				} else if len(ok) == 0 || !unknownRead(o.st) {
					if env, ok := e.reachable(o.st); ok {
						r.failAt(o.st, o.pos, "rejects", "%s: refused (e.g. %s)", what, env)
						return
					}
				}
			}
			r.undecided("%s: %d successful outcomes", what, len(ok))
			return
		}
		st = ok[0].st
		tab = results(ok[0].ret)[0]
		r.oblige("tables read back", what)
		if p := e.posOf(st, f); p == nil || !e.provesEq(st, p, end) {
			if p != nil {
				if env, ok := e.separate(st, p, end, 64); ok {
					r.failAt(st, t.read.Pos(), "consumed", "%s: the reader ends at %s, the writer at %s (e.g. %s)", what, p, end, env)
					return
				}
			}
			r.undecided("%s: where the reader ends is not resolved", what)
		}
		if !t.absAll(st, tab, ids, want, what) {
			return
		}
		if st = t.addAll(st, tab, paths, ids, what); st == nil {
			return
		}
		k := len(paths)
		path([]int{3 + session})
		if len(shape) > 0 {
			path(append(append([]int{}, shape[0]...), 3))
		}
		if st = t.addAll(st, tab, paths[k:], ids[k:], what); st == nil {
			return
		}
		if !t.absAll(st, tab, ids, want, what+" and extended") {
			return
		}
	}
}

// undecidedSince: the conditions taken on a path that were not decided.
func undecidedSince(st, from *State) []*Term {
	var r []*Term
	for f := range st.facts {
		if _, ok := from.facts[f]; !ok {
			r = append(r, f)
		}
	}
	return r
}

// unknownRead: the path depends on file contents that are not resolved.
func unknownRead(st *State) bool {
	for f := range st.facts {
		if f.contains(func(x *Term) bool {
			return x.Kind == KApp && (strings.HasSuffix(x.Name, "file") || x.Name == "fileread")
		}) {
			return true
		}
	}
	return false
}

// addAll: the ids of the paths in the table.
func (t *fnTrip) addAll(st *State, tab *Term, paths []*Term, ids []int, what string) *State {
	r, e, T := t.r, t.e, t.e.T
	for i, p := range paths {
		all := r.run(e, t.add, st, tab, p)
		os := okOuts(e, t.add, all)
		if len(os) != 1 {
			for _, o := range all {
				if o.kind != "" && len(os) == 0 {
					r.failAt(o.st, o.pos, "lookup:fails", "%s: adding %v panics", what, t.paths[p][1:])
					return nil
				}
			}
			r.undecided("addPath of %v in %s has %d successful outcomes", t.paths[p][1:], what, len(os))
			return nil
		}
		st = os[0].st
		r.oblige("lookups", fmt.Sprintf("%s: %v", what, t.paths[p][1:]))
		id := results(os[0].ret)[0]
		want := T.Int(int64(ids[i]))
		if id == want {
			continue
		}
		if _, k := id.isInt(); k {
			r.failAt(st, t.add.Pos(), "lookup", "%s: the path %v has id %s, not %d", what, t.paths[p][1:], id, ids[i])
		} else if env, ok := e.separate(st, id, want, 32); ok {
			r.failAt(st, t.add.Pos(), "lookup", "%s: the path %v has id %s, not %d (e.g. %s)", what, t.paths[p][1:], id, ids[i], env)
		} else {
			r.undecided("%s: the path %v has id %s", what, t.paths[p][1:], id)
		}
		return nil
	}
	return st
}

// absAll: the paths of the ids.
func (t *fnTrip) absAll(st *State, tab *Term, ids []int, want []*Term, what string) bool {
	r, e, T := t.r, t.e, t.e.T
	for i, id := range ids {
		os := okOuts(e, t.abs, r.run(e, t.abs, st.clone(), tab, T.Int(int64(id))))
		if len(os) == 0 {
			r.failAt(st, t.abs.Pos(), "names:missing", "%s: there is no path %d", what, id)
			return false
		}
		for _, o := range os {
			r.oblige("names", fmt.Sprintf("%s: %d", what, id))
			got := results(o.ret)[0]
			if got == want[i] {
				continue
			}
			known := true
			got.walk(func(x *Term) bool {
				if x.Kind == KSym && x.Frame != nil || x.Kind == KHv || x.Kind == KInit || x.Kind == KApp && x.Name != "cat" {
					known = false
				}
				return true
			})
			if known {
				r.failAt(o.st, t.abs.Pos(), "names", "%s: path %d is %s, not %s", what, id, got, want[i])
			} else {
				r.undecided("%s: path %d is %s", what, id, got)
			}
			return false
		}
	}
	return true
}

// widths: the integers written are the number of nodes, the lengths of names
// and the parents in full.
func (t *fnTrip) widths() {
	r, e, T := t.r, t.e, t.e.T
	mo := okOuts(e, t.mk, r.run(e, t.mk, newState()))
	if len(mo) != 1 {
		return
	}
	st, tab := mo[0].st, results(mo[0].ret)[0]
	var da *Term
	var dt types.Type
	if s, ok := deref(tab.Typ).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if l, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
				if _, ok := l.Elem().Underlying().(*types.Struct); ok && dt == nil {
					da, dt = e.fieldNamed(tab, deref(tab.Typ), s.Field(i).Name())
				}
			}
		}
	}
	if da == nil {
		r.undecided("the nodes of the path name table are not found")
		return
	}
	nodes := e.arg("nodes", dt)
	n := T.Len(nodes)
	n.rng = &Rng{big.NewInt(1), big.NewInt(1<<31 - 1)}
	e.store(st, da, nodes, dt)
	e.Unroll, e.Peel = false, 2
	f := t.file("names")
	st.heap[e.sizeKeyOf(st, f)] = T.Int(0)
	st.heap[e.posKey(handleOf(f))] = T.Int(0)
	w := T.mk(&Term{Kind: KIface, Args: []*Term{f}, Typ: f.Typ})
	found := map[string]bool{}
	for _, o := range okOuts(e, t.write, r.run(e, t.write, st, tab, w)) {
		for _, it := range o.st.items.list(nil) {
			if it.Kind != "disk" {
				continue
			}
			for _, pc := range e.pieceOf(it.Args[2]) {
				if pc.Enc == "bytes" || pc.Enc == "?" || pc.Enc == "zero" || pc.Val == nil {
					continue
				}
				// the quantity it is made from
				var q *Term
				what := ""
				many, chars := false, false
				pc.Val.walk(func(x *Term) bool {
					var w string
					switch {
					case x == n:
						w = "number of nodes"
					case x.Kind == KApp && x.Name == "len" && x.contains(func(y *Term) bool { return y == nodes }):
						w = "length of a name"
						chars = x.Args[0].Kind == KApp && x.Args[0].Name != "bytes"
					case x.Kind == KApp && hasPfx(x.Name, "unicode/utf8.RuneCount"):
						w, chars = "length of a name", true
					case x.Kind == KInit && basicOf(x.Typ) != nil && basicOf(x.Typ).Kind() == types.Uint32:
						w = "parent of a node"
					default:
						return true
					}
					if q != nil && q != x {
						many = true
					}
					q, what = x, w
					return false
				})
				if q == nil || many {
					continue
				}
				found[what] = true
				r.oblige("integers written", what+": "+pc.Val.String())
				x := e.arg(what, types.Typ[types.Uint32])
				y := x
				if chars {
					y = e.arg("number of characters", types.Typ[types.Uint32])
				}
				v := T.subst(pc.Val, map[*Term]*Term{q: y}, map[*Term]*Term{})
				r.mustEqual(e, newState(), t.write.Pos(), "writer:"+what, what+" as written", v, x, 32)
			}
		}
	}
	for _, q := range []string{"number of nodes", "length of a name", "parent of a node"} {
		if !found[q] {
			r.undecided("where the %s is written is not found", q)
		}
	}
}

// flow: the table read on opening is the one used, extended and written on
// closing, in the same file from its beginning.
func (t *fnTrip) flow(which string) {
	r := t.r
	s := r.newSession(which)
	if s == nil {
		return
	}
	e := s.e
	e.NoFault = true
	type use struct {
		what        string
		h, pos, tab *Term
		path        *Term
		flags       int64
		known       bool
	}
	s.on(nil)
	on := e.H.On
	calls := func(ev *Event) {
		what := ""
		switch ev.Fn {
		case t.read:
			what = "read"
		case t.write:
			what = "write"
		case t.add:
			what = "add"
		case t.abs:
			what = "abs"
		default:
			return
		}
		it := &Item{Kind: "fnames", Name: what, Ins: ev.Ins, Fr: ev.Fr}
		if ev.Kind == "leave" {
			if what != "read" || len(results(ev.Res)) == 0 {
				return
			}
			it.Name = "table"
			it.Args = []*Term{results(ev.Res)[0]}
			ev.St.addItem(it)
			return
		}
		switch what {
		case "read", "write":
			h := handleOf(ev.Args[len(ev.Args)-1])
			p := ev.St.heap[e.pathKey(h)]
			if p == nil {
				p = T0(e)
			}
			pos := e.posOf(ev.St, h)
			if e.appends(ev.St, h) {
				pos = e.sizeOf(ev.St, h)
			}
			if pos == nil {
				pos = T0(e)
			}
			it.Args = []*Term{ev.Args[0], p, pos}
		default:
			it.Args = []*Term{ev.Args[0]}
		}
		ev.St.addItem(it)
	}
	e.H.On = func(ev *Event) {
		on(ev)
		if ev.Kind == "enter" || ev.Kind == "leave" {
			calls(ev)
		}
	}
	s.anyRecv()
	s.construct()
	want := r.apiPath(e, "FnamesPath", s.Root)
	for i, o := range s.success() {
		if i > 0 {
			break
		}
		outs := []Out{o}
		var ops []string
		if s.Write {
			ops = []string{"Add", "Close"}
		}
		for _, op := range ops {
			var next []Out
			for _, b := range outs {
				b.ret = o.ret
				var fn *ssa.Function
				var as []Out
				if op == "Add" {
					fn, as = s.method(b, op, e.arg("doc", r.P.Fn("", "Indexer", "Add").Params[1].Type()))
				} else {
					fn, as = s.method(b, op)
				}
				if fn == nil {
					return
				}
				for _, a := range okOuts(e, fn, as) {
					if len(next) < 4 {
						next = append(next, a)
					}
				}
			}
			outs = next
		}
		if len(outs) == 0 {
			r.undecided("%s, %v: no successful outcome", which, ops)
		}
		for _, b := range outs {
			t.flowOne(which, s, e, b.st, want)
		}
	}
}

// appendsTo: the position is the size the file had when it was not yet used.
func (e *Engine) appendsTo(p, pos *Term) bool {
	return pos == e.fileDefault(e.sizeKey(p))
}

// T0 stands for what is not known.
func T0(e *Engine) *Term { return e.T.mk(&Term{Kind: KSym, Name: "unknown"}) }

func (t *fnTrip) flowOne(which string, s *session, e *Engine, st *State, want *Term) {
	r := t.r
	var tab *Term
	seen := map[string]int{}
	for _, it := range st.items.list(nil) {
		if it.Kind != "fnames" {
			continue
		}
		seen[it.Name]++
		switch it.Name {
		case "table":
			tab = it.Args[0]
		case "read", "write":
			r.oblige("files of the table", fmt.Sprintf("%s: %s %s from %s", which, it.Name, it.Args[1], it.Args[2]))
			if want != nil && it.Args[1] != want {
				if it.Args[1] == T0(e) {
					r.undecided("%s: the file of the table (%s) is not resolved", which, it.Name)
				} else {
					r.failAt(st, it.Pos, "flow:path", "%s: the table of path names is in %s, its file is %s (%s)", which, it.Args[1], want, it.Name)
				}
			}
			if p, k := it.Args[2].isInt(); k && p != 0 || e.apart(st, it.Args[2], e.T.Int(0)) && it.Args[2] != T0(e) {
				r.failAt(st, it.Pos, "flow:pos", "%s: %s of the table of path names starts at %s", which, it.Name, it.Args[2])
			} else if e.appendsTo(it.Args[1], it.Args[2]) && which == "OpenIndexer" {
				r.failAt(st, it.Pos, "flow:pos", "%s: %s of the table of path names starts at the end of the stored one", which, it.Name)
			} else if !k {
				r.undecided("%s: %s of the table of path names starts at %s", which, it.Name, it.Args[2])
			}
		}
		if it.Name == "add" || it.Name == "write" {
			if tab == nil {
				tab = it.Args[0]
			}
			if it.Args[0] != tab {
				if it.Args[0].Kind == KAlloc && tab.Kind == KAlloc {
					r.failAt(st, it.Pos, "flow:table", "%s: %s of another table of path names than the one of the index", which, it.Name)
				} else {
					r.undecided("%s: the table at %s is %s, not shown to be %s", which, it.Name, it.Args[0], tab)
				}
			}
		}
	}
	if s.Write && seen["write"] != 1 {
		if seen["write"] == 0 {
			r.failAt(st, t.write.Pos(), "flow:unwritten", "%s: Close succeeds without writing the path names", which)
		}
	}
	if which != "IndexerFromConfig" && seen["read"] == 0 {
		r.failAt(st, s.Fn.Pos(), "flow:unread", "%s succeeds without reading the path names", which)
	}
	if os.Getenv("F01DBG") != "" {
		fmt.Println("FLOW", which, seen, tab)
	}
}
