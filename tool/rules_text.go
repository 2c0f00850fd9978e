package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B03", "value numbering of the coordinates in which texts are located, cut out, printed and loaded, for texts at any place of a file", ruleB03)
}

func ruleB03(r *Rule) {
	textLoad(r)
	ks := []int64{1, 2, 3}
	if r.Tier == "thorough" {
		ks = []int64{1, 2, 3, 4, 5}
	}
	textFind(r, 2, 2)
	textFinds(r, 2, 2)
	for _, k := range ks {
		textFind(r, k, 1)
		textFinds(r, k, 1)
		textVerb(r, "blot", k)
		textVerb(r, "like", k)
		textVerb(r, "unblot", k)
	}
}

// textLoad: loading a document reads its part of its file.
func textLoad(r *Rule) {
	fn := r.need("", "Doc", "Load")
	if fn == nil {
		return
	}
	e := r.engine()
	e.NoFault = true
	T := e.T
	doc := e.arg("doc", fn.Params[0].Type())
	st := newState()
	val := func(f string) *Term {
		a, t := e.fieldNamed(doc, deref(doc.Typ), f)
		if a == nil {
			r.undecided("Doc.%s not found", f)
			return nil
		}
		return e.load(st, a, t)
	}
	path, start, end := val("Path"), val("Start"), val("End")
	if path == nil || start == nil || end == nil {
		return
	}
	e.H.On = func(ev *Event) {
		if op := fsOp(ev); op != nil && op.Op == "open" {
			r.oblige("loads", "opens")
			if op.Path == path {
				ev.St.flags["opened"] = "1"
			} else if op.Path != nil && op.Path.Kind == KInit {
				r.v(ev, "file", "%s is opened to load a document, not %s", op.Path, path)
			}
		}
	}
	n := 0
	fs := T.App("filesize", types.Typ[types.Int64], path)
	for _, o := range r.run(e, fn, st, doc) {
		if o.kind != "" {
			continue
		}
		if e.nilness(o.st, retErr(o)) != -1 {
			// only if the file has no such part
			r.oblige("loads", "fails")
			if e.provesLe(o.st, T.Add(fs, T.Int(1)), end) || e.provesLe(o.st, T.Add(end, T.Int(1)), start) {
				continue
			}
			free := func(t *Term) bool { return e.inputAtom(t) || t == fs }
			env, ok := e.instances(o.st, []*Term{start, end, fs}, free, nil, func(_ instEnv, ev func(*Term) (*big.Int, bool)) bool {
				s, k1 := ev(start)
				d, k2 := ev(end)
				f, k3 := ev(fs)
				return k1 && k2 && k3 && f.Sign() >= 0 && s.Cmp(d) < 0 && d.Cmp(f) <= 0
			})
			if ok {
				r.failAt(o.st, o.pos, "loadfails", "loading a part of a file that is there fails (%s)", env)
			} else {
				r.undecided("loading a document fails on a path not shown to be about a part that is not there")
			}
			continue
		}
		n++
		a, t := e.fieldNamed(doc, deref(doc.Typ), "Dat")
		if a == nil {
			return
		}
		v := e.load(o.st, a, t)
		c, off, l := v, T.Int(0), e.T.Len(v)
		for c.Kind == KSlice && c.Args[0].Kind != KAlloc {
			off = T.Add(off, c.Args[1])
			c = c.Args[0]
		}
		if c.Kind == KSlice {
			c = e.contentOf(o.st, c)
		}
		if c == nil || c.Kind != KApp || c.Name != "fileread" || len(c.Args) != 3 {
			r.undecided("the text of a loaded document is not resolved: %s", v)
			continue
		}
		must := func(key, what string, got, want *Term) {
			r.oblige(key, what)
			if e.same(o.st, got, want, 64) > 0 {
				return
			}
			free := func(t *Term) bool { return e.inputAtom(t) || t == fs }
			env, ok := e.instances(o.st, []*Term{got, want, fs}, free, nil, func(_ instEnv, ev func(*Term) (*big.Int, bool)) bool {
				x, k1 := ev(got)
				y, k2 := ev(want)
				z, k3 := ev(fs)
				return k1 && k2 && k3 && z.Sign() >= 0 && x.Cmp(y) != 0
			})
			if ok {
				r.failAt(o.st, o.pos, key, "%s: %s instead of %s (%s)", what, got, want, env)
			} else {
				r.undecided("%s: %s not shown equal to %s", what, got, want)
			}
		}
		if rl := c.Args[2]; rl.Kind == KSym && strings.HasPrefix(rl.Name, "readlen") {
			l = e.T.subst(l, map[*Term]*Term{rl: T.Sub(fs, c.Args[1])}, map[*Term]*Term{}) // all of the rest
		}
		must("loadstart", "where the text of a document is read from", T.Add(off, c.Args[1]), start)
		if e.provesEq(o.st, start, T.Int(0)) && e.provesEq(o.st, end, T.Int(0)) {
			continue // all of the file
		}
		must("loadlen", "length of the text of a document", l, T.Sub(end, start))
		if o.st.flags["opened"] == "" {
			r.undecided("which file the text of a document is read from is not resolved")
		}
	}
	if n == 0 {
		r.undecided("Doc.Load has no successful outcome")
	}
}

// text is a document whose words lie anywhere in it.
type text struct {
	r    *Rule
	e    *Engine
	t    *toker
	k    int64
	what string
	dat  *Term
	toks []tokSpec
	rel  []*Term // where the words begin, in the document
	len  []*Term
}

func (r *Rule) newText(e *Engine, t *toker, k int64, pat string) *text {
	x := &text{r: r, e: e, t: t, k: k}
	u32 := types.Typ[types.Uint32]
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	sym := func(name string, typ types.Type, lo, hi int64) *Term {
		s := e.T.mk(&Term{Kind: KSym, Name: "arg:text." + name, Typ: typ})
		s.rng = &Rng{big.NewInt(lo), big.NewInt(hi)}
		return s
	}
	for i, c := range pat {
		rel := sym(fmt.Sprintf("at%d", i), u32, 0, 1<<28)
		l := sym(fmt.Sprintf("len%d", i), types.Typ[types.Int], 1, 1<<20)
		b := e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:text.lit%d", i), Typ: bytesT, NonNil: true})
		lit := e.T.mk(&Term{Kind: KSlice, Args: []*Term{b, e.T.Int(0), l}, Typ: bytesT})
		x.toks = append(x.toks, tokSpec{word: c == 'W', lit: lit, rel: rel})
		if c == 'W' {
			x.rel, x.len = append(x.rel, rel), append(x.len, l)
		}
	}
	t.toks, t.same = x.toks, true
	t.blot = func(ev *Event, i int) *Term { return t.fed(ev, "text", i) }
	x.dat = e.T.mk(&Term{Kind: KSym, Name: "arg:doc.Dat", Typ: bytesT, NonNil: true})
	return x
}

// doc makes a document with the text, somewhere in its file.
func (x *text) fill(st *State, doc *Term, start *Term) {
	e := x.e
	set := func(f string, v *Term) {
		if a, t := e.fieldNamed(doc, deref(doc.Typ), f); a != nil {
			e.store(st, a, v, t)
		} else {
			x.r.undecided("Doc.%s not found", f)
		}
	}
	set("Dat", x.dat)
	set("Start", start)
}

func (x *text) start() *Term {
	s := x.e.T.mk(&Term{Kind: KSym, Name: "arg:doc.Start", Typ: types.Typ[types.Uint32]})
	s.rng = &Rng{big.NewInt(0), big.NewInt(1 << 30)}
	return s
}

func (x *text) begin(i int) *Term { return x.rel[i-int(x.k)+1] }

func (x *text) end(i int) *Term { return x.e.T.Add(x.rel[i], x.len[i]) }

func (x *text) slot(i int) *Term {
	b := x.e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:text.b%d", i), Typ: types.Typ[types.Uint32]})
	return x.e.T.Mod(b, x.e.T.Int(1<<16), types.Typ[types.Uint32])
}

// about: the words a value mentions, by where they begin if it does so.
func (x *text) about(v *Term) (is []int) {
	for i := range x.rel {
		if v.contains(func(y *Term) bool { return y == x.rel[i] }) {
			is = append(is, i)
		}
	}
	if len(is) > 0 {
		return
	}
	for i := range x.rel {
		if v.contains(func(y *Term) bool { return y == x.rel[i] || y == x.len[i] }) {
			is = append(is, i)
		}
	}
	return
}

// span: a part of the text, in coordinates beginning at base, is a window;
// which one, by its last word.
func (x *text) span(st *State, pos token.Pos, key, what string, lo, hi, base *Term, bits int) (win int, ok bool) {
	r, e := x.r, x.e
	r.oblige("windows of text", what)
	is := x.about(hi)
	if len(is) == 0 {
		for _, i := range x.about(lo) {
			is = append(is, i+int(x.k)-1)
		}
	}
	if len(is) != 1 || is[0] >= len(x.rel) {
		r.undecided("%s: the window is not resolved: %s to %s", what, lo, hi)
		return 0, false
	}
	i := is[0]
	if i < int(x.k)-1 {
		r.failAt(st, pos, key, "%s: %s to %s ends before the window of %d words is full", what, lo, hi, x.k)
		return 0, false
	}
	a := r.mustEqual(e, st, pos, key, what+": start", lo, e.T.Add(base, x.begin(i)), bits)
	b := r.mustEqual(e, st, pos, key, what+": end", hi, e.T.Add(base, x.end(i)), bits)
	return i, a && b
}

// cut watches for parts of the text being cut out.
func (x *text) cut(ev *Event) {
	if ev.Kind != "slice" || ev.Addr == nil {
		return
	}
	b, lo, hi := ev.Addr, ev.Args[0], ev.Args[1]
	if b.Kind == KSlice {
		lo, hi, b = x.e.T.Add(lo, b.Args[1]), x.e.T.Add(hi, b.Args[1]), b.Args[0]
	}
	if b != x.dat || len(x.about(lo))+len(x.about(hi)) == 0 {
		return
	}
	x.span(ev.St, ev.Ins.Pos(), "cut", x.what+": text cut out of the document", lo, hi, x.e.T.Int(0), 64)
}

// texts for windows of k words.
func textPats(k int64) []string {
	w := strings.Repeat("W", int(k))
	return []string{w, "o" + w + "oW", w + "WW"}
}

// textFind: the positions of the fingerprint looked for.
func textFind(r *Rule, k, il int64) {
	fn := r.need("", "Index", "FindBlot")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	q := r.newQpipeOn(r.engine(), 1, k, il)
	if q == nil {
		return
	}
	e := q.e
	e.H.Key = chanKey
	want := e.arg("wanted", fn.Params[1].Type())
	for _, pat := range textPats(k) {
		x := r.newText(e, &q.toker, k, pat)
		x.what = fmt.Sprintf("FindBlot, windows of %d, text %q", k, pat)
		st := q.st.clone()
		doc := e.arg("doc", fn.Params[2].Type())
		x.fill(st, doc, x.start())
		e.H.On = x.cut
		n := 0
		for _, o := range r.run(e, fn, st, q.x, want, doc) {
			x.panics(o, fn)
			if o.kind != "" || e.nilness(o.st, retErr(o)) != -1 {
				continue
			}
			n++
			rs := results(o.ret)
			i, ok := x.span(o.st, fn.Pos(), "found", x.what+": position found", rs[0], rs[1], x.start(), 32)
			if !ok {
				continue
			}
			r.oblige("found windows", x.what)
			if e.provesEq(o.st, want, x.slot(i)) {
				continue
			}
			if env, ok := e.separate(o.st, want, x.slot(i), 32); ok {
				r.failAt(o.st, fn.Pos(), "other", "%s: the position of the window after word %d is returned for another fingerprint (%s)", x.what, i+1, env)
			} else {
				r.undecided("%s: which fingerprint a position is returned for is not resolved", x.what)
			}
		}
		e.H.On = nil
		if n == 0 {
			r.undecided("%s: never found", x.what)
		}
	}
}

// panics: looking up text never fails.
func (x *text) panics(o Out, fn *ssa.Function) {
	if o.kind != "panic" {
		return
	}
	if env, ok := x.e.possible(o.st, append(append([]*Term{x.start()}, x.rel...), x.len...)...); ok {
		x.r.failAt(o.st, o.pos, "panic", "%s: panics (%s)", x.what, env)
	}
}

// textFinds: texts reported by FindBlots.
func textFinds(r *Rule, k, il int64) {
	fn := r.need("", "Index", "FindBlots")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	q := r.newQpipeOn(r.engine(), 1, k, il)
	if q == nil {
		return
	}
	e := q.e
	e.H.Key = chanKey
	m := e.arg("wanted", fn.Params[1].Type())
	for _, pat := range textPats(k) {
		x := r.newText(e, &q.toker, k, pat)
		x.what = fmt.Sprintf("FindBlots, windows of %d, text %q", k, pat)
		st := q.st.clone()
		doc := e.arg("doc", fn.Params[2].Type())
		x.fill(st, doc, x.start())
		e.H.On = func(ev *Event) {
			x.cut(ev)
			x.mapped(ev)
		}
		for _, o := range r.run(e, fn, st, q.x, m, doc) {
			x.panics(o, fn)
		}
		e.H.On = nil
	}
}

// mapped: text entered under a fingerprint is that of its window.
func (x *text) mapped(ev *Event) {
	if ev.Kind != "mapupdate" || len(ev.Args) == 0 || ev.Val == nil {
		return
	}
	i, ok := blotOf(ev.Args[0], "text")
	v := ev.Val
	if !ok || v.Kind != KSlice || v.Args[0] != x.dat {
		return
	}
	x.r.oblige("texts by fingerprint", x.what)
	if w := x.about(v.Args[2]); len(w) == 1 && w[0] != i {
		x.r.v(ev, "mapped", "%s: the text of the window after word %d is entered under the fingerprint after word %d", x.what, w[0]+1, i+1)
	}
}

// textVerb: texts and positions a verb reports.
func textVerb(r *Rule, verb string, k int64) {
	e := r.engine()
	q := r.newQpipe(e, 1, k)
	if q == nil {
		return
	}
	cl := r.newCli(e, verb)
	if cl == nil {
		return
	}
	e.H.Key = chanKey
	e.NoFault = true
	for k, v := range q.st.heap {
		cl.st.heap[k] = v
	}
	for f, v := range q.st.facts {
		cl.st.facts[f] = v
	}
	strs := cl.Run.Params[1].Type()
	al := e.alloc("cliargs", nil, q, strs)
	e.resetAlloc(cl.st, al)
	e.store(cl.st, e.indexAddr(al, e.T.Int(0), types.Typ[types.String]), e.arg("cliarg", types.Typ[types.String]), types.Typ[types.String])
	cl.Args = e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(1)}, Typ: strs})
	if _, ok := map[string]bool{"blot": true}[verb]; ok {
		for n := range cl.ptrs {
			cl.Flags[n] = e.T.T
		}
	}
	for _, pat := range textPats(k) {
		x := r.newText(e, &q.toker, k, pat)
		x.what = fmt.Sprintf("%s, windows of %d, text %q", verb, k, pat)
		seen := map[string]bool{}
		cl.over = func(ev *Event) ([]Out, bool) {
			if ev.Fn != nil && pkgOf(ev.Fn) == "" {
				switch {
				case ev.Fn.Name() == "OpenIndex":
					return []Out{{st: ev.St, ret: e.tuple(q.x, e.T.Nil)}}, true
				case ev.Fn.Name() == "Close" && recvName(ev.Fn) == "Index":
					return []Out{{st: ev.St, ret: e.T.Nil}}, true
				case ev.Fn.Name() == "Get" && recvName(ev.Fn) == "Query":
					if verb == "unblot" {
						x.answer(ev)
					}
					return []Out{{st: ev.St, ret: e.T.Nil}}, true
				case ev.Fn.Name() == "Load" && recvName(ev.Fn) == "Doc":
					return []Out{{st: ev.St, ret: e.T.Nil}}, true
				}
			}
			switch ev.Name {
			case "fmt.Sscanf":
				if vs, ok := e.listOf(ev.St, ev.Args[2]); ok && len(vs) == 1 {
					p := unbox(vs[0])
					e.store(ev.St, p, e.arg("wanted", deref(p.Typ)), deref(p.Typ))
					return []Out{{st: ev.St, ret: e.tuple(e.T.Int(1), e.T.Nil)}}, true
				}
			case "io.ReadAll", "io/ioutil.ReadAll", "os.ReadFile", "io/ioutil.ReadFile":
				seen["read"] = true
				return []Out{{st: ev.St, ret: e.tuple(x.dat, e.T.Nil)}}, true
			}
			return q.toker.call(ev)
		}
		e.H.On = func(ev *Event) {
			x.cut(ev)
			x.mapped(ev)
			if ev.Kind == "slice" && ev.Addr == x.dat {
				seen["cut"] = true
			}
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "fmt.") && strings.Contains(ev.Name, "rint") {
				if x.printed(ev) {
					seen["printed"] = true
				}
			}
		}
		n := 0
		for _, o := range r.run(e, cl.Run, cl.st.clone(), cl.recv, cl.Args) {
			x.panics(o, cl.Run)
			if o.kind == "" {
				n++
			}
		}
		e.H.On = nil
		r.oblige("verbs", fmt.Sprint(x.what, " ", seen))
		if n == 0 || len(x.rel) > int(k) && !seen["cut"] && !seen["printed"] {
			r.undecided("%s: no text reported", x.what)
		}
	}
}

// printed: positions printed with a fingerprint are those of its window.
func (x *text) printed(ev *Event) bool {
	e := x.e
	vs, ok := e.listOf(ev.St, ev.Args[len(ev.Args)-1])
	if !ok {
		return false
	}
	blot, at := -1, []*Term(nil)
	for _, v := range vs {
		v = unbox(v)
		if i, ok := blotOf(v, "text"); ok {
			blot = i
		} else if len(x.about(v)) > 0 {
			at = append(at, v)
		}
	}
	if blot < 0 || len(at) != 2 {
		return false
	}
	i, ok := x.span(ev.St, ev.Ins.Pos(), "printed", x.what+": positions printed", at[0], at[1], e.T.Int(0), 32)
	if ok && i != blot {
		x.r.failAt(ev.St, ev.Ins.Pos(), "printed", "%s: the fingerprint after word %d is printed with the positions of the window after word %d", x.what, blot+1, i+1)
	}
	return true
}

// answer: the query finds one document, somewhere in a file.
func (x *text) answer(ev *Event) {
	e := x.e
	b := ev.Args[1]
	a, t := e.fieldNamed(b, deref(ev.Fn.Params[1].Type()), "Docs")
	if a == nil {
		x.r.undecided("Blot.Docs not found")
		return
	}
	al := e.alloc("answer", nil, x, t)
	e.resetAlloc(ev.St, al)
	d := e.indexAddr(al, e.T.Int(0), elemOfSlice(t))
	x.fill(ev.St, d, x.start())
	e.store(ev.St, a, e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(1)}, Typ: t}), t)
}
