package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register("B02", "symbolic token streams through the indexing pipeline and the queries: value numbering of the words fed to the fingerprinter, of the fingerprints filed, returned and compared, and of what is given to the tokenizer", ruleB02)
}

// streams: texts as sequences of words (W) and other tokens (o).
func streams(k int64) []string {
	w := strings.Repeat("W", int(k))
	ss := []string{"", "o", w, w + "W", "oW" + w + "WoW", strings.Repeat("Wo", int(k)+1), "WWooW"}
	if k > 1 {
		ss = append(ss, strings.Repeat("W", int(k)-1))
	}
	return ss
}

// fprint: one text.
type fprint struct {
	e     *Engine
	toks  []tokSpec
	words []*Term // literals
	poss  []*Term // positions
}

func (r *Rule) newFprint(e *Engine, name, pat string) *fprint {
	f := &fprint{e: e, toks: []tokSpec{}}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	for i, c := range pat {
		t := tokSpec{word: c == 'W', lit: e.arg(fmt.Sprintf("%s.lit%d", name, i), bytesT), pos: e.arg(fmt.Sprintf("%s.pos%d", name, i), types.Typ[types.Uint32])}
		if t.word {
			f.words = append(f.words, t.lit)
			f.poss = append(f.poss, t.pos)
		}
		f.toks = append(f.toks, t)
	}
	return f
}

// fed logs a call of the fingerprinter.
func (t *toker) fed(ev *Event, name string, i int) *Term {
	e := t.te
	var recv *Term
	if len(ev.Args) > 1 {
		recv = ev.Args[0]
	} else {
		recv = ev.Val
	}
	k := e.T.App("fed", nil)
	ev.St.chans[k] = append(append([]*Term{}, ev.St.chans[k]...), e.T.App("word", nil, orNil(e.T, recv), ev.Args[len(ev.Args)-1]))
	b := e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:%s.b%d", name, i), Typ: types.Typ[types.Uint32]})
	return b
}

// chanKey keeps paths apart on which something else was sent, fed, filed or
// looked up, or that depend on the text.
func chanKey(st *State) string {
	var ks []string
	for k, v := range st.chans {
		s := fmt.Sprint(k.ID)
		for i, x := range v {
			if i == 24 {
				break // more than any text here has
			}
			s += fmt.Sprint(" ", x.ID)
		}
		ks = append(ks, s)
	}
	for f, v := range st.facts {
		if f.contains(func(x *Term) bool { return x.Kind == KSym && strings.HasPrefix(x.Name, "arg:text") }) {
			ks = append(ks, fmt.Sprint(f.ID, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// gen notices fingerprinters made after the first word of a text.
func (t *toker) gen() {
	e := t.te
	old := e.H.On
	e.H.On = func(ev *Event) {
		if old != nil {
			old(ev)
		}
		if ev.Kind != "enter" || ev.Fn == nil || pkgOf(ev.Fn) != "blotter" || ev.Fn.Signature.Recv() != nil {
			return
		}
		ev.St.flags["made"] = "1"
		if b := ev.St.gh["nblots"]; b != nil {
			ev.St.gh["remade"] = b
		}
	}
}

// remade: the fingerprinter was made again within the first text of a path.
func (t *toker) remade(st *State, pos token.Pos, what string, words int) {
	if g := st.gh["remade"]; g != nil {
		if n, ok := g.isInt(); ok && int(n) < words {
			t.tr.failAt(st, pos, "several", "%s: a new fingerprinter is made after word %d of the text", what, n)
		}
	}
}

func (t *toker) words(st *State) (recvs, lits []*Term) {
	for _, w := range st.chans[t.te.T.App("fed", nil)] {
		if len(w.Args) != 2 {
			w = t.te.T.App("word", nil, w, w)
		}
		recvs, lits = append(recvs, w.Args[0]), append(lits, w.Args[1])
	}
	return
}

func ruleB02(r *Rule) {
	ks := [][2]int64{{1, 1}, {2, 1}, {3, 1}, {2, 2}}
	if r.Tier == "thorough" {
		ks = append(ks, [2]int64{4, 1}, [2]int64{4, 2}, [2]int64{6, 3})
	}
	for _, k := range ks {
		for _, w := range []string{"IndexerFromConfig", "OpenIndexer"} {
			if r.broken() {
				break
			}
			fprintIndex(r, w, k[0], k[1])
		}
		fprintBlot(r, k[0], k[1])
		fprintFind(r, k[0], k[1])
		fprintFinds(r, k[0], k[1])
	}
}

// order: the words fed to the fingerprinter on a path are those of the text, in
// order; all of them unless the operation may stop early.
func (t *toker) order(st *State, pos token.Pos, what string, words []*Term, all bool) (n int, ok bool) {
	r := t.tr
	r.oblige("words in order", what)
	_, got := t.words(st)
	known := func(x *Term) bool { return x.Kind == KSym && strings.Contains(x.Name, ".lit") }
	for i, g := range got {
		if i < len(words) && g == words[i] {
			continue
		}
		if !known(g) {
			r.undecided("%s: word %d given to the fingerprinter is not resolved: %s", what, i+1, g)
			return 0, false
		}
		if i < len(words) {
			r.failAt(st, pos, "order", "%s: word %d given to the fingerprinter is %s, not %s", what, i+1, g, words[i])
		} else {
			r.failAt(st, pos, "order", "%s: %s is given to the fingerprinter after all words", what, g)
		}
		return 0, false
	}
	if all && len(got) < len(words) {
		r.failAt(st, pos, "order", "%s: %d of %d words are given to the fingerprinter", what, len(got), len(words))
		return 0, false
	}
	return len(got), true
}

// blotOf: which fingerprint a value is made from.
func blotOf(v *Term, name string) (i int, ok bool) {
	n := 0
	v.walk(func(x *Term) bool {
		if x.Kind == KSym && strings.HasPrefix(x.Name, "arg:"+name+".b") {
			fmt.Sscanf(x.Name[len("arg:"+name+".b"):], "%d", &i)
			n++
		}
		return true
	})
	return i, n == 1
}

// windows: the fingerprints used are those of all full windows, once each.
func (t *toker) windows(st *State, pos token.Pos, key, what, name string, vals []*Term, from, words int, k int64, verb string) {
	r := t.tr
	r.oblige("windows", what)
	seen := map[int]int{}
	for _, v := range vals {
		i, ok := blotOf(v, name)
		if !ok {
			r.undecided("%s: a fingerprint %s is not resolved: %s", what, verb, v)
			return
		}
		seen[i]++
	}
	for i := from; i < from+words; i++ {
		w := fmt.Sprintf("the fingerprint after word %d", i-from+1)
		switch full := i-from >= int(k)-1; {
		case full && seen[i] == 0:
			r.failAt(st, pos, key, "%s: %s is not %s", what, w, verb)
		case full && seen[i] > 1:
			r.failAt(st, pos, key, "%s: %s is %s %d times", what, w, verb, seen[i])
		case !full && seen[i] > 0:
			r.failAt(st, pos, key, "%s: %s is %s, before the window of %d is full", what, w, verb, k)
		}
		delete(seen, i)
	}
	for i := range seen {
		r.failAt(st, pos, key, "%s: a fingerprint of another text (%d) is %s", what, i+1, verb)
	}
}

type textAt struct{ dat, start *Term }

// given: the tokenizer got the text and where it starts.
func (t *toker) given(what string, ds ...textAt) {
	r, e := t.tr, t.te
	for i, ev := range t.tokc {
		if t.tokn[i] >= len(ds) {
			continue
		}
		d := ds[t.tokn[i]]
		dat := d.dat
		r.oblige("tokenized", what)
		if g := ev.Args[1]; g != dat {
			if g.Kind == KSlice && g.Args[0] == dat {
				r.mustEqual(e, ev.St, ev.Ins.Pos(), "text", what+": start of the text given to the tokenizer", g.Args[1], e.T.Int(0), 64)
				r.mustEqual(e, ev.St, ev.Ins.Pos(), "text", what+": length of the text given to the tokenizer", e.T.Len(g), e.T.Len(dat), 64)
			} else if g.Kind == KSym && strings.HasPrefix(g.Name, "arg:") {
				r.failAt(ev.St, ev.Ins.Pos(), "text", "%s: the tokenizer is given %s, not %s", what, g, dat)
			} else {
				r.undecided("%s: the text given to the tokenizer is not resolved: %s", what, g)
			}
		}
		r.mustEqual(e, ev.St, ev.Ins.Pos(), "offset", what+": offset given to the tokenizer", ev.Args[2], d.start, 32)
	}
	t.tokc, t.tokn = nil, nil
}

// textDoc: a document of the caller's with a text.
func (r *Rule) textDoc(e *Engine, st *State, name string, t types.Type) (doc, dat, start *Term) {
	doc = e.arg(name, t)
	set := func(f string) *Term {
		a, ft := e.fieldNamed(doc, deref(t), f)
		if a == nil {
			r.undecided("Doc.%s not found", f)
			return nil
		}
		v := e.T.mk(&Term{Kind: KSym, Name: "arg:" + name + "." + f, Typ: ft, NonNil: true})
		e.store(st, a, v, ft)
		return v
	}
	return doc, set("Dat"), set("Start")
}

func fprintIndex(r *Rule, which string, k, il int64) {
	p := r.newPipeOn(which, 1, k, il, 2)
	if p == nil {
		return
	}
	e := p.e
	fn := r.need("", "Indexer", "Add")
	if fn == nil {
		return
	}
	doc, dat, start := r.textDoc(e, p.st, "doc", fn.Params[1].Type())
	ch, req, ok := p.add(doc)
	if !ok {
		return
	}
	doc2, dat2, start2 := r.textDoc(e, p.st, "doc2", fn.Params[1].Type())
	_, req2, ok := p.add(doc2)
	if !ok {
		return
	}
	p.firstRecv()
	var ws []*goRec
	for _, g := range p.gos {
		if g.ch == ch {
			ws = append(ws, g)
		}
	}
	if len(ws) == 0 {
		r.undecided("%s: no goroutine receives what Add sends", p.what)
		return
	}
	e.H.Key = chanKey
	p.blot = func(ev *Event, i int) *Term { return p.fed(ev, "text", i) }
	p.gen()
	used := map[*Term]int{}
	for wi, w := range ws {
		pos := w.fn.Pos()
		for _, pat := range streams(k) {
			if r.broken() || wi > 0 && pat != strings.Repeat("W", int(k)) {
				continue
			}
			f, f2 := r.newFprint(e, "text", pat), r.newFprint(e, "text2", pat)
			what := fmt.Sprintf("%s, text %q", p.what, pat)
			p.toks, p.seq = nil, [][]tokSpec{f.toks, f2.toks}
			p.tokc, p.tokn = nil, nil
			ends := p.serve(w, p.st, req)
			if len(ends) == 0 {
				r.undecided("%s: the worker does not ask for another document", what)
			}
			for _, st := range ends {
				if _, ok := p.order(st, pos, what, f.words, true); ok {
					p.filed(st, pos, what, len(f.words))
				}
				p.remade(st, pos, what, len(f.words))
				rs, _ := p.words(st)
				for _, x := range rs {
					r.oblige("fingerprinters", what)
					if u, ok := used[x]; ok && u != wi && x.Kind == KAlloc && st.flags["made"] == "" {
						r.failAt(st, pos, "shared", "%s: two workers use one fingerprinter", p.what)
					}
					used[x] = wi
				}
			}
			p.given(what, textAt{dat, start})
			if r.broken() || len(pat) > int(k)+1 && strings.Count(pat, "o") == 0 {
				continue
			}
			// and another text after it
			what = fmt.Sprintf("%s, second text %q", p.what, pat)
			p.tokc, p.tokn = nil, nil
			all := append(append([]*Term{}, f.words...), f2.words...)
			ends = p.serve(w, p.st, req, req2)
			if len(ends) == 0 {
				r.undecided("%s: the worker does not ask for another document", what)
			}
			for _, st := range ends {
				if _, ok := p.order(st, pos, what, all, true); ok {
					p.filed(st, pos, what, len(f.words), len(f2.words))
				}
			}
			p.given(what, textAt{dat, start}, textAt{dat2, start2})
		}
	}
}

// filed: the postings of one text after the other.
func (p *pipe) filed(st *State, pos token.Pos, what string, texts ...int) {
	r := p.r
	var batches [][]*Term
	for ch, vals := range p.sent(st) {
		g := p.goFor(ch)
		if g == nil {
			r.undecided("%s: postings are sent where no goroutine receives", what)
			return
		}
		for i, v := range vals {
			fs, ok := p.file(g, st, v)
			if !ok {
				r.undecided("%s: the shard does not take the postings in one way", what)
				return
			}
			for len(batches) <= i {
				batches = append(batches, nil)
			}
			for _, f := range fs {
				batches[i] = append(batches[i], f.slot)
			}
		}
	}
	from := 0
	for i, n := range texts {
		var b []*Term
		if i < len(batches) {
			b = batches[i]
		} else if n >= int(p.k) && len(batches) > 0 {
			r.undecided("%s: the postings of %d texts are sent in %d batches", what, len(texts), len(batches))
			return
		}
		p.windows(st, pos, "filed", what, "text", b, from, n, p.k, "filed")
		from += n
	}
}

// fprintBlot: what blotting a document returns.
func fprintBlot(r *Rule, k, il int64) {
	fn := r.need("", "Index", "BlotDoc")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	q := r.newQpipeOn(r.engine(), 1, k, il)
	if q == nil {
		return
	}
	e := q.e
	e.H.Key = chanKey
	q.blot = func(ev *Event, i int) *Term { return q.fed(ev, "text", i) }
	for _, pat := range streams(k) {
		st := q.st.clone()
		doc, dat, start := r.textDoc(e, st, "doc", fn.Params[2].Type())
		f := r.newFprint(e, "text", pat)
		q.toks, q.tokc, q.tokn = f.toks, nil, nil
		what := fmt.Sprintf("BlotDoc, %s, text %q", q.what, pat)
		// one fingerprint is there already
		dt := fn.Params[1].Type()
		al := e.alloc("dst", nil, q, dt)
		e.resetAlloc(st, al)
		old := e.arg("dst0", types.Typ[types.Uint32])
		e.store(st, e.indexAddr(al, e.T.Int(0), elemOfSlice(dt)), old, elemOfSlice(dt))
		dst := e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(1)}, Typ: dt})
		n := 0
		e.H.On = nil
		q.gen()
		for _, o := range r.run(e, fn, st, q.x, dst, doc) {
			if o.kind != "" {
				continue
			}
			n++
			if _, ok := q.order(o.st, fn.Pos(), what, f.words, true); !ok {
				continue
			}
			q.remade(o.st, fn.Pos(), what, len(f.words))
			res := results(o.ret)[0]
			l, ok := e.T.Len(res).isInt()
			if !ok || l < 1 {
				r.undecided("%s: the result is not resolved: %s", what, res)
				continue
			}
			var vals []*Term
			for i := int64(0); i < l; i++ {
				v := e.load(o.st, e.indexOf(res, i), elemOfSlice(dt))
				if i == 0 {
					if v != old {
						r.mustEqual(e, o.st, fn.Pos(), "dst", what+": what was in the result before", v, old, 32)
					}
					continue
				}
				vals = append(vals, v)
				if j, ok := blotOf(v, "text"); ok {
					r.oblige("order", what)
					if want := int(i) - 1 + int(k) - 1; j != want && j < len(f.words) {
						r.failAt(o.st, fn.Pos(), "blots", "%s: fingerprint %d returned is the one after word %d, not word %d", what, i, j+1, want+1)
					}
				}
			}
			q.windows(o.st, fn.Pos(), "blots", what, "text", vals, 0, len(f.words), k, "returned")
		}
		if n == 0 {
			r.undecided("%s: no outcome", what)
		}
		q.given(what, textAt{dat, start})
	}
}

func (e *Engine) indexOf(s *Term, i int64) *Term {
	b, lo := s, e.T.Int(0)
	if s.Kind == KSlice {
		b, lo = s.Args[0], s.Args[1]
	}
	return e.indexAddr(b, e.T.Add(lo, e.T.Int(i)), elemOfSlice(s.Typ))
}

// fprintFind: looking for one fingerprint compares it with those of all full
// windows.
func fprintFind(r *Rule, k, il int64) {
	fn := r.need("", "Index", "FindBlot")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	q := r.newQpipeOn(r.engine(), 1, k, il)
	if q == nil {
		return
	}
	e := q.e
	e.H.Key = chanKey
	q.blot = func(ev *Event, i int) *Term { return q.fed(ev, "text", i) }
	want := e.arg("wanted", fn.Params[1].Type())
	slot := func(i int) *Term {
		b := e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:text.b%d", i), Typ: types.Typ[types.Uint32]})
		return e.T.Mod(b, e.T.Int(1<<16), types.Typ[types.Uint32])
	}
	for _, pat := range streams(k) {
		st := q.st.clone()
		doc, dat, start := r.textDoc(e, st, "doc", fn.Params[2].Type())
		f := r.newFprint(e, "text", pat)
		q.toks, q.tokc, q.tokn = f.toks, nil, nil
		what := fmt.Sprintf("FindBlot, %s, text %q", q.what, pat)
		n := 0
		e.H.On = nil
		q.gen()
		for _, o := range r.run(e, fn, st, q.x, want, doc) {
			if o.kind != "" {
				continue
			}
			n++
			found := e.nilness(o.st, retErr(o))
			if found == 0 {
				r.undecided("%s: whether it is found is not resolved", what)
				continue
			}
			q.remade(o.st, fn.Pos(), what, len(f.words))
			fed, ok := q.order(o.st, fn.Pos(), what, f.words, found > 0)
			if !ok {
				continue
			}
			r.oblige("comparisons", what)
			if found > 0 {
				for i := int(k) - 1; i < len(f.words); i++ {
					if env, ok := e.possible(o.st, want, slot(i)); ok {
						_ = env
						if env, ok := e.coincide(o.st, want, slot(i)); ok {
							r.failAt(o.st, fn.Pos(), "skipped", "%s: not found although it is the fingerprint after word %d (%s)", what, i+1, env)
						}
					}
				}
				continue
			}
			// found: it is one of them
			any := false
			var ts []*Term
			for i := int(k) - 1; i < fed; i++ {
				any = any || e.provesEq(o.st, want, slot(i))
				ts = append(ts, slot(i))
			}
			if any {
				continue
			}
			env, ok := e.instances(o.st, append([]*Term{want}, ts...), e.inputAtom, nil, func(_ instEnv, ev func(*Term) (*big.Int, bool)) bool {
				w, ok := ev(want)
				for _, t := range ts {
					v, k := ev(t)
					ok = ok && k && v.Cmp(w) != 0
				}
				return ok
			})
			if ok {
				r.failAt(o.st, fn.Pos(), "early", "%s: found although no full window has this fingerprint (%s)", what, env)
			} else {
				r.undecided("%s: found, without it being shown to be the fingerprint of a window", what)
			}
		}
		if n == 0 {
			r.undecided("%s: no outcome", what)
		}
		q.given(what, textAt{dat, start})
	}
}

// coincide: an instantiation under which the two are equal.
func (e *Engine) coincide(st *State, a, b *Term) (instEnv, bool) {
	return e.instances(st, []*Term{a, b}, e.inputAtom, nil, func(_ instEnv, ev func(*Term) (*big.Int, bool)) bool {
		x, ok := ev(a)
		y, ok2 := ev(b)
		return ok && ok2 && x.Cmp(y) == 0
	})
}

// fprintFinds: looking for texts looks up the fingerprints of all full windows.
func fprintFinds(r *Rule, k, il int64) {
	fn := r.need("", "Index", "FindBlots")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	q := r.newQpipeOn(r.engine(), 1, k, il)
	if q == nil {
		return
	}
	e := q.e
	e.H.Key = chanKey
	q.blot = func(ev *Event, i int) *Term { return q.fed(ev, "text", i) }
	m := e.arg("wanted", fn.Params[1].Type())
	for _, pat := range streams(k) {
		st := q.st.clone()
		doc, dat, start := r.textDoc(e, st, "doc", fn.Params[2].Type())
		f := r.newFprint(e, "text", pat)
		q.toks, q.tokc, q.tokn = f.toks, nil, nil
		what := fmt.Sprintf("FindBlots, %s, text %q", q.what, pat)
		lk, up := e.T.App("looked", nil), e.T.App("reported", nil)
		e.H.On = func(ev *Event) {
			if ev.Kind == "mapupdate" && len(ev.Args) > 0 {
				ev.St.chans[up] = append(append([]*Term{}, ev.St.chans[up]...), ev.Args[0])
			}
			if ev.Kind == "maplookup" && len(ev.Args) > 0 {
				if ev.Addr != nil && ev.Addr != m {
					return
				}
				for _, x := range ev.St.chans[lk] {
					if x == ev.Args[0] {
						return
					}
				}
				ev.St.chans[lk] = append(append([]*Term{}, ev.St.chans[lk]...), ev.Args[0])
			}
		}
		q.gen()
		n := 0
		for _, o := range r.run(e, fn, st, q.x, m, doc) {
			if o.kind != "" || e.nilness(o.st, retErr(o)) != -1 {
				continue
			}
			n++
			// it may stop once everything asked for is found
			about := false
			for f := range o.st.facts {
				about = about || f.contains(func(x *Term) bool {
					return x.Kind == KApp && strings.Contains(x.Name, "len") && x.contains(func(y *Term) bool { return y == m })
				})
			}
			q.remade(o.st, fn.Pos(), what, len(f.words))
			fed, ok := q.order(o.st, fn.Pos(), what, f.words, !about)
			if !ok {
				continue
			}
			q.windows(o.st, fn.Pos(), "lookups", what, "text", o.st.chans[lk], 0, fed, k, "looked up")
			for i := int(k) - 1; i < fed; i++ {
				is := func(t *Term) bool {
					j, ok := blotOf(t, "text")
					return ok && i == j
				}
				ok := false
				for _, u := range o.st.chans[up] {
					ok = ok || is(u)
				}
				asked := false
				for f, v := range o.st.facts {
					var get *Term
					f.walk(func(x *Term) bool {
						if x.Kind == KApp && x.Name == "mapget" && len(x.Args) > 1 && x.Args[0] == m && is(x.Args[1]) {
							get = x
						}
						return true
					})
					if get == nil {
						continue
					}
					if f == e.T.Eq(get, e.T.Nil, get.Typ) {
						ok = ok || v
						asked = asked || !v
					} else {
						ok = ok || !v
					}
				}
				r.oblige("texts compared", what)
				if !ok && asked {
					r.failAt(o.st, fn.Pos(), "unreported", "%s: the text of the window after word %d is asked for, but not compared or reported", what, i+1)
				}
			}
		}
		e.H.On = nil
		if n == 0 {
			r.undecided("%s: no outcome", what)
		}
		q.given(what, textAt{dat, start})
	}
}
