package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B05", "value numbering of the tokenizer over texts of symbolic runes: for every way the runes are told apart on a path, the tokens are the maximal runs, with their bytes and positions, after the tokens that were there", ruleB05)
}

var tokenFields = []string{"Tag", "Lit", "Pos"}

type tokens struct {
	r     *Rule
	e     *Engine
	k     int   // runes in the text
	bad   int   // index of a byte that is no UTF-8, or -1
	d     *Term // the bytes
	runes []*Term
	lens  []*Term
	pos   []*Term // k+1 positions
	fn    *Term
	old   []*Term
	word  int64
	other int64
	what  string
}

func (r *Rule) tagConst(name string) (int64, bool) {
	c, ok := r.pkgConst("token", name)
	if !ok {
		return 0, false
	}
	return c.isInt()
}

// classTable tells for every rune whether it is a letter or a digit.
var classTable []bool

func classOf(r int) bool {
	if classTable == nil {
		classTable = make([]bool, 0x110000)
		for i := range classTable {
			classTable[i] = runePreds["unicode.IsLetter"](rune(i)) || runePreds["unicode.IsDigit"](rune(i))
		}
	}
	return classTable[r]
}

type runeFacts struct{ word, other, ok bool }

var runeCache = map[string]runeFacts{}

// holds evaluates a fact about the rune for the value v.
func holdsFor(t, r *Term, v int) (val, ok bool) {
	if t.Kind == KApp && len(t.Args) == 1 && unconv(t.Args[0]) == r {
		if f := runePreds[t.Name]; f != nil {
			return f(rune(v)), true
		}
	}
	return false, false
}

// classes tells which classes a rune may have on a path.
func (k *tokens) classes(st *State, i int) runeFacts {
	r := k.runes[i]
	var fs []*Term
	for t := range st.facts {
		if k.several(t) {
			if os.Getenv("TOKDBG") != "" {
				fmt.Println("SEVERAL", t)
			}
			return runeFacts{}
		}
		if t.contains(func(x *Term) bool { return x == r }) {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(a, b int) bool { return fs[a].ID < fs[b].ID })
	var key strings.Builder
	for _, t := range fs {
		fmt.Fprintf(&key, "%s=%v;", strings.ReplaceAll(t.String(), r.String(), "R"), st.facts[t])
	}
	if c, ok := runeCache[key.String()]; ok {
		return c
	}
	res := runeFacts{ok: true}
	for v := 0; v < 0x110000; v++ {
		if v >= 0xd800 && v < 0xe000 {
			continue
		}
		w := classOf(v)
		if w && res.word || !w && res.other {
			continue
		}
		good := true
		for _, t := range fs {
			val, ok := holdsFor(t, r, v)
			if !ok {
				x := k.e.T.subst(t, map[*Term]*Term{r: k.e.T.Int(int64(v))}, map[*Term]*Term{})
				switch x {
				case k.e.T.T:
					val, ok = true, true
				case k.e.T.F:
					val, ok = false, true
				}
			}
			if !ok {
				res.ok = false
				runeCache[key.String()] = res
				return res
			}
			if val != st.facts[t] {
				good = false
				break
			}
		}
		if good {
			if w {
				res.word = true
			} else {
				res.other = true
			}
		}
		if res.word && res.other {
			break
		}
	}
	runeCache[key.String()] = res
	return res
}

// several: whether a fact relates different runes.
func (k *tokens) several(t *Term) bool {
	n := 0
	for _, r := range k.runes {
		if t.contains(func(x *Term) bool { return x == r }) {
			n++
		}
	}
	return n > 1
}

func isBoolTerm(t *Term) bool {
	s := t.String()
	return t.Kind == KApp && runePreds[t.Name] != nil || strings.HasPrefix(s, "le0(") || strings.HasPrefix(s, "eq(")
}

// split takes facts that relate what is known of different runes apart.
func (k *tokens) split(st *State) []*State {
	var fs, apps []*Term
	seen := map[*Term]bool{}
	for t := range st.facts {
		if !k.several(t) {
			continue
		}
		if !strings.HasPrefix(t.String(), "eq(") {
			return []*State{st}
		}
		fs = append(fs, t)
		for _, x := range t.Args {
			if !k.several(x) && len(t.Args) == 2 && isBoolTerm(x) {
				if !seen[x] {
					seen[x] = true
					apps = append(apps, x)
				}
			} else {
				return []*State{st}
			}
		}
	}
	if len(fs) == 0 || len(apps) > 10 {
		return []*State{st}
	}
	sort.Slice(apps, func(a, b int) bool { return apps[a].ID < apps[b].ID })
	var res []*State
	for m := 0; m < 1<<len(apps); m++ {
		sub := map[*Term]*Term{}
		good := true
		for i, a := range apps {
			v := m>>i&1 != 0
			if w, ok := st.facts[a]; ok && w != v {
				good = false
			}
			sub[a] = k.e.T.Bool(v)
		}
		for _, t := range fs {
			if (sub[t.Args[0]] == sub[t.Args[1]]) != st.facts[t] {
				good = false
			}
		}
		if good {
			z := st.clone()
			for _, t := range fs {
				delete(z.facts, t)
			}
			for _, a := range apps {
				good = good && k.e.assume(z, a, sub[a] == k.e.T.T)
			}
			if good {
				res = append(res, z)
			}
		}
	}
	return res
}

// at: which rune starts at a position of the text.
func (k *tokens) at(st *State, pos *Term) int {
	for i, p := range k.pos {
		if p == pos || k.e.provesEq(st, p, pos) {
			return i
		}
	}
	return -1
}

// text: whether v is the text from some position on, and which.
func (k *tokens) text(st *State, v *Term) (from, to int, ok bool) {
	for v.Kind == KApp && (v.Name == "str" || v.Name == "bytes") {
		v = v.Args[0]
	}
	if v.Kind != KSlice || v.Args[0] != k.d.Args[0] {
		return 0, 0, false
	}
	from, to = k.at(st, v.Args[1]), k.at(st, v.Args[2])
	return from, to, from >= 0 && to >= 0
}

func (k *tokens) override(ev *Event) ([]Out, bool) {
	e, T := k.e, k.e.T
	if ev.Fn == nil || ev.Fn.Pkg == nil || ev.Fn.Pkg.Pkg.Path() != "unicode/utf8" {
		return nil, false
	}
	ret := func(v ...*Term) ([]Out, bool) {
		o := Out{st: ev.St, pos: ev.Ins.Pos(), ret: v[0]}
		if len(v) > 1 {
			o.ret = T.mk(&Term{Kind: KTuple, N: len(v), Args: v})
		}
		return []Out{o}, true
	}
	switch ev.Fn.Name() {
	case "Valid", "ValidString":
		if from, to, ok := k.text(ev.St, ev.Args[0]); ok {
			return ret(T.Bool(k.bad < from || k.bad >= to))
		}
	case "DecodeRune", "DecodeRuneInString":
		if from, to, ok := k.text(ev.St, ev.Args[0]); ok && from < to {
			return ret(k.runes[from], k.lens[from])
		} else if ok {
			return ret(T.Int(0xfffd), T.Int(0))
		}
	case "DecodeLastRune", "DecodeLastRuneInString":
		if from, to, ok := k.text(ev.St, ev.Args[0]); ok && from < to {
			return ret(k.runes[to-1], k.lens[to-1])
		} else if ok {
			return ret(T.Int(0xfffd), T.Int(0))
		}
	case "RuneCount", "RuneCountInString":
		if from, to, ok := k.text(ev.St, ev.Args[0]); ok {
			return ret(T.Int(int64(to - from)))
		}
	case "RuneLen":
		for i, r := range k.runes {
			if unconv(ev.Args[0]) == r && i != k.bad {
				return ret(k.lens[i])
			}
		}
	}
	_ = e
	return nil, false
}

func (k *tokens) rangeRune(st *State, s, pos *Term) (r, w *Term, end, ok bool) {
	from, to, ok := k.text(st, s)
	if !ok {
		return nil, nil, false, false
	}
	i := k.at(st, k.e.T.Add(k.pos[from], pos))
	if i < 0 {
		return nil, nil, false, false
	}
	if i >= to {
		return nil, nil, true, true
	}
	return k.runes[i], k.lens[i], false, true
}

func ruleB05(r *Rule) {
	n := 4
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 6
	}
	for i := 0; i <= n && !r.broken(); i++ {
		for room := 0; room < 3 && !r.broken(); room++ {
			tokenTexts(r, i, -1, room)
		}
		if i > 0 && i <= 3 {
			for b := 0; b < i && !r.broken(); b++ {
				tokenTexts(r, i, b, 1)
			}
		}
	}
}

// tokenTexts: texts of n runes, of which the bad-th is no UTF-8. The
// destination is nil, or holds a token and has room for no or many others.
func tokenTexts(r *Rule, n, bad, room int) {
	from, def := r.need("token", "", "FromConfig"), r.need("token", "", "DefaultConfig")
	word, ok1 := r.tagConst("Word")
	other, ok2 := r.tagConst("Other")
	if from == nil || def == nil || !ok1 || !ok2 {
		r.undecided("the tokenizer is not found")
		return
	}
	e := r.engine()
	T := e.T
	e.NoFault, e.Unroll, e.UnrollMax, e.CapAppend = true, true, 16, true
	e.Peel = n + 3
	e.H.Key = argKey
	k := &tokens{r: r, e: e, k: n, bad: bad}
	k.what = fmt.Sprintf("text of %d runes", n)
	if bad >= 0 {
		k.what += fmt.Sprintf(", no UTF-8 at the %d.", bad+1)
	}
	k.word, k.other = word, other
	st := newState()
	for _, o := range okOuts(e, def, r.run(e, def, st)) {
		for _, p := range okOuts(e, from, r.run(e, from, o.st, results(o.ret)[0])) {
			k.fn, st = results(p.ret)[0], p.st
		}
	}
	if k.fn == nil || k.fn.Fn == nil {
		r.undecided("the tokenizer of the default configuration is not resolved")
		return
	}
	fn := k.fn.Fn
	if len(fn.Params) != 3 {
		r.undecided("%s has %d parameters", shortFn(fn), len(fn.Params))
		return
	}
	k.pos = []*Term{T.Int(0)}
	for i := 0; i < n; i++ {
		c := e.arg(fmt.Sprintf("rune%d", i), types.Typ[types.Rune])
		c.rng = &Rng{big.NewInt(0), big.NewInt(0x10ffff)}
		w := e.arg(fmt.Sprintf("len%d", i), types.Typ[types.Int])
		w.rng = &Rng{big.NewInt(1), big.NewInt(1 << 24)} // or a stretch of runes alike
		if i == bad {
			c, w = T.Int(0xfffd), T.Int(1)
		}
		k.runes, k.lens = append(k.runes, c), append(k.lens, w)
		k.pos = append(k.pos, T.Add(k.pos[i], w))
	}
	dt, bt := fn.Params[0].Type(), fn.Params[1].Type()
	tt := elemOfSlice(dt)
	base := e.arg("text", types.NewPointer(elemOfSlice(bt)))
	k.d = T.mk(&Term{Kind: KSlice, Args: []*Term{base, T.Int(0), k.pos[n]}, Typ: bt})
	offset := e.arg("offset", fn.Params[2].Type())
	dst := T.Nil
	var al *Term
	kept := int64(0)
	if room > 0 {
		kept = 1
		al = e.alloc("dst", nil, k, dt)
		e.resetAlloc(st, al)
		for _, f := range tokenFields {
			a, ft := e.fieldNamed(e.indexAddr(al, T.Int(0), tt), tt, f)
			v := e.arg("old"+f, ft)
			k.old = append(k.old, v)
			e.store(st, a, v, ft)
		}
		c := int64(1)
		if room == 2 {
			c = int64(n) + 4
		}
		st.heap[T.App("capof", types.Typ[types.Int], al)] = T.Int(c)
		dst = T.mk(&Term{Kind: KSlice, Args: []*Term{al, T.Int(0), T.Int(1)}, Typ: dt})
	}
	e.Runes = k.rangeRune
	e.H.Override = k.override
	e.H.On = func(ev *Event) {
		if ev.Kind == "slice" && ev.Addr.Kind == KSlice && ev.Addr.Args[0] == base {
			r.oblige("slices of the text", k.what)
		}
	}
	ends := 0
	for _, o := range r.run(e, fn, st, dst, k.d, offset) {
		if r.broken() {
			return
		}
		if o.kind == "panic" {
			r.failAt(o.st, o.pos, "panic", "%s: %s panics", k.what, shortFn(fn))
			continue
		}
		if o.kind != "" {
			continue
		}
		ends++
		for _, st := range k.split(o.st) {
			o.st = st
			k.judge(fn, o, tt, kept, offset)
		}
	}
	if ends == 0 {
		r.undecided("%s: no end is reached", k.what)
	}
}

// judge compares the tokens of one path with the runs of its runes.
func (k *tokens) judge(fn *ssa.Function, o Out, tt types.Type, kept int64, offset *Term) {
	r, e, T := k.r, k.e, k.e.T
	res := results(o.ret)[0]
	nt, ok := e.lenOf(o.st, res).isInt()
	if !ok {
		r.undecided("%s: the number of tokens is not resolved: %s", k.what, e.lenOf(o.st, res))
		return
	}
	tok := func(i int64, field string) *Term {
		a, t := e.fieldNamed(e.indexAddr(res, T.Int(i), tt), tt, field)
		return e.load(o.st, a, t)
	}
	if nt < kept {
		r.failAt(o.st, o.pos, "kept", "%s: %d tokens are returned, %d were there before", k.what, nt, kept)
		return
	}
	for i := int64(0); i < kept; i++ {
		for j, f := range tokenFields {
			if v := tok(i, f); v != k.old[j] && !e.provesEq(o.st, v, k.old[j]) {
				r.failAt(o.st, o.pos, "kept", "%s: %s of a token that was there is now %s", k.what, f, tok(i, f))
				return
			}
		}
	}
	if k.bad >= 0 {
		r.oblige("texts", fmt.Sprintf("%s: %d tokens", k.what, nt-kept))
		if nt != kept {
			r.failAt(o.st, o.pos, "utf8", "%s: %d tokens are returned", k.what, nt-kept)
		}
		return
	}
	cls := []string{""}
	for i := 0; i < k.k; i++ {
		c := k.classes(o.st, i)
		if !c.ok {
			r.undecided("%s: the facts about a rune are not decided", k.what)
			return
		}
		var nx []string
		for _, s := range cls {
			if c.word {
				nx = append(nx, s+"w")
			}
			if c.other {
				nx = append(nx, s+"_")
			}
		}
		cls = nx
	}
	for _, s := range cls {
		r.oblige("texts", fmt.Sprintf("%s: %q", k.what, s))
		var cuts []int
		for i := range s {
			if i == 0 || s[i] != s[i-1] {
				cuts = append(cuts, i)
			}
		}
		if int64(len(cuts)) != nt-kept {
			r.failAt(o.st, o.pos, "number", "%s: %d tokens are returned for %q (w: letter or digit)", k.what, nt-kept, s)
			return
		}
		cuts = append(cuts, k.k)
		for j := 0; j+1 < len(cuts); j++ {
			i := kept + int64(j)
			want := k.word
			if s[cuts[j]] != 'w' {
				want = k.other
			}
			if !e.provesEq(o.st, tok(i, "Tag"), T.Int(want)) {
				r.failAt(o.st, o.pos, "tag", "%s: the %d. token of %q (w: letter or digit) has the tag %s", k.what, j+1, s, tok(i, "Tag"))
				return
			}
			lit := tok(i, "Lit")
			for lit.Kind == KApp && (lit.Name == "str" || lit.Name == "bytes") {
				lit = lit.Args[0]
			}
			if lit.Kind != KSlice || lit.Args[0] != k.d.Args[0] {
				r.undecided("%s: the bytes of a token are not resolved: %s", k.what, lit)
				return
			}
			if !e.provesEq(o.st, lit.Args[1], k.pos[cuts[j]]) || !e.provesEq(o.st, lit.Args[2], k.pos[cuts[j+1]]) {
				r.failAt(o.st, o.pos, "bytes", "%s: the %d. token of %q (w: letter or digit) has the bytes from %s to %s", k.what, j+1, s, lit.Args[1], lit.Args[2])
				return
			}
			if p := tok(i, "Pos"); e.same(o.st, p, T.Add(offset, k.pos[cuts[j]]), 32) <= 0 {
				if env, ok := e.separate(o.st, p, T.Add(offset, k.pos[cuts[j]]), 32); ok {
					r.failAt(o.st, o.pos, "pos", "%s: the %d. token of %q (w: letter or digit) has the position %s (e.g. %s)", k.what, j+1, s, p, env)
				} else {
					r.undecided("%s: the position of a token is not decided: %s", k.what, p)
				}
				return
			}
		}
	}
}
