package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("B04", "value numbering of the fingerprints of symbolic word sequences for constant window lengths and interleavings: words a fingerprint depends on, lower-casing, independence of the position in the sequence", ruleB04)
}

func ruleB04(r *Rule) {
	cs := [][2]int64{{1, 1}, {2, 1}, {3, 1}, {5, 1}, {10, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {4, 3}}
	if r.Tier == "thorough" {
		cs = append(cs, [2]int64{4, 1}, [2]int64{7, 1}, [2]int64{16, 1}, [2]int64{33, 1}, [2]int64{10, 2}, [2]int64{5, 4}, [2]int64{3, 7}, [2]int64{10, 5})
	}
	for _, c := range cs {
		blotWindow(r, c[0], c[1])
	}
}

func blotWindow(r *Rule, k, m int64) {
	from := r.need("blotter", "", "FromConfig")
	if from == nil {
		return
	}
	what := fmt.Sprintf("window %d, interleaving %d", k, m)
	e := r.engine()
	e.NoFault, e.Unroll, e.UnrollMax = true, true, 64
	T := e.T
	st := newState()
	pt := from.Params[0].Type()
	cfg := e.alloc("config", nil, from, pt)
	e.resetAlloc(st, cfg)
	for f, v := range map[string]int64{"SeqLen": k, "Interleave": m} {
		a, t := e.fieldNamed(cfg, deref(pt), f)
		if a == nil {
			r.undecided("blotter.Config.%s not found", f)
			return
		}
		e.store(st, a, T.Int(v), t)
	}
	var good []Out
	for _, o := range r.run(e, from, st, cfg) {
		if o.kind == "panic" {
			if len(o.st.facts) == 0 {
				r.failAt(o.st, o.pos, "panic", "%s: making the fingerprinter panics", what)
			}
			continue
		}
		if o.kind == "" && e.nilness(o.st, retErr(o)) <= 0 {
			good = append(good, o)
		}
	}
	if len(good) != 1 {
		r.undecided("%s: FromConfig has %d successful outcomes", what, len(good))
		return
	}
	f := results(good[0].ret)[0]
	if f.Kind != KIface {
		r.undecided("%s: the fingerprinter's type is not resolved", what)
		return
	}
	blot := r.P.Fn("blotter", namedName(f.Typ), "Blot")
	if blot == nil {
		r.undecided("%s: Blot of %s not found", what, f.Typ)
		return
	}
	type path struct {
		st   *State
		outs []*Term
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	var words []*Term
	n := int(3*k*m + 3)
	if n > 80 {
		n = int(2*k*m + 3)
	}
	paths := []path{{good[0].st, nil}}
	for i := 0; i < n; i++ {
		w := T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("arg:w%d", i+1), Typ: bytesT})
		words = append(words, w)
		var next []path
		for _, p := range paths {
			for _, o := range r.run(e, blot, p.st, f.Args[0], w) {
				if o.kind == "panic" {
					if len(o.st.facts) == 0 {
						r.failAt(o.st, o.pos, "panic", "%s: fingerprinting word %d panics", what, i+1)
					} else {
						r.undecided("%s: fingerprinting word %d may panic", what, i+1)
					}
					continue
				}
				next = append(next, path{o.st, append(append([]*Term{}, p.outs...), results(o.ret)[0])})
			}
		}
		if len(next) > 48 {
			next = next[:48]
			r.undecided("%s: not all ways through %d words analysed", what, i+1)
		}
		paths = next
	}
	windowed := map[*Term]int{}
	for i, w := range words {
		windowed[w] = i
	}
	shifted := map[*Term]*Term{}
	for i := 0; i+1 < len(words); i++ {
		shifted[words[i]] = words[i+1]
	}
	for _, p := range paths {
		canon := equalities(T, p.st)
		classes := map[*Term][]int{} // words whose hashes are known to be equal
		for a, b := range canon {
			for _, x := range []*Term{a, b} {
				x.walk(func(y *Term) bool {
					if j, is := windowed[y]; is {
						classes[b] = append(classes[b], j)
					}
					return true
				})
			}
		}
		full := int(k * m)
		for i := full - 1; i < n; i++ {
			got := T.subst(p.outs[i], canon, map[*Term]*Term{})
			if !hashesOnly(got) {
				r.undecided("%s: fingerprint of word %d is %s", what, i+1, got)
				return
			}
			r.oblige("fingerprint", fmt.Sprintf("%s: word %d: %s", what, i+1, got))
			ok := true
			inWin := func(j int) bool {
				d := i - j
				return d >= 0 && d < full && d%int(m) == 0
			}
			got.walk(func(x *Term) bool {
				for _, j := range classes[x] {
					if inWin(j) {
						return false
					}
				}
				if x.Kind == KApp && x.Name == "lower" {
					if j, is := windowed[x.Args[0]]; is {
						if !inWin(j) {
							r.failAt(p.st, blot.Pos(), "window", "%s: the fingerprint of word %d depends on word %d", what, i+1, j+1)
							ok = false
						}
					}
					return false
				}
				if j, is := windowed[x]; is {
					r.failAt(p.st, blot.Pos(), "case", "%s: the fingerprint of word %d depends on the case of word %d", what, i+1, j+1)
					ok = false
				}
				return true
			})
			if !ok {
				return
			}
			if len(canon) == 0 && len(p.st.facts) == 0 && i+1 < n {
				s := T.subst(p.outs[i], shifted, map[*Term]*Term{})
				if s != p.outs[i+1] {
					r.failAt(p.st, blot.Pos(), "position", "%s: words %d-%d and %d-%d give different functions of their words: %s and %s", what, i+2-full, i+1, i+3-full, i+2, p.outs[i], p.outs[i+1])
					return
				}
			}
		}
	}
}

// equalities: replacements that make terms known equal on the path the same.
func equalities(T *Terms, st *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	find := func(x *Term) *Term {
		for m[x] != nil && m[x] != x {
			x = m[x]
		}
		return x
	}
	for f, v := range st.facts {
		if !v || f.Kind != KApp {
			continue
		}
		var a, b *Term
		switch {
		case f.Name == "eq":
			a, b = f.Args[0], f.Args[1]
		case f.Name == "eq0" && f.Args[0].Kind == KLin && f.Args[0].C == 0 && len(f.Args[0].Args) == 2 && f.Args[0].Coef[0] == -f.Args[0].Coef[1]:
			a, b = f.Args[0].Args[0], f.Args[0].Args[1]
		default:
			continue
		}
		a, b = find(a), find(b)
		if a == b {
			continue
		}
		if a.ID > b.ID { // the younger word stands for both
			a, b = b, a
		}
		m[a] = b
	}
	for k := range m {
		m[k] = find(k)
	}
	return m
}

func hashesOnly(t *Term) bool {
	ok := true
	t.walk(func(x *Term) bool {
		switch x.Kind {
		case KConst, KLin:
		case KApp:
			if !opApps[x.Name] && !hasPfx(x.Name, "hashsum:", "hashempty", "cat", "lower", "str", "bytes", "list", "conv") {
				ok = false
			}
		case KSym:
			if !strings.HasPrefix(x.Name, "arg:w") {
				ok = false
			}
		default:
			ok = false
		}
		return ok
	})
	return ok
}
