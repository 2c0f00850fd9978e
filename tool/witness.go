package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"math/big"
	"sort"
	"strings"
)

// Comparison of value terms. Two terms that normalise to the same form are
// equal for all inputs. Terms with different forms are only called different
// when instantiating their inputs with values allowed by the path's
// conditions gives different numbers; otherwise the comparison is undecided.

type instEnv map[*Term]*big.Int

func wrapInt(v *big.Int, bits int, unsigned bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	r := new(big.Int).Mod(v, m)
	if !unsigned && r.Bit(bits-1) == 1 {
		r.Sub(r, m)
	}
	return r
}

// opApps are the applications with a fixed arithmetic meaning.
var opApps = map[string]bool{"mod": true, "quo": true, "rem": true, "xor": true, "and": true, "or": true, "andnot": true,
	"shl": true, "shr": true, "compl": true, "neg": true, "mul": true, "u64": true, "i64": true, "s8": true, "s16": true,
	"s32": true, "le0": true, "eq0": true, "not": true, "eq": true, "<": true, "ite": true, "varintlen": true, "uvarintlen": true}

func isAtom(t *Term) bool {
	switch t.Kind {
	case KConst, KLin:
		return false
	case KApp:
		if t.Name == "eq" || t.Name == "<" {
			// only between numbers
			for _, a := range t.Args {
				if _, _, ok := intBits(a.Typ); !ok && a.Kind != KLin && !(a.Kind == KConst && a.Val.Kind() == constant.Int) {
					return true
				}
			}
		}
		return !opApps[t.Name] && !(len(t.Args) == 1 && foldable[t.Name])
	}
	return true
}

func (e *Engine) atoms(t *Term, into map[*Term]bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isAtom(t) {
			into[t] = true
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

// instEval gives the value of a term under an instantiation of its atoms.
func (e *Engine) instEval(t *Term, env instEnv, memo map[*Term]*big.Int) (*big.Int, bool) {
	if v, ok := memo[t]; ok {
		return v, v != nil
	}
	v := e.instEval1(t, env, memo)
	memo[t] = v
	return v, v != nil
}

func (e *Engine) instEval1(t *Term, env instEnv, memo map[*Term]*big.Int) *big.Int {
	if v := env[t]; v != nil {
		return v
	}
	switch t.Kind {
	case KConst:
		switch t.Val.Kind() {
		case constant.Int:
			v, ok := new(big.Int).SetString(t.Val.ExactString(), 10)
			if ok {
				return v
			}
		case constant.Bool:
			return b2i(constant.BoolVal(t.Val))
		}
		return nil
	case KLin:
		s := big.NewInt(t.C)
		for i, a := range t.Args {
			v, ok := e.instEval(a, env, memo)
			if !ok {
				return nil
			}
			s = new(big.Int).Add(s, new(big.Int).Mul(v, big.NewInt(t.Coef[i])))
		}
		return s
	case KApp:
		if isAtom(t) {
			return nil
		}
	default:
		return nil
	}
	var as []*big.Int
	for _, a := range t.Args {
		v, ok := e.instEval(a, env, memo)
		if !ok {
			return nil
		}
		as = append(as, v)
	}
	bits, uns, typed := intBits(t.Typ)
	fit := func(v *big.Int) *big.Int {
		if typed {
			return wrapInt(v, bits, uns)
		}
		return v
	}
	opt := func(i int) *big.Int { // operand i as a value of the term's type
		if typed {
			return wrapInt(as[i], bits, uns)
		}
		return as[i]
	}
	if foldable[t.Name] && len(as) == 1 {
		if !as[0].IsInt64() {
			return nil
		}
		r := e.T.foldPure(t.Name, t.Typ, []*Term{e.T.Int(as[0].Int64())})
		if r == nil {
			return nil
		}
		if b, ok := r.isBool(); ok {
			return b2i(b)
		}
		if i, ok := r.isInt(); ok {
			return big.NewInt(i)
		}
		return nil
	}
	switch t.Name {
	case "mod":
		if as[1].Sign() <= 0 {
			return nil
		}
		return new(big.Int).Mod(as[0], as[1])
	case "quo":
		if as[1].Sign() <= 0 {
			return nil
		}
		if as[0].Sign() < 0 {
			if typed && uns {
				return nil
			}
			return new(big.Int).Quo(as[0], as[1])
		}
		return new(big.Int).Quo(as[0], as[1])
	case "rem":
		if as[1].Sign() == 0 {
			return nil
		}
		return new(big.Int).Rem(opt(0), opt(1))
	case "xor":
		s := new(big.Int)
		for _, a := range as {
			s = new(big.Int).Xor(s, a)
		}
		return fit(s)
	case "and":
		return fit(new(big.Int).And(as[0], as[1]))
	case "or":
		return fit(new(big.Int).Or(as[0], as[1]))
	case "andnot":
		return fit(new(big.Int).AndNot(as[0], as[1]))
	case "shl":
		if as[1].Sign() < 0 || as[1].BitLen() > 16 {
			return nil
		}
		return fit(new(big.Int).Lsh(as[0], uint(as[1].Int64())))
	case "shr":
		if as[1].Sign() < 0 || as[1].BitLen() > 16 {
			return nil
		}
		return new(big.Int).Rsh(opt(0), uint(as[1].Int64()))
	case "compl":
		return fit(new(big.Int).Not(as[0]))
	case "neg":
		return fit(new(big.Int).Neg(as[0]))
	case "mul":
		s := big.NewInt(1)
		for _, a := range as {
			s = new(big.Int).Mul(s, a)
		}
		return s
	case "varintlen", "uvarintlen":
		u := new(big.Int).Set(as[0])
		if t.Name == "varintlen" {
			u.Lsh(u, 1)
			if as[0].Sign() < 0 {
				u.Not(u)
			}
		}
		u = wrapInt(u, 64, true)
		n := int64((u.BitLen() + 6) / 7)
		if n == 0 {
			n = 1
		}
		return big.NewInt(n)
	case "u64":
		return wrapInt(as[0], 64, true)
	case "i64":
		return wrapInt(as[0], 64, false)
	case "s8":
		return wrapInt(as[0], 8, false)
	case "s16":
		return wrapInt(as[0], 16, false)
	case "s32":
		return wrapInt(as[0], 32, false)
	case "le0":
		return b2i(as[0].Sign() <= 0)
	case "eq0":
		return b2i(as[0].Sign() == 0)
	case "not":
		return b2i(as[0].Sign() == 0)
	case "eq":
		return b2i(as[0].Cmp(as[1]) == 0)
	case "<":
		return b2i(as[0].Cmp(as[1]) < 0)
	}
	return nil
}

// inputAtom: a value the caller or the environment chooses freely.
func (e *Engine) inputAtom(t *Term) bool {
	return inputAtom(t) || e.FreeMem && t.Kind == KHv
}

func inputAtom(t *Term) bool {
	switch t.Kind {
	case KSym:
		return strings.HasPrefix(t.Name, "arg:")
	case KInit:
		return true
	}
	return false
}

// instances calls f with instantiations of the atoms of ts that satisfy the
// conditions of st, until f returns true. It reports whether f did, and the
// instantiation. free says which atoms may be chosen freely; any other atom
// makes the search give up.
func (e *Engine) instances(st *State, ts []*Term, free func(*Term) bool, fix map[*Term][]int64, f func(env instEnv, ev func(*Term) (*big.Int, bool)) bool) (instEnv, bool) {
	at := map[*Term]bool{}
	for _, t := range ts {
		e.atoms(t, at)
	}
	// conditions connected to them
	var facts []*Term
	var vals []bool
	used := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for b, v := range st.facts {
			if used[b] {
				continue
			}
			fa := map[*Term]bool{}
			e.atoms(b, fa)
			rel := false
			for a := range fa {
				rel = rel || at[a]
				if !rel && a.Kind == KApp {
					// a condition on an unknown function of them
					rel = a.contains(func(x *Term) bool { return at[x] })
				}
			}
			if !rel {
				continue
			}
			used[b] = true
			facts, vals = append(facts, b), append(vals, v)
			for a := range fa {
				if !at[a] {
					at[a] = true
				}
			}
			changed = true
		}
	}
	var as []*Term
	for a := range at {
		if !free(a) {
			return nil, false
		}
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	// constants of interest
	consts := map[int64]bool{0: true, 1: true, 2: true, 3: true, 7: true, 8: true, 255: true, 256: true, 65535: true, 65536: true, 1<<31 - 1: true, 1 << 31: true, 1<<32 - 1: true}
	var pick func(t *Term)
	seen := map[*Term]bool{}
	pick = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if i, ok := t.isInt(); ok {
			consts[i], consts[i+1], consts[i-1] = true, true, true
		}
		if t.Kind == KLin {
			c := t.C
			for _, d := range []int64{-1, 0, 1} {
				consts[c+d], consts[-c+d] = true, true
			}
		}
		for _, a := range t.Args {
			pick(a)
		}
	}
	for _, t := range append(append([]*Term{}, ts...), facts...) {
		pick(t)
	}
	var cs []int64
	for c := range consts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	seed := uint64(0x9e3779b97f4a7c15)
	rnd := func() uint64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return seed
	}
	cand := make([][]*big.Int, len(as))
	for i, a := range as {
		r := rngOf(a)
		in := func(v *big.Int) bool { return v.Cmp(r.lo) >= 0 && v.Cmp(r.hi) <= 0 }
		if l := fix[a]; l != nil {
			for _, c := range l {
				if in(big.NewInt(c)) {
					cand[i] = append(cand[i], big.NewInt(c))
				}
			}
			continue
		}
		for _, c := range cs {
			if in(big.NewInt(c)) {
				cand[i] = append(cand[i], big.NewInt(c))
			}
		}
		cand[i] = append(cand[i], r.lo, r.hi)
	}
	total := 1
	for i := range cand {
		if len(cand[i]) == 0 {
			return nil, false
		}
		if total < 1<<20 {
			total *= len(cand[i])
		}
	}
	tries := 4000
	all := total <= tries
	for n := 0; n < tries; n++ {
		if all && n >= total {
			break
		}
		env := instEnv{}
		k := n
		for i, a := range as {
			var v *big.Int
			if all {
				v = cand[i][k%len(cand[i])]
				k /= len(cand[i])
			} else if rnd()%3 == 0 && fix[a] == nil {
				r := rngOf(a)
				sp := new(big.Int).Sub(r.hi, r.lo)
				x := new(big.Int).SetUint64(rnd())
				x.Rsh(x, uint(rnd()%60))
				if sp.Sign() > 0 {
					x.Mod(x, new(big.Int).Add(sp, big.NewInt(1)))
					v = x.Add(x, r.lo)
					if v.Cmp(r.lo) < 0 || v.Cmp(r.hi) > 0 {
						v = r.lo
					}
				} else {
					v = r.lo
				}
			} else {
				v = cand[i][rnd()%uint64(len(cand[i]))]
			}
			env[a] = v
		}
		memo := map[*Term]*big.Int{}
		ok := true
		for i, b := range facts {
			v, k := e.instEval(b, env, memo)
			if !k {
				return nil, false
			}
			if (v.Sign() != 0) != vals[i] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if f(env, func(t *Term) (*big.Int, bool) { return e.instEval(t, env, memo) }) {
			return env, true
		}
	}
	return nil, false
}

func (env instEnv) String() string {
	var ks []*Term
	for k := range env {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var out []string
	for _, k := range ks {
		n := k.String()
		n = strings.TrimPrefix(n, "$arg:")
		if i := strings.LastIndexByte(n, '#'); i > 0 {
			n = n[:i]
		}
		out = append(out, fmt.Sprintf("%s=%s", n, env[k]))
	}
	return strings.Join(out, " ")
}

// separate: an instantiation of the inputs under which a and b differ modulo
// 2^bits, if one is found.
func (e *Engine) separate(st *State, a, b *Term, bits int) (instEnv, bool) {
	return e.instances(st, []*Term{a, b}, e.inputAtom, nil, func(env instEnv, ev func(*Term) (*big.Int, bool)) bool {
		x, ok := ev(a)
		y, ok2 := ev(b)
		return ok && ok2 && wrapInt(x, bits, true).Cmp(wrapInt(y, bits, true)) != 0
	})
}

// mustEqual is the obligation got == want (mod 2^bits) on the path of st.
func (r *Rule) mustEqual(e *Engine, st *State, pos token.Pos, key, what string, got, want *Term, bits int) bool {
	r.oblige(key, fmt.Sprintf("%s: %s", what, got))
	if e.same(st, got, want, uint(bits)) > 0 {
		return true
	}
	if env, ok := e.separate(st, got, want, bits); ok {
		r.failAt(st, pos, key, "%s: %s instead of %s (e.g. %s)", what, got, want, env)
		return false
	}
	if _, ok := e.feasible(st, got, want); ok && e.same(st, got, want, uint(bits)) < 0 && inputsOnly(got) {
		r.failAt(st, pos, key, "%s: %s instead of %s", what, got, want)
		return false
	}
	r.undecided("%s: %s not shown equal to %s", what, got, want)
	return false
}

// mustBe is the obligation lo <= got <= hi.
func (r *Rule) mustBe(e *Engine, st *State, pos token.Pos, key, what string, got, lo, hi *Term) bool {
	r.oblige(key, fmt.Sprintf("%s: %s in [%s,%s]", what, got, lo, hi))
	rg := rngOf(got)
	l, ok1 := lo.isInt()
	h, ok2 := hi.isInt()
	if ok1 && ok2 && rg.lo.Cmp(big.NewInt(l)) >= 0 && rg.hi.Cmp(big.NewInt(h)) <= 0 {
		return true
	}
	if e.provesLe(st, lo, got) && e.provesLe(st, got, hi) {
		return true
	}
	env, ok := e.instances(st, []*Term{got, lo, hi}, e.inputAtom, nil, func(env instEnv, ev func(*Term) (*big.Int, bool)) bool {
		g, k1 := ev(got)
		a, k2 := ev(lo)
		b, k3 := ev(hi)
		return k1 && k2 && k3 && (g.Cmp(a) < 0 || g.Cmp(b) > 0)
	})
	if ok {
		r.failAt(st, pos, key, "%s: %s is outside of [%s,%s] (e.g. %s)", what, got, lo, hi, env)
		return false
	}
	r.undecided("%s: %s not shown to lie in [%s,%s]", what, got, lo, hi)
	return false
}

// feasible: an input that reaches this path exists for sure.
func (e *Engine) feasible(st *State, about ...*Term) (instEnv, bool) {
	ts := about
	for b := range st.facts {
		ts = append(ts, b)
	}
	return e.instances(st, ts, e.inputAtom, nil, func(instEnv, func(*Term) (*big.Int, bool)) bool { return true })
}

// possible: an instantiation of the atoms of the given terms that satisfies
// the conditions they take part in.
func (e *Engine) possible(st *State, about ...*Term) (instEnv, bool) {
	return e.instances(st, about, e.inputAtom, nil, func(instEnv, func(*Term) (*big.Int, bool)) bool { return true })
}

// apart: a and b surely differ on this path (for some input reaching it).
func (e *Engine) apart(st *State, a, b *Term) bool {
	d := e.T.Sub(a, b)
	if n, ok := d.isInt(); ok {
		return n != 0
	}
	if rg := rngOf(d); rg.lo != nil && rg.lo.Sign() > 0 || rg.hi != nil && rg.hi.Sign() < 0 {
		return true
	}
	_, ok := e.separate(st, a, b, 64)
	return ok
}

// reachable: inputs that take this path exist for sure; conditions that share
// no input are looked at separately.
func (e *Engine) reachable(st *State) (instEnv, bool) {
	done := map[*Term]bool{}
	env := instEnv{}
	var fs []*Term
	for b := range st.facts {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	for _, b := range fs {
		at := map[*Term]bool{}
		e.atoms(b, at)
		fresh := false
		for a := range at {
			if !e.inputAtom(a) {
				return nil, false
			}
			fresh = fresh || !done[a]
		}
		if !fresh {
			continue
		}
		sub, ok := e.instances(st, []*Term{b}, e.inputAtom, nil, func(instEnv, func(*Term) (*big.Int, bool)) bool { return true })
		if !ok {
			return nil, false
		}
		for a, v := range sub {
			env[a] = v
			done[a] = true
		}
	}
	return env, true
}
