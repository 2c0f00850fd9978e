package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A01", "value numbering of the stores of Add and the tests of Has on a set of symbolic size for 1 to 6 hashes: same positions and masks, stores only set bits, positions inside the set", ruleA01)
}

func ruleA01(r *Rule) {
	ks := []int64{1, 2, 3, 4}
	if r.Tier == "thorough" {
		ks = append(ks, 5, 6, 9, 16)
	}
	for _, k := range ks {
		bloom(r, k)
	}
}

type bitTest struct{ addr, idx, mask *Term }

func bloom(r *Rule, k int64) {
	mk := r.need("attic/ibloom", "", "NewFnv32")
	if mk == nil {
		return
	}
	e := r.engine()
	e.NoFault, e.Unroll, e.UnrollMax = true, true, 20
	e.H.Key = factKey
	T := e.T
	it := types.Typ[types.Int]
	m := e.arg("mbytes", it)
	m.rng = &Rng{big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 40)}
	st := newState()
	outs := okOuts(e, mk, r.run(e, mk, st, m, T.Int(k)))
	if len(outs) != 1 {
		r.undecided("NewFnv32 has %d outcomes", len(outs))
		return
	}
	st = outs[0].st
	f := results(outs[0].ret)[0]
	dyn := f
	if f.Kind == KIface {
		dyn = f.Args[0]
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	base := T.mk(&Term{Kind: KSym, Name: "arg:set", Typ: types.NewPointer(types.Typ[types.Uint8]), NonNil: true})
	set := T.Slice(base, T.Int(0), m, bt)
	v := e.arg("v", types.Typ[types.Uint32])
	method := func(name string) *ssa.Function {
		ft := f.Typ
		if f.Kind != KIface {
			ft = dyn.Typ
		}
		if ft == nil {
			return nil
		}
		n := namedName(ft)
		return r.need("attic/ibloom", n, name)
	}
	add, has, put := method("Add"), method("Has"), method("PutOnes")
	if add == nil || has == nil {
		return
	}
	// the size seen by the caller
	if sf := method("Set"); sf != nil {
		for _, o := range r.noPanic(e, "panic", "Set", r.run(e, sf, st.clone(), dyn)) {
			r.mustEqual(e, o.st, o.pos, "setsize", "length of the set made for n bytes", T.Len(results(o.ret)[0]), m, 63)
		}
	}
	e.H.On = func(ev *Event) {
		switch ev.Kind {
		case "store":
			if a := ev.Addr; a != nil && a.Kind == KIndexA && a.Args[0] == base {
				old := e.load(ev.St, a, types.Typ[types.Uint8])
				ev.St.addItem(&Item{Kind: "setstore", Args: []*Term{a, old, ev.Val}, Pos: ev.Ins.Pos()})
				bloomStore(r, ev, k, a, old, ev.Val)
			}
		case "index":
			if ev.Addr != nil && sliceBase(ev.Addr) == base {
				insideSet(r, e, ev.St, ev.Ins, ev.Args[0], m, k)
			}
		case "div":
			bloomDiv(r, e, ev, k)
		}
	}
	ao := r.noPanic(e, "panic", "Add", r.run(e, add, st.clone(), dyn, set, v))
	e.H.On = func(ev *Event) {
		if ev.Kind == "index" && ev.Addr != nil && sliceBase(ev.Addr) == base {
			insideSet(r, e, ev.St, ev.Ins, ev.Args[0], m, k)
		}
		if ev.Kind == "div" {
			bloomDiv(r, e, ev, k)
		}
		if ev.Kind == "store" && ev.Addr != nil && ev.Addr.Kind == KIndexA && ev.Addr.Args[0] == base {
			r.v(ev, "hasstores", "Has changes the set")
		}
	}
	ho := r.noPanic(e, "panic", "Has", r.run(e, has, st.clone(), dyn, set, v))
	e.H.On = nil
	if len(ao) > 64 {
		r.undecided("k=%d: Add has %d outcomes", k, len(ao))
		return
	}
	for _, a := range ao {
		bloomPair(r, e, k, base, a, ho)
	}
	// positions listed by PutOnes
	if put != nil {
		pb := T.mk(&Term{Kind: KSym, Name: "arg:dst", Typ: types.NewPointer(types.Typ[types.Uint32]), NonNil: true})
		dst := T.Slice(pb, T.Int(0), T.Int(k), types.NewSlice(types.Typ[types.Uint32]))
		e.H.On = func(ev *Event) {
			if ev.Kind == "store" && ev.Addr != nil && ev.Addr.Kind == KIndexA && ev.Addr.Args[0] == pb {
				insideBits(r, e, ev.St, ev.Ins, ev.Val, m, k)
			}
		}
		r.run(e, put, st.clone(), dyn, dst, v)
		e.H.On = nil
	}
}

// bloomStore: a store into the set only adds bits.
func bloomStore(r *Rule, ev *Event, k int64, a, old, val *Term) {
	r.oblige("store of Add", fmt.Sprintf("k=%d: %s := %s", k, a, val))
	if val == old || setMask(ev.E, ev.St, old, val) != nil {
		return
	}
	switch {
	case !val.contains(func(x *Term) bool { return x == old }) && inputOr(val):
		r.failAt(ev.St, ev.Ins.Pos(), "overwrite", "k=%d: Add replaces a byte of the set by %s instead of adding bits to it", k, val)
		return
	case val.Kind == KApp && (val.Name == "xor" || val.Name == "andnot" || val.Name == "and") && !factAbout(ev.St, old):
		r.failAt(ev.St, ev.Ins.Pos(), "clears", "k=%d: Add may clear bits that are set: %s", k, val)
		return
	}
	r.undecided("k=%d: what Add stores is %s", k, val)
}

// bloomPair: after this way of adding, every way of answering no is excluded.
func bloomPair(r *Rule, e *Engine, k int64, base *Term, a Out, ho []Out) {
	var sets []bitTest
	for _, it := range a.st.items.list(nil) {
		if it.Kind != "setstore" {
			continue
		}
		if it.Args[1] == it.Args[2] {
			continue
		}
		mask := setMask(e, a.st, it.Args[1], it.Args[2])
		if mask == nil {
			return
		}
		sets = append(sets, bitTest{it.Args[0], it.Args[0].Args[1], mask})
	}
	for f, v := range a.st.facts {
		if t, ok := clearTest(e, f, !v, base); ok { // found set already
			sets = append(sets, t)
		}
	}
	// what Has tests
	for _, o := range ho {
		ret := results(o.ret)[0]
		b, ok := e.truth(o.st, ret)
		if ok && b {
			r.oblige("Has yes", fmt.Sprintf("k=%d", k))
			continue
		}
		if !ok {
			// the last test may be returned as is: it is false iff its bit is clear
			st2 := o.st.clone()
			if !e.assume(st2, ret, false) {
				continue
			}
			o.st = st2
		}
		r.oblige("Has no", fmt.Sprintf("k=%d", k))
		// some bit tested clear must be one that Add sets
		var tests []bitTest
		for fct, val := range o.st.facts {
			if t, ok := clearTest(e, fct, val, base); ok {
				tests = append(tests, t)
			}
		}
		found := false
		for _, t := range tests {
			for _, s := range sets {
				if t.addr == s.addr && t.mask == s.mask {
					found = true
				}
			}
		}
		if found {
			continue
		}
		if len(tests) == 0 {
			if onlyDecided(o.st, base) {
				r.failAt(o.st, o.pos, "denies", "k=%d: Has answers no without finding a bit clear", k)
			} else {
				r.undecided("k=%d: why Has answers no is not resolved", k)
			}
			continue
		}
		// a bit tested clear, and none of those Add sets
		var ts []*Term
		for _, t := range append(append([]bitTest{}, tests...), sets...) {
			ts = append(ts, t.idx, t.mask)
		}
		env, ok := e.instances(a.st, ts, inputAtom, nil, func(env instEnv, ev func(*Term) (*big.Int, bool)) bool {
			bytes := map[string]*big.Int{} // what the set held before
			for x, v := range env {
				if ad := loadedAt(x); ad != nil && ad.Kind == KIndexA && ad.Args[0] == base {
					i, ok := ev(ad.Args[1])
					if !ok || bytes[i.String()] != nil && bytes[i.String()].Cmp(v) != 0 {
						return false
					}
					bytes[i.String()] = v
				}
			}
			for _, t := range tests {
				i, k1 := ev(t.idx)
				mk, k2 := ev(t.mask)
				if !k1 || !k2 {
					return false
				}
				// the tested bits not set by Add
				left := new(big.Int).Set(mk)
				if b := bytes[i.String()]; b != nil {
					left = new(big.Int).AndNot(left, b)
				}
				for _, s := range sets {
					j, k1 := ev(s.idx)
					ms, k2 := ev(s.mask)
					if !k1 || !k2 {
						return false
					}
					if i.Cmp(j) == 0 {
						left = new(big.Int).AndNot(left, ms)
					}
				}
				if left.Sign() == 0 {
					return false
				}
			}
			return true
		})
		if ok {
			r.failAt(o.st, o.pos, "denies", "k=%d: Has tests a bit Add does not set (e.g. %s)", k, env)
		} else {
			r.undecided("k=%d: bits tested by Has not matched with those Add sets", k)
		}
	}
}

// factKey keeps paths with different conditions apart at loop heads.
func factKey(st *State) string {
	var ids []int
	for f, v := range st.facts {
		id := f.ID
		if !v {
			id = -id
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

func inputOr(t *Term) bool {
	ok := true
	t.walk(func(x *Term) bool {
		if x.Kind == KHv || x.Kind == KSym && !inputAtom(x) {
			ok = false
		}
		return ok
	})
	return ok
}

func factAbout(st *State, old *Term) bool {
	for f := range st.facts {
		if f.contains(func(x *Term) bool { return x == old }) {
			return true
		}
	}
	return false
}

// onlyDecided: no condition of the path mentions the set's contents.
func onlyDecided(st *State, base *Term) bool {
	for f := range st.facts {
		if f.contains(func(x *Term) bool { return x == base }) {
			return false
		}
	}
	return true
}

// setMask: the bits m with new = old | m.
func setMask(e *Engine, st *State, old, val *Term) *Term {
	if val.Kind == KApp && (val.Name == "or" || val.Name == "xor") && len(val.Args) == 2 {
		for i := 0; i < 2; i++ {
			if val.Args[i] != old {
				continue
			}
			m := val.Args[1-i]
			if val.Name == "or" || isClear(e, st, old, m) {
				return m
			}
		}
	}
	if val.Kind == KLin && val.C == 0 && len(val.Args) == 2 && val.Coef[0] == 1 && val.Coef[1] == 1 {
		for i := 0; i < 2; i++ {
			if val.Args[i] == old && isClear(e, st, old, val.Args[1-i]) {
				return val.Args[1-i]
			}
		}
	}
	return nil
}

func isClear(e *Engine, st *State, old, m *Term) bool {
	for f, v := range st.facts {
		if t, ok := clearTest(e, f, v, nil); ok && t.addr == loadedAt(old) && t.mask == m {
			return true
		}
	}
	return false
}

// clearTest: the fact says that (load addr) & mask == 0.
func clearTest(e *Engine, f *Term, val bool, base *Term) (bitTest, bool) {
	for f.Kind == KApp && f.Name == "not" {
		f, val = f.Args[0], !val
	}
	if f.Kind != KApp || len(f.Args) != 1 || f.Name != "eq0" && f.Name != "le0" {
		return bitTest{}, false
	}
	x := f.Args[0]
	neg := false
	if x.Kind == KLin && len(x.Args) == 1 {
		// bit - 1 == 0, 1 - bit <= 0 for a single bit
		switch {
		case f.Name == "eq0" && x.C == -x.Coef[0]:
			neg = true
		case f.Name == "le0" && x.C == 1 && x.Coef[0] == -1:
			neg = true
		default:
			return bitTest{}, false
		}
		x = x.Args[0]
	}
	if val == neg {
		return bitTest{}, false
	}
	mask := func(ld, m *Term) (bitTest, bool) {
		a := loadedAt(ld)
		if a != nil && a.Kind == KIndexA && (base == nil || a.Args[0] == base) {
			return bitTest{a, a.Args[1], m}, true
		}
		return bitTest{}, false
	}
	if x.Kind == KApp && x.Name == "and" && len(x.Args) == 2 {
		for i := 0; i < 2; i++ {
			if neg && !isOneBit(x.Args[1-i]) {
				continue
			}
			if t, ok := mask(x.Args[i], x.Args[1-i]); ok && !neg {
				return t, true
			}
		}
	}
	if x.Kind == KApp && x.Name == "mod" && x.Args[0].Kind == KApp && x.Args[0].Name == "shr" {
		if two, ok := x.Args[1].isInt(); ok && two == 2 {
			return mask(x.Args[0].Args[0], e.T.App("shl", types.Typ[types.Uint8], e.T.Int(1), x.Args[0].Args[1]))
		}
	}
	return bitTest{}, false
}

func isOneBit(m *Term) bool {
	if m.Kind == KApp && m.Name == "shl" {
		i, ok := m.Args[0].isInt()
		return ok && i == 1
	}
	return false
}

func loadedAt(x *Term) *Term {
	if x.Kind == KInit {
		return x.Args[0]
	}
	return nil
}

func below(e *Engine, st *State, idx, n *Term) bool {
	T := e.T
	if e.provesLe(st, T.Int(0), idx) && e.provesLe(st, idx, T.Sub(n, T.Int(1))) {
		return true
	}
	if idx.Kind == KApp && idx.Name == "quo" {
		if k, ok := idx.Args[1].isInt(); ok && k > 0 && rngOf(idx.Args[0]).lo.Sign() >= 0 {
			return below(e, st, idx.Args[0], T.MulC(n, k))
		}
	}
	if idx.Kind == KApp && idx.Name == "mod" {
		return idx.Args[1] == n || e.provesLe(st, idx.Args[1], n) || rngOf(idx.Args[0]).lo.Sign() >= 0 && below(e, st, idx.Args[0], n)
	}
	return false
}

func insideSet(r *Rule, e *Engine, st *State, ins ssa.Instruction, idx, n *Term, k int64) bool {
	r.oblige("position inside the set", fmt.Sprintf("k=%d: %s < %s", k, idx, n))
	if below(e, st, idx, n) {
		return true
	}
	free := newState()
	env, ok := e.instances(free, []*Term{idx, n}, inputAtom, nil, func(env instEnv, ev func(*Term) (*big.Int, bool)) bool {
		i, k1 := ev(idx)
		l, k2 := ev(n)
		return k1 && k2 && (i.Sign() < 0 || i.Cmp(l) >= 0)
	})
	if ok {
		r.failAt(st, ins.Pos(), "outside", "k=%d: byte %s of a set of %s bytes is used (e.g. %s)", k, idx, n, env)
	} else {
		r.undecided("k=%d: byte %s not shown to be inside the set", k, idx)
	}
	return false
}

func insideBits(r *Rule, e *Engine, st *State, ins ssa.Instruction, idx, m *Term, k int64) {
	n := e.T.MulC(m, 8)
	r.oblige("position listed inside the set", fmt.Sprintf("k=%d: %s", k, idx))
	if below(e, st, idx, n) {
		return
	}
	env, ok := e.instances(newState(), []*Term{idx, n}, inputAtom, nil, func(env instEnv, ev func(*Term) (*big.Int, bool)) bool {
		i, k1 := ev(idx)
		l, k2 := ev(n)
		return k1 && k2 && (i.Sign() < 0 || i.Cmp(l) >= 0)
	})
	if ok {
		r.failAt(st, ins.Pos(), "outside", "k=%d: bit %s of a set of %s bits is listed (e.g. %s)", k, idx, n, env)
	} else {
		r.undecided("k=%d: bit %s not shown to be inside the set", k, idx)
	}
}

// bloomDiv: a divisor that is zero for some size of the set.
func bloomDiv(r *Rule, e *Engine, ev *Event, k int64) {
	d := ev.Args[1]
	r.oblige("divisor", fmt.Sprintf("k=%d: %s", k, d))
	if rngOf(d).lo.Sign() > 0 {
		return
	}
	fix := map[*Term][]int64{}
	at := map[*Term]bool{}
	e.atoms(d, at)
	for a := range at {
		if rngOf(a).hi.BitLen() > 32 {
			fix[a] = []int64{1, 2, 125, 1 << 20, 1<<28 - 1, 1 << 28, 1 << 29, 1<<29 + 5, 1 << 30, 1 << 31, 1 << 32, 1<<32 + 9, 1 << 35}
		}
	}
	env, ok := e.instances(ev.St, []*Term{d}, inputAtom, fix, func(env instEnv, f func(*Term) (*big.Int, bool)) bool {
		v, ok := f(d)
		return ok && v.Sign() == 0
	})
	if ok {
		r.failAt(ev.St, ev.Ins.Pos(), "zero", "k=%d: division by %s, which can be zero (e.g. %s)", k, d, env)
	} else {
		r.undecided("k=%d: divisor %s not shown to be non-zero", k, d)
	}
}
