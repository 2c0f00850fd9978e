package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst   Kind = iota // Val
	KNil                 //
	KSym                 // opaque; Name, home
	KInit                // initial content of address Args[0]
	KHv                  // content of address Args[0] after havoc Args[1]
	KApp                 // pure application Name(Args)
	KLin                 // C + sum Coef[i]*Args[i]
	KAlloc               // fresh object
	KGlobal              // address of a package variable
	KFieldA              // address of field: Args[0] base address, N index, Name
	KIndexA              // address of element: Args[0] base, Args[1] index
	KStruct              // struct value: Args fields
	KSlice               // slice value: Args base, lo, hi
	KFunc                // function value
	KClosure             // Fn with Args bindings
	KTuple               //
	KIface               // interface holding Args[0], dynamic type Typ
)

// Term is a hash-consed abstract value.
type Term struct {
	ID     int
	Kind   Kind
	Name   string
	Args   []*Term
	Val    constant.Value
	C      int64
	Coef   []int64
	N      int
	Typ    types.Type
	Fn     *ssa.Function
	Frame  *Frame // home of KSym / KAlloc
	Block  *ssa.BasicBlock
	Instr  ssa.Value
	Phi    bool // symbol introduced by a join/loop head
	NonNil bool
	MayEOF bool
	rng    *Rng
	neg    *Term
	oneSub *Term
}

type Terms struct {
	tab map[string]*Term
	all []*Term
	Nil *Term
	T   *Term
	F   *Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[string]*Term{}}
	ts.Nil = ts.mk(&Term{Kind: KNil})
	ts.T = ts.Const(constant.MakeBool(true))
	ts.F = ts.Const(constant.MakeBool(false))
	return ts
}

func (ts *Terms) mk(t *Term) *Term {
	b := make([]byte, 0, 64)
	b = strconv.AppendInt(b, int64(t.Kind), 10)
	b = append(b, '|')
	b = append(b, t.Name...)
	b = append(b, '|')
	for _, a := range t.Args {
		b = strconv.AppendInt(b, int64(a.ID), 10)
		b = append(b, ',')
	}
	switch t.Kind {
	case KConst:
		b = append(b, t.Val.ExactString()...)
	case KLin:
		b = strconv.AppendInt(b, t.C, 10)
		for _, c := range t.Coef {
			b = append(b, ';')
			b = strconv.AppendInt(b, c, 10)
		}
	case KFieldA, KTuple:
		b = strconv.AppendInt(b, int64(t.N), 10)
	case KFunc, KClosure:
		b = append(b, fmt.Sprintf("%p", t.Fn)...)
	case KIface, KStruct:
		if t.Typ != nil {
			b = append(b, t.Typ.String()...)
		}
	case KSym, KAlloc:
		if t.Frame != nil {
			b = append(b, 'f')
			b = strconv.AppendInt(b, int64(t.Frame.ID), 10)
		}
	}
	k := string(b)
	if o := ts.tab[k]; o != nil {
		if o.Typ == nil {
			o.Typ = t.Typ
			o.rng = nil
		}
		return o
	}
	t.rng, t.neg, t.oneSub = nil, nil, nil
	t.ID = len(ts.all) + 1
	ts.all = append(ts.all, t)
	ts.tab[k] = t
	return t
}

func (ts *Terms) Const(v constant.Value) *Term {
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	return ts.mk(&Term{Kind: KConst, Val: v})
}
func (ts *Terms) Int(i int64) *Term  { return ts.Const(constant.MakeInt64(i)) }
func (ts *Terms) Str(s string) *Term { return ts.Const(constant.MakeString(s)) }
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (ts *Terms) App(name string, typ types.Type, args ...*Term) *Term {
	if len(args) == 1 {
		if r := ts.foldPure(name, typ, args); r != nil {
			return r
		}
	}
	return ts.mk(&Term{Kind: KApp, Name: name, Args: args, Typ: typ})
}

func (ts *Terms) Init(addr *Term, typ types.Type) *Term {
	return ts.mk(&Term{Kind: KInit, Args: []*Term{addr}, Typ: typ})
}

func (t *Term) isInt() (int64, bool) {
	if t.Kind == KConst && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}
func (t *Term) isBool() (bool, bool) {
	if t.Kind == KConst && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}
func (t *Term) isStr() (string, bool) {
	if t.Kind == KConst && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

// ---------------------------------------------------------------- linear

type lin struct {
	c  int64
	m  map[*Term]int64
	ok bool
}

func toLin(t *Term) lin {
	if i, ok := t.isInt(); ok {
		return lin{c: i, m: map[*Term]int64{}, ok: true}
	}
	if t.Kind == KLin {
		m := make(map[*Term]int64, len(t.Args))
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return lin{c: t.C, m: m, ok: true}
	}
	return lin{m: map[*Term]int64{t: 1}, ok: true}
}

func (ts *Terms) fromLin(l lin) *Term {
	as := make([]*Term, 0, len(l.m))
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return ts.Int(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.c == 0 && l.m[as[0]] == 1 {
		return as[0]
	}
	t := &Term{Kind: KLin, C: l.c, Args: as}
	for _, a := range as {
		t.Coef = append(t.Coef, l.m[a])
	}
	t.Typ = as[0].Typ
	return ts.mk(t)
}

func (ts *Terms) AddScaled(a *Term, b *Term, k int64) *Term {
	x, y := toLin(a), toLin(b)
	x.c += k * y.c
	for t, c := range y.m {
		x.m[t] += k * c
	}
	return ts.fromLin(x)
}
func (ts *Terms) Add(a, b *Term) *Term { return ts.AddScaled(a, b, 1) }
func (ts *Terms) Sub(a, b *Term) *Term { return ts.AddScaled(a, b, -1) }
func (ts *Terms) MulC(a *Term, k int64) *Term {
	x := toLin(a)
	x.c *= k
	for t := range x.m {
		x.m[t] *= k
	}
	return ts.fromLin(x)
}
func (ts *Terms) Mul(a, b *Term) *Term {
	if k, ok := a.isInt(); ok {
		return ts.MulC(b, k)
	}
	if k, ok := b.isInt(); ok {
		return ts.MulC(a, k)
	}
	// distribute (sum)*(atom)
	x, y := toLin(a), toLin(b)
	if len(x.m)+len(y.m) <= 6 {
		r := lin{c: x.c * y.c, m: map[*Term]int64{}}
		for t, c := range x.m {
			r.m[t] += c * y.c
		}
		for t, c := range y.m {
			r.m[t] += c * x.c
		}
		for t, c := range x.m {
			for u, d := range y.m {
				p := ts.mulAtoms(t, u)
				r.m[p] += c * d
			}
		}
		return ts.fromLin(r)
	}
	return ts.mulAtoms(a, b)
}
func (ts *Terms) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{a, b} {
		if t.Kind == KApp && t.Name == "mul" {
			fs = append(fs, t.Args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	return ts.App("mul", a.Typ, fs...)
}

func constPart(t *Term) int64 {
	if i, ok := t.isInt(); ok {
		return i
	}
	if t.Kind == KLin {
		return t.C
	}
	return 0
}

// ---------------------------------------------------------------- ranges

var (
	negInf = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 200))
	posInf = new(big.Int).Lsh(big.NewInt(1), 200)
)

type Rng struct{ lo, hi *big.Int }

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intBits(t types.Type) (bits int, unsigned bool, ok bool) {
	b := basicOf(t)
	if b == nil || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true, true
	}
	return 64, false, true
}

func typeRng(t types.Type) Rng {
	bits, u, ok := intBits(t)
	if !ok {
		return Rng{negInf, posInf}
	}
	one := big.NewInt(1)
	if u {
		return Rng{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)}
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return Rng{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}
}

func rngOf(t *Term) Rng {
	if t.rng == nil {
		r := rngOf0(t)
		if t.Typ == nil && t.Kind != KConst {
			return r
		}
		t.rng = &r
	}
	return *t.rng
}

// Neg is -t, OneSub 1-t.
func (ts *Terms) Neg(t *Term) *Term {
	if t.neg == nil {
		t.neg = ts.MulC(t, -1)
	}
	return t.neg
}
func (ts *Terms) OneSub(t *Term) *Term {
	if t.oneSub == nil {
		t.oneSub = ts.AddScaled(ts.Int(1), t, -1)
	}
	return t.oneSub
}

func rngOf0(t *Term) Rng {
	switch t.Kind {
	case KConst:
		if t.Val.Kind() == constant.Int {
			b, ok := new(big.Int).SetString(t.Val.ExactString(), 10)
			if ok {
				return Rng{b, b}
			}
		}
	case KLin:
		lo, hi := big.NewInt(t.C), big.NewInt(t.C)
		for i, a := range t.Args {
			r := rngOf(a)
			k := big.NewInt(t.Coef[i])
			x, y := new(big.Int).Mul(r.lo, k), new(big.Int).Mul(r.hi, k)
			if t.Coef[i] < 0 {
				x, y = y, x
			}
			lo, hi = new(big.Int).Add(lo, x), new(big.Int).Add(hi, y)
		}
		return Rng{lo, hi}
	case KApp:
		switch t.Name {
		case "mod":
			if k, ok := t.Args[1].isInt(); ok && k > 0 {
				return Rng{big.NewInt(0), big.NewInt(k - 1)}
			}
			r, x := rngOf(t.Args[1]), rngOf(t.Args[0])
			if r.lo.Sign() >= 0 {
				hi := new(big.Int).Sub(r.hi, big.NewInt(1))
				if x.lo.Sign() >= 0 && x.hi.Cmp(hi) < 0 {
					hi = x.hi
				}
				return Rng{big.NewInt(0), hi}
			}
		case "quo":
			r := rngOf(t.Args[0])
			if k, ok := t.Args[1].isInt(); ok && k > 0 && r.lo.Sign() >= 0 {
				return Rng{new(big.Int).Quo(r.lo, big.NewInt(k)), new(big.Int).Quo(r.hi, big.NewInt(k))}
			}
			if r.lo.Sign() >= 0 && rngOf(t.Args[1]).lo.Sign() >= 0 {
				return Rng{big.NewInt(0), r.hi}
			}
		case "len", "cap":
			return Rng{big.NewInt(0), big.NewInt(math.MaxInt64)}
		case "varintlen", "uvarintlen":
			lo, hi := vlenRange(t.Name == "varintlen", t.Args[0])
			return Rng{big.NewInt(lo), big.NewInt(hi)}
		case "mul":
			ok := true
			for _, a := range t.Args {
				if rngOf(a).lo.Sign() < 0 {
					ok = false
				}
			}
			if ok {
				return Rng{big.NewInt(0), posInf}
			}
		}
	}
	return typeRng(t.Typ)
}

// ---------------------------------------------------------------- arithmetic

func (ts *Terms) Mod(x, m *Term, typ types.Type) *Term {
	if k, ok := m.isInt(); ok && k > 0 && isPow2(k) && x.Kind == KApp && (x.Name == "u64" || x.Name == "i64") {
		return ts.Mod(x.Args[0], m, typ)
	}
	if k, ok := m.isInt(); ok && k > 0 {
		if k == 1 {
			return ts.Int(0)
		}
		l := toLin(x)
		// drop multiples of k
		kb := k
		l.c = ((l.c % kb) + kb) % kb
		for t, c := range l.m {
			r := c % kb
			if r < 0 && kb > (1<<31) {
				r = c % kb
			}
			if c%kb == 0 {
				delete(l.m, t)
			} else if c > kb || c < -kb {
				l.m[t] = r
			}
			// mod(mod(y,M),k) with k|M as summand: replace by y
			if t.Kind == KApp && t.Name == "mod" {
				if M, ok2 := t.Args[1].isInt(); ok2 && M%k == 0 && l.m[t] == 1 {
					delete(l.m, t)
					y := ts.fromLin(l)
					return ts.Mod(ts.Add(y, t.Args[0]), m, typ)
				}
			}
		}
		x = ts.fromLin(l)
		r := rngOf(x)
		if r.lo.Sign() >= 0 && r.hi.Cmp(big.NewInt(k)) < 0 {
			return x
		}
		if i, ok := x.isInt(); ok {
			return ts.Int(((i % k) + k) % k)
		}
		// mod(g*y + c, g*n) = g*mod(y, n) + c for 0 <= c < g
		if k != 1<<8 && k != 1<<16 && k != 1<<32 {
			l = toLin(x)
			g := k
			for _, c := range l.m {
				if c < 0 {
					c = -c
				}
				g = gcd(g, c)
			}
			if g > 1 && g < k {
				c := ((l.c % g) + g) % g
				y := lin{m: map[*Term]int64{}, ok: true}
				y.c = (l.c - c) / g
				for t, a := range l.m {
					y.m[t] = a / g
				}
				return ts.Add(ts.MulC(ts.Mod(ts.fromLin(y), ts.Int(k/g), typ), g), ts.Int(c))
			}
		}
		return ts.App("mod", typ, x, m)
	}
	if x.Kind == KApp && x.Name == "mod" {
		if q := ts.divides(m, x.Args[1]); q != nil {
			return ts.Mod(x.Args[0], m, typ)
		}
		if x.Args[1] == m {
			return x
		}
	}
	// (q*m + r) mod m
	l := toLin(x)
	changed := false
	for t := range l.m {
		if q := ts.divides(m, t); q != nil {
			delete(l.m, t)
			changed = true
		}
	}
	if changed {
		return ts.Mod(ts.fromLin(l), m, typ)
	}
	return ts.App("mod", typ, x, m)
}

// divides: q with M = q*m, or nil.
func (ts *Terms) divides(m, M *Term) *Term {
	if m == M {
		return ts.Int(1)
	}
	if a, ok := m.isInt(); ok {
		if b, ok2 := M.isInt(); ok2 && a != 0 && b%a == 0 {
			return ts.Int(b / a)
		}
	}
	// peel transparent wrap
	l := toLin(M)
	if l.c == 0 && len(l.m) == 1 {
		for t, c := range l.m {
			if t == m {
				return ts.Int(c)
			}
			if t.Kind == KApp && t.Name == "mul" {
				var rest []*Term
				hit := false
				for _, a := range t.Args {
					if a == m && !hit {
						hit = true
						continue
					}
					rest = append(rest, a)
				}
				if hit {
					r := ts.Int(1)
					for _, a := range rest {
						r = ts.Mul(r, a)
					}
					return ts.MulC(r, c)
				}
			}
		}
	}
	return nil
}

func (ts *Terms) Quo(x, m *Term, typ types.Type) *Term {
	if k, ok := m.isInt(); ok && k == 1 {
		return x
	}
	if k, ok := m.isInt(); ok && k > 0 {
		if i, ok := x.isInt(); ok {
			return ts.Int(i / k)
		}
		// (K*a + r)/K, 0<=r<K
		l := toLin(x)
		q := lin{m: map[*Term]int64{}}
		rest := lin{c: l.c, m: map[*Term]int64{}}
		if l.c >= 0 {
			q.c = l.c / k
			rest.c = l.c % k
		}
		for t, c := range l.m {
			if c%k == 0 {
				q.m[t] = c / k
			} else {
				rest.m[t] = c
			}
		}
		rt := ts.fromLin(rest)
		r := rngOf(rt)
		if r.lo.Sign() >= 0 && r.hi.Cmp(big.NewInt(k)) < 0 {
			return ts.fromLin(q)
		}
	}
	if x.Kind == KApp && x.Name == "mod" {
		if q := ts.divides(m, x.Args[1]); q != nil {
			return ts.Mod(ts.Quo(x.Args[0], m, typ), q, typ)
		}
	}
	// (q*m + r)/m with 0 <= r < m (symbolic m): r is mod(_, m)
	l := toLin(x)
	q := lin{m: map[*Term]int64{}}
	rest := lin{c: l.c, m: map[*Term]int64{}}
	hit := false
	for t, c := range l.m {
		if d := ts.divides(m, t); d != nil {
			dl := toLin(d)
			q.c += dl.c * c
			for u, e := range dl.m {
				q.m[u] += e * c
			}
			hit = true
		} else {
			rest.m[t] = c
		}
	}
	if hit {
		rt := ts.fromLin(rest)
		if i, ok := rt.isInt(); ok && i == 0 {
			return ts.fromLin(q)
		}
		if rt.Kind == KApp && rt.Name == "mod" && rt.Args[1] == m {
			return ts.fromLin(q)
		}
	}
	return ts.App("quo", typ, x, m)
}

func (ts *Terms) Xor(typ types.Type, xs ...*Term) *Term {
	cnt := map[*Term]int{}
	var c uint64
	var add func(t *Term)
	add = func(t *Term) {
		if t.Kind == KApp && t.Name == "xor" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if i, ok := t.isInt(); ok {
			c ^= uint64(i)
			return
		}
		cnt[t]++
	}
	for _, x := range xs {
		add(x)
	}
	var as []*Term
	for t, n := range cnt {
		if n%2 == 1 {
			as = append(as, t)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if c != 0 {
		as = append(as, ts.Int(int64(c)))
	}
	if len(as) == 0 {
		return ts.Int(0)
	}
	if len(as) == 1 {
		return as[0]
	}
	return ts.App("xor", typ, as...)
}

func isPow2(k int64) bool { return k > 0 && k&(k-1) == 0 }

func (ts *Terms) AndOp(x, y *Term, typ types.Type) *Term {
	if i, ok := x.isInt(); ok {
		if j, ok2 := y.isInt(); ok2 {
			return ts.Int(i & j)
		}
		x, y = y, x
	}
	if j, ok := y.isInt(); ok {
		if j == 0 {
			return y
		}
		if j > 0 && isPow2(j+1) {
			return ts.Mod(x, ts.Int(j+1), typ)
		}
	}
	if x == y {
		return x
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return ts.App("and", typ, x, y)
}

func (ts *Terms) OrOp(x, y *Term, typ types.Type) *Term {
	if i, ok := x.isInt(); ok {
		if j, ok2 := y.isInt(); ok2 {
			return ts.Int(i | j)
		}
	}
	if x == y {
		return x
	}
	// disjoint bits => sum
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		r := rngOf(p[1])
		if r.lo.Sign() < 0 {
			continue
		}
		l := toLin(p[0])
		bits := uint(r.hi.BitLen())
		ok := bits < 63
		if ok {
			k := int64(1) << bits
			if l.c%k != 0 {
				ok = false
			}
			for _, c := range l.m {
				if c%k != 0 {
					ok = false
				}
			}
		}
		if ok {
			return ts.Add(p[0], p[1])
		}
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return ts.App("or", typ, x, y)
}

// Conv converts integer term x of type from to type to.
func (ts *Terms) Conv(x *Term, from, to types.Type) *Term {
	fb, fu, ok1 := intBits(from)
	tb, tu, ok2 := intBits(to)
	if _, c := x.isInt(); c && !ok1 && ok2 {
		fb, fu, ok1 = 64, false, true
	}
	if !ok1 || !ok2 {
		return ts.App("conv:"+types.TypeString(to, nil), to, x)
	}
	if c, ok := x.isInt(); ok {
		if tu {
			if tb < 64 {
				return ts.Int(c & (1<<uint(tb) - 1))
			}
			if c >= 0 {
				return x
			}
			return ts.App("u64", to, x)
		}
		if tb == 64 {
			return x
		}
		return ts.Int(c << uint(64-tb) >> uint(64-tb))
	}
	// a narrow computation that may have wrapped before widening
	if fb < tb && x.Kind == KLin {
		r, tr := rngOf(x), typeRng(from)
		if r.lo.Cmp(tr.lo) < 0 || r.hi.Cmp(tr.hi) > 0 {
			if fu {
				x = ts.wrap(x, fb, from)
			} else {
				x = ts.App(fmt.Sprintf("s%d", fb), from, x)
			}
		}
	}
	tr, xr := typeRng(to), rngOf(x)
	if xr.lo.Cmp(tr.lo) >= 0 && xr.hi.Cmp(tr.hi) <= 0 {
		return x
	}
	if tb == 64 {
		if fb == 64 && fu == tu {
			return x // same type, whatever formal range the sum has
		}
		// int64 <-> uint64 reinterpretation of a value that may not fit
		n, inv := "i64", "u64"
		if tu {
			n, inv = inv, n
		}
		if x.Kind == KApp && x.Name == inv {
			return x.Args[0]
		}
		if x.Kind == KApp && x.Name == n {
			return x
		}
		return ts.App(n, to, x)
	}
	if tu {
		return ts.wrap(x, tb, to)
	}
	return ts.App(fmt.Sprintf("s%d", tb), to, x)
}

// wrap reduces mod 2^bits, distributing over sums.
func (ts *Terms) wrap(x *Term, bits int, typ types.Type) *Term {
	m := int64(1) << uint(bits)
	if x.Kind != KLin {
		return ts.Mod(x, ts.Int(m), typ)
	}
	// value of a narrow-typed sum: sum of wrapped atoms (mod 2^bits). The sum
	// itself stays formal inside "mod" so that it is exact.
	return ts.Mod(x, ts.Int(m), typ)
}

// ---------------------------------------------------------------- booleans

func (ts *Terms) Not(b *Term) *Term {
	if v, ok := b.isBool(); ok {
		return ts.Bool(!v)
	}
	if b.Kind == KApp && b.Name == "not" {
		return b.Args[0]
	}
	return ts.App("not", b.Typ, b)
}

// Le0: L <= 0 over the integers, canonical up to negation.
func (ts *Terms) Le0(l *Term) *Term {
	if i, ok := l.isInt(); ok {
		return ts.Bool(i <= 0)
	}
	r := rngOf(l)
	if r.hi.Sign() <= 0 {
		return ts.T
	}
	if r.lo.Sign() > 0 {
		return ts.F
	}
	x := toLin(l)
	// divide by the gcd of coefficients (tighten)
	var g int64
	for _, c := range x.m {
		if c < 0 {
			c = -c
		}
		g = gcd(g, c)
	}
	if g > 1 {
		for t := range x.m {
			x.m[t] /= g
		}
		// sum <= -c/g  => sum + ceil(c/g) <= 0
		x.c = ceilDiv(x.c, g)
		l = ts.fromLin(x)
	}
	neg := false
	if l.Kind == KLin {
		neg = l.Coef[0] < 0
	}
	if neg {
		n := ts.AddScaled(ts.Int(1), l, -1) // 1 - L <= 0  is the negation of L <= 0
		return ts.Not(ts.App("le0", types.Typ[types.Bool], n))
	}
	return ts.App("le0", types.Typ[types.Bool], l)
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}

func (ts *Terms) LtInt(a, b *Term) *Term { return ts.Le0(ts.Add(ts.Sub(a, b), ts.Int(1))) }
func (ts *Terms) LeInt(a, b *Term) *Term { return ts.Le0(ts.Sub(a, b)) }
func (ts *Terms) EqInt(a, b *Term) *Term {
	l := ts.Sub(a, b)
	if i, ok := l.isInt(); ok {
		return ts.Bool(i == 0)
	}
	r := rngOf(l)
	if r.hi.Sign() < 0 || r.lo.Sign() > 0 {
		return ts.F
	}
	x := toLin(l)
	var g int64
	for _, c := range x.m {
		if c < 0 {
			c = -c
		}
		g = gcd(g, c)
	}
	if g > 1 {
		if x.c%g != 0 {
			return ts.F
		}
		for t := range x.m {
			x.m[t] /= g
		}
		x.c /= g
		l = ts.fromLin(x)
	}
	if l.Kind == KLin && l.Coef[0] < 0 {
		l = ts.MulC(l, -1)
	}
	return ts.App("eq0", types.Typ[types.Bool], l)
}

func (ts *Terms) Eq(a, b *Term, typ types.Type) *Term {
	if a == b {
		return ts.T
	}
	if _, _, ok := intBits(typ); ok {
		return ts.EqInt(a, b)
	}
	if a.Kind == KConst && b.Kind == KConst {
		return ts.Bool(a == b)
	}
	// booleans
	if v, ok := a.isBool(); ok {
		if v {
			return b
		}
		return ts.Not(b)
	}
	if v, ok := b.isBool(); ok {
		if v {
			return a
		}
		return ts.Not(a)
	}
	if a.Kind == KNil || b.Kind == KNil {
		x := a
		if a.Kind == KNil {
			x = b
		}
		switch nilness(x) {
		case 1:
			return ts.F
		case -1:
			return ts.T
		}
	} else {
		if distinctValues(a, b) {
			return ts.F
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return ts.App("eq", types.Typ[types.Bool], a, b)
}

// nilness: 1 known non-nil, -1 nil, 0 unknown
func nilness(t *Term) int {
	switch t.Kind {
	case KNil:
		return -1
	case KAlloc, KGlobal, KFieldA, KIndexA, KFunc, KClosure, KIface:
		return 1
	case KApp:
		switch t.Name {
		case "newerr", "makeslice", "makemap", "makechan", "boundmethod", "list", "bufio", "bufiow", "limitreader", "sectionreader", "teereader", "multireader", "bytesreader", "stringsreader", "json", "jsonenc", "jsondec":
			return 1
		}
	case KSlice:
		// slicing a nil slice gives nil; slicing an array gives non-nil
		switch t.Args[0].Kind {
		case KAlloc, KFieldA, KGlobal:
			return 1
		}
		return nilness(t.Args[0])
	case KSym:
		if t.NonNil {
			return 1
		}
	case KInit:
		// package-level sentinel errors
		if t.Args[0].Kind == KGlobal && strings.HasPrefix(t.Args[0].Name, "sentinel:") {
			return 1
		}
	}
	return 0
}

// distinctValues: certainly different values (both error-like).
func distinctValues(a, b *Term) bool {
	fresh := func(t *Term) bool {
		return t.Kind == KApp && t.Name == "newerr" || t.Kind == KAlloc || t.Kind == KSym && strings.HasPrefix(t.Name, "err:")
	}
	sent := func(t *Term) bool {
		return t.Kind == KInit && t.Args[0].Kind == KGlobal && strings.HasPrefix(t.Args[0].Name, "sentinel:")
	}
	if a.Kind == KIface {
		a = a.Args[0]
	}
	if b.Kind == KIface {
		b = b.Args[0]
	}
	if fresh(a) && (fresh(b) || sent(b)) || fresh(b) && sent(a) {
		return true
	}
	if sent(a) && sent(b) && a != b {
		return true
	}
	// addresses
	if a.Kind == KIndexA && b.Kind == KIndexA && a.Args[0] == b.Args[0] {
		i, k1 := a.Args[1].isInt()
		j, k2 := b.Args[1].isInt()
		return k1 && k2 && i != j
	}
	if isAddr(a) && isAddr(b) {
		x, y := rootOf(a), rootOf(b)
		return x != y && x.Kind == KAlloc && y.Kind == KAlloc
	}
	return false
}

func isAddr(t *Term) bool { return t.Kind == KAlloc || t.Kind == KFieldA || t.Kind == KIndexA }

// ---------------------------------------------------------------- traversal

// walk visits t and its parts once each; f decides whether to go into a part.
func (t *Term) walk(f func(*Term) bool) {
	var seen map[*Term]bool
	var w func(t *Term)
	w = func(t *Term) {
		if len(t.Args) == 0 {
			f(t)
			return
		}
		if seen == nil {
			seen = map[*Term]bool{}
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

func (t *Term) contains(pred func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if !found && pred(x) {
			found = true
		}
		return !found
	})
	return found
}

// subst replaces terms by map (bottom-up), re-normalising.
func (ts *Terms) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	ch := false
	na := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		na[i] = ts.subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = ts.rebuild(t, na)
	}
	memo[t] = r
	return r
}

func (ts *Terms) rebuild(t *Term, na []*Term) *Term {
	switch t.Kind {
	case KLin:
		r := ts.Int(t.C)
		for i, a := range na {
			r = ts.AddScaled(r, a, t.Coef[i])
		}
		return r
	case KApp:
		switch t.Name {
		case "mod":
			return ts.Mod(na[0], na[1], t.Typ)
		case "quo":
			return ts.Quo(na[0], na[1], t.Typ)
		case "xor":
			return ts.Xor(t.Typ, na...)
		case "not":
			return ts.Not(na[0])
		case "le0":
			return ts.Le0(na[0])
		case "eq0":
			return ts.EqInt(na[0], ts.Int(0))
		case "mul":
			r := na[0]
			for _, a := range na[1:] {
				r = ts.Mul(r, a)
			}
			return r
		case "len":
			return ts.Len(na[0])
		}
		if len(na) == 1 {
			if r := ts.foldPure(t.Name, t.Typ, na); r != nil {
				return r
			}
		}
	case KSlice:
		return ts.Slice(na[0], na[1], na[2], t.Typ)
	}
	c := *t
	c.Args = na
	return ts.mk(&c)
}

// ---------------------------------------------------------------- slices

func (ts *Terms) Slice(base, lo, hi *Term, typ types.Type) *Term {
	if base.Kind == KSlice {
		l := ts.Add(base.Args[1], lo)
		h := ts.Add(base.Args[1], hi)
		return ts.Slice(base.Args[0], l, h, typ)
	}
	if i, ok := lo.isInt(); ok && i == 0 {
		switch base.Kind {
		case KAlloc, KFieldA, KIndexA, KGlobal:
		default:
			if hi == ts.Len(base) {
				return base
			}
		}
	}
	return ts.mk(&Term{Kind: KSlice, Args: []*Term{base, lo, hi}, Typ: typ})
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if a, ok := u.(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func (ts *Terms) Len(x *Term) *Term {
	switch x.Kind {
	case KNil:
		return ts.Int(0)
	case KConst:
		if s, ok := x.isStr(); ok {
			return ts.Int(int64(len(s)))
		}
	case KSlice:
		return ts.Sub(x.Args[2], x.Args[1])
	case KApp:
		switch x.Name {
		case "makeslice":
			return x.Args[0]
		case "append":
			return ts.Add(ts.Len(x.Args[0]), ts.Len(x.Args[1]))
		case "list":
			return ts.Int(int64(len(x.Args)))
		case "str", "bytes":
			return ts.Len(x.Args[0])
		case "be64", "le64":
			return ts.Int(8)
		case "be32", "le32":
			return ts.Int(4)
		case "be16", "le16":
			return ts.Int(2)
		case "fileread":
			return x.Args[2]
		case "prefix":
			return x.Args[1]
		case "unknownbytes":
			return x.Args[1]
		case "varint":
			return ts.vlen(true, x.Args[0])
		case "uvarint":
			return ts.vlen(false, x.Args[0])
		}
	}
	if n, ok := arrayLen(x.Typ); ok {
		return ts.Int(n)
	}
	return ts.App("len", types.Typ[types.Int], x)
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Kind {
	case KConst:
		return t.Val.ExactString()
	case KNil:
		return "nil"
	case KSym:
		return "$" + t.Name
	case KInit:
		return "*" + arg(0)
	case KHv:
		return "*" + arg(0) + "'"
	case KLin:
		var ps []string
		for i, a := range t.Args {
			switch t.Coef[i] {
			case 1:
				ps = append(ps, a.str(d+1))
			default:
				ps = append(ps, fmt.Sprintf("%d*%s", t.Coef[i], a.str(d+1)))
			}
		}
		if t.C != 0 {
			ps = append(ps, fmt.Sprint(t.C))
		}
		return "(" + strings.Join(ps, "+") + ")"
	case KAlloc:
		return "new:" + t.Name
	case KGlobal:
		return "&" + t.Name
	case KFieldA:
		return arg(0) + "." + t.Name
	case KIndexA:
		return arg(0) + "[" + arg(1) + "]"
	case KSlice:
		return arg(0) + "[" + arg(1) + ":" + arg(2) + "]"
	case KFunc:
		return shortFn(t.Fn)
	case KClosure:
		return "closure:" + shortFn(t.Fn)
	case KIface:
		return arg(0)
	}
	n := t.Name
	if t.Kind == KStruct {
		n = "struct"
	}
	if t.Kind == KTuple {
		n = ""
	}
	var ps []string
	for i := range t.Args {
		ps = append(ps, arg(i))
	}
	return n + "(" + strings.Join(ps, ",") + ")"
}

// Cat concatenates strings canonically.
func (ts *Terms) Cat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.Kind == KApp && p.Name == "cat" {
			fl = append(fl, p.Args...)
		} else {
			fl = append(fl, p)
		}
	}
	var r []*Term
	for _, p := range fl {
		if s, ok := p.isStr(); ok {
			if s == "" {
				continue
			}
			if len(r) > 0 {
				if q, ok := r[len(r)-1].isStr(); ok {
					r[len(r)-1] = ts.Str(q + s)
					continue
				}
			}
		}
		r = append(r, p)
	}
	switch len(r) {
	case 0:
		return ts.Str("")
	case 1:
		return r[0]
	}
	return ts.App("cat", types.Typ[types.String], r...)
}

// vlenRange: how many bytes the variable-length encodings of v can take.
func vlenRange(signed bool, v *Term) (int64, int64) {
	r := rngOf(v)
	sz := func(x *big.Int) int64 {
		y := new(big.Int).Set(x)
		if signed {
			if y.Sign() < 0 {
				y.Neg(y)
				y.Sub(y, big.NewInt(1))
			}
			y.Lsh(y, 1)
		}
		n := int64((y.BitLen() + 6) / 7)
		if n < 1 {
			n = 1
		}
		if n > 10 {
			n = 10
		}
		return n
	}
	if !signed && r.lo.Sign() < 0 {
		return 1, 10
	}
	a, b := sz(r.lo), sz(r.hi)
	lo, hi := a, b
	if a > b {
		lo, hi = b, a
	}
	if signed && r.lo.Sign() <= 0 && r.hi.Sign() >= 0 {
		lo = 1
	}
	return lo, hi
}

// vlen is the encoded length of v.
func (ts *Terms) vlen(signed bool, v *Term) *Term {
	n := "uvarintlen"
	if signed {
		n = "varintlen"
	}
	for v.Kind == KApp && (v.Name == "u64" || v.Name == "i64") {
		if !signed && v.Name == "i64" || signed && v.Name == "u64" {
			break
		}
		v = v.Args[0]
	}
	if lo, hi := vlenRange(signed, v); lo == hi {
		return ts.Int(lo)
	}
	return ts.App(n, types.Typ[types.Int], v)
}
