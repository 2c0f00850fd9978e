package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register("N03", "value numbering of the statistics as polynomials in the posting counts", ruleN03)
}

// The statistics are compared as real numbers: polynomials with rational
// coefficients in the counts of two slots per shard. Multiples of 65536 are
// multiples of the number of slots, and scaled like the loops over them.
type stats struct {
	r      *Rule
	e      *Engine
	counts []*Term
	// known: counts that the path fixes
	known map[int]int64
}

// subst replaces the counts that the path fixes.
func (s *stats) subst(p poly) poly {
	r := poly{}
	for mono, c := range p {
		x := poly{"": c}
		for _, name := range strings.Fields(mono) {
			var i int
			fmt.Sscanf(name, "c%d", &i)
			if v, ok := s.known[i]; ok {
				x = x.mul(polyConst(new(big.Rat).SetInt64(v)))
			} else {
				x = x.mul(poly{name: big.NewRat(1, 1)})
			}
		}
		r = r.add(x, big.NewRat(1, 1))
	}
	return r
}

type poly map[string]*big.Rat

func polyConst(c *big.Rat) poly {
	if c.Sign() == 0 {
		return poly{}
	}
	return poly{"": c}
}

func (a poly) add(b poly, k *big.Rat) poly {
	r := poly{}
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		d := new(big.Rat).Mul(c, k)
		if r[m] != nil {
			d.Add(d, r[m])
		}
		r[m] = d
		if d.Sign() == 0 {
			delete(r, m)
		}
	}
	return r
}

func (a poly) mul(b poly) poly {
	r := poly{}
	for m, c := range a {
		for n, d := range b {
			v := append(strings.Fields(m), strings.Fields(n)...)
			sort.Strings(v)
			r = r.add(poly{strings.Join(v, " "): new(big.Rat).Mul(c, d)}, big.NewRat(1, 1))
		}
	}
	return r
}

func (a poly) isConst() (*big.Rat, bool) {
	switch len(a) {
	case 0:
		return new(big.Rat), true
	case 1:
		if c := a[""]; c != nil {
			return c, true
		}
	}
	return nil, false
}

func (a poly) String() string {
	if c, ok := a.isConst(); ok {
		return c.RatString()
	}
	var ms []string
	for m, c := range a {
		ms = append(ms, c.RatString()+"*"+m)
	}
	sort.Strings(ms)
	return strings.Join(ms, " + ")
}

func (a poly) equal(b poly) bool { return len(a.add(b, big.NewRat(-1, 1))) == 0 }

// wrapBits: t is 2^k, k at least 8, the divisor of a conversion.
func wrapBits(t *Term) uint {
	if t.Kind == KConst && t.Val.Kind() == constant.Int {
		if c, ok := new(big.Int).SetString(t.Val.ExactString(), 10); ok && c.Sign() > 0 {
			if k := uint(c.BitLen() - 1); k >= 8 && (k%8 == 0) && new(big.Int).Lsh(big.NewInt(1), k).Cmp(c) == 0 && (k == 8 || k == 16 || k == 32 || k == 64) {
				return k
			}
		}
	}
	return 0
}

// slots scales a multiple of the number of slots of a shard.
func slots(c *big.Rat) *big.Rat {
	n := big.NewInt(65536)
	if c.IsInt() && c.Sign() != 0 && new(big.Int).Mod(c.Num(), n).Sign() == 0 {
		return new(big.Rat).Mul(c, big.NewRat(2, 65536))
	}
	return c
}

// real is t as a polynomial, or at a point if at is not nil; nil if it is none.
func (s *stats) real(t *Term, at map[*Term]int64) poly {
	p := s.real1(t, at)
	if b := basicOf(t.Typ); p == nil && at != nil && b != nil && b.Info()&types.IsInteger != 0 {
		env := instEnv{}
		for c, v := range at {
			env[c] = big.NewInt(v)
		}
		if v, ok := s.e.instEval(t, env, map[*Term]*big.Int{}); ok && v != nil {
			return polyConst(new(big.Rat).SetInt(v))
		}
	}
	return p
}

func (s *stats) real1(t *Term, at map[*Term]int64) poly {
	one := big.NewRat(1, 1)
	for i, c := range s.counts {
		if t == c {
			if at != nil {
				return polyConst(new(big.Rat).SetInt64(at[c]))
			}
			if v, ok := s.known[i]; ok {
				return polyConst(new(big.Rat).SetInt64(v))
			}
			return poly{fmt.Sprint("c", i): one}
		}
	}
	bin := func() (poly, poly) {
		if len(t.Args) != 2 {
			return nil, nil
		}
		return s.real(t.Args[0], at), s.real(t.Args[1], at)
	}
	switch t.Kind {
	case KConst:
		if k := t.Val.Kind(); k == constant.Int || k == constant.Float {
			if c, ok := new(big.Rat).SetString(t.Val.ExactString()); ok {
				return polyConst(slots(c))
			}
		}
		return nil
	case KLin:
		r := polyConst(slots(new(big.Rat).SetInt64(t.C)))
		for i, a := range t.Args {
			p := s.real(a, at)
			if p == nil {
				return nil
			}
			r = r.add(p, slots(new(big.Rat).SetInt64(t.Coef[i])))
		}
		return r
	case KApp:
	default:
		return nil
	}
	switch {
	case t.Name == "conv:float64" || t.Name == "u64":
		// 2^16 counts below 2^32 do not wrap
		return s.real(t.Args[0], at)
	case t.Name == "u32" || t.Name == "u16" || t.Name == "mod" && wrapBits(t.Args[1]) > 0:
		p := s.real(t.Args[0], at)
		if t.Name == "mod" && wrapBits(t.Args[1]) > 63 {
			return p
		}
		if p == nil || at == nil {
			return nil
		}
		k := uint(32)
		if t.Name == "u16" {
			k = 16
		} else if t.Name == "mod" {
			k = wrapBits(t.Args[1])
		}
		if c, ok := p.isConst(); ok && c.IsInt() {
			return polyConst(new(big.Rat).SetInt(new(big.Int).Mod(c.Num(), new(big.Int).Lsh(big.NewInt(1), k))))
		}
		return nil
	case strings.HasPrefix(t.Name, "conv:"):
		// a float cut to an integer, or to fewer bits
		if p := s.real(t.Args[0], at); p != nil && at != nil && !strings.Contains(t.Name, "float") {
			if c, ok := p.isConst(); ok {
				return polyConst(new(big.Rat).SetInt(new(big.Int).Quo(c.Num(), c.Denom())))
			}
		}
		return nil
	case t.Name == "+" || t.Name == "-":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		if t.Name == "-" {
			return a.add(b, big.NewRat(-1, 1))
		}
		return a.add(b, one)
	case t.Name == "*" || t.Name == "mul":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		return a.mul(b)
	case t.Name == "/":
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		if c, ok := b.isConst(); ok && c.Sign() != 0 {
			return a.mul(polyConst(new(big.Rat).Inv(c)))
		}
		return nil
	case t.Name == "quo" || t.Name == "mod":
		a, b := bin()
		if a == nil || b == nil || at == nil {
			return nil
		}
		x, ok1 := a.isConst()
		y, ok2 := b.isConst()
		if !ok1 || !ok2 || !x.IsInt() || !y.IsInt() || y.Sign() <= 0 || x.Sign() < 0 {
			return nil
		}
		if t.Name == "quo" {
			return polyConst(new(big.Rat).SetInt(new(big.Int).Quo(x.Num(), y.Num())))
		}
		return polyConst(new(big.Rat).SetInt(new(big.Int).Mod(x.Num(), y.Num())))
	case strings.HasSuffix(t.Name, "math.Pow") && len(t.Args) == 2:
		a, b := bin()
		if a == nil || b == nil {
			return nil
		}
		if c, ok := b.isConst(); ok && c.Cmp(big.NewRat(2, 1)) == 0 {
			return a.mul(a)
		}
	}
	return nil
}

// same: got is want, or its square is if sq.
func (s *stats) same(o Out, what string, got *Term, want poly, wantAt func(map[*Term]int64) poly, sq bool) {
	r := s.r
	r.oblige(what, got.String())
	f := func(at map[*Term]int64) poly {
		if !sq {
			return s.real(got, at)
		}
		if got.Kind == KApp && strings.HasSuffix(got.Name, "math.Sqrt") && len(got.Args) > 0 {
			return s.real(got.Args[0], at)
		}
		if got.Kind == KApp && strings.HasSuffix(got.Name, "math.Pow") && len(got.Args) == 2 {
			if c, ok := got.Args[1].Val, got.Args[1].Kind == KConst; ok && c.ExactString() == "1/2" {
				return s.real(got.Args[0], at)
			}
		}
		p := s.real(got, at)
		if p == nil {
			return nil
		}
		return p.mul(p)
	}
	s.known = map[int]int64{}
	for i, c := range s.counts {
		for v := int64(0); v < 3; v++ {
			if s.e.provesEq(o.st, c, s.e.T.Int(v)) {
				s.known[i] = v
			}
		}
	}
	if p := f(nil); p != nil && p.equal(s.subst(want)) {
		return
	}
	// is there an index for which it differs?
	vals := []int64{0, 1, 2, 7, 1<<32 - 1}
	total := 1
	for range s.counts {
		total *= len(vals)
	}
	for k := 1; k < total && k < 5000; k++ {
		at := map[*Term]int64{}
		z, x, fits := o.st.clone(), k, true
		for i, c := range s.counts {
			at[c] = vals[(x+i)%len(vals)]
			x /= len(vals)
			fits = fits && s.e.assume(z, s.e.T.EqInt(c, s.e.T.Int(at[c])), true)
		}
		if !fits {
			continue
		}
		g, w := f(at), wantAt(at)
		if g == nil {
			break
		}
		if !g.equal(w) {
			var cs []string
			for _, c := range s.counts {
				cs = append(cs, fmt.Sprint(at[c]))
			}
			square := ""
			if sq {
				square = "the square of "
			}
			r.failAt(o.st, o.pos, what, "%sthe %s is %s and should be %s for slots with %s postings (as if a shard had two slots)", square, what, g, w, strings.Join(cs, ", "))
			return
		}
	}
	r.undecided("the %s is not resolved: %s", what, got)
}

func ruleN03(r *Rule) {
	ns := []int64{1, 2}
	if r.Tier == "thorough" {
		ns = append(ns, 3, 4)
	}
	for _, n := range ns {
		if r.broken() {
			return
		}
		statsFor(r, n)
	}
}

func statsFor(r *Rule, n int64) {
	fn := r.need("", "Index", "Stats")
	if fn == nil {
		return
	}
	v := &visit{r: r, n: n, blotAt: r.need("internal/shard", "Index", "BlotAt"), count: r.need("internal/shard", "Index", "Count")}
	if v.blotAt == nil || v.count == nil {
		return
	}
	e := r.engine()
	v.e, v.counts, v.counted = e, map[*Term]bool{}, map[*Term]bool{}
	v.q = r.newQpipe(e, n, 1)
	if v.q == nil {
		return
	}
	e.NoFault, e.Scale, e.Unroll, e.UnrollMax, e.FreeMem = true, true, true, 32, true
	s := &stats{r: r, e: e}
	e.H.Key = func(st *State) string {
		k := chanKey(st)
		var known []string
		for t, val := range st.facts {
			if t.contains(func(x *Term) bool {
				for _, c := range s.counts {
					if c == x {
						return true
					}
				}
				return false
			}) {
				known = append(known, fmt.Sprint(t.ID, val))
			}
		}
		sort.Strings(known)
		return k + strings.Join(known, ",")
	}
	one, sum, sq := big.NewRat(1, 1), poly{}, poly{}
	nb := big.NewRat(2*n, 1)
	for i := int64(0); i < n; i++ {
		a := v.shardAt(v.q.st, i)
		for j := int64(0); j < 2 && a != nil; j++ {
			for _, o := range r.run(e, v.count, v.q.st.clone(), a, e.T.Int(j)) {
				if o.kind == "" && o.ret != nil && o.ret.Kind != KConst {
					sum = sum.add(poly{fmt.Sprint("c", len(s.counts)): one}, one)
					s.counts = append(s.counts, o.ret)
				}
			}
		}
	}
	if int64(len(s.counts)) != 2*n {
		r.undecided("%d shards: the counts of the slots are not resolved", n)
		return
	}
	inv := new(big.Rat).Inv(nb)
	mean := poly{}.add(sum, inv)
	for i := range s.counts {
		d := mean.add(poly{fmt.Sprint("c", i): one}, big.NewRat(-1, 1))
		sq = sq.add(d.mul(d), inv)
	}
	at := func(p poly) func(map[*Term]int64) poly {
		return func(m map[*Term]int64) poly {
			r := new(big.Rat)
			for mono, c := range p {
				x := new(big.Rat).Set(c)
				for _, name := range strings.Fields(mono) {
					var i int
					fmt.Sscanf(name, "c%d", &i)
					x.Mul(x, new(big.Rat).SetInt64(m[s.counts[i]]))
				}
				r.Add(r, x)
			}
			return polyConst(r)
		}
	}
	k := 0
	for _, o := range okOuts(e, fn, r.run(e, fn, v.q.st.clone(), v.q.x)) {
		if r.broken() {
			return
		}
		x := results(o.ret)[0]
		get := func(name string) *Term {
			a, t := e.fieldNamed(x, deref(x.Typ), name)
			if a == nil {
				return nil
			}
			return e.load(o.st, a, t)
		}
		for _, f := range []struct {
			name, what string
			want       poly
			sq         bool
		}{{"NumPosts", "number of postings", sum, false}, {"NumBlots", "number of blots", polyConst(nb), false}, {"BlotMean", "mean", mean, false}, {"BlotSigma", "deviation", sq, true}} {
			g := get(f.name)
			if g == nil {
				r.undecided("Stats has no %s", f.name)
				continue
			}
			k++
			s.same(o, f.what, g, f.want, at(f.want), f.sq)
			if r.broken() {
				return
			}
		}
	}
	if k == 0 {
		r.undecided("%d shards: Stats has no outcome", n)
	}
}
