package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one inlined activation of a function (a call string).
type Frame struct {
	ID     int
	Fn     *ssa.Function
	Parent *Frame
	Site   ssa.Instruction
	Depth  int
}

// Item is one entry of the persistent trace rules build along a path.
type Item struct {
	prev *Item
	Kind string
	Name string
	Args []*Term
	Pos  token.Pos
	Sub  [][]*Item // bodies of a loop item
	Fr   *Frame
	Ins  ssa.Instruction
}

func (it *Item) list(stop *Item) []*Item {
	var r []*Item
	for ; it != nil && it != stop; it = it.prev {
		r = append(r, it)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Viol is a violation found on a path.
type Viol struct {
	prev *Viol
	Key  string
	Msg  string
	Pos  string
	Tr   *Trace
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	what string
}

// State is the abstract state of one path.
type State struct {
	heap  map[*Term]*Term
	facts map[*Term]bool
	flags map[string]string
	gh    map[string]*Term
	items *Item
	viols *Viol
	tr    *Trace
	fault *Term // the failing operation of this path, if any
	chans map[*Term][]*Term
	le    []*Term // cached leFacts
	leOK  bool
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, flags: map[string]string{}, gh: map[string]*Term{}, chans: map[*Term][]*Term{}}
}

func (s *State) clone() *State {
	n := &State{items: s.items, viols: s.viols, tr: s.tr, fault: s.fault, le: s.le, leOK: s.leOK,
		heap:  make(map[*Term]*Term, len(s.heap)+8),
		facts: make(map[*Term]bool, len(s.facts)+8),
		flags: make(map[string]string, len(s.flags)),
		gh:    make(map[string]*Term, len(s.gh)),
		chans: make(map[*Term][]*Term, len(s.chans))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	for k, v := range s.gh {
		n.gh[k] = v
	}
	for k, v := range s.chans {
		n.chans[k] = v
	}
	return n
}

func (s *State) addItem(it *Item) {
	it.prev = s.items
	s.items = it
}

func (s *State) note(pos token.Pos, what string) {
	s.tr = &Trace{s.tr, pos, what}
}

func (s *State) flagKey() string {
	ks := make([]string, 0, len(s.flags))
	for k, v := range s.flags {
		if v != "" {
			ks = append(ks, k+"="+v)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// Outcome of executing a function on one path.
type Out struct {
	st   *State
	ret  *Term  // nil, value or KTuple
	kind string // "", "panic", "exit"
	pos  token.Pos
	fr   *Frame
}

// ---------------------------------------------------------------- facts

// truth of a canonical boolean term under the state's facts.
func (e *Engine) truth(s *State, b *Term) (bool, bool) {
	if v, ok := b.isBool(); ok {
		return v, true
	}
	if b.Kind == KApp && b.Name == "not" {
		v, ok := e.truth(s, b.Args[0])
		return !v, ok
	}
	if v, ok := s.facts[b]; ok {
		return v, true
	}
	if b.Kind == KApp {
		switch b.Name {
		case "le0":
			if e.entailsLe(s, b.Args[0], 2) {
				return true, true
			}
			// not(L<=0): 1-L <= 0
			if e.entailsLe(s, e.T.OneSub(b.Args[0]), 2) {
				return false, true
			}
		case "eq0":
			L := b.Args[0]
			if e.entailsLe(s, e.T.Add(L, e.T.Int(1)), 1) || e.entailsLe(s, e.T.OneSub(L), 1) {
				return false, true
			}
			if e.entailsLe(s, L, 1) && e.entailsLe(s, e.T.Neg(L), 1) {
				return true, true
			}
			// equality through another equality: L = k*F
			for f, v := range s.facts {
				if v && f.Kind == KApp && f.Name == "eq0" {
					d := e.T.Sub(L, f.Args[0])
					if i, ok := d.isInt(); ok {
						return i == 0, true
					}
					d = e.T.Add(L, f.Args[0])
					if i, ok := d.isInt(); ok {
						return i == 0, true
					}
				}
			}
		case "eq":
			// x==a known true and a,b distinct
			for f, v := range s.facts {
				if !v || f.Kind != KApp || f.Name != "eq" {
					continue
				}
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if f.Args[i] == b.Args[j] {
							o, p := f.Args[1-i], b.Args[1-j]
							if o == p {
								return true, true
							}
							r := e.T.Eq(o, p, nil)
							if bv, ok := r.isBool(); ok {
								return bv, true
							}
						}
					}
				}
			}
		case "and", "or":
		}
	}
	return false, false
}

func (e *Engine) leFacts(s *State) []*Term {
	if s.leOK {
		return s.le
	}
	var r []*Term
	for f, v := range s.facts {
		if f.Kind != KApp {
			continue
		}
		switch f.Name {
		case "le0":
			if v {
				r = append(r, f.Args[0])
			} else {
				r = append(r, e.T.OneSub(f.Args[0]))
			}
		case "eq0":
			if v {
				r = append(r, f.Args[0], e.T.Neg(f.Args[0]))
			}
		}
	}
	has := map[*Term]bool{}
	for _, f := range r {
		has[f] = true
	}
	for f, v := range s.facts {
		if !v && f.Kind == KApp && f.Name == "eq0" {
			F := f.Args[0]
			N := e.T.Neg(F)
			if has[F] || rngOf(F).hi.Sign() <= 0 {
				r = append(r, e.T.Add(F, e.T.Int(1)))
			}
			if has[N] || rngOf(F).lo.Sign() >= 0 {
				r = append(r, e.T.Add(N, e.T.Int(1)))
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	s.le, s.leOK = r, true
	return r
}

// entailsLe: do range information and at most depth facts give L <= 0?
func (e *Engine) entailsLe(s *State, L *Term, depth int) bool {
	if rngOf(L).hi.Sign() <= 0 {
		return true
	}
	fs := e.leFacts(s)
	return e.entailsLe1(fs, L, depth)
}

func sharesAtom(a, b *Term) bool {
	if a.Kind == KLin && b.Kind == KLin {
		for i, x := range a.Args {
			for j, y := range b.Args {
				if x == y && (a.Coef[i] > 0) == (b.Coef[j] > 0) {
					return true
				}
			}
		}
		return false
	}
	if a.Kind == KLin {
		for i, x := range a.Args {
			if x == b {
				return a.Coef[i] > 0
			}
		}
		return false
	}
	if b.Kind == KLin {
		for j, y := range b.Args {
			if y == a {
				return b.Coef[j] > 0
			}
		}
		return false
	}
	return a == b && a.Kind != KConst
}

func (e *Engine) entailsLe1(fs []*Term, L *Term, depth int) bool {
	if rngOf(L).hi.Sign() <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range fs {
		if !sharesAtom(L, f) {
			continue
		}
		ks := []int64{1}
		x, y := toLin(L), toLin(f)
		for t, c := range x.m {
			if d, ok := y.m[t]; ok && c%d == 0 && c/d > 1 {
				ks = append(ks, c/d)
			}
		}
		for _, k := range ks {
			if e.entailsLe1(fs, e.T.AddScaled(L, f, -k), depth-1) {
				return true
			}
		}
	}
	return false
}

// assume adds b=val; false if contradictory.
func (e *Engine) assume(s *State, b *Term, val bool) bool {
	if v, ok := e.truth(s, b); ok {
		return v == val
	}
	for b.Kind == KApp && b.Name == "not" {
		b = b.Args[0]
		val = !val
	}
	s.facts[b] = val
	s.leOK = false
	// eq to a sentinel/constant pointer: also forget nothing
	return true
}

// lt, le queries used by rules
func (e *Engine) provesLe(s *State, a, b *Term) bool {
	return e.entailsLe(s, e.T.Sub(a, b), 3)
}
func (e *Engine) provesEq(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	v, ok := e.truth(s, e.T.EqInt(a, b))
	return ok && v
}

func isPtrLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature, *types.Interface, *types.Slice, *types.Map:
		return true
	}
	return false
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func (s *State) String() string {
	var b strings.Builder
	for k, v := range s.heap {
		fmt.Fprintf(&b, "  %s = %s\n", k, v)
	}
	for k, v := range s.facts {
		fmt.Fprintf(&b, "  %v: %s\n", v, k)
	}
	b.WriteString(s.flagKey())
	return b.String()
}
