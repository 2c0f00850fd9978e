package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) nilness(s *State, t *Term) int {
	if n := nilness(t); n != 0 {
		return n
	}
	if v, ok := e.truth(s, e.T.Eq(t, e.T.Nil, nil)); ok {
		if v {
			return -1
		}
		return 1
	}
	return 0
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.T.F
		case u.Info()&types.IsString != 0:
			return e.T.Str("")
		case u.Info()&types.IsNumeric != 0:
			return e.T.Int(0)
		}
		return e.T.Nil
	case *types.Struct:
		s := &Term{Kind: KStruct, Typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.Args = append(s.Args, e.zero(u.Field(i).Type()))
		}
		return e.T.mk(s)
	case *types.Array:
		return e.T.App("zeroarr", t)
	case *types.Tuple:
		x := &Term{Kind: KTuple, N: u.Len()}
		for i := 0; i < u.Len(); i++ {
			x.Args = append(x.Args, e.zero(u.At(i).Type()))
		}
		return e.T.mk(x)
	}
	return e.T.Nil
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	v := c.Value
	if b := basicOf(c.Type()); b != nil && b.Info()&types.IsInteger != 0 {
		v = constant.ToInt(v)
		if i, ok := constant.Int64Val(v); ok {
			return e.T.Int(i)
		}
		// large uint64
		if u, ok := constant.Uint64Val(v); ok {
			if u == math.MaxUint64 {
				return e.T.mk(&Term{Kind: KConst, Val: v})
			}
			return e.T.mk(&Term{Kind: KConst, Val: v})
		}
	}
	return e.T.Const(v)
}

func (e *Engine) val(p *Path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Function:
		return e.T.mk(&Term{Kind: KFunc, Name: x.String(), Fn: x, Typ: x.Type()})
	case *ssa.Global:
		name := x.Name()
		if x.Pkg != nil {
			name = x.Pkg.Pkg.Path() + "." + x.Name()
		}
		if pt, ok := x.Type().(*types.Pointer); ok && isErrorType(pt.Elem()) {
			name = "sentinel:" + name
		}
		return e.T.mk(&Term{Kind: KGlobal, Name: name, Typ: x.Type()})
	case *ssa.Builtin:
		return e.T.Str("builtin:" + x.Name())
	}
	if t := p.env[v]; t != nil {
		return t
	}
	t := e.Fresh("undef:"+v.Name(), v.Type())
	p.env[v] = t
	return t
}

// ---------------------------------------------------------------- addresses

func (e *Engine) fieldAddr(base *Term, i int, st *types.Struct) *Term {
	f := st.Field(i)
	return e.T.mk(&Term{Kind: KFieldA, Name: f.Name(), N: i, Args: []*Term{base}, Typ: types.NewPointer(f.Type())})
}

func (e *Engine) indexAddr(base, idx *Term, et types.Type) *Term {
	if base.Kind == KSlice {
		return e.indexAddr(base.Args[0], e.T.Add(base.Args[1], idx), et)
	}
	return e.T.mk(&Term{Kind: KIndexA, Args: []*Term{base, idx}, Typ: types.NewPointer(et)})
}

var anyIdxName = "«any»"

func (e *Engine) anyIdx() *Term { return e.T.mk(&Term{Kind: KSym, Name: anyIdxName}) }

// summaryAddr replaces every variable index by ANY; nil if there is none.
func (e *Engine) summaryAddr(a *Term) *Term {
	switch a.Kind {
	case KFieldA:
		b := e.summaryAddr(a.Args[0])
		if b == nil {
			return nil
		}
		c := *a
		c.Args = []*Term{b}
		return e.T.mk(&c)
	case KIndexA:
		b := e.summaryAddr(a.Args[0])
		if b == nil {
			b = a.Args[0]
		}
		c := *a
		c.Args = []*Term{b, e.anyIdx()}
		return e.T.mk(&c)
	}
	return nil
}

func isSummary(a *Term) bool {
	for a.Kind == KFieldA || a.Kind == KIndexA {
		if a.Kind == KIndexA && a.Args[1].Kind == KSym && a.Args[1].Name == anyIdxName {
			return true
		}
		a = a.Args[0]
	}
	return false
}

func rootOf(a *Term) *Term {
	for a.Kind == KFieldA || a.Kind == KIndexA {
		a = a.Args[0]
	}
	return a
}

func (e *Engine) verKey(base *Term) *Term { return e.T.App("ver", types.Typ[types.Int], base) }

// stores at constant indices are only seen by loads at variable ones
func (e *Engine) vercKey(base *Term) *Term { return e.T.App("verc", types.Typ[types.Int], base) }
func (e *Engine) verOf(s *State, base *Term) *Term {
	v, c := s.heap[e.verKey(base)], s.heap[e.vercKey(base)]
	if c == nil {
		return v
	}
	if v == nil {
		return c
	}
	return e.T.App("v2", types.Typ[types.Int], v, c)
}
func (e *Engine) hvKey(base *Term) *Term { return e.T.App("hvk", types.Typ[types.Int], base) }

// defaultLoad: value of an address without a cell of its own.
func (e *Engine) defaultLoad(s *State, a *Term, typ types.Type) *Term {
	if a.Kind == KApp {
		switch a.Name {
		case "ver", "hvk", "verc":
			return e.T.Int(0)
		case "content", "mapelem", "mapall":
			return nil
		case "iter":
			return nil
		}
		return e.fileDefault(a)
	}
	if typ == nil {
		return nil
	}
	if isSummary(a) {
		return nil
	}
	// walk outwards: newest marker wins
	var args []*Term
	fresh := false
	b := a
	for {
		if m := s.heap[e.hvKey(b)]; m != nil {
			args = append(args, m)
		}
		if b.Kind == KIndexA {
			if m := s.heap[e.verKey(b.Args[0])]; m != nil {
				args = append(args, m)
			}
			if _, c := b.Args[1].isInt(); !c {
				if m := s.heap[e.vercKey(b.Args[0])]; m != nil {
					args = append(args, m)
				}
			}
		}
		if b.Kind == KFieldA || b.Kind == KIndexA {
			b = b.Args[0]
			continue
		}
		if b.Kind == KAlloc {
			fresh = true
		}
		break
	}
	if len(args) == 0 {
		if fresh {
			return e.zero(typ)
		}
		if a.Kind == KGlobal && len(a.Name) > 9 && a.Name[:9] == "sentinel:" {
			return e.T.Init(a, typ)
		}
		return e.T.Init(a, typ)
	}
	return e.T.mk(&Term{Kind: KHv, Args: append([]*Term{a}, args...), Typ: typ})
}

func (e *Engine) load(s *State, a *Term, typ types.Type) *Term {
	if v := s.heap[a]; v != nil {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		st := &Term{Kind: KStruct, Typ: typ}
		for i := 0; i < u.NumFields(); i++ {
			st.Args = append(st.Args, e.load(s, e.fieldAddr(a, i, u), u.Field(i).Type()))
		}
		return e.T.mk(st)
	case *types.Array:
		if n := u.Len(); n <= maxArr {
			as := make([]*Term, n)
			for i := range as {
				as[i] = e.load(s, e.indexAddr(a, e.T.Int(int64(i)), u.Elem()), u.Elem())
			}
			return e.T.App("arr", typ, as...)
		}
		for k := range s.heap {
			for x := k; x.Kind == KIndexA || x.Kind == KFieldA; x = x.Args[0] {
				if x.Kind == KIndexA && x.Args[0] == a {
					return e.Fresh("load", typ)
				}
			}
		}
	}
	if sa := e.summaryAddr(a); sa != nil && isPtrLike(typ) {
		if v := s.heap[sa]; v != nil {
			if allConst(a) {
				// never stored to, if nothing was stored at an unknown index
				if d := e.defaultLoad(s, a, typ); d != nil && d.Kind != KHv && d.Kind != KInit {
					return d
				}
			}
			return v
		}
	}
	if v := e.defaultLoad(s, a, typ); v != nil {
		return v
	}
	return e.Fresh("load", typ)
}

// provablyDistinct indices
func (e *Engine) idxDistinct(s *State, i, j *Term) bool {
	v, ok := e.truth(s, e.T.EqInt(i, j))
	return ok && !v
}

// mayAlias: could storing to a change the cell b?
func (e *Engine) mayAlias(s *State, a, b *Term) bool {
	if a == b {
		return false
	}
	if isSummary(b) {
		return false
	}
	// compare paths from the root
	pa, pb := addrPath(a), addrPath(b)
	if pa[0] != pb[0] {
		return false // distinct roots are taken to be distinct objects
	}
	hasIdx := false
	for i := 1; i < len(pa) && i < len(pb); i++ {
		x, y := pa[i], pb[i]
		if x.Kind != y.Kind {
			return false
		}
		if x.Kind == KFieldA && x.N != y.N {
			return false
		}
		if x.Kind == KIndexA && x.Args[1] != y.Args[1] {
			if e.idxDistinct(s, x.Args[1], y.Args[1]) {
				return false
			}
			hasIdx = true
		}
	}
	if len(pa) != len(pb) {
		return true
	}
	return hasIdx
}

func addrPath(a *Term) []*Term {
	var r []*Term
	for a.Kind == KFieldA || a.Kind == KIndexA {
		r = append(r, a)
		a = a.Args[0]
	}
	r = append(r, a)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// arrays of at most maxArr elements are values made of their elements.
const maxArr = 64

func (e *Engine) arrElem(v *Term, i int64, et types.Type) *Term {
	if v.Name == "zeroarr" {
		return e.zero(et)
	}
	return v.Args[i]
}

func (e *Engine) store(s *State, a, v *Term, typ types.Type) {
	if u, ok := typ.Underlying().(*types.Struct); ok {
		if v.Kind == KStruct {
			for i := 0; i < u.NumFields(); i++ {
				e.store(s, e.fieldAddr(a, i, u), v.Args[i], u.Field(i).Type())
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.store(s, e.fieldAddr(a, i, u), e.T.App("fld", u.Field(i).Type(), v, e.T.Int(int64(i))), u.Field(i).Type())
		}
		return
	}
	if u, ok := typ.Underlying().(*types.Array); ok {
		if n := u.Len(); n <= maxArr && v.Kind == KApp && (v.Name == "arr" && int64(len(v.Args)) == n || v.Name == "zeroarr") {
			for i := int64(0); i < n; i++ {
				e.store(s, e.indexAddr(a, e.T.Int(i), u.Elem()), e.arrElem(v, i, u.Elem()), u.Elem())
			}
			return
		}
		e.havoc(s, a)
		return
	}
	indexed := false
	for b := a; b.Kind == KFieldA || b.Kind == KIndexA; b = b.Args[0] {
		if b.Kind == KIndexA {
			indexed = true
			if _, c := b.Args[1].isInt(); c {
				s.heap[e.vercKey(b.Args[0])] = e.Fresh("ver", types.Typ[types.Int])
			} else {
				s.heap[e.verKey(b.Args[0])] = e.Fresh("ver", types.Typ[types.Int])
			}
		}
	}
	if indexed {
		for k := range s.heap {
			if (k.Kind == KFieldA || k.Kind == KIndexA) && e.mayAlias(s, a, k) {
				delete(s.heap, k)
			}
		}
		if isPtrLike(typ) {
			if sa := e.summaryAddr(a); sa != nil && v.Kind != KNil {
				s.heap[sa] = v
			}
		}
	}
	s.heap[a] = v
}

// havoc forgets everything at and below a.
func (e *Engine) havoc(s *State, a *Term) {
	for k := range s.heap {
		b := k
		if b.Kind == KApp && (b.Name == "content" || b.Name == "mapelem" || b.Name == "mapall") {
			b = b.Args[0]
		}
		for x := b; ; {
			if x == a && k != a || x == a {
				delete(s.heap, k)
				break
			}
			if x.Kind == KFieldA || x.Kind == KIndexA {
				x = x.Args[0]
				continue
			}
			break
		}
	}
	s.heap[e.hvKey(a)] = e.Fresh("hv", types.Typ[types.Int])
	for b := a; b.Kind == KFieldA || b.Kind == KIndexA; b = b.Args[0] {
		if b.Kind == KIndexA {
			if _, c := b.Args[1].isInt(); c {
				s.heap[e.vercKey(b.Args[0])] = e.Fresh("ver", types.Typ[types.Int])
			} else {
				s.heap[e.verKey(b.Args[0])] = e.Fresh("ver", types.Typ[types.Int])
			}
		}
	}
}

// ---------------------------------------------------------------- simple instructions

func derefStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (e *Engine) instr(p *Path, in ssa.Instruction, fr *Frame) {
	T := e.T
	s := p.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := e.alloc("alloc:"+x.Comment, fr, x, x.Type())
		e.resetAlloc(s, a)
		p.env[x] = a
	case *ssa.BinOp:
		if _, c := x.Y.(*ssa.Const); !c && (x.Op == token.QUO || x.Op == token.REM) {
			if bt := basicOf(x.X.Type()); bt != nil && bt.Info()&types.IsInteger != 0 {
				e.on(&Event{Kind: "div", St: s, Fr: fr, Ins: in, Args: []*Term{e.val(p, x.X), e.norm(s, e.val(p, x.Y), x.X.Type())}})
			}
		}
		p.env[x] = e.binop(s, x.Op, e.scaled(p, x, x.X), e.scaled(p, x, x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		v := e.val(p, x.X)
		switch x.Op {
		case token.MUL:
			r := e.load(s, v, x.Type())
			p.env[x] = r
			e.on(&Event{Kind: "load", St: s, Fr: fr, Ins: in, Addr: v, Val: r})
		case token.SUB:
			p.env[x] = T.MulC(v, -1)
			if _, _, ok := intBits(x.Type()); !ok {
				p.env[x] = T.App("neg", x.Type(), v)
			}
		case token.NOT:
			p.env[x] = T.Not(v)
		case token.XOR:
			if i, ok := v.isInt(); ok {
				if b, u, _ := intBits(x.Type()); !u {
					p.env[x] = T.Int(^i)
				} else if b < 64 {
					p.env[x] = T.Int(^i & (1<<uint(b) - 1))
				} else {
					p.env[x] = T.App("compl", x.Type(), v)
				}
			} else {
				p.env[x] = T.App("compl", x.Type(), v)
			}
		}
	case *ssa.ChangeType:
		p.env[x] = e.val(p, x.X)
	case *ssa.ChangeInterface:
		p.env[x] = e.val(p, x.X)
	case *ssa.MakeInterface:
		v := e.val(p, x.X)
		p.env[x] = T.mk(&Term{Kind: KIface, Args: []*Term{v}, Typ: x.X.Type()})
	case *ssa.Convert:
		p.env[x] = e.convert(s, e.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		p.env[x] = e.convert(s, e.val(p, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := e.val(p, x.Tuple)
		if t.Kind == KTuple && x.Index < len(t.Args) {
			p.env[x] = t.Args[x.Index]
		} else {
			p.env[x] = T.App(fmt.Sprintf("extract%d", x.Index), x.Type(), t)
		}
	case *ssa.Field:
		v := e.val(p, x.X)
		if v.Kind == KStruct {
			p.env[x] = v.Args[x.Field]
		} else {
			p.env[x] = T.App("fld", x.Type(), v, T.Int(int64(x.Field)))
		}
	case *ssa.FieldAddr:
		p.env[x] = e.fieldAddr(e.val(p, x.X), x.Field, derefStruct(x.X.Type()))
	case *ssa.IndexAddr:
		b, i := e.val(p, x.X), e.val(p, x.Index)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		e.on(&Event{Kind: "index", St: s, Fr: fr, Ins: in, Addr: b, Args: []*Term{i, e.lenOf(s, b)}})
		p.env[x] = e.indexAddr(b, i, et)
	case *ssa.Index:
		b, i := e.val(p, x.X), e.val(p, x.Index)
		e.on(&Event{Kind: "index", St: s, Fr: fr, Ins: in, Addr: b, Args: []*Term{i, e.lenOf(s, b)}})
		p.env[x] = T.App("idx", x.Type(), b, i)
		if n, ok := i.isInt(); ok && b.Kind == KApp && (b.Name == "arr" && n >= 0 && n < int64(len(b.Args)) || b.Name == "zeroarr") {
			p.env[x] = e.arrElem(b, n, x.Type())
		} else if b.Kind == KInit || b.Kind == KHv {
			// an array nobody stored to since
			if len(b.Args) > 0 && e.defaultLoad(s, b.Args[0], x.X.Type()) == b {
				if v := e.defaultLoad(s, e.indexAddr(b.Args[0], i, x.Type()), x.Type()); v != nil {
					p.env[x] = v
				}
			}
		}
	case *ssa.Slice:
		e.slice(p, x, fr)
	case *ssa.SliceToArrayPointer:
		p.env[x] = T.App("slice2arr", x.Type(), e.val(p, x.X))
	case *ssa.Store:
		a, v := e.val(p, x.Addr), e.val(p, x.Val)
		e.on(&Event{Kind: "store", St: s, Fr: fr, Ins: in, Addr: a, Val: v})
		e.store(s, a, v, x.Val.Type())
	case *ssa.MakeSlice:
		n, c := e.val(p, x.Len), e.val(p, x.Cap)
		a := e.alloc("makeslice", fr, x, x.Type())
		e.resetAlloc(s, a)
		s.heap[T.App("capof", types.Typ[types.Int], a)] = c
		r := T.mk(&Term{Kind: KSlice, Args: []*Term{a, T.Int(0), n}, Typ: x.Type()})
		p.env[x] = r
		e.on(&Event{Kind: "makeslice", St: s, Fr: fr, Ins: in, Args: []*Term{n, c}, Res: r})
	case *ssa.MakeMap:
		a := e.alloc("makemap", fr, x, x.Type())
		e.resetAlloc(s, a)
		s.heap[e.mapAllKey(a)] = T.Int(0)
		p.env[x] = a
	case *ssa.MakeChan:
		a := e.alloc("makechan", fr, x, x.Type())
		p.env[x] = a
		s.chans[a] = nil
		e.on(&Event{Kind: "makechan", St: s, Fr: fr, Ins: in, Args: []*Term{e.val(p, x.Size)}, Res: a})
	case *ssa.MakeClosure:
		t := &Term{Kind: KClosure, Name: x.Fn.String(), Fn: x.Fn.(*ssa.Function), Typ: x.Type()}
		for _, b := range x.Bindings {
			t.Args = append(t.Args, e.val(p, b))
		}
		p.env[x] = T.mk(t)
	case *ssa.MapUpdate:
		m, k, v := e.val(p, x.Map), e.val(p, x.Key), e.val(p, x.Value)
		e.on(&Event{Kind: "mapupdate", St: s, Fr: fr, Ins: in, Addr: m, Args: []*Term{k}, Val: v})
		all, isNew := e.mapKeys(s, m)
		for _, c := range all.keys {
			switch {
			case c == k:
				isNew = false
			case !e.distinct(s, c, k):
				isNew, all.complete = false, false
				delete(s.heap, T.App("mapelem", nil, m, c))
			}
		}
		s.heap[T.App("mapelem", nil, m, k)] = v
		if !all.complete {
			delete(s.heap, e.mapAllKey(m))
		} else if isNew {
			s.heap[e.mapAllKey(m)] = T.Int(int64(len(all.keys) + 1))
		}
		s.heap[e.verKey(m)] = e.Fresh("ver", types.Typ[types.Int])
	case *ssa.Range:
		v := e.val(p, x.X)
		it := e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("iter@%p", x), Frame: fr, Args: []*Term{v}, Typ: x.X.Type()})
		s.heap[T.App("iter", nil, it)] = T.Int(0)
		p.env[x] = it
	case *ssa.Send:
		c, v := e.val(p, x.Chan), e.val(p, x.X)
		e.on(&Event{Kind: "send", St: s, Fr: fr, Ins: in, Addr: c, Val: v})
		e.chanPut(s, c, v)
	default:
		e.trouble("unhandled instruction %T in %s", in, shortFn(fr.Fn))
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = e.Fresh("unk", v.Type())
		}
	}
}

// resetAlloc: the site makes a new zeroed object (again).
func (e *Engine) resetAlloc(s *State, a *Term) {
	for k := range s.heap {
		b := k
		if b.Kind == KApp {
			if len(b.Args) == 0 {
				continue
			}
			b = b.Args[0]
		}
		if rootOf(b) == a {
			delete(s.heap, k)
		}
	}
}

func (e *Engine) lenOf(s *State, x *Term) *Term {
	return e.T.Len(x)
}

func (e *Engine) capOf(s *State, x *Term) *Term {
	if x.Kind == KNil {
		return e.T.Int(0)
	}
	if x.Kind == KSlice {
		b := x.Args[0]
		if c := s.heap[e.T.App("capof", types.Typ[types.Int], b)]; c != nil {
			return e.T.Sub(c, x.Args[1])
		}
		if n, ok := arrayLen(b.Typ); ok {
			return e.T.Sub(e.T.Int(n), x.Args[1])
		}
		if b.Kind != KAlloc {
			return e.T.Sub(e.T.App("cap", types.Typ[types.Int], b), x.Args[1])
		}
	}
	return e.T.App("cap", types.Typ[types.Int], x)
}

func (e *Engine) slice(p *Path, x *ssa.Slice, fr *Frame) {
	T := e.T
	b := e.val(p, x.X)
	lo := T.Int(0)
	if x.Low != nil {
		lo = e.val(p, x.Low)
	}
	var hi *Term
	arr := false
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			arr = true
			hi = T.Int(at.Len())
		}
	}
	full := hi
	if full == nil {
		full = T.Len(b)
	}
	if x.High != nil {
		hi = e.val(p, x.High)
	} else {
		hi = full
	}
	limit := full
	if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
		limit = e.capOf(p.st, b)
	}
	e.on(&Event{Kind: "slice", St: p.st, Fr: fr, Ins: x, Addr: b, Args: []*Term{lo, hi, limit, full}})
	var r *Term
	if b.Kind == KNil {
		r = b
	} else if arr {
		r = T.mk(&Term{Kind: KSlice, Args: []*Term{b, lo, hi}, Typ: x.Type()})
	} else {
		r = T.Slice(b, lo, hi, x.Type())
	}
	p.env[x] = r
}

func (e *Engine) binop(s *State, op token.Token, a, b *Term, typ, rt types.Type) *Term {
	T := e.T
	bt := basicOf(typ)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	isBig := func(t *Term) bool {
		if t.Kind == KConst && t.Val.Kind() == constant.Int {
			_, ok := constant.Int64Val(t.Val)
			return !ok
		}
		return false
	}
	switch op {
	case token.EQL:
		return e.eq(s, a, b, typ)
	case token.NEQ:
		return T.Not(e.eq(s, a, b, typ))
	}
	if isInt && !isBig(a) && !isBig(b) {
		switch op {
		case token.ADD:
			return T.Add(a, b)
		case token.SUB:
			return T.Sub(a, b)
		case token.MUL:
			return T.Mul(a, b)
		case token.QUO:
			return T.Quo(e.norm(s, a, typ), e.norm(s, b, typ), typ)
		case token.REM:
			bits, u, _ := intBits(typ)
			if k, ok := b.isInt(); ok && u && isPow2(k) && bits >= 1 {
				return T.Mod(a, b, typ)
			}
			if u || rngOf(a).lo.Sign() >= 0 || e.entailsLe(s, T.MulC(a, -1), 2) {
				return T.Mod(e.norm(s, a, typ), e.norm(s, b, typ), typ)
			}
			return T.App("rem", typ, a, b)
		case token.AND:
			return T.AndOp(a, b, typ)
		case token.OR:
			return T.OrOp(a, b, typ)
		case token.XOR:
			return T.Xor(typ, a, b)
		case token.AND_NOT:
			return T.App("andnot", typ, a, b)
		case token.SHL:
			if k, ok := b.isInt(); ok && k >= 0 && k < 62 {
				bits, u, _ := intBits(typ)
				r := T.MulC(a, int64(1)<<uint(k))
				if u && bits < 64 && k < int64(bits) {
					// keep formal; wraps are applied on conversion
					rr := rngOf(r)
					if rr.hi.Cmp(typeRng(typ).hi) > 0 {
						return T.Mod(r, T.Int(int64(1)<<uint(bits)), typ)
					}
				}
				return r
			}
			return T.App("shl", typ, a, b)
		case token.SHR:
			if k, ok := b.isInt(); ok && k >= 0 && k < 62 {
				_, u, _ := intBits(typ)
				if u || rngOf(a).lo.Sign() >= 0 {
					return T.Quo(e.norm(s, a, typ), T.Int(int64(1)<<uint(k)), typ)
				}
			}
			return T.App("shr", typ, a, b)
		case token.LSS:
			return T.LtInt(a, b)
		case token.LEQ:
			return T.LeInt(a, b)
		case token.GTR:
			return T.LtInt(b, a)
		case token.GEQ:
			return T.LeInt(b, a)
		}
	}
	if isInt && op == token.AND {
		// mask with a large constant
		return T.App("and", typ, a, b)
	}
	if isStr && op == token.ADD {
		return T.Cat(a, b)
	}
	if a.Kind == KConst && b.Kind == KConst {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return T.Bool(constant.Compare(a.Val, op, b.Val))
		case token.ADD, token.SUB, token.MUL:
			return T.Const(constant.BinaryOp(a.Val, op, b.Val))
		}
	}
	switch op {
	case token.GTR:
		return T.App("<", rt, b, a)
	case token.GEQ:
		return T.Not(T.App("<", rt, a, b))
	case token.LEQ:
		return T.Not(T.App("<", rt, b, a))
	case token.ADD, token.MUL:
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return T.App(op.String(), rt, a, b)
}

// fits: the path's conditions bound x by the values of its type.
func (e *Engine) fits(s *State, x *Term, typ types.Type) bool {
	bits, _, ok := intBits(typ)
	if !ok || bits >= 63 {
		return false
	}
	tr := typeRng(typ)
	return e.entailsLe(s, e.T.AddScaled(e.T.Int(tr.lo.Int64()), x, -1), 3) && e.entailsLe(s, e.T.AddScaled(x, e.T.Int(tr.hi.Int64()), -1), 3)
}

// norm reduces a formal unsigned sum that may have wrapped.
func (e *Engine) norm(s *State, a *Term, typ types.Type) *Term {
	bits, u, ok := intBits(typ)
	if !ok || !u || bits >= 64 || a.Kind != KLin {
		return a
	}
	r, tr := rngOf(a), typeRng(typ)
	if e.fits(s, a, typ) {
		return a
	}
	if r.lo.Cmp(tr.lo) < 0 || r.hi.Cmp(tr.hi) > 0 {
		return e.T.Mod(a, e.T.Int(int64(1)<<uint(bits)), typ)
	}
	return a
}

func (e *Engine) eq(s *State, a, b *Term, typ types.Type) *Term {
	if a.Kind == KNil || b.Kind == KNil {
		x := a
		if a.Kind == KNil {
			x = b
		}
		if x.Kind == KIface {
			return e.T.F
		}
	}
	if a.Kind == KStruct && b.Kind == KStruct && len(a.Args) == len(b.Args) {
		r := e.T.T
		for i := range a.Args {
			c := e.eq(s, a.Args[i], b.Args[i], a.Args[i].Typ)
			if c == e.T.F {
				return c
			}
			if c != e.T.T {
				r = nil
			}
		}
		if r != nil {
			return r
		}
	}
	return e.T.Eq(a, b, typ)
}

// u64 -> same value handling of the "x & 0xffffffff != x" idiom lives in Mod.

func (e *Engine) convert(s *State, v *Term, from, to types.Type) *Term {
	fb, tb := basicOf(from), basicOf(to)
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		r := e.T.Conv(v, from, to)
		if r != v && v.Kind != KConst && (v.Kind != KLin || e.fits(s, v, from)) && e.fits(s, v, to) {
			return v
		}
		return r
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			if i, ok := v.isInt(); ok {
				return e.T.Str(string(rune(i)))
			}
			return e.T.App("runestr", to, v)
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if c := e.contentOf(s, v); c != nil {
			v = c
		}
		if v.Kind == KApp && v.Name == "bytes" {
			return v.Args[0]
		}
		if v.Kind == KNil {
			return e.T.Str("")
		}
		return e.T.App("str", to, v)
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if v.Kind == KApp && v.Name == "str" {
			return v.Args[0]
		}
		return e.T.App("bytes", to, v)
	}
	if v.Kind == KConst && tb != nil && tb.Info()&types.IsFloat != 0 {
		return v
	}
	if tb == nil && fb == nil {
		return v
	}
	return e.T.App("conv:"+types.TypeString(to, nil), to, v)
}

// contentOf: known contents of a byte slice.
func (e *Engine) contentOf(s *State, v *Term) *Term {
	if v.Kind == KSlice {
		c := s.heap[e.T.App("content", nil, v.Args[0], v.Args[1])]
		if c != nil && e.provesEq(s, e.T.Len(c), e.T.Len(v)) {
			return c
		}
		if c != nil && c.Kind == KApp && c.Name == "fileread" {
			return e.T.App("prefix", nil, c, e.T.Len(v))
		}
		return nil
	}
	return s.heap[e.T.App("content", nil, v, e.T.Int(0))]
}

// setContent records that the bytes from the start of v are c.
func (e *Engine) setContent(s *State, v, c *Term) {
	base, lo := v, e.T.Int(0)
	if v.Kind == KSlice {
		base, lo = v.Args[0], v.Args[1]
	}
	n := e.T.Len(c)
	for k, old := range s.heap {
		if k.Kind != KApp || k.Name != "content" || k.Args[0] != base {
			continue
		}
		// disjoint?
		if e.provesLe(s, e.T.Add(lo, n), k.Args[1]) || e.provesLe(s, e.T.Add(k.Args[1], e.T.Len(old)), lo) {
			continue
		}
		delete(s.heap, k)
	}
	s.heap[e.verKey(base)] = e.Fresh("ver", types.Typ[types.Int])
	s.heap[e.T.App("content", nil, base, lo)] = c
	for k := range s.heap {
		if k.Kind == KIndexA && k.Args[0] == base && !isSummary(k) {
			delete(s.heap, k)
		}
	}
}

// ---------------------------------------------------------------- channels etc.

func (e *Engine) chanPut(s *State, c, v *Term) {
	if e.H.Send != nil && e.H.Send(s, c, v) {
		return
	}
	if c.Kind != KAlloc {
		return
	}
	for _, x := range s.chans[c] {
		if x == v || e.nilness(s, x) == 1 && e.nilness(s, v) == 1 && isErrorType(v.Typ) {
			return
		}
	}
	n := append([]*Term{}, s.chans[c]...)
	if e.nilness(s, v) == 1 {
		n = append([]*Term{v}, n...)
	} else {
		n = append(n, v)
	}
	s.chans[c] = n
}

func (e *Engine) recv(p *Path, in *ssa.UnOp, fr *Frame) []*Path {
	c := e.val(p, in.X)
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	return e.recvOn(p, in, c, et, in.CommaOk, fr)
}

func (e *Engine) recvOn(p *Path, in ssa.Instruction, c *Term, et types.Type, commaOk bool, fr *Frame) []*Path {
	set := func(q *Path, v, ok *Term) {
		if val, is := in.(ssa.Value); is {
			if commaOk {
				q.env[val] = e.T.mk(&Term{Kind: KTuple, N: 2, Args: []*Term{v, ok}})
			} else {
				q.env[val] = v
			}
		}
		e.on(&Event{Kind: "recv", St: q.st, Fr: fr, Ins: in, Addr: c, Val: v, Res: ok})
	}
	if e.H.Recv != nil {
		if v, ok, h := e.H.Recv(p.st, c); h {
			if v == nil {
				v = e.zero(et)
			}
			if _, isB := ok.isBool(); isB {
				set(p, v, ok)
				return []*Path{p}
			}
		}
	}
	vals := p.st.chans[c]
	if len(vals) > 0 {
		v := vals[0]
		if len(vals) > 1 {
			p.st.chans[c] = vals[1:]
		}
		set(p, v, e.T.T)
		return []*Path{p}
	}
	v := e.Fresh("recv", et)
	if !commaOk {
		set(p, v, e.T.T)
		return []*Path{p}
	}
	q := p.clone()
	set(p, v, e.T.T)
	set(q, e.zero(et), e.T.F)
	return []*Path{p, q}
}

func (e *Engine) selectInstr(p *Path, in *ssa.Select, fr *Frame) []*Path {
	var out []*Path
	n := len(in.States)
	mkTuple := func(q *Path, idx int, ok *Term, recvIdx int, v *Term) {
		t := &Term{Kind: KTuple, Args: []*Term{e.T.Int(int64(idx)), ok}}
		r := 0
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				if r == recvIdx {
					t.Args = append(t.Args, v)
				} else {
					t.Args = append(t.Args, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				r++
			}
		}
		t.N = len(t.Args)
		q.env[in] = e.T.mk(t)
	}
	r := 0
	for i := 0; i < n; i++ {
		s := in.States[i]
		q := p.clone()
		c := e.val(q, s.Chan)
		if s.Dir == types.SendOnly {
			v := e.val(q, s.Send)
			e.on(&Event{Kind: "send", St: q.st, Fr: fr, Ins: in, Addr: c, Val: v})
			e.chanPut(q.st, c, v)
			mkTuple(q, i, e.T.F, -1, nil)
			out = append(out, q)
		} else {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			v := e.Fresh("recv", et)
			q2 := q.clone()
			e.on(&Event{Kind: "recv", St: q.st, Fr: fr, Ins: in, Addr: c, Val: v, Res: e.T.T})
			mkTuple(q, i, e.T.T, r, v)
			e.on(&Event{Kind: "recv", St: q2.st, Fr: fr, Ins: in, Addr: c, Val: e.zero(et), Res: e.T.F})
			mkTuple(q2, i, e.T.F, r, e.zero(et))
			r++
			out = append(out, q, q2)
		}
	}
	if !in.Blocking {
		q := p.clone()
		mkTuple(q, -1, e.T.F, -1, nil)
		out = append(out, q)
	}
	return out
}

// next advances a range over a string or map.
func (e *Engine) next(p *Path, in *ssa.Next, fr *Frame) []*Path {
	T := e.T
	it := e.val(p, in.Iter)
	tup := in.Type().(*types.Tuple)
	key := T.App("iter", nil, it)
	if in.IsString && len(it.Args) == 1 {
		pos := p.st.heap[key]
		if pos == nil {
			pos = e.Fresh("pos", types.Typ[types.Int])
		}
		n := T.Len(it.Args[0])
		if e.Runes != nil {
			if r, w, end, ok := e.Runes(p.st, it.Args[0], pos); ok {
				if end {
					p.env[in] = T.mk(&Term{Kind: KTuple, N: 3, Args: []*Term{T.F, T.Int(0), T.Int(0)}})
				} else {
					p.st.heap[key] = T.Add(pos, w)
					p.env[in] = T.mk(&Term{Kind: KTuple, N: 3, Args: []*Term{T.T, pos, r}})
				}
				return []*Path{p}
			}
		}
		q := p.clone()
		// the end
		e.assume(p.st, T.EqInt(pos, n), true)
		p.env[in] = T.mk(&Term{Kind: KTuple, N: 3, Args: []*Term{T.F, T.Int(0), T.Int(0)}})
		// one more rune
		r := e.Fresh("rune", tup.At(2).Type())
		w := e.Fresh("runelen", types.Typ[types.Uint8])
		e.assume(q.st, T.LeInt(T.Int(1), w), true)
		e.assume(q.st, T.LeInt(w, T.Int(4)), true)
		var res []*Path
		if e.assume(q.st, T.LeInt(T.Add(pos, w), n), true) {
			q.st.heap[key] = T.Add(pos, w)
			q.env[in] = T.mk(&Term{Kind: KTuple, N: 3, Args: []*Term{T.T, pos, r}})
			e.on(&Event{Kind: "rune", St: q.st, Fr: fr, Ins: in, Args: []*Term{it.Args[0], pos, r, w}})
			res = append(res, q)
		}
		return append(res, p)
	}
	q := p.clone()
	mkv := func(i int) *Term {
		t := tup.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return T.Nil
		}
		return e.Fresh(fmt.Sprintf("range%d", i), t)
	}
	k, v := mkv(1), mkv(2)
	p.env[in] = T.mk(&Term{Kind: KTuple, N: 3, Args: []*Term{T.T, k, v}})
	if len(it.Args) == 1 {
		e.on(&Event{Kind: "mapnext", St: p.st, Fr: fr, Ins: in, Addr: it.Args[0], Args: []*Term{k}, Val: v})
	}
	q.env[in] = T.mk(&Term{Kind: KTuple, N: 3, Args: []*Term{T.F, k, v}})
	return []*Path{p, q}
}

func (e *Engine) lookup(p *Path, in *ssa.Lookup, fr *Frame) []*Path {
	T := e.T
	m, k := e.val(p, in.X), e.val(p, in.Index)
	if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
		e.on(&Event{Kind: "index", St: p.st, Fr: fr, Ins: in, Addr: m, Args: []*Term{k, T.Len(m)}})
		p.env[in] = T.App("idx", in.Type(), m, k)
		return []*Path{p}
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	var v *Term
	absent := false
	if c := p.st.heap[T.App("mapelem", nil, m, k)]; c != nil {
		v = c
	} else if m.Kind == KNil || e.absent(p.st, m, k) {
		v, absent = e.zero(vt), true
	} else {
		ver := p.st.heap[e.verKey(m)]
		if ver == nil {
			ver = T.Int(0)
		}
		v = T.App("mapget", vt, m, k, ver)
	}
	e.on(&Event{Kind: "maplookup", St: p.st, Fr: fr, Ins: in, Addr: m, Args: []*Term{k}, Val: v})
	if !in.CommaOk {
		p.env[in] = v
		return []*Path{p}
	}
	okT := T.App("mapok", types.Typ[types.Bool], v)
	if v.Kind != KApp || v.Name != "mapget" {
		okT = T.Bool(!absent)
	}
	p.env[in] = T.mk(&Term{Kind: KTuple, N: 2, Args: []*Term{v, okT}})
	return []*Path{p}
}

// mapAllKey: the number of keys of a map all keys of which are known.
func (e *Engine) mapAllKey(m *Term) *Term { return e.T.App("mapall", types.Typ[types.Int], m) }

type mapKnown struct {
	keys     []*Term
	complete bool
}

func (e *Engine) mapKeys(s *State, m *Term) (mapKnown, bool) {
	var r mapKnown
	for c := range s.heap {
		if c.Kind == KApp && c.Name == "mapelem" && c.Args[0] == m {
			r.keys = append(r.keys, c.Args[1])
		}
	}
	sort.Slice(r.keys, func(i, j int) bool { return r.keys[i].ID < r.keys[j].ID })
	if n := s.heap[e.mapAllKey(m)]; n != nil {
		k, ok := n.isInt()
		r.complete = ok && int(k) == len(r.keys)
	}
	return r, true
}

// distinct: the keys are different on this path.
func (e *Engine) distinct(s *State, a, b *Term) bool {
	if a == b {
		return false
	}
	v, ok := e.truth(s, e.T.Eq(a, b, a.Typ))
	return ok && !v
}

// absent: the map has no such key.
func (e *Engine) absent(s *State, m, k *Term) bool {
	all, _ := e.mapKeys(s, m)
	if !all.complete {
		return false
	}
	for _, c := range all.keys {
		if !e.distinct(s, c, k) {
			return false
		}
	}
	return true
}

func (e *Engine) typeAssert(p *Path, in *ssa.TypeAssert, fr *Frame) []*Path {
	T := e.T
	v := e.val(p, in.X)
	if v.Kind == KIface {
		var hold bool
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			hold = types.Implements(v.Typ, in.AssertedType.Underlying().(*types.Interface))
		} else {
			hold = types.Identical(v.Typ, in.AssertedType)
		}
		r := v
		if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
			r = v.Args[0]
		}
		if hold {
			if in.CommaOk {
				r = T.mk(&Term{Kind: KTuple, N: 2, Args: []*Term{r, T.T}})
			}
			p.env[in] = r
			return []*Path{p}
		}
		if in.CommaOk {
			p.env[in] = T.mk(&Term{Kind: KTuple, N: 2, Args: []*Term{e.zero(in.AssertedType), T.F}})
			return []*Path{p}
		}
		return nil
	}
	r := T.App("assert:"+types.TypeString(in.AssertedType, nil), in.AssertedType, v)
	if !in.CommaOk {
		p.env[in] = r
		return []*Path{p}
	}
	q := p.clone()
	p.env[in] = T.mk(&Term{Kind: KTuple, N: 2, Args: []*Term{r, T.T}})
	q.env[in] = T.mk(&Term{Kind: KTuple, N: 2, Args: []*Term{e.zero(in.AssertedType), T.F}})
	return []*Path{p, q}
}

// scaled: the value of an operand; in comparisons, the number of slots stands
// for 2 when loops over slots are scaled down.
func (e *Engine) scaled(p *Path, x *ssa.BinOp, v ssa.Value) *Term {
	if e.Scale {
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			w := e.val(p, v)
			if k, ok := w.isInt(); ok {
				switch {
				case k >= 65535-1 && k <= 65536+4:
					return e.T.Int(k - 65536 + 2)
				case k == 32768:
					return e.T.Int(1)
				}
			}
			return w
		}
	}
	return e.val(p, v)
}

// allConst: every index on the way to a is known.
func allConst(a *Term) bool {
	for a.Kind == KFieldA || a.Kind == KIndexA {
		if a.Kind == KIndexA {
			if _, ok := a.Args[1].isInt(); !ok {
				return false
			}
		}
		a = a.Args[0]
	}
	return true
}
