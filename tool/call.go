package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is one call about to be modelled.
type callCtx struct {
	e    *Engine
	st   *State
	fr   *Frame
	site ssa.Instruction
	com  *ssa.CallCommon
	name string
	sig  *types.Signature
	args []*Term
	defr bool
	fn   *ssa.Function
}

// tuple packs results.
func (e *Engine) tuple(rs ...*Term) *Term {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return e.T.mk(&Term{Kind: KTuple, N: len(rs), Args: append([]*Term{}, rs...)})
}

func results(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.Kind == KTuple {
		return t.Args
	}
	return []*Term{t}
}

// done finishes one outcome of the call.
func (c *callCtx) done(st *State, rs ...*Term) Out {
	ev := &Event{E: c.e, Kind: "call", St: st, Fr: c.fr, Ins: c.site, Fn: c.fn, Name: c.name, Args: c.args, Res: c.e.tuple(rs...), Com: c.com, Defer: c.defr}
	c.e.on(ev)
	return Out{st: st, ret: ev.Res}
}

// canFail: may this operation fail on this path?
func (c *callCtx) canFail(st *State) bool {
	if c.e.NoFault || c.e.NoFail != nil && c.e.NoFail(c.name) {
		return false
	}
	if c.e.OneFault && st.fault != nil {
		return false
	}
	return true
}

// errTerm makes the error of a failing operation.
func (c *callCtx) errTerm(st *State, eof bool) *Term {
	n := "err:" + c.name
	if eof {
		n = "rerr:" + c.name
	}
	t := c.e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("%s@%p", n, c.site), Frame: c.fr, Typ: types.Universe.Lookup("error").Type(), NonNil: true, MayEOF: eof})
	if st.fault == nil {
		st.fault = t
	}
	st.note(c.site.Pos(), c.name+" fails")
	return t
}

// fork: success with ok(st) results, failure with zero results and an error.
func (c *callCtx) fork(eof bool, ok func(st *State) []*Term, bad func(st *State, err *Term) []*Term) []Out {
	var outs []Out
	st := c.st
	if c.canFail(st) {
		f := st.clone()
		er := c.errTerm(f, eof)
		var rs []*Term
		if bad != nil {
			rs = bad(f, er)
		} else {
			n := c.sig.Results().Len()
			for i := 0; i < n-1; i++ {
				t := c.sig.Results().At(i).Type()
				if isPtrLike(t) {
					rs = append(rs, c.e.T.Nil)
				} else if _, _, isI := intBits(t); isI {
					rs = append(rs, c.e.Fresh("partial", t))
				} else {
					rs = append(rs, c.e.zero(t))
				}
			}
			rs = append(rs, er)
		}
		outs = append(outs, c.done(f, rs...))
	}
	outs = append(outs, c.done(st, ok(st)...))
	return outs
}

func sigOf(com *ssa.CallCommon) *types.Signature {
	return com.Signature()
}

func (e *Engine) inChain(fr *Frame, fn *ssa.Function) int {
	n := 0
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn {
			n++
		}
	}
	return n
}

func (e *Engine) call(st *State, fr *Frame, site ssa.Instruction, com *ssa.CallCommon, fnT *Term, stat *ssa.Function, args []*Term, isDefer bool) []Out {
	e.calls[site] = true
	c := &callCtx{e: e, st: st, fr: fr, site: site, com: com, sig: sigOf(com), args: args, defr: isDefer}
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		c.name = "builtin:" + b.Name()
		return e.builtin(c, b.Name())
	}
	var binds []*Term
	fn := stat
	if com.IsInvoke() {
		recv := args[0]
		mname := com.Method.Name()
		c.name = "invoke:" + com.Method.FullName()
		if recv.Kind == KIface {
			t := recv.Typ
			if m := e.P.SSA.LookupMethod(t, com.Method.Pkg(), mname); m != nil {
				fn = m
				c.args = append([]*Term{recv.Args[0]}, args[1:]...)
				args = c.args
				if fn.Synthetic != "" && fn.Object() != nil {
					// wrapper of an embedded or value method: prefer the real one
					if o, ok := fn.Object().(*types.Func); ok {
						if real := e.P.SSA.FuncValue(o); real != nil && real.Blocks != nil && sameRecv(real, t) {
							fn = real
						}
					}
				}
			}
		} else if recv.Kind == KNil {
			return []Out{{st: st, kind: "panic", pos: site.Pos(), fr: fr}}
		}
	} else if fnT != nil {
		switch fnT.Kind {
		case KFunc:
			fn = fnT.Fn
		case KClosure:
			fn = fnT.Fn
			binds = fnT.Args
		case KNil:
			return []Out{{st: st, kind: "panic", pos: site.Pos(), fr: fr}}
		}
	}
	if fn != nil {
		c.fn = fn
		c.name = fn.String()
		if o := fn.Origin(); o != nil {
			c.name = o.String()
		}
	} else if c.name == "" {
		c.name = "dynamic"
		if fnT != nil {
			c.name = "dynamic:" + fnT.String()
		}
	}
	if fn != nil && strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		// binding holds the receiver
		if o, ok := fn.Object().(*types.Func); ok {
			if real := e.P.SSA.FuncValue(o); real != nil {
				fn = real
				args = append(append([]*Term{}, binds...), args...)
				binds = nil
				c.fn, c.name, c.args = fn, fn.String(), args
			}
		}
	}
	if e.H.Override != nil {
		ev := &Event{E: e, Kind: "call", St: st, Fr: fr, Ins: site, Fn: fn, Name: c.name, Args: args, Com: com, Defer: isDefer}
		if outs, ok := e.H.Override(ev); ok {
			return outs
		}
	}
	if fn != nil && fn.Blocks != nil && inModule(fn) {
		opaque := e.H.Opaque != nil && e.H.Opaque(fn, fr)
		if !opaque && e.inChain(fr, fn) >= 2 {
			e.trouble("recursion through %s is not followed", shortFn(fn))
			opaque = true
		}
		d := 0
		for f := fr; f != nil; f = f.Parent {
			d++
		}
		if !opaque && d > e.MaxDepth {
			e.trouble("call depth exceeded at %s", shortFn(fn))
			opaque = true
		}
		if !opaque {
			nf := e.frame(fr, site, fn)
			e.on(&Event{E: e, Kind: "enter", St: st, Fr: nf, Ins: site, Fn: fn, Name: c.name, Args: args, Com: com, Defer: isDefer})
			outs := e.runFn(st, nf, fn, args, binds)
			for i := range outs {
				ev := &Event{E: e, Kind: "leave", St: outs[i].st, Fr: nf, Ins: site, Fn: fn, Name: c.name, Args: args, Res: outs[i].ret, Com: com, Defer: isDefer}
				e.on(ev)
				if outs[i].kind == "" {
					outs[i].ret = ev.Res
				}
			}
			return outs
		}
		return e.generic(c)
	}
	if m := findModel(c.name); m != nil {
		if outs := m(c); outs != nil {
			return outs
		}
	}
	return e.generic(c)
}

func sameRecv(fn *ssa.Function, t types.Type) bool {
	r := fn.Signature.Recv()
	return r != nil && types.Identical(r.Type(), t)
}

// purePkgs: functions of these packages compute a value from their arguments.
func isPure(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "bytes.", "unicode.", "unicode/utf8.", "path/filepath.", "path.", "errors.", "fmt.Sprint", "math/bits.", "(time.", "hash/crc32.", "(*strings.", "html.", "unicode/utf16.", "slices.", "cmp.", "sort.Search"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// generic is the model of an unknown operation: results are unknown, an error
// result may or may not be nil, memory passed by pointer is forgotten.
func (e *Engine) generic(c *callCtx) []Out {
	res := c.sig.Results()
	n := res.Len()
	pure := isPure(c.name) && !(n > 0 && isErrorType(res.At(n-1).Type()))
	hasFn := false
	for _, a := range c.args {
		if a.Kind == KClosure || a.Kind == KFunc {
			hasFn = true
		}
	}
	if pure && !hasFn {
		var args []*Term
		for _, a := range c.args {
			args = append(args, e.snapshot(c.st, a))
		}
		var rs []*Term
		for i := 0; i < n; i++ {
			nm := c.name
			if n > 1 {
				nm = fmt.Sprintf("%s#%d", c.name, i)
			}
			rs = append(rs, e.T.App(nm, res.At(i).Type(), args...))
		}
		return []Out{c.done(c.st, rs...)}
	}
	mkres := func(st *State, i int, success bool) *Term {
		t := res.At(i).Type()
		if isPtrLike(t) && success {
			if _, isSl := t.Underlying().(*types.Slice); isSl {
				return e.Fresh("res:"+c.name, t)
			}
			return e.Stable(fmt.Sprintf("res%d:%s", i, c.name), c.fr, c.site, t)
		}
		return e.Fresh("res:"+c.name, t)
	}
	if n > 0 && isErrorType(res.At(n-1).Type()) {
		return c.fork(true, func(st *State) []*Term {
			e.havocArgs(st, c.args)
			var rs []*Term
			for i := 0; i < n-1; i++ {
				rs = append(rs, mkres(st, i, true))
			}
			return append(rs, e.T.Nil)
		}, func(st *State, er *Term) []*Term {
			e.havocArgs(st, c.args)
			var rs []*Term
			for i := 0; i < n-1; i++ {
				rs = append(rs, mkres(st, i, false))
			}
			return append(rs, er)
		})
	}
	e.havocArgs(c.st, c.args)
	var rs []*Term
	for i := 0; i < n; i++ {
		rs = append(rs, mkres(c.st, i, false))
	}
	return []Out{c.done(c.st, rs...)}
}

// snapshot gives a value term for an argument: contents of byte slices and
// variadic lists instead of their addresses.
func (e *Engine) snapshot(st *State, a *Term) *Term {
	if a.Kind == KSlice && a.Args[0].Kind == KAlloc {
		if ct := e.contentOf(st, a); ct != nil {
			return ct
		}
		if vs, ok := e.listOf(st, a); ok {
			return e.T.App("list", a.Typ, vs...)
		}
		if v := e.verOf(st, a.Args[0]); v != nil {
			return e.T.App("snap", a.Typ, a, v)
		}
	}
	if a.Kind == KIface {
		return e.snapshot(st, a.Args[0])
	}
	return a
}

// listOf gives the elements of a slice of known constant length.
func (e *Engine) listOf(st *State, s *Term) ([]*Term, bool) {
	if s.Kind == KNil {
		return nil, true
	}
	if s.Kind != KSlice {
		return nil, false
	}
	n, ok := e.T.Len(s).isInt()
	if !ok || n > 32 {
		return nil, false
	}
	var r []*Term
	for i := int64(0); i < n; i++ {
		a := s.Args[0]
		idx := e.T.Add(s.Args[1], e.T.Int(i))
		var hit *Term
		for k, v := range st.heap {
			if k.Kind == KIndexA && k.Args[0] == a && k.Args[1] == idx {
				hit = v
			}
		}
		if hit == nil {
			return nil, false
		}
		r = append(r, hit)
	}
	return r, true
}

func (e *Engine) havocArgs(st *State, args []*Term) {
	for _, a := range args {
		x := a
		if x.Kind == KIface {
			x = x.Args[0]
		}
		switch x.Kind {
		case KAlloc, KFieldA, KIndexA:
			e.havoc(st, x)
		case KSlice:
			if x.Args[0].Kind == KAlloc {
				// only plain data
				if b := basicOf(elemOfSlice(x.Typ)); b != nil {
					e.havoc(st, x.Args[0])
				}
			}
		}
	}
}

func elemOfSlice(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

// ---------------------------------------------------------------- builtins

func (e *Engine) copySummaries(st *State, dst, src *Term) {
	type kv struct{ k, v *Term }
	var add []kv
	for k, v := range st.heap {
		if k.Kind != KIndexA && k.Kind != KFieldA || !isSummary(k) {
			continue
		}
		// path from src[ANY]
		var steps []*Term
		x := k
		for x.Kind == KFieldA || x.Kind == KIndexA && x.Args[0] != src {
			steps = append(steps, x)
			x = x.Args[0]
		}
		if x.Kind != KIndexA || x.Args[0] != src {
			continue
		}
		b := *x
		b.Args = []*Term{dst, x.Args[1]}
		nb := e.T.mk(&b)
		for i := len(steps) - 1; i >= 0; i-- {
			c := *steps[i]
			c.Args = append([]*Term{nb}, steps[i].Args[1:]...)
			nb = e.T.mk(&c)
		}
		add = append(add, kv{nb, v})
	}
	sort.Slice(add, func(i, j int) bool { return add[i].k.ID < add[j].k.ID })
	for _, a := range add {
		st.heap[a.k] = a.v
	}
}

func sliceBase(t *Term) *Term {
	if t.Kind == KSlice {
		return t.Args[0]
	}
	return t
}

func (e *Engine) builtin(c *callCtx, name string) []Out {
	T := e.T
	st := c.st
	one := func(t *Term) []Out { return []Out{{st: st, ret: t}} }
	switch name {
	case "len":
		return one(e.lenOf(st, c.args[0]))
	case "cap":
		return one(e.capOf(st, c.args[0]))
	case "ssa:wrapnilchk":
		return one(c.args[0])
	case "append":
		a, b := c.args[0], c.args[1]
		var bl *Term
		if b.Kind == KConst || (basicOf(b.Typ) != nil) {
			bl = T.Len(b)
		} else {
			bl = T.Len(b)
		}
		la := T.Len(a)
		ev := &Event{E: e, Kind: "append", St: st, Fr: c.fr, Ins: c.site, Args: []*Term{a, b}}
		al := e.alloc("append", c.fr, c.site, c.sig.Results().At(0).Type())
		et := elemOfSlice(c.sig.Results().At(0).Type())
		same := sliceBase(a) == al
		var pre *Term
		var preAt []*Term
		if basicOf(et) != nil {
			// contents of the first part
			if a.Kind == KSlice {
				for k, v := range st.heap {
					if k.Kind == KApp && k.Name == "content" && k.Args[0] == a.Args[0] {
						preAt = append(preAt, T.Sub(k.Args[1], a.Args[1]), v)
					}
				}
			}
			pre = e.contentOf(st, b)
			if pre == nil && b.Kind != KNil {
				pre = e.snapshot(st, b)
				if pre == b || T.Len(pre) != T.Len(b) {
					pre = nil
				}
			}
		}
		elems, known := []*Term(nil), false
		if n, ok := bl.isInt(); ok && n <= 8 && b.Kind == KSlice {
			elems, known = e.listOf(st, b)
			if !known && n == 1 {
				// struct element: copy by fields
			}
		}
		ev.Val = nil
		if known && len(elems) == 1 {
			ev.Val = elems[0]
		}
		if !known && b.Kind == KSlice {
			if n, ok := bl.isInt(); ok && n == 1 && et != nil {
				ev.Val = e.load(st, e.indexAddr(b, T.Int(0), et), et)
				elems, known = []*Term{ev.Val}, true
			}
		}
		if e.CapAppend && known && a.Kind == KSlice {
			// in place, if there is room
			cp, ok1 := e.capOf(st, a).isInt()
			nl, ok2 := T.Add(la, bl).isInt()
			if ok1 && ok2 && nl <= cp {
				for i, v := range elems {
					if v != nil {
						e.store(st, e.indexAddr(a.Args[0], T.Add(a.Args[2], T.Int(int64(i))), et), v, et)
					}
				}
				ev.Res = T.mk(&Term{Kind: KSlice, Args: []*Term{a.Args[0], a.Args[1], T.Add(a.Args[2], bl)}, Typ: c.sig.Results().At(0).Type()})
				e.on(ev)
				return one(ev.Res)
			}
		}
		ev.Res = T.mk(&Term{Kind: KSlice, Args: []*Term{al, T.Int(0), T.Add(la, bl)}, Typ: c.sig.Results().At(0).Type()})
		e.on(ev)
		// move knowledge about the old elements
		exact := false
		if !same {
			oldBase := sliceBase(a)
			var old []*Term
			if n, ok := la.isInt(); ok && n <= 16 && et != nil && known {
				exact = true
				for i := int64(0); i < n; i++ {
					old = append(old, e.load(st, e.indexAddr(a, T.Int(i), et), et))
				}
			}
			e.resetAlloc(st, al)
			e.copySummaries(st, al, oldBase)
			for i, v := range old {
				e.store(st, e.indexAddr(al, T.Int(int64(i)), et), v, et)
			}
		}
		if !exact {
			st.heap[e.verKey(al)] = e.Fresh("ver", types.Typ[types.Int])
		}
		delete(st.heap, T.App("capof", types.Typ[types.Int], al))
		if pre != nil || preAt != nil {
			for k := range st.heap {
				if k.Kind == KApp && k.Name == "content" && k.Args[0] == al {
					delete(st.heap, k)
				}
			}
			for i := 0; i+1 < len(preAt); i += 2 {
				st.heap[T.App("content", nil, al, preAt[i])] = preAt[i+1]
			}
			if pre != nil {
				st.heap[T.App("content", nil, al, la)] = pre
			}
		}
		if known && et != nil {
			for i, v := range elems {
				if v != nil {
					e.store(st, e.indexAddr(al, T.Add(la, T.Int(int64(i))), et), v, et)
				}
			}
		} else if b.Kind == KSlice {
			e.copySummaries(st, al, b.Args[0])
		}
		if T.Add(la, bl) == T.Int(0) {
			return one(a)
		}
		return one(ev.Res)
	case "copy":
		d, s := c.args[0], c.args[1]
		ld, ls := T.Len(d), T.Len(s)
		e.on(&Event{E: e, Kind: "copy", St: st, Fr: c.fr, Ins: c.site, Args: []*Term{d, s}})
		var n *Term
		switch {
		case e.provesLe(st, ls, ld):
			n = ls
		case e.provesLe(st, ld, ls):
			n = ld
		default:
			n = e.Fresh("copied", types.Typ[types.Int])
			e.assume(st, T.LeInt(T.Int(0), n), true)
			e.assume(st, T.LeInt(n, ls), true)
			e.assume(st, T.LeInt(n, ld), true)
		}
		db := sliceBase(d)
		et := elemOfSlice(d.Typ)
		var ct *Term
		if basicOf(et) != nil && n == ls {
			ct = e.contentOf(st, s)
			if ct == nil {
				ct = e.snapshot(st, s)
				if T.Len(ct) != ls {
					ct = nil
				}
			}
		}
		if ct != nil {
			e.setContent(st, d, ct)
		} else {
			var elems []*Term
			if k, ok := n.isInt(); ok && k <= 16 && et != nil {
				for i := int64(0); i < k; i++ {
					elems = append(elems, e.load(st, e.indexAddr(s, T.Int(i), et), et))
				}
			}
			for k := range st.heap {
				if (k.Kind == KIndexA || k.Kind == KFieldA) && !isSummary(k) {
					x := k
					for x.Kind == KFieldA || x.Kind == KIndexA && x.Args[0] != db {
						x = x.Args[0]
					}
					if x.Kind == KIndexA && x.Args[0] == db {
						delete(st.heap, k)
					}
				}
				if k.Kind == KApp && k.Name == "content" && k.Args[0] == db {
					delete(st.heap, k)
				}
			}
			e.copySummaries(st, db, sliceBase(s))
			st.heap[e.verKey(db)] = e.Fresh("ver", types.Typ[types.Int])
			for i, v := range elems {
				e.store(st, e.indexAddr(d, T.Int(int64(i)), et), v, et)
			}
		}
		return one(n)
	case "close":
		e.on(&Event{E: e, Kind: "close", St: st, Fr: c.fr, Ins: c.site, Addr: c.args[0], Defer: c.defr})
		return one(nil)
	case "delete":
		m := c.args[0]
		e.on(&Event{E: e, Kind: "mapdelete", St: st, Fr: c.fr, Ins: c.site, Addr: m, Args: c.args[1:]})
		for k := range st.heap {
			if k.Kind == KApp && (k.Name == "mapelem" || k.Name == "mapall") && k.Args[0] == m {
				delete(st.heap, k)
			}
		}
		st.heap[e.verKey(m)] = e.Fresh("ver", types.Typ[types.Int])
		return one(nil)
	case "clear":
		e.on(&Event{E: e, Kind: "clear", St: st, Fr: c.fr, Ins: c.site, Addr: c.args[0]})
		e.havoc(st, sliceBase(c.args[0]))
		st.heap[e.verKey(sliceBase(c.args[0]))] = e.Fresh("ver", types.Typ[types.Int])
		return one(nil)
	case "min", "max":
		r := c.args[0]
		for _, x := range c.args[1:] {
			a, b := r, x
			if name == "max" {
				a, b = x, r
			}
			// r = min(a,b)
			switch {
			case e.provesLe(st, a, b):
				r = minmax(name, a, b, true)
			case e.provesLe(st, b, a):
				r = minmax(name, a, b, false)
			default:
				f := e.Fresh(name, r.Typ)
				if name == "min" {
					e.assume(st, T.LeInt(f, r), true)
					e.assume(st, T.LeInt(f, x), true)
				} else {
					e.assume(st, T.LeInt(r, f), true)
					e.assume(st, T.LeInt(x, f), true)
				}
				r = f
			}
		}
		return one(r)
	case "recover":
		return one(T.Nil)
	case "print", "println":
		return one(nil)
	case "panic":
		return []Out{{st: st, kind: "panic", pos: c.site.Pos(), fr: c.fr}}
	}
	if c.sig.Results().Len() == 0 {
		return one(nil)
	}
	e.trouble("builtin %s is not modelled", name)
	return one(e.Fresh(name, c.sig.Results().At(0).Type()))
}

// minmax: a <= b known (le) or b <= a; (a,b) were swapped for max.
func minmax(name string, a, b *Term, le bool) *Term {
	// for min: a<=b -> a. For max the arguments are swapped: a=x, b=r, a<=b -> b.
	if name == "min" {
		if le {
			return a
		}
		return b
	}
	if le {
		return b
	}
	return a
}
