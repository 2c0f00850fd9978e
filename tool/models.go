package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

type model func(c *callCtx) []Out

var models map[string]model

func findModel(name string) model { return models[name] }

func (c *callCtx) rt(i int) types.Type { return c.sig.Results().At(i).Type() }

// simple: always succeeds with one computed value.
func simple(f func(c *callCtx) *Term) model {
	return func(c *callCtx) []Out { return []Out{c.done(c.st, f(c))} }
}

func void(c *callCtx) []Out { return []Out{c.done(c.st)} }

// as renames the call for the rules.
func as(name string, m model) model {
	return func(c *callCtx) []Out {
		c.name = name
		return m(c)
	}
}

// openModel: os.OpenFile.
func openModel(c *callCtx) []Out {
	e := c.e
	return c.fork(false, func(st *State) []*Term {
		h := e.handle(c, st, c.rt(0))
		st.heap[e.pathKey(h)] = c.args[0]
		st.heap[e.flagsKey(h)] = c.args[1]
		st.heap[e.posKey(h)] = e.T.Int(0)
		if f, ok := c.args[1].isInt(); ok && f&int64(os.O_TRUNC) != 0 {
			st.heap[e.sizeKey(c.args[0])] = e.T.Int(0)
		}
		return []*Term{h, e.T.Nil}
	}, nil)
}

// handle makes the handle of a file opened here.
func (e *Engine) handle(c *callCtx, st *State, typ types.Type) *Term {
	name := "file"
	if e.Unroll {
		k := fmt.Sprintf("opened:%p:%d", c.site, frameID(c.fr))
		n := int64(0)
		if v := st.gh[k]; v != nil {
			n, _ = v.isInt()
		}
		if n > 0 {
			name = fmt.Sprintf("file%d", n)
		}
		if n < 3 {
			n++
		}
		st.gh[k] = e.T.Int(n)
	}
	return e.Stable(name, c.fr, c.site, typ)
}

func frameID(f *Frame) int {
	if f == nil {
		return 0
	}
	return f.ID
}

func (e *Engine) pathKey(h *Term) *Term  { return e.T.App("fpath", types.Typ[types.String], h) }
func (e *Engine) flagsKey(h *Term) *Term { return e.T.App("fflags", types.Typ[types.Int], h) }

// errOnly: may fail, otherwise returns nothing but nil.
func errOnly(c *callCtx) []Out {
	return c.fork(false, func(st *State) []*Term { return c.okTail() }, nil)
}

// okTail makes unknown successful results with a nil error.
func (c *callCtx) okTail() []*Term {
	n := c.sig.Results().Len()
	var rs []*Term
	for i := 0; i < n; i++ {
		t := c.rt(i)
		switch {
		case i == n-1 && isErrorType(t):
			rs = append(rs, c.e.T.Nil)
		case isPtrLike(t):
			if _, sl := t.Underlying().(*types.Slice); sl {
				rs = append(rs, c.e.Fresh("res:"+c.name, t))
			} else {
				rs = append(rs, c.e.Stable(fmt.Sprintf("res%d:%s", i, c.name), c.fr, c.site, t))
			}
		default:
			rs = append(rs, c.e.Fresh("res:"+c.name, t))
		}
	}
	return rs
}

func readResult(c *callCtx, st *State, buf, content *Term) {
	e := c.e
	if buf.Kind == KSlice {
		for k := range st.heap {
			if k.Kind == KIndexA && k.Args[0] == buf.Args[0] && !isSummary(k) {
				delete(st.heap, k)
			}
		}
		if content != nil {
			e.setContent(st, buf, content)
		} else {
			for k := range st.heap {
				if k.Kind == KApp && k.Name == "content" && k.Args[0] == buf.Args[0] {
					delete(st.heap, k)
				}
			}
			st.heap[e.verKey(buf.Args[0])] = e.Fresh("ver", types.Typ[types.Int])
		}
	}
}

// decode reads a fixed-width big/little endian integer out of a byte slice.
func decode(c *callCtx, bits int64, be bool) *Term {
	e, T := c.e, c.e.T
	b := c.args[len(c.args)-1]
	name := fmt.Sprintf("le%d", bits)
	if be {
		name = fmt.Sprintf("be%d", bits)
	}
	n := bits / 8
	lim := T.Len(b)
	e.on(&Event{E: e, Kind: "index", St: c.st, Fr: c.fr, Ins: c.site, Addr: b, Args: []*Term{T.Int(n - 1), lim}})
	base, lo := b, T.Int(0)
	if b.Kind == KSlice {
		base, lo = b.Args[0], b.Args[1]
	}
	typ := c.rt(0)
	var best, bestOff *Term
	for k, v := range c.st.heap {
		if k.Kind != KApp || k.Name != "content" || k.Args[0] != base {
			continue
		}
		off := T.Sub(lo, k.Args[1])
		if k.Args[1] == lo && v.Kind == KApp && v.Name == name {
			return v.Args[0]
		}
		if e.provesLe(c.st, T.Int(0), off) && e.provesLe(c.st, T.Add(off, T.Int(n)), T.Len(v)) {
			if best == nil || v.ID < best.ID {
				best, bestOff = v, off
			}
		}
	}
	if best != nil {
		for best.Kind == KApp && best.Name == "prefix" {
			best = best.Args[0]
		}
		if best.Kind == KApp && best.Name == "fileread" {
			// the integer stored at that place of the file
			return e.stored(c.st, name, typ, best.Args[0], T.Add(best.Args[1], bestOff))
		}
		return T.App(name+"at", typ, best, bestOff)
	}
	// single bytes read one after the other
	var h, off *Term
	for j := int64(0); j < n; j++ {
		b := c.st.heap[e.indexAddr(base, T.Add(lo, T.Int(j)), types.Typ[types.Uint8])]
		if b == nil || b.Kind != KApp || b.Name != "u8file" || h != nil && (b.Args[0] != h || b.Args[1] != T.Add(off, T.Int(j))) {
			h = nil
			break
		}
		if h == nil {
			if j > 0 {
				break
			}
			h, off = b.Args[0], b.Args[1]
		}
	}
	if h != nil {
		return e.stored(c.st, name, typ, h, off)
	}
	ver := e.verOf(c.st, base)
	if ver == nil {
		ver = T.Int(0)
	}
	return T.App(name+"at", typ, T.App("snap", nil, base, ver), lo)
}

func put(bits int64, be bool) model {
	return func(c *callCtx) []Out {
		name := fmt.Sprintf("le%d", bits)
		if be {
			name = fmt.Sprintf("be%d", bits)
		}
		n := len(c.args)
		b, v := c.args[n-2], c.args[n-1]
		c.e.on(&Event{E: c.e, Kind: "index", St: c.st, Fr: c.fr, Ins: c.site, Addr: b, Args: []*Term{c.e.T.Int(bits/8 - 1), c.e.T.Len(b)}})
		c.e.setContent(c.st, b, c.e.T.App(name, nil, v))
		return []Out{c.done(c.st)}
	}
}

// strList flattens a variadic slice.
func (c *callCtx) variadic(i int) ([]*Term, bool) {
	if i >= len(c.args) {
		return nil, true
	}
	vs, ok := c.e.listOf(c.st, c.args[i])
	if !ok {
		return nil, false
	}
	out := make([]*Term, len(vs))
	for k, v := range vs {
		if v.Kind == KIface {
			v = v.Args[0]
		}
		out[k] = v
	}
	return out, true
}

func isAbsTerm(t *Term) bool {
	if t.Kind == KApp && t.Name == "abs" {
		return true
	}
	if t.Kind == KApp && t.Name == "cat" {
		return isAbsTerm(t.Args[0])
	}
	if s, ok := t.isStr(); ok {
		return strings.HasPrefix(s, "/")
	}
	return false
}

// absTerm: the absolute form of a path term.
func (e *Engine) absTerm(p *Term) *Term {
	if isAbsTerm(p) {
		return p
	}
	if p.Kind == KApp && p.Name == "clean" {
		return e.absTerm(p.Args[0])
	}
	return e.T.App("abs", types.Typ[types.String], p)
}

func (e *Engine) joinTerm(ps []*Term) *Term {
	T := e.T
	var r []*Term
	for _, p := range ps {
		if s, ok := p.isStr(); ok {
			s = strings.Trim(s, "/")
			if s == "" || s == "." {
				continue
			}
			p = T.Str(s)
		}
		if len(r) > 0 {
			r = append(r, T.Str("/"))
		}
		r = append(r, p)
	}
	return T.Cat(r...)
}

// format expands a printf format into string pieces.
func (e *Engine) format(f string, args []*Term) *Term {
	T := e.T
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, T.Str(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		if f[j] == '%' {
			parts = append(parts, T.Str("%"))
			i = j
			continue
		}
		var a *Term
		if ai < len(args) {
			a = args[ai]
			ai++
		} else {
			a = T.Str("%!missing")
		}
		isStr := basicOf(a.Typ) != nil && basicOf(a.Typ).Info()&types.IsString != 0 || func() bool { _, ok := a.isStr(); return ok }() || a.Kind == KApp && (a.Name == "cat" || a.Name == "abs")
		switch {
		case (verb == "%s" || verb == "%v") && isStr:
			parts = append(parts, a)
		case verb == "%d" || verb == "%v":
			parts = append(parts, T.App("itoa", types.Typ[types.String], a))
		default:
			parts = append(parts, T.App("fmt:"+verb, types.Typ[types.String], a))
		}
		i = j
	}
	return T.Cat(parts...)
}

func (c *callCtx) newErr(args ...*Term) *Term {
	id := c.e.Stable("newerr", c.fr, c.site, nil)
	return c.e.T.App("newerr", types.Universe.Lookup("error").Type(), append([]*Term{id}, args...)...)
}

func exitModel(c *callCtx) []Out {
	c.e.on(&Event{E: c.e, Kind: "exit", St: c.st, Fr: c.fr, Ins: c.site, Name: c.name, Args: c.args})
	return []Out{{st: c.st, kind: "exit", pos: c.site.Pos(), fr: c.fr, ret: func() *Term {
		if c.name == "os.Exit" {
			return c.args[0]
		}
		return c.e.T.Int(1)
	}()}}
}

// callFn calls a function value from a model.
func (c *callCtx) callFn(st *State, f *Term, args []*Term) []Out {
	var binds []*Term
	e := c.e
	if f.Kind != KClosure && f.Kind != KFunc || f.Fn == nil || f.Fn.Blocks == nil {
		return []Out{{st: st, ret: e.Fresh("cb", nil)}}
	}
	if f.Kind == KClosure {
		binds = f.Args
	}
	fn := f.Fn
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		if o, ok := fn.Object().(*types.Func); ok {
			if real := e.P.SSA.FuncValue(o); real != nil {
				fn = real
				args = append(append([]*Term{}, binds...), args...)
				binds = nil
			}
		}
	}
	nf := e.frame(c.fr, c.site, fn)
	e.on(&Event{E: e, Kind: "enter", St: st, Fr: nf, Ins: c.site, Fn: fn, Name: fn.String(), Args: args})
	outs := e.runFn(st, nf, fn, args, binds)
	for i := range outs {
		ev := &Event{E: e, Kind: "leave", St: outs[i].st, Fr: nf, Ins: c.site, Fn: fn, Name: fn.String(), Args: args, Res: outs[i].ret}
		e.on(ev)
	}
	return outs
}

func init() {
	readSome := func(bufArg int) model {
		return func(c *callCtx) []Out {
			e := c.e
			return c.fork(true, func(st *State) []*Term {
				n := e.Fresh("n", types.Typ[types.Int])
				e.assume(st, e.T.LeInt(e.T.Int(0), n), true)
				e.assume(st, e.T.LeInt(n, e.T.Len(c.args[bufArg])), true)
				readResult(c, st, c.args[bufArg], nil)
				return []*Term{n, e.T.Nil}
			}, func(st *State, er *Term) []*Term {
				n := e.Fresh("n", types.Typ[types.Int])
				e.assume(st, e.T.LeInt(e.T.Int(0), n), true)
				e.assume(st, e.T.LeInt(n, e.T.Len(c.args[bufArg])), true)
				readResult(c, st, c.args[bufArg], nil)
				return []*Term{n, er}
			})
		}
	}
	readFull := func(bufArg, offArg int) model {
		return func(c *callCtx) []Out {
			e := c.e
			buf := c.args[bufArg]
			return c.fork(true, func(st *State) []*Term {
				n := e.T.Len(buf)
				off := e.Fresh("seq", types.Typ[types.Int64])
				if offArg >= 0 {
					off = c.args[offArg]
				}
				ct := e.T.mk(&Term{Kind: KApp, Name: "fileread", Args: []*Term{c.args[0], off, n}})
				readResult(c, st, buf, ct)
				return []*Term{n, e.T.Nil}
			}, func(st *State, er *Term) []*Term {
				n := e.Fresh("partial", types.Typ[types.Int])
				e.assume(st, e.T.LeInt(e.T.Int(0), n), true)
				e.assume(st, e.T.LeInt(n, e.T.Len(buf)), true)
				readResult(c, st, buf, nil)
				return []*Term{n, er}
			})
		}
	}
	write := func(c *callCtx) []Out {
		e := c.e
		r := c.args[0]
		if h := hashOf(r); h != nil {
			x := e.snapshot(c.st, c.args[1])
			if x.Kind == KApp && (x.Name == "bytes" || x.Name == "str") {
				x = x.Args[0]
			}
			k := e.T.App("hashcont", nil, h)
			old := c.st.heap[k]
			if old == nil {
				old = e.T.App("hashinit", nil, h)
			}
			c.st.heap[k] = e.T.Cat(old, x)
			return []Out{c.done(c.st, e.T.Len(c.args[1]), e.T.Nil)}
		}
		if r.Kind == KApp && strings.HasPrefix(r.Name, "membuf") {
			return []Out{c.done(c.st, e.T.Len(c.args[1]), e.T.Nil)}
		}
		return c.fork(false, func(st *State) []*Term {
			return []*Term{e.T.Len(c.args[1]), e.T.Nil}
		}, nil)
	}
	seek := func(c *callCtx) []Out {
		e := c.e
		return c.fork(false, func(st *State) []*Term {
			if w, ok := c.args[2].isInt(); ok && w == 0 {
				return []*Term{c.args[1], e.T.Nil}
			}
			return []*Term{e.Fresh("pos", types.Typ[types.Int64]), e.T.Nil}
		}, nil)
	}
	statM := func(c *callCtx) []Out {
		e := c.e
		return c.fork(false, func(st *State) []*Term {
			f := e.Fresh("fileinfo", c.rt(0))
			f.NonNil = true
			return []*Term{f, e.T.Nil}
		}, nil)
	}
	readVal := func(c *callCtx) []Out {
		e := c.e
		return c.fork(true, func(st *State) []*Term {
			return []*Term{e.Fresh("dec:"+c.name, c.rt(0)), e.T.Nil}
		}, func(st *State, er *Term) []*Term {
			return []*Term{e.Fresh("bad", c.rt(0)), er}
		})
	}
	readAll := func(c *callCtx) []Out {
		e := c.e
		return c.fork(false, func(st *State) []*Term {
			d := e.Fresh("readall", c.rt(0))
			d.NonNil = true
			if r := unbox(c.args[0]); r.Kind == KApp && r.Name == "limitreader" {
				e.assume(st, e.T.LeInt(e.T.Len(d), r.Args[1]), true)
			}
			return []*Term{d, e.T.Nil}
		}, nil)
	}
	wrap := func(name string) model {
		return simple(func(c *callCtx) *Term {
			var as []*Term
			for _, a := range c.args {
				as = append(as, unbox(a))
			}
			return c.e.T.App(name, c.rt(0), as...)
		})
	}
	putVar := func(name string) model {
		return simple(func(c *callCtx) *Term {
			b, v := c.args[0], c.args[1]
			ct := c.e.T.App(name, nil, v)
			c.e.setContent(c.st, b, ct)
			return c.e.T.Len(ct)
		})
	}
	decVar := func(c *callCtx) []Out {
		e, T := c.e, c.e.T
		b := c.args[0]
		enc := "varint"
		if strings.HasSuffix(c.name, "Uvarint") {
			enc = "uvarint"
		}
		if ct := e.contentOf(c.st, b); ct != nil && ct.Kind == KApp && ct.Name == enc {
			return []Out{c.done(c.st, ct.Args[0], T.Len(ct))}
		}
		// bytes read from a file?
		var h, off *Term
		same, last := true, false
		if b.Kind == KSlice {
			for k, v := range c.st.heap {
				if k.Kind != KApp || k.Name != "content" || k.Args[0] != b.Args[0] {
					continue
				}
				if v.Kind != KApp || v.Name != "fileread" {
					continue
				}
				o := T.Add(v.Args[1], T.Sub(b.Args[1], k.Args[1]))
				if h != nil && (h != handleOf(v.Args[0]) || !e.provesEq(c.st, off, o)) {
					same = false
				}
				h, off = handleOf(v.Args[0]), o
				if n, ok := T.Len(v).isInt(); ok && n == 1 && e.provesEq(c.st, T.Add(k.Args[1], T.Int(1)), b.Args[2]) {
					last = true
				}
			}
		}
		var outs []Out
		if h == nil || !same {
			v := e.Fresh("dec:"+c.name, c.rt(0))
			n := e.Fresh("declen", types.Typ[types.Int])
			e.assume(c.st, T.LeInt(n, T.Len(b)), true)
			e.assume(c.st, T.LeInt(n, T.Int(10)), true)
			return []Out{c.done(c.st, v, n)}
		}
		if !e.NoFault {
			f := c.st.clone()
			n := e.Fresh("declen", types.Typ[types.Int])
			e.assume(f, T.LeInt(n, T.Int(0)), true)
			outs = append(outs, c.done(f, e.Fresh("bad", c.rt(0)), n))
		}
		v := e.stored(c.st, enc, c.rt(0), h, off)
		n := T.vlen(enc == "varint", v)
		if last {
			// read up to the byte that ends the encoding
			if !e.assume(c.st, T.EqInt(T.Len(b), n), true) {
				return outs
			}
		} else if !e.assume(c.st, T.LeInt(n, T.Len(b)), true) {
			return outs
		}
		return append(outs, c.done(c.st, v, n))
	}
	app := func(name string) model {
		return simple(func(c *callCtx) *Term {
			var as []*Term
			for _, a := range c.args {
				as = append(as, c.e.snapshot(c.st, a))
			}
			return c.e.T.App(name, c.rt(0), as...)
		})
	}
	errPred := func(c *callCtx) []Out {
		a := c.args[0]
		if c.e.nilness(c.st, a) < 0 {
			return []Out{c.done(c.st, c.e.T.F)}
		}
		return []Out{c.done(c.st, c.e.T.App(c.name, c.rt(0), a))}
	}
	nonnil := func(prefix string) model {
		return simple(func(c *callCtx) *Term { return c.e.Stable(prefix+c.name, c.fr, c.site, c.rt(0)) })
	}

	models = map[string]model{
		"os.OpenFile": openModel,
		"os.Open": func(c *callCtx) []Out {
			c.name = "os.OpenFile"
			c.args = []*Term{c.args[0], c.e.T.Int(int64(os.O_RDONLY)), c.e.T.Int(0)}
			return openModel(c)
		},
		"os.Create": func(c *callCtx) []Out {
			c.name = "os.OpenFile"
			c.args = []*Term{c.args[0], c.e.T.Int(int64(os.O_RDWR | os.O_CREATE | os.O_TRUNC)), c.e.T.Int(0666)}
			return openModel(c)
		},
		"os.ReadFile":            readFileModel,
		"io/ioutil.ReadFile":     readFileModel,
		"os.WriteFile":           writeFileModel,
		"io/ioutil.WriteFile":    writeFileModel,
		"(*os.File).Close":       errOnly,
		"(*os.File).Sync":        errOnly,
		"(*os.File).Truncate":    errOnly,
		"(*os.File).Chmod":       errOnly,
		"(*os.File).Read":        readSome(1),
		"(*os.File).ReadAt":      readFull(1, 2),
		"(*os.File).Write":       write,
		"(*os.File).WriteAt":     write,
		"(*os.File).WriteString": write,
		"(*os.File).Seek":        seek,
		"(*os.File).Stat":        statM,
		"(*os.File).Fd":          simple(func(c *callCtx) *Term { return c.e.T.App("fd", c.rt(0), c.args[0]) }),
		"(*os.File).Name": simple(func(c *callCtx) *Term {
			if p := c.st.heap[c.e.pathKey(c.args[0])]; p != nil {
				return p
			}
			return c.e.T.App("fname", c.rt(0), c.args[0])
		}),
		"os.Stat":         statM,
		"os.Lstat":        statM,
		"os.Mkdir":        errOnly,
		"os.MkdirAll":     errOnly,
		"os.Remove":       errOnly,
		"os.RemoveAll":    errOnly,
		"os.Rename":       errOnly,
		"os.Truncate":     errOnly,
		"os.Chmod":        errOnly,
		"os.Link":         errOnly,
		"os.Symlink":      errOnly,
		"os.IsNotExist":   errPred,
		"os.IsExist":      errPred,
		"os.IsPermission": errPred,
		"errors.Is": func(c *callCtx) []Out {
			a, t := c.args[0], c.args[1]
			if c.e.nilness(c.st, a) < 0 {
				return []Out{c.done(c.st, c.e.T.Bool(t.Kind == KNil))}
			}
			if a == t {
				return []Out{c.done(c.st, c.e.T.T)}
			}
			if a.Kind == KSym {
				return []Out{c.done(c.st, c.e.T.Eq(a, t, nil))}
			}
			return []Out{c.done(c.st, c.e.T.App("errors.Is", c.rt(0), a, t))}
		},
		"errors.New": simple(func(c *callCtx) *Term { return c.newErr(c.args...) }),
		"fmt.Errorf": simple(func(c *callCtx) *Term {
			vs, ok := c.variadic(1)
			if !ok {
				vs = nil
			}
			return c.newErr(append([]*Term{c.args[0]}, vs...)...)
		}),
		"fmt.Sprintf": simple(func(c *callCtx) *Term {
			f, ok := c.args[0].isStr()
			vs, ok2 := c.variadic(1)
			if ok && ok2 {
				return c.e.format(f, vs)
			}
			return c.e.Fresh("sprintf", c.rt(0))
		}),
		"strconv.Itoa":       simple(func(c *callCtx) *Term { return c.e.T.App("itoa", c.rt(0), c.args[0]) }),
		"strconv.FormatInt":  simple(func(c *callCtx) *Term { return c.e.T.App("itoa", c.rt(0), c.args[0]) }),
		"strconv.FormatUint": simple(func(c *callCtx) *Term { return c.e.T.App("itoa", c.rt(0), c.args[0]) }),
		"fmt.Printf":         void2, "fmt.Print": void2, "fmt.Println": void2, "fmt.Fprintf": void2, "fmt.Fprint": void2, "fmt.Fprintln": void2,
		"log.Printf": void, "log.Println": void, "log.Print": void, "log.SetFlags": void, "log.SetPrefix": void,
		"log.Fatal": exitModel, "log.Fatalf": exitModel, "log.Fatalln": exitModel, "os.Exit": exitModel, "runtime.Goexit": exitModel,
		"path/filepath.Abs": func(c *callCtx) []Out {
			return c.fork(false, func(st *State) []*Term { return []*Term{c.e.absTerm(c.args[0]), c.e.T.Nil} },
				func(st *State, er *Term) []*Term { return []*Term{c.e.T.Str(""), er} })
		},
		"path/filepath.Clean": simple(func(c *callCtx) *Term {
			if isAbsTerm(c.args[0]) {
				return c.args[0]
			}
			return c.e.T.App("clean", c.rt(0), c.args[0])
		}),
		"path/filepath.Join": simple(func(c *callCtx) *Term {
			vs, ok := c.variadic(0)
			if !ok {
				return c.e.Fresh("join", c.rt(0))
			}
			return c.e.joinTerm(vs)
		}),
		"io.ReadFull":                              readFull(1, -1),
		"io.ReadAll":                               readAll,
		"io/ioutil.ReadAll":                        as("io.ReadAll", readAll),
		"io.LimitReader":                           wrap("limitreader"),
		"io.NewSectionReader":                      wrap("sectionreader"),
		"io.TeeReader":                             wrap("teereader"),
		"io.MultiReader":                           wrap("multireader"),
		"bufio.NewReader":                          wrap("bufio"),
		"bufio.NewReaderSize":                      simple(func(c *callCtx) *Term { return c.e.T.App("bufio", c.rt(0), unbox(c.args[0])) }),
		"bufio.NewWriter":                          wrap("bufiow"),
		"bufio.NewWriterSize":                      simple(func(c *callCtx) *Term { return c.e.T.App("bufiow", c.rt(0), unbox(c.args[0])) }),
		"(*bufio.Writer).Flush":                    errOnly,
		"(*bufio.Writer).Write":                    write,
		"(*bufio.Writer).WriteString":              write,
		"(*bufio.Writer).WriteByte":                errOnly,
		"(*bufio.Reader).Read":                     readSome(1),
		"(*bufio.Reader).ReadByte":                 as("invoke:(io.ByteReader).ReadByte", readVal),
		"(*bufio.Reader).ReadString":               readVal,
		"(*bufio.Reader).ReadBytes":                readVal,
		"bytes.NewReader":                          wrap("bytesreader"),
		"bytes.NewBuffer":                          nonnil("membuf:"),
		"strings.NewReader":                        wrap("stringsreader"),
		"encoding/binary.ReadUvarint":              readVal,
		"encoding/binary.ReadVarint":               readVal,
		"encoding/binary.PutUvarint":               putVar("uvarint"),
		"encoding/binary.PutVarint":                putVar("varint"),
		"encoding/binary.Uvarint":                  decVar,
		"encoding/binary.Varint":                   decVar,
		"encoding/binary.AppendUvarint":            appendModel("uvarint"),
		"encoding/binary.AppendVarint":             appendModel("varint"),
		"(encoding/binary.bigEndian).AppendUint64": appendModel("be64"),
		"(encoding/binary.bigEndian).AppendUint32": appendModel("be32"),
		"encoding/binary.Write":                    errOnly,
		"encoding/binary.Read": func(c *callCtx) []Out {
			return c.fork(true, func(st *State) []*Term {
				c.e.havocArgs(st, c.args[2:])
				return []*Term{c.e.T.Nil}
			}, nil)
		},
		"(encoding/binary.bigEndian).PutUint16":    put(16, true),
		"(encoding/binary.bigEndian).PutUint32":    put(32, true),
		"(encoding/binary.bigEndian).PutUint64":    put(64, true),
		"(encoding/binary.littleEndian).PutUint16": put(16, false),
		"(encoding/binary.littleEndian).PutUint32": put(32, false),
		"(encoding/binary.littleEndian).PutUint64": put(64, false),
		"(encoding/binary.bigEndian).Uint16":       simple(func(c *callCtx) *Term { return decode(c, 16, true) }),
		"(encoding/binary.bigEndian).Uint32":       simple(func(c *callCtx) *Term { return decode(c, 32, true) }),
		"(encoding/binary.bigEndian).Uint64":       simple(func(c *callCtx) *Term { return decode(c, 64, true) }),
		"(encoding/binary.littleEndian).Uint16":    simple(func(c *callCtx) *Term { return decode(c, 16, false) }),
		"(encoding/binary.littleEndian).Uint32":    simple(func(c *callCtx) *Term { return decode(c, 32, false) }),
		"(encoding/binary.littleEndian).Uint64":    simple(func(c *callCtx) *Term { return decode(c, 64, false) }),
		"encoding/json.Marshal":                    jsonMarshal,
		"encoding/json.MarshalIndent":              jsonMarshal,
		"encoding/json.NewEncoder":                 wrap("jsonenc"),
		"(*encoding/json.Encoder).SetIndent":       void,
		"(*encoding/json.Encoder).SetEscapeHTML":   void,
		"(*encoding/json.Encoder).Encode":          jsonEncode,
		"encoding/json.NewDecoder":                 wrap("jsondec"),
		"(*encoding/json.Decoder).Decode": func(c *callCtx) []Out {
			return c.fork(true, func(st *State) []*Term {
				c.e.havocArgs(st, c.args[1:])
				return []*Term{c.e.T.Nil}
			}, func(st *State, er *Term) []*Term {
				c.e.havocArgs(st, c.args[1:])
				return []*Term{er}
			})
		},
		"encoding/json.Unmarshal": func(c *callCtx) []Out {
			return c.fork(false, func(st *State) []*Term {
				c.e.havocArgs(st, c.args[1:])
				return []*Term{c.e.T.Nil}
			}, func(st *State, er *Term) []*Term {
				c.e.havocArgs(st, c.args[1:])
				return []*Term{er}
			})
		},
		"golang.org/x/sys/unix.Flock":           errOnly,
		"syscall.Flock":                         as("golang.org/x/sys/unix.Flock", errOnly),
		"golang.org/x/sys/windows.LockFileEx":   errOnly,
		"golang.org/x/sys/windows.UnlockFileEx": errOnly,
		"hash/fnv.New32":                        newHash,
		"hash/fnv.New32a":                       newHash,
		"hash/fnv.New64":                        newHash,
		"hash/fnv.New64a":                       newHash,
		"hash/crc32.NewIEEE":                    newHash,
		"hash/adler32.New":                      newHash,
		"invoke:(hash.Hash).Reset": func(c *callCtx) []Out {
			if h := hashOf(c.args[0]); h != nil {
				c.st.heap[c.e.T.App("hashcont", nil, h)] = c.e.T.App("hashempty", nil, c.e.T.Str(hashKind(h)))
			}
			return []Out{c.done(c.st)}
		},
		"invoke:(hash.Hash32).Sum32": hashSum,
		"invoke:(hash.Hash64).Sum64": hashSum,
		"bytes.ToLower": simple(func(c *callCtx) *Term {
			return lower(c.e, c.rt(0), c.e.snapshot(c.st, c.args[0]))
		}),
		"strings.ToLower": simple(func(c *callCtx) *Term {
			x := c.args[0]
			if x.Kind == KApp && x.Name == "str" {
				return c.e.T.App("str", c.rt(0), lower(c.e, nil, x.Args[0]))
			}
			return lower(c.e, c.rt(0), x)
		}),
		"invoke:(io.Writer).Write":             write,
		"invoke:(hash.Hash).Write":             write,
		"invoke:(io.StringWriter).WriteString": write,
		"io.WriteString": func(c *callCtx) []Out {
			return c.fork(false, func(st *State) []*Term { return []*Term{c.e.T.Len(c.args[1]), c.e.T.Nil} }, nil)
		},
		"invoke:(io.Closer).Close":        errOnly,
		"invoke:(io.Reader).Read":         readSome(1),
		"invoke:(io.ReaderAt).ReadAt":     readFull(1, 2),
		"invoke:(io.Seeker).Seek":         seek,
		"invoke:(io.ByteReader).ReadByte": readVal,
		"invoke:(io/fs.FileInfo).Size":    simple(func(c *callCtx) *Term { return c.e.T.App("size", c.rt(0), unbox(c.args[0])) }),
		"invoke:(io/fs.DirEntry).IsDir":   app("direntry.IsDir"),
		"invoke:(io/fs.DirEntry).Name":    app("direntry.Name"),
		"invoke:(io/fs.FileInfo).IsDir":   app("direntry.IsDir"),
		"invoke:(io/fs.FileInfo).Name":    app("direntry.Name"),
		"invoke:(sync.Locker).Lock":       as("sync.Lock", void),
		"invoke:(sync.Locker).Unlock":     as("sync.Unlock", void),
		"(*sync.Mutex).Lock":              as("sync.Lock", void),
		"(*sync.Mutex).Unlock":            as("sync.Unlock", void),
		"(*sync.RWMutex).Lock":            as("sync.Lock", void),
		"(*sync.RWMutex).Unlock":          as("sync.Unlock", void),
		"(*sync.RWMutex).RLock":           as("sync.RLock", void),
		"(*sync.RWMutex).RUnlock":         as("sync.RUnlock", void),
		"(*sync.Cond).Wait":               void,
		"(*sync.Cond).Broadcast":          void,
		"(*sync.Cond).Signal":             void,
		"(*sync.WaitGroup).Add":           void,
		"(*sync.WaitGroup).Done":          void,
		"(*sync.WaitGroup).Wait":          void,
		"(*sync.Once).Do": func(c *callCtx) []Out {
			return c.callFn(c.st, c.args[1], nil)
		},
		"sync.NewCond": func(c *callCtx) []Out {
			a := c.e.alloc("cond", c.fr, c.site, c.rt(0))
			c.e.resetAlloc(c.st, a)
			if st := derefStruct(c.rt(0)); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "L" {
						c.e.store(c.st, c.e.fieldAddr(a, i, st), c.args[0], st.Field(i).Type())
					}
				}
			}
			return []Out{c.done(c.st, a)}
		},
		"sort.Slice":            sortModel,
		"sort.SliceStable":      sortModel,
		"path/filepath.WalkDir": walkModel,
		"path/filepath.Walk":    walkModel,
		"flag.NewFlagSet":       nonnil("flagset:"),
		"(*flag.FlagSet).Bool":  nonnil("flag:"), "(*flag.FlagSet).Int": nonnil("flag:"), "(*flag.FlagSet).String": nonnil("flag:"), "(*flag.FlagSet).Float64": nonnil("flag:"),
		"flag.Bool": nonnil("flag:"), "flag.Int": nonnil("flag:"), "flag.String": nonnil("flag:"),
		"flag.Parse":               void,
		"(*flag.FlagSet).VisitAll": void,
	}
	initFiles()
}

func unbox(t *Term) *Term {
	for t.Kind == KIface {
		t = t.Args[0]
	}
	return t
}

func void2(c *callCtx) []Out {
	return []Out{c.done(c.st, c.e.Fresh("printed", types.Typ[types.Int]), c.e.T.Nil)}
}

// jsonEncode is Marshal followed by a write.
func jsonEncode(c *callCtx) []Out {
	e := c.e
	sub := func(st *State, name string, args ...*Term) *callCtx {
		d := *c
		d.st, d.name, d.args = st, name, args
		return &d
	}
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	v := e.T.App("json", bytesT, unbox(c.args[1]), e.Fresh("at", types.Typ[types.Int]))
	sub(c.st, "encoding/json.Marshal", c.args[1]).done(c.st, v, e.T.Nil)
	h := handleOf(c.args[0])
	if !isHandle(h) {
		return c.fork(false, func(st *State) []*Term { return []*Term{e.T.Nil} }, nil)
	}
	var outs []Out
	if c.canFail(c.st) {
		f := c.st.clone()
		d := sub(f, "(*os.File).Write", h, v)
		er := d.errTerm(f, false)
		d.done(f, e.T.Int(0), er)
		outs = append(outs, Out{st: f, ret: er})
	}
	sub(c.st, "(*os.File).Write", h, v).done(c.st, e.T.Len(v), e.T.Nil)
	return append(outs, Out{st: c.st, ret: e.T.Nil})
}

func jsonMarshal(c *callCtx) []Out {
	return c.fork(false, func(st *State) []*Term {
		d := c.e.T.App("json", c.rt(0), unbox(c.args[0]), c.e.Fresh("at", types.Typ[types.Int]))
		return []*Term{d, c.e.T.Nil}
	}, nil)
}

func appendModel(name string) model {
	return simple(func(c *callCtx) *Term {
		e, T, st := c.e, c.e.T, c.st
		n := len(c.args)
		a, v := c.args[n-2], c.args[n-1]
		ct := T.App(name, nil, v)
		la := T.Len(a)
		al := e.alloc("append", c.fr, c.site, c.rt(0))
		if sliceBase(a) != al {
			e.resetAlloc(st, al)
		}
		if a.Kind == KSlice && a.Args[0] != al {
			for k, v := range st.heap {
				if k.Kind == KApp && k.Name == "content" && k.Args[0] == a.Args[0] {
					st.heap[T.App("content", nil, al, T.Sub(k.Args[1], a.Args[1]))] = v
				}
			}
		}
		r := T.mk(&Term{Kind: KSlice, Args: []*Term{al, T.Int(0), T.Add(la, T.Len(ct))}, Typ: c.rt(0)})
		e.on(&Event{E: e, Kind: "append", St: st, Fr: c.fr, Ins: c.site, Args: []*Term{a, ct}, Val: ct, Res: r})
		st.heap[T.App("content", nil, al, la)] = ct
		st.heap[e.verKey(al)] = e.Fresh("ver", types.Typ[types.Int])
		return r
	})
}

func readFileModel(c *callCtx) []Out {
	e := c.e
	sub := func(st *State, name string, args ...*Term) *callCtx {
		d := *c
		d.st, d.name, d.args = st, name, args
		return &d
	}
	var outs []Out
	if c.canFail(c.st) {
		f := c.st.clone()
		d := sub(f, "os.OpenFile", c.args[0], e.T.Int(0), e.T.Int(0))
		er := d.errTerm(f, false)
		d.done(f, e.T.Nil, er)
		outs = append(outs, Out{st: f, ret: e.tuple(e.T.Nil, er)})
	}
	st := c.st
	h := e.handle(c, st, types.Typ[types.UnsafePointer])
	st.heap[e.pathKey(h)] = c.args[0]
	st.heap[e.flagsKey(h)] = e.T.Int(0)
	sub(st, "os.OpenFile", c.args[0], e.T.Int(0), e.T.Int(0)).done(st, h, e.T.Nil)
	if c.canFail(st) {
		f := st.clone()
		d := sub(f, "io.ReadAll", h)
		er := d.errTerm(f, false)
		d.done(f, e.T.Nil, er)
		sub(f, "(*os.File).Close", h).done(f, e.T.Nil)
		outs = append(outs, Out{st: f, ret: e.tuple(e.T.Nil, er)})
	}
	d := e.Fresh("readall", c.rt(0))
	d.NonNil = true
	sub(st, "io.ReadAll", h).done(st, d, e.T.Nil)
	sub(st, "(*os.File).Close", h).done(st, e.T.Nil)
	return append(outs, Out{st: st, ret: e.tuple(d, e.T.Nil)})
}

func writeFileModel(c *callCtx) []Out {
	e := c.e
	fl := e.T.Int(int64(os.O_WRONLY | os.O_CREATE | os.O_TRUNC))
	sub := func(st *State, name string, args ...*Term) *callCtx {
		d := *c
		d.st, d.name, d.args = st, name, args
		return &d
	}
	var outs []Out
	fail := func(st *State, name string, args ...*Term) {
		if c.canFail(st) {
			f := st.clone()
			d := sub(f, name, args...)
			er := d.errTerm(f, false)
			d.done(f, er)
			outs = append(outs, Out{st: f, ret: er})
		}
	}
	if c.canFail(c.st) {
		f := c.st.clone()
		d := sub(f, "os.OpenFile", c.args[0], fl, c.args[2])
		er := d.errTerm(f, false)
		d.done(f, e.T.Nil, er)
		outs = append(outs, Out{st: f, ret: er})
	}
	st := c.st
	h := e.handle(c, st, types.Typ[types.UnsafePointer])
	st.heap[e.pathKey(h)] = c.args[0]
	st.heap[e.flagsKey(h)] = fl
	sub(st, "os.OpenFile", c.args[0], fl, c.args[2]).done(st, h, e.T.Nil)
	if c.canFail(st) {
		f := st.clone()
		d := sub(f, "(*os.File).Write", h, c.args[1])
		er := d.errTerm(f, false)
		d.done(f, e.T.Int(0), er)
		sub(f, "(*os.File).Close", h).done(f, e.T.Nil)
		outs = append(outs, Out{st: f, ret: er})
	}
	sub(st, "(*os.File).Write", h, c.args[1]).done(st, e.T.Len(c.args[1]), e.T.Nil)
	pre := st.clone()
	_ = pre
	fail(st, "(*os.File).Close", h)
	sub(st, "(*os.File).Close", h).done(st, e.T.Nil)
	return append(outs, Out{st: st, ret: e.T.Nil})
}

// sortModel: the comparison is called, the elements are permuted.
func sortModel(c *callCtx) []Out {
	x := unbox(c.args[0])
	out := c.done(c.st)
	base := sliceBase(x)
	for k := range out.st.heap {
		if (k.Kind == KIndexA) && k.Args[0] == base && !isSummary(k) {
			delete(out.st.heap, k)
		}
	}
	out.st.heap[c.e.verKey(base)] = c.e.Fresh("ver", types.Typ[types.Int])
	return []Out{out}
}

// walkModel: the callback is called for any number of entries; an error it
// returns (other than the skip markers) ends the walk and is returned.
func walkModel(c *callCtx) []Out {
	e, T := c.e, c.e.T
	cb := c.args[1]
	errT := types.Universe.Lookup("error").Type()
	var outs []Out
	c0 := c.done(c.st.clone(), T.Nil)
	_ = c0
	outs = append(outs, c0)
	cur := []*State{c.st}
	for round := 0; round < 2; round++ {
		var nx []*State
		for _, s := range cur {
			var variants []*Out
			path := e.Fresh("walkpath", types.Typ[types.String])
			var dt types.Type
			if cb.Fn != nil && len(cb.Fn.Params) >= 2 {
				dt = cb.Fn.Params[len(cb.Fn.Params)-2].Type()
			}
			d := e.Fresh("walkentry", dt)
			d.NonNil = true
			// the entry is read without error, or with one
			if c.canFail(s) {
				f := s.clone()
				cc := *c
				cc.name = "walk"
				er := cc.errTerm(f, false)
				d2 := e.Fresh("walkentry?", dt)
				e.on(&Event{E: e, Kind: "walk", St: f, Fr: c.fr, Ins: c.site, Args: []*Term{path, d2, er}})
				for _, o := range c.callFn(f, cb, []*Term{path, d2, er}) {
					o := o
					variants = append(variants, &o)
				}
			}
			e.on(&Event{E: e, Kind: "walk", St: s, Fr: c.fr, Ins: c.site, Args: []*Term{path, d, T.Nil}})
			for _, o := range c.callFn(s, cb, []*Term{path, d, T.Nil}) {
				o := o
				variants = append(variants, &o)
			}
			for _, o := range variants {
				if o.kind != "" {
					outs = append(outs, *o)
					continue
				}
				r := o.ret
				if r == nil {
					r = T.Nil
				}
				switch e.nilness(o.st, r) {
				case -1:
					fin := c.done(o.st.clone(), T.Nil)
					outs = append(outs, fin)
					nx = append(nx, o.st)
				default:
					skip := false
					if r.Kind == KInit && strings.Contains(r.String(), "Skip") {
						skip = true
					}
					if skip {
						fin := c.done(o.st.clone(), T.Nil)
						outs = append(outs, fin)
						nx = append(nx, o.st)
						continue
					}
					if e.nilness(o.st, r) == 0 {
						z := o.st.clone()
						if e.assume(z, T.Eq(r, T.Nil, errT), true) {
							outs = append(outs, c.done(z.clone(), T.Nil))
							nx = append(nx, z)
						}
						if !e.assume(o.st, T.Eq(r, T.Nil, errT), false) {
							continue
						}
					}
					outs = append(outs, c.done(o.st, r))
				}
			}
		}
		cur = nx
	}
	return outs
}

// Hash functions: the sum is a function of the bytes written since the last
// Reset.
func newHash(c *callCtx) []Out {
	h := c.e.Fresh("hash:"+c.name, c.rt(0))
	h.NonNil = true
	c.st.heap[c.e.T.App("hashcont", nil, h)] = c.e.T.App("hashempty", nil, c.e.T.Str(hashKind(h)))
	return []Out{c.done(c.st, h)}
}

func hashOf(t *Term) *Term {
	for t.Kind == KIface {
		t = t.Args[0]
	}
	if t.Kind == KSym && strings.HasPrefix(t.Name, "hash:") {
		return t
	}
	return nil
}

func hashKind(h *Term) string {
	n := strings.TrimPrefix(h.Name, "hash:")
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	return n
}

func hashSum(c *callCtx) []Out {
	e := c.e
	if h := hashOf(c.args[0]); h != nil {
		if v := c.st.heap[e.T.App("hashcont", nil, h)]; v != nil {
			return []Out{c.done(c.st, e.T.App("hashsum:"+hashKind(h), c.rt(0), v))}
		}
	}
	return e.generic(c)
}

func lower(e *Engine, typ types.Type, x *Term) *Term {
	if x.Kind == KApp && x.Name == "lower" {
		return x
	}
	return e.T.App("lower", typ, x)
}
