package main

import (
	"go/types"
	"os"
	"strings"
)

// File positions, file sizes and in-memory buffers.

func (e *Engine) posKey(h *Term) *Term  { return e.T.App("fpos", types.Typ[types.Int64], h) }
func (e *Engine) sizeKey(p *Term) *Term { return e.T.App("fsize", types.Typ[types.Int64], p) }
func (e *Engine) fiKey(fi *Term) *Term  { return e.T.App("fipath", types.Typ[types.String], fi) }
func (e *Engine) bufKey(b *Term) *Term  { return e.T.App("bufcont", nil, b) }

// fileDefault: these keys where nothing is stored.
func (e *Engine) fileDefault(k *Term) *Term {
	switch k.Name {
	case "fpos":
		if isHandle(k.Args[0]) {
			return nil
		}
		return e.T.App("startpos", types.Typ[types.Int64], k.Args[0])
	case "fsize":
		return e.T.App("filesize", types.Typ[types.Int64], k.Args[0])
	case "bufcont":
		if k.Args[0].Kind == KAlloc {
			return e.T.Nil
		}
		return e.T.App("bytes", nil, e.T.App("buffered", types.Typ[types.String], k.Args[0]))
	}
	return nil
}

func (e *Engine) get(st *State, k *Term) *Term {
	if v := st.heap[k]; v != nil {
		return v
	}
	return e.fileDefault(k)
}

// posOf: the file position, nil if unknown.
func (e *Engine) posOf(st *State, h *Term) *Term { return e.get(st, e.posKey(handleOf(h))) }

// sizeOf: the size of the file behind a handle.
func (e *Engine) sizeOf(st *State, h *Term) *Term {
	h = handleOf(h)
	if p := st.heap[e.pathKey(h)]; p != nil {
		return e.get(st, e.sizeKey(p))
	}
	return e.get(st, e.sizeKey(h))
}

func (e *Engine) sizeKeyOf(st *State, h *Term) *Term {
	h = handleOf(h)
	if p := st.heap[e.pathKey(h)]; p != nil {
		return e.sizeKey(p)
	}
	return e.sizeKey(h)
}

func (e *Engine) appends(st *State, h *Term) bool {
	f := st.heap[e.flagsKey(handleOf(h))]
	if f == nil {
		return false
	}
	n, ok := f.isInt()
	return ok && n&int64(os.O_APPEND) != 0
}

// advance: n bytes were written to (or read from) h at its position.
func (e *Engine) advance(st *State, h, n *Term, write bool) {
	T := e.T
	h = handleOf(h)
	if h.Kind == KIface || h.Kind == KAlloc {
		return
	}
	i64 := types.Typ[types.Int64]
	pos := e.posOf(st, h)
	if pos == nil {
		pos = e.Fresh("pos", i64)
	}
	if write {
		sk := e.sizeKeyOf(st, h)
		size := e.get(st, sk)
		if e.appends(st, h) || e.provesEq(st, pos, size) {
			pos = size
			st.heap[sk] = T.Add(size, n)
		} else if !e.provesLe(st, T.Add(pos, n), size) {
			s2 := e.Fresh("grown", i64)
			e.assume(st, T.LeInt(size, s2), true)
			st.heap[sk] = s2
		}
	}
	st.heap[e.posKey(h)] = T.Add(pos, n)
}

// lost: an operation on h failed, its position and size are not known.
func (e *Engine) lost(st *State, h *Term, write bool) {
	h = handleOf(h)
	i64 := types.Typ[types.Int64]
	st.heap[e.posKey(h)] = e.Fresh("pos", i64)
	if write {
		sk := e.sizeKeyOf(st, h)
		s2 := e.Fresh("grown", i64)
		e.assume(st, e.T.LeInt(e.get(st, sk), s2), true)
		st.heap[sk] = s2
	}
}

func (e *Engine) outOK(o Out) bool {
	r := retErr(o)
	return r == nil || !isErrorType(r.Typ) && r.Kind != KNil || e.nilness(o.st, r) < 0
}

// after runs m and then lets f see every successful (or failed) outcome.
func after(m model, f func(c *callCtx, o Out, ok bool)) model {
	return func(c *callCtx) []Out {
		outs := m(c)
		for _, o := range outs {
			if o.kind == "" {
				f(c, o, c.e.outOK(o))
			}
		}
		return outs
	}
}

func isBuf(t *Term) bool {
	t = unbox(t)
	return t != nil && t.Typ != nil && strings.Contains(t.Typ.String(), "*bytes.Buffer")
}

// piecesTerm: the encoded items as one content term.
func (e *Engine) piecesTerm(ps []piece) *Term {
	T := e.T
	r := T.Nil
	for _, p := range ps {
		var t *Term
		switch p.Enc {
		case "be16", "be32", "be64", "le16", "le32", "le64", "varint", "uvarint":
			t = T.App(p.Enc, nil, p.Val)
		case "u8":
			t = T.App("list", nil, p.Val)
		case "bytes":
			t = p.Val
			if t.Kind != KApp || t.Name != "bytes" && t.Name != "append" {
				t = T.App("bytes", nil, t)
			}
		default:
			if n, ok := p.Len.isInt(); ok && p.Enc == "zero" && n <= 16 {
				var z []*Term
				for i := int64(0); i < n; i++ {
					z = append(z, T.Int(0))
				}
				t = T.App("list", nil, z...)
				break
			}
			t = T.App("unknownbytes", nil, e.Fresh("unk", nil), p.Len)
		}
		if r == T.Nil {
			r = t
		} else {
			r = T.App("append", nil, r, t)
		}
	}
	return r
}

func (e *Engine) bufAdd(st *State, b *Term, ps []piece) {
	k := e.bufKey(unbox(b))
	old := e.get(st, k)
	t := e.piecesTerm(ps)
	if old != nil && old.Kind != KNil {
		if t.Kind != KNil {
			t = e.T.App("append", nil, old, t)
		} else {
			t = old
		}
	}
	st.heap[k] = t
}

// stored: the value of encoding enc at an offset of a file. If what was
// written there is known, it is that value.
func (e *Engine) stored(st *State, enc string, typ types.Type, h, off *Term) *Term {
	t := e.T.App(enc+"file", typ, handleOf(h), off)
	if e.Disk == nil {
		return t
	}
	p := st.heap[e.pathKey(handleOf(h))]
	if p == nil {
		p = handleOf(h)
	}
	cs, ok := e.Disk.cells(st, p)
	if !ok {
		return t
	}
	v, k, why := e.Disk.evalRead(st, cs, t)
	switch {
	case k > 0:
		return e.T.Conv(v, v.Typ, typ)
	case k < 0:
		st.addItem(&Item{Kind: "misread", Name: why})
	}
	return t
}

// storedBytes: the n bytes written at an offset of a file, if they were
// written as one piece.
func (e *Engine) storedBytes(st *State, h, off, n *Term) *Term {
	if e.Disk == nil {
		return nil
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	if k, ok := n.isInt(); ok && k == 0 {
		return e.T.App("bytes", bt, e.T.Str(""))
	}
	p := st.heap[e.pathKey(handleOf(h))]
	if p == nil {
		p = handleOf(h)
	}
	cs, ok := e.Disk.cells(st, p)
	if !ok {
		return nil
	}
	for i := len(cs) - 1; i >= 0; i-- {
		if cs[i].p.Enc == "bytes" && e.provesEq(st, cs[i].off, off) && e.provesEq(st, cs[i].p.Len, n) {
			v := cs[i].p.Val
			if b := basicOf(v.Typ); b != nil && b.Info()&types.IsString != 0 {
				v = e.T.App("bytes", bt, v)
			}
			return v
		}
	}
	return nil
}

func initFiles() {
	tInt, i64 := types.Typ[types.Int], types.Typ[types.Int64]
	wr := func(arg int) func(c *callCtx, o Out, ok bool) {
		return func(c *callCtx, o Out, ok bool) {
			if !ok {
				c.e.lost(o.st, c.args[0], true)
				return
			}
			n := c.e.T.Len(c.args[arg])
			c.e.advance(o.st, c.args[0], n, true)
		}
	}
	for _, n := range []string{"(*os.File).Write", "(*os.File).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "invoke:(io.Writer).Write", "invoke:(io.StringWriter).WriteString", "io.WriteString"} {
		models[n] = after(models[n], wr(1))
	}
	models["(*bufio.Writer).WriteByte"] = after(models["(*bufio.Writer).WriteByte"], func(c *callCtx, o Out, ok bool) {
		if ok {
			c.e.advance(o.st, c.args[0], c.e.T.Int(1), true)
		} else {
			c.e.lost(o.st, c.args[0], true)
		}
	})
	models["(*os.File).WriteAt"] = after(models["(*os.File).WriteAt"], func(c *callCtx, o Out, ok bool) {
		e, T := c.e, c.e.T
		sk := e.sizeKeyOf(o.st, c.args[0])
		size := e.get(o.st, sk)
		end := T.Add(c.args[2], T.Len(c.args[1]))
		switch {
		case e.provesLe(o.st, end, size):
		case ok && e.provesEq(o.st, c.args[2], size):
			o.st.heap[sk] = end
		default:
			s2 := e.Fresh("grown", i64)
			e.assume(o.st, T.LeInt(size, s2), true)
			o.st.heap[sk] = s2
		}
	})
	seek := func(c *callCtx) []Out {
		e := c.e
		outs := c.fork(false, func(st *State) []*Term {
			w, ok := c.args[2].isInt()
			h := handleOf(c.args[0])
			var base *Term
			switch {
			case ok && w == 0:
				base = e.T.Int(0)
			case ok && w == 1:
				base = e.posOf(st, h)
			case ok && w == 2:
				base = e.sizeOf(st, h)
			}
			var r *Term
			if base == nil {
				r = e.Fresh("pos", i64)
			} else {
				r = e.T.Add(base, c.args[1])
			}
			return []*Term{r, e.T.Nil}
		}, nil)
		for _, o := range outs {
			if e.outOK(o) {
				o.st.heap[e.posKey(handleOf(c.args[0]))] = results(o.ret)[0]
			}
		}
		return outs
	}
	models["(*os.File).Seek"] = seek
	models["invoke:(io.Seeker).Seek"] = seek
	models["(*os.File).Truncate"] = after(models["(*os.File).Truncate"], func(c *callCtx, o Out, ok bool) {
		if ok {
			o.st.heap[c.e.sizeKeyOf(o.st, c.args[0])] = c.args[1]
		}
	})
	models["os.Truncate"] = after(models["os.Truncate"], func(c *callCtx, o Out, ok bool) {
		if ok {
			o.st.heap[c.e.sizeKey(c.args[0])] = c.args[1]
		}
	})
	for _, n := range []string{"os.Stat", "os.Lstat", "(*os.File).Stat"} {
		n := n
		models[n] = after(models[n], func(c *callCtx, o Out, ok bool) {
			if !ok {
				return
			}
			fi := unbox(results(o.ret)[0])
			if strings.HasPrefix(n, "os.") {
				o.st.heap[c.e.fiKey(fi)] = c.args[0]
				return
			}
			h := handleOf(c.args[0])
			p := o.st.heap[c.e.pathKey(h)]
			if p == nil {
				p = h
			}
			o.st.heap[c.e.fiKey(fi)] = p
			// a FileInfo is a snapshot
			o.st.heap[c.e.T.App("fisize", i64, fi)] = c.e.sizeOf(o.st, h)
		})
	}
	models["invoke:(io/fs.FileInfo).Size"] = simple(func(c *callCtx) *Term {
		fi := unbox(c.args[0])
		if s := c.st.heap[c.e.T.App("fisize", i64, fi)]; s != nil {
			return s
		}
		if p := c.st.heap[c.e.fiKey(fi)]; p != nil {
			return c.e.get(c.st, c.e.sizeKey(p))
		}
		return c.e.T.App("size", c.rt(0), fi)
	})
	binWrite := models["encoding/binary.Write"]
	models["encoding/binary.Write"] = func(c *callCtx) []Out {
		if isBuf(c.args[0]) {
			ev := &Event{E: c.e, St: c.st, Name: c.name, Args: c.args}
			ps, ok := c.e.written(ev)
			if ok {
				c.e.bufAdd(c.st, c.args[0], ps)
				return []Out{c.done(c.st, c.e.T.Nil)}
			}
		}
		outs := binWrite(c)
		for _, o := range outs {
			if !c.e.outOK(o) {
				c.e.lost(o.st, c.args[0], true)
				continue
			}
			ev := &Event{E: c.e, St: o.st, Name: c.name, Args: c.args}
			if ps, ok := c.e.written(ev); ok {
				c.e.advance(o.st, c.args[0], sumLen(c.e, ps), true)
			} else {
				c.e.lost(o.st, c.args[0], true)
			}
		}
		return outs
	}
	models["encoding/binary.Size"] = simple(func(c *callCtx) *Term {
		if v := c.args[0]; v.Kind == KIface {
			return sumLen(c.e, c.e.binPieces(c.st, v.Args[0], v.Typ, true))
		}
		return c.e.Fresh("binsize", tInt)
	})

	// reading in sequence
	u8 := types.Typ[types.Uint8]
	seq := func(name string, typ func(c *callCtx) types.Type, n func(e *Engine, v *Term) *Term) model {
		return func(c *callCtx) []Out {
			e := c.e
			h := handleOf(unbox(c.args[0]))
			outs := c.fork(true, func(st *State) []*Term {
				p := e.posOf(st, h)
				if p == nil {
					p = e.Fresh("pos", i64)
				}
				v := e.stored(st, strings.TrimSuffix(name, "file"), typ(c), h, p)
				st.heap[e.posKey(h)] = e.T.Add(p, n(e, v))
				return []*Term{v, e.T.Nil}
			}, func(st *State, er *Term) []*Term {
				return []*Term{e.Fresh("bad", c.rt(0)), er}
			})
			for _, o := range outs {
				if !e.outOK(o) {
					e.lost(o.st, h, false)
				}
			}
			return outs
		}
	}
	rt0 := func(c *callCtx) types.Type { return c.rt(0) }
	one := func(e *Engine, v *Term) *Term { return e.T.Int(1) }
	models["(*bufio.Reader).ReadByte"] = as("invoke:(io.ByteReader).ReadByte", seq("u8file", func(*callCtx) types.Type { return u8 }, one))
	models["invoke:(io.ByteReader).ReadByte"] = seq("u8file", func(*callCtx) types.Type { return u8 }, one)
	models["encoding/binary.ReadUvarint"] = seq("uvarintfile", rt0, func(e *Engine, v *Term) *Term { return e.T.vlen(false, v) })
	models["encoding/binary.ReadVarint"] = seq("varintfile", rt0, func(e *Engine, v *Term) *Term { return e.T.vlen(true, v) })

	full := func(c *callCtx) []Out {
		e := c.e
		buf := c.args[1]
		h := handleOf(c.args[0])
		var p *Term
		outs := c.fork(true, func(st *State) []*Term {
			n := e.T.Len(buf)
			p = e.posOf(st, h)
			if p == nil {
				p = e.Fresh("seq", i64)
			}
			ct := e.T.mk(&Term{Kind: KApp, Name: "fileread", Args: []*Term{h, p, n}})
			if b := e.storedBytes(st, h, p, n); b != nil {
				ct = b
			}
			readResult(c, st, buf, ct)
			return []*Term{n, e.T.Nil}
		}, func(st *State, er *Term) []*Term {
			n := e.Fresh("partial", tInt)
			e.assume(st, e.T.LeInt(e.T.Int(0), n), true)
			e.assume(st, e.T.LeInt(n, e.T.Len(buf)), true)
			readResult(c, st, buf, nil)
			return []*Term{n, er}
		})
		for _, o := range outs {
			if e.outOK(o) {
				o.st.heap[e.posKey(h)] = e.T.Add(p, e.T.Len(buf))
			} else {
				e.lost(o.st, h, false)
			}
		}
		return outs
	}
	models["io.ReadFull"] = full
	models["io.CopyN"] = func(c *callCtx) []Out {
		outs := errOnly(c)
		for _, o := range outs {
			if c.e.outOK(o) {
				c.e.advance(o.st, c.args[1], c.args[2], false)
			}
		}
		return outs
	}
	models["(*bufio.Reader).Discard"] = func(c *callCtx) []Out {
		outs := c.fork(true, func(st *State) []*Term { return []*Term{c.args[1], c.e.T.Nil} }, nil)
		for _, o := range outs {
			if c.e.outOK(o) {
				c.e.advance(o.st, c.args[0], c.args[1], false)
			} else {
				c.e.lost(o.st, c.args[0], false)
			}
		}
		return outs
	}
	readAll := func(c *callCtx) []Out {
		e := c.e
		r := unbox(c.args[0])
		h := handleOf(r)
		var d *Term
		outs := c.fork(false, func(st *State) []*Term {
			p := e.posOf(st, h)
			if p == nil {
				p = e.Fresh("seq", i64)
			}
			if r.Kind == KApp && r.Name == "limitreader" {
				if b := e.storedBytes(st, h, p, r.Args[1]); b != nil {
					st.heap[e.posKey(h)] = e.T.Add(p, r.Args[1])
					return []*Term{b, e.T.Nil}
				}
			}
			n := e.Fresh("readlen", tInt)
			e.assume(st, e.T.LeInt(e.T.Int(0), n), true)
			if r.Kind == KApp && r.Name == "limitreader" {
				e.assume(st, e.T.LeInt(n, r.Args[1]), true)
			}
			d = e.T.mk(&Term{Kind: KApp, Name: "fileread", Args: []*Term{h, p, n}, Typ: c.rt(0), NonNil: true})
			st.heap[e.posKey(h)] = e.T.Add(p, n)
			return []*Term{d, e.T.Nil}
		}, nil)
		return outs
	}
	models["io.ReadAll"] = readAll
	models["io/ioutil.ReadAll"] = as("io.ReadAll", readAll)

	// bytes.Buffer
	bw := func(name string) model {
		return func(c *callCtx) []Out {
			e := c.e
			ev := &Event{E: e, St: c.st, Name: name, Args: c.args}
			ps, ok := e.written(ev)
			if !ok {
				ps = []piece{{Enc: "?", Val: c.args[1], Len: e.Fresh("buflen", tInt)}}
			}
			e.bufAdd(c.st, c.args[0], ps)
			if c.sig.Results().Len() == 1 {
				return []Out{c.done(c.st, e.T.Nil)}
			}
			return []Out{c.done(c.st, sumLen(e, ps), e.T.Nil)}
		}
	}
	for _, m := range []string{"Write", "WriteString", "WriteByte"} {
		models["(*bytes.Buffer)."+m] = bw("(*bytes.Buffer)." + m)
	}
	for _, n := range []string{"invoke:(io.Writer).Write", "invoke:(io.StringWriter).WriteString", "io.WriteString"} {
		old := models[n]
		n := n
		models[n] = func(c *callCtx) []Out {
			if isBuf(c.args[0]) {
				return bw(n)(c)
			}
			return old(c)
		}
	}
	models["(*bytes.Buffer).Len"] = simple(func(c *callCtx) *Term { return c.e.T.Len(c.e.get(c.st, c.e.bufKey(c.args[0]))) })
	models["(*bytes.Buffer).Reset"] = func(c *callCtx) []Out {
		c.st.heap[c.e.bufKey(c.args[0])] = c.e.T.Nil
		return []Out{c.done(c.st)}
	}
	models["(*bytes.Buffer).Bytes"] = simple(func(c *callCtx) *Term {
		e, T := c.e, c.e.T
		ct := e.get(c.st, e.bufKey(c.args[0]))
		al := e.alloc("bufbytes", c.fr, c.site, c.rt(0))
		e.resetAlloc(c.st, al)
		r := T.mk(&Term{Kind: KSlice, Args: []*Term{al, T.Int(0), T.Len(ct)}, Typ: c.rt(0)})
		if ct.Kind != KNil {
			e.setContent(c.st, r, ct)
		}
		return r
	})
	models["bytes.NewBuffer"] = simple(func(c *callCtx) *Term {
		e := c.e
		al := e.alloc("membuf", c.fr, c.site, c.rt(0))
		e.resetAlloc(c.st, al)
		var ps []piece
		if n, ok := e.T.Len(c.args[0]).isInt(); !ok || n != 0 {
			ps = e.layout(c.st, c.args[0])
		}
		c.st.heap[e.bufKey(al)] = e.piecesTerm(ps)
		return al
	})
	models["(*bytes.Buffer).WriteTo"] = func(c *callCtx) []Out {
		e, T := c.e, c.e.T
		ct := e.get(c.st, e.bufKey(c.args[0]))
		al := e.alloc("bufbytes", c.fr, c.site, types.NewSlice(types.Typ[types.Byte]))
		e.resetAlloc(c.st, al)
		r := T.mk(&Term{Kind: KSlice, Args: []*Term{al, T.Int(0), T.Len(ct)}, Typ: types.NewSlice(types.Typ[types.Byte])})
		if ct.Kind != KNil {
			e.setContent(c.st, r, ct)
		}
		d := *c
		d.name = "invoke:(io.Writer).Write"
		if h := handleOf(unbox(c.args[1])); isHandle(h) {
			d.name = "(*os.File).Write"
		}
		d.args = []*Term{c.args[1], r}
		outs := models[d.name](&d)
		for i := range outs {
			if e.outOK(outs[i]) {
				outs[i].st.heap[e.bufKey(c.args[0])] = T.Nil
			}
		}
		return outs
	}
}
