package main

import (
	"fmt"
	"go/types"
	"strings"
)

// disk follows what successful writes put where in which file along a path.
// Nothing is written anywhere: it is a list of (file, offset term, items).
type disk struct {
	r *Rule
	e *Engine
	// file: paths for which existence is tracked
	tracked func(p *Term) bool
}

func (r *Rule) newDisk(e *Engine) *disk {
	d := &disk{r: r, e: e}
	e.Disk = d
	oldOn, oldOv := e.H.On, e.H.Override
	e.H.On = func(ev *Event) {
		if oldOn != nil {
			oldOn(ev)
		}
		d.on(ev)
	}
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if oldOv != nil {
			if o, ok := oldOv(ev); ok {
				return o, ok
			}
		}
		return d.override(ev)
	}
	return d
}

func existsFlag(p *Term) string { return "exists:" + p.String() }

func (d *disk) override(ev *Event) ([]Out, bool) {
	if d.tracked == nil {
		return nil, false
	}
	e, T, st := d.e, d.e.T, ev.St
	missing := func(p *Term) bool {
		return d.tracked(p) && st.flags[existsFlag(p)] == ""
	}
	noent := func() *Term {
		return T.mk(&Term{Kind: KSym, Name: "err:noent", Typ: types.Universe.Lookup("error").Type(), NonNil: true})
	}
	switch ev.Name {
	case "os.Stat", "os.Lstat", "os.Open":
		if missing(ev.Args[0]) {
			r := e.tuple(T.Nil, noent())
			ev2 := *ev
			ev2.Res = r
			e.on(&ev2)
			return []Out{{st: st, ret: r}}, true
		}
	case "os.OpenFile":
		if missing(ev.Args[0]) {
			f, ok := ev.Args[1].isInt()
			if ok && f&0100 == 0 {
				r := e.tuple(T.Nil, noent())
				ev2 := *ev
				ev2.Res = r
				e.on(&ev2)
				return []Out{{st: st, ret: r}}, true
			}
			st.flags[existsFlag(ev.Args[0])] = "1"
			st.heap[e.sizeKey(ev.Args[0])] = T.Int(0)
		}
	case "os.IsNotExist":
		if ev.Args[0] == noent() {
			return []Out{{st: st, ret: T.T}}, true
		}
	case "os.IsExist", "os.IsPermission":
		if ev.Args[0] == noent() {
			return []Out{{st: st, ret: T.F}}, true
		}
	case "errors.Is":
		if ev.Args[0] == noent() {
			s := ev.Args[1].String()
			return []Out{{st: st, ret: T.Bool(strings.Contains(s, "NotExist"))}}, true
		}
	}
	return nil, false
}

func (d *disk) on(ev *Event) {
	op := fsOp(ev)
	if op == nil || !op.OK {
		return
	}
	e, st := d.e, ev.St
	switch op.Op {
	case "open":
		if op.FlagsK && op.Flags&01000 != 0 && op.Path != nil {
			st.addItem(&Item{Kind: "disk", Name: "trunc", Args: []*Term{op.Path}, Ins: ev.Ins, Fr: ev.Fr})
		}
	case "write", "writeat":
		if strings.HasSuffix(ev.Name, ").Flush") {
			delete(st.flags, "unflushed:"+op.H.String())
			return
		}
		var off *Term
		if op.Op == "writeat" && len(ev.Args) >= 3 {
			off = ev.Args[2]
		} else if e.appends(st, op.H) {
			off = e.sizeOf(st, op.H)
		} else {
			off = e.posOf(st, op.H)
		}
		p := op.Path
		if p == nil {
			p = op.H
		}
		if off == nil {
			off = e.Fresh("off", types.Typ[types.Int64])
		}
		ps, ok := e.written(ev)
		if !ok {
			ps = []piece{{Enc: "?", Val: p, Len: e.Fresh("len", types.Typ[types.Int])}}
		}
		if strings.HasPrefix(ev.Name, "(*bufio.Writer)") || unboxBufio(ev.Args[0]) {
			st.flags["unflushed:"+op.H.String()] = "1"
		}
		st.addItem(&Item{Kind: "disk", Name: op.Op, Args: []*Term{p, off, e.piecesTerm(ps)}, Ins: ev.Ins, Fr: ev.Fr})
	case "close":
		if st.flags["unflushed:"+op.H.String()] != "" {
			st.addItem(&Item{Kind: "disk", Name: "lost", Args: []*Term{op.Path}, Ins: ev.Ins, Fr: ev.Fr})
			delete(st.flags, "unflushed:"+op.H.String())
		}
	case "truncate":
		st.addItem(&Item{Kind: "disk", Name: "truncate", Args: []*Term{op.Path}, Ins: ev.Ins, Fr: ev.Fr})
	}
}

func unboxBufio(t *Term) bool {
	for t != nil && t.Kind == KIface {
		t = t.Args[0]
	}
	return t != nil && t.Kind == KApp && t.Name == "bufiow"
}

type cell struct {
	off *Term
	p   piece
}

// cells: what is stored in a file on this path, newest last. ok is false if
// the file was changed in a way that is not followed.
func (d *disk) cells(st *State, p *Term) (cs []cell, ok bool) {
	e := d.e
	ok = true
	for _, it := range st.items.list(nil) {
		if it.Kind == "mixed" || it.Kind == "loop" && hasDisk(it) {
			ok = false
		}
		if it.Kind != "disk" || it.Args[0] != p {
			continue
		}
		switch it.Name {
		case "trunc":
			cs = nil
		case "truncate":
			ok = false
		case "lost":
			ok = false
		default:
			off := it.Args[1]
			for _, pc := range joinBytes(e, e.pieceOf(it.Args[2])) {
				cs = append(cs, cell{off, pc})
				off = e.T.Add(off, pc.Len)
			}
		}
	}
	return cs, ok
}

// at finds the item stored at an offset, nil if not found.
func (d *disk) at(st *State, cs []cell, off *Term) *piece {
	for i := len(cs) - 1; i >= 0; i-- {
		if d.e.provesEq(st, cs[i].off, off) {
			return &cs[i].p
		}
	}
	return nil
}

// evalRead resolves a value read from a file against what is stored there:
// 1 and the value if found, -1 if the item there is another one, 0 unknown.
func (d *disk) evalRead(st *State, cs []cell, v *Term) (*Term, int, string) {
	v = unconv(v)
	if v.Kind != KApp || !strings.HasSuffix(v.Name, "file") || len(v.Args) != 2 {
		return nil, 0, ""
	}
	enc := strings.TrimSuffix(v.Name, "file")
	p := d.at(st, cs, v.Args[1])
	if p == nil {
		if off, ok := v.Args[1].isInt(); ok && len(cs) > 0 {
			known := true
			for _, c := range cs {
				o, k1 := c.off.isInt()
				n, k2 := c.p.Len.isInt()
				if !k1 || !k2 || o <= off && off < o+n {
					known = false
				}
			}
			if known {
				return nil, -1, fmt.Sprintf("read at offset %d, where nothing is stored", off)
			}
		}
		return nil, 0, "nothing known at offset " + v.Args[1].String()
	}
	if p.Enc == "?" || p.Enc == "bytes" || p.Enc == "zero" {
		return nil, 0, "unknown bytes there"
	}
	if p.Enc != enc && enc == "u8" {
		return nil, 0, "a single byte of " + p.Enc
	}
	if p.Enc != enc {
		return nil, -1, "read as " + enc + " but stored as " + p.Enc
	}
	return p.Val, 1, ""
}

func hasDisk(it *Item) bool {
	for _, b := range it.Sub {
		for _, x := range b {
			if x.Kind == "disk" || x.Kind == "loop" && hasDisk(x) {
				return true
			}
		}
	}
	return false
}

func (d *disk) dump(st *State) {
	for _, it := range st.items.list(nil) {
		fmt.Println("DISK", it.Kind, it.Name, it.Args, d.r.P.Pos(it.Pos))
	}
}
