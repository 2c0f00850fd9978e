package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

func init() {
	register("W02", "effect and value analysis: on the posting and record files of an opened indexer every write is at the end of the file (value numbering of position against size) except 8 bytes at a poster's link, which only ever is the empty link of a node just read or just written; no truncation, removal or renaming", ruleW02)
}

// recordGo notes the goroutines started on a path instead of following them.
func (s *session) recordGo() {
	e := s.e
	e.H.Go = func(ev *Event) string {
		if s.goInline {
			return "inline"
		}
		f := ev.Val
		if f == nil && ev.Fn != nil {
			f = e.T.mk(&Term{Kind: KFunc, Name: ev.Fn.String(), Fn: ev.Fn, Typ: ev.Fn.Type()})
		}
		if f == nil {
			f = e.T.Nil
		}
		k := e.T.App("gos", nil)
		ev.St.chans[k] = append(append([]*Term{}, ev.St.chans[k]...), e.T.App("go", nil, append([]*Term{f}, ev.Args...)...))
		return "skip"
	}
}

// started: the goroutines started on a path, calls of the same function on
// the same arguments once.
func (s *session) started(st *State) []*goRec {
	var r []*goRec
	for _, t := range st.chans[s.e.T.App("gos", nil)] {
		r = append(r, &goRec{f: t.Args[0], fn: t.Args[0].Fn, args: t.Args[1:]})
	}
	return r
}

// anyRecv: receives yield an arbitrary value of the channel's type.
func (s *session) anyRecv() {
	e := s.e
	e.H.Recv = func(st *State, ch *Term) (*Term, *Term, bool) {
		ct, ok := ch.Typ.Underlying().(*types.Chan)
		if !ok || ct.Elem().String() == "error" {
			return nil, nil, false
		}
		return e.Fresh("received", ct.Elem()), e.Fresh("more", types.Typ[types.Bool]), true
	}
	e.H.Send = func(st *State, ch, v *Term) bool {
		ct, ok := ch.Typ.Underlying().(*types.Chan)
		return ok && ct.Elem().String() != "error"
	}
}

type appendRule struct {
	r      *Rule
	s      *session
	e      *Engine
	d      *disk
	phase  string
	data   map[*Term]string // posting and record files
	links  map[string]bool  // fields used as offsets of in-place writes
	stores []linkStore
}

type linkStore struct {
	ev   *Event
	key  string
	val  *Term
	verd int
	why  string
}

// fieldKey names the field an address is of.
func fieldKey(a *Term) string {
	if a == nil || a.Kind != KFieldA {
		return ""
	}
	bt := a.Args[0].Typ
	if bt == nil {
		return ""
	}
	return fmt.Sprintf("%s.%d", namedName(bt), a.N)
}

func (w *appendRule) dataFile(p *Term) string {
	if p == nil {
		return ""
	}
	return w.data[p]
}

func (w *appendRule) see(ev *Event, op *FsOp) {
	r, e, st := w.r, w.e, ev.St
	if ev.Kind == "store" {
		w.store(ev)
		return
	}
	if op == nil {
		return
	}
	switch op.Op {
	case "open":
		if n := w.dataFile(op.Path); n != "" && op.truncs() {
			if !op.FlagsK {
				r.undecided("%s: flags of opening the %s are not resolved", w.phase, n)
				return
			}
			r.v(ev, "trunc", "%s opens the existing %s truncating it", w.phase, n)
		}
	case "truncate", "remove", "removeall", "rename":
		for p, n := range w.data {
			if p == op.Path || op.Op == "removeall" && op.Path == w.s.Root || op.Op == "rename" && len(op.Args) > 1 && op.Args[1] == p {
				r.v(ev, op.Op, "%s: %s of the %s of an existing index", w.phase, op.Op, n)
			}
		}
	case "write":
		n := w.dataFile(op.Path)
		if n == "" || strings.HasPrefix(ev.Name, "(*bufio.Writer).Flush") {
			return
		}
		if e.appends(st, op.H) {
			r.oblige("writes at the end", fmt.Sprintf("%s: %s, opened for appending", w.phase, n))
			return
		}
		pos, size := e.posOf(st, op.H), e.sizeOf(st, op.H)
		r.oblige("writes at the end", fmt.Sprintf("%s: %s written at %s, size %s", w.phase, n, pos, size))
		switch {
		case pos != nil && size != nil && e.provesEq(st, pos, size):
		case pos != nil && size != nil && (definitelyBelow(e, st, pos, size) || e.apart(st, pos, size)):
			r.v(ev, "over:"+n, "%s: the %s is written at %s, not at its end (%s)", w.phase, n, pos, size)
		default:
			if os.Getenv("W02DBG") != "" {
				fmt.Println("UNRES", w.phase, r.P.Pos(ev.Ins.Pos()), n, pos, "|", size)
			}
			r.undecided("%s: the position %s at which the %s is written is not resolved against its size %s", w.phase, pos, n, size)
		}
	case "writeat":
		n := w.dataFile(op.Path)
		if n == "" || len(ev.Args) < 3 {
			return
		}
		off := ev.Args[2]
		ln := e.T.Len(ev.Args[1])
		r.oblige("in-place writes", fmt.Sprintf("%s: %s bytes of the %s at %s", w.phase, ln, n, off))
		if e.provesEq(st, off, e.sizeOf(st, op.H)) {
			return
		}
		if k, ok := ln.isInt(); !ok {
			r.undecided("%s: number of bytes written in place is %s", w.phase, ln)
		} else if k != 8 {
			r.v(ev, "inplace", "%s: %d bytes of the %s are overwritten in place, an empty link has 8", w.phase, k, n)
			return
		}
		// the offset has to be the present value of some field
		var fld *Term
		off.walk(func(x *Term) bool {
			if (x.Kind == KInit || x.Kind == KHv) && x.Args[0].Kind == KFieldA {
				fld = x
			}
			return true
		})
		if (off.Kind == KInit || off.Kind == KHv) && off.Args[0].Kind == KFieldA {
			w.links[fieldKey(off.Args[0])] = true
			return
		}
		for a, v := range st.heap {
			if v == off && a.Kind == KFieldA {
				w.links[fieldKey(a)] = true
				return
			}
		}
		if fld != nil {
			if d, ok := e.T.Sub(off, fld).isInt(); ok && d != 0 {
				r.v(ev, "inplace:off", "%s: the %s is overwritten at %s, %d bytes away from the empty link", w.phase, n, off, d)
				return
			}
		}
		r.undecided("%s: the %s is overwritten at %s, not resolved", w.phase, n, off)
	}
}

func definitelyBelow(e *Engine, st *State, pos, size *Term) bool {
	d, ok := e.T.Sub(pos, size).isInt()
	if ok && d < 0 {
		return true
	}
	if k, ok := pos.isInt(); ok && k == 0 && size.Kind == KApp && size.Name == "filesize" {
		return true
	}
	return false
}

// store looks at what is stored into fields; those used as offsets of
// in-place writes are judged at the end.
func (w *appendRule) store(ev *Event) {
	k := fieldKey(ev.Addr)
	if k == "" || ev.Val == nil || basicOf(ev.Val.Typ) == nil && ev.Val.Kind != KLin && ev.Val.Kind != KConst {
		return
	}
	if b := basicOf(fieldType(ev.Addr)); b == nil || b.Kind() != types.Int64 {
		return
	}
	v := ev.Val
	e, st := w.e, ev.St
	l := linkStore{ev: ev, key: k, val: v}
	defer func() { w.stores = append(w.stores, l) }()
	if n, ok := v.isInt(); ok && n == -1 {
		l.verd = 1
		return
	}
	// the link just written as the end of a node?
	for p := range w.data {
		cs, _ := w.d.cells(st, p)
		for _, c := range cs {
			if c.p.Enc == "be64" && isMinus1(c.p.Val) {
				if e.provesEq(st, c.off, v) {
					l.verd = 1
					return
				}
				if e.apart(st, v, c.off) {
					l.verd, l.why = -1, fmt.Sprintf("is set to %s although the empty link of the node written is at %s", v, c.off)
				}
			}
		}
	}
	// the link just read as empty?
	bes := map[*Term]bool{}
	for f := range st.facts {
		f.walk(func(x *Term) bool {
			if x.Kind == KApp && x.Name == "be64file" {
				bes[x] = true
			}
			return true
		})
	}
	for be := range bes {
		if t, ok := e.truth(st, e.T.EqInt(e.T.Conv(be, types.Typ[types.Uint64], types.Typ[types.Int64]), e.T.Int(-1))); !ok || !t {
			continue
		}
		if e.provesEq(st, be.Args[1], v) {
			l.verd = 1
			return
		}
		if l.verd == 0 && e.apart(st, v, be.Args[1]) {
			l.verd, l.why = -1, fmt.Sprintf("is set to %s although the empty link read is at %s", v, be.Args[1])
		}
	}
}

func isMinus1(t *Term) bool {
	t = unconv(t)
	n, ok := t.isInt()
	return ok && (n == -1 || uint64(n) == ^uint64(0)) || t.String() == "18446744073709551615"
}

func fieldType(a *Term) types.Type {
	if a.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return deref(a.Typ)
}

func ruleW02(r *Rule) {
	s := r.newSession("OpenIndexer")
	if s == nil {
		return
	}
	e := s.e
	if os.Getenv("W02NF") != "" {
		e.OneFault, e.NoFault = false, true
	}
	w := &appendRule{r: r, s: s, e: e, data: map[*Term]string{}, links: map[string]bool{}}
	w.d = r.newDisk(e)
	e.Disk = nil
	for i := int64(0); i < shardsModelled; i++ {
		if p := r.apiPath(e, "PostPath", s.Root, e.T.Int(i)); p != nil {
			w.data[p] = fmt.Sprintf("posting file %d", i)
		}
	}
	if p := r.apiPath(e, "DmdPath", s.Root); p != nil {
		w.data[p] = "document records"
		sym := e.T.mk(&Term{Kind: KSym, Name: "arg:nrecords", Typ: types.Typ[types.Int64]})
		sym.rng = &Rng{big.NewInt(1), big.NewInt(1 << 31)}
		s.st.heap[e.sizeKey(p)] = e.T.MulC(sym, 12)
	}
	s.recordGo()
	w.phase = "OpenIndexer"
	s.on(nil)
	dOn := e.H.On
	e.H.On = func(ev *Event) {
		dOn(ev)
		w.see(ev, fsOp(ev))
		w.d.on(ev)
	}
	r.ended(s, s.construct())
	suc := s.success()
	if len(suc) == 0 {
		r.undecided("OpenIndexer has no successful outcome")
		return
	}
	s.anyRecv()
	for i, o := range suc {
		if o.st.fault != nil || i > 1 {
			continue
		}
		seen := map[string]bool{}
		for _, g := range s.started(o.st) {
			if g.fn == nil || g.fn.Blocks == nil {
				r.undecided("a goroutine of OpenIndexer is not resolved")
				continue
			}
			k := g.fn.String()
			if seen[k] {
				continue
			}
			seen[k] = true
			w.phase = shortFn(g.fn)
			st := o.st.clone()
			st.viols, st.tr = nil, nil
			outs := e.RunClosure(g.f, st, g.args)
			r.ended(s, outs)
		}
		// sequences of Add, Add, Close
		from := []Out{o}
		for k := 0; k < 3; k++ {
			w.phase = "Close"
			var next []Out
			for _, b := range from {
				b.ret = o.ret
				w.phase = "Close"
				_, outs := s.method(b, "Close")
				r.ended(s, outs)
				if k == 2 {
					continue
				}
				w.phase = "Add"
				fn, outs := s.method(b, "Add", e.arg(fmt.Sprintf("doc%d", k), r.P.Fn("", "Indexer", "Add").Params[1].Type()))
				r.ended(s, outs)
				for _, a := range okOuts(e, fn, outs) {
					if a.st.fault == nil && len(next) < 3 {
						next = append(next, a)
					}
				}
			}
			from = next
		}
	}
	w.resume()
	if len(w.links) == 0 {
		r.oblige("no in-place writes", "none seen")
	}
	for _, l := range w.stores {
		if !w.links[l.key] {
			continue
		}
		r.oblige("positions of empty links", fmt.Sprintf("%s := %s", l.key, l.val))
		switch {
		case l.verd < 0:
			r.failAt(l.ev.St, l.ev.Ins.Pos(), "link", "the position at which postings are overwritten %s", l.why)
		case l.verd == 0:
			r.undecided("the position %s at which postings are overwritten is not resolved", l.val)
		}
	}
}

// resume: a later session continues with the stored counts and at the end of
// the stored lists.
func (w *appendRule) resume() {
	r := w.r
	for empty := 0; empty < 2; empty++ {
		t := r.newDirTrip(empty)
		if t == nil {
			return
		}
		y, outs := t.appendSide()
		s := t.pt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if !w.links[fmt.Sprintf("%s.%d", namedName(t.pt), i)] {
				continue
			}
			for _, o := range outs {
				fa, ft := t.e.fieldNamed(t.poster(y, 1-empty), t.pt, s.Field(i).Name())
				v := t.e.load(o.st, fa, ft)
				r.oblige("ends of lists found when appending", fmt.Sprintf("%s := %s", s.Field(i).Name(), v))
				if n, ok := v.isInt(); ok && n < 0 {
					r.failAt(o.st, t.a.appendTo.Pos(), "lostlist", "InitAppend does not look for the end of the list of slot %d: the next postings of the slot would replace it", 1-empty)
				}
			}
		}
	}
}
