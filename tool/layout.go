package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// piece is one encoded item in a byte sequence.
type piece struct {
	Enc string // be32, le32, be64, varint, uvarint, u8, bytes (Val: the bytes), zero, file, ?
	Val *Term  // encoded value
	Len *Term
	Fld string // field the value was loaded from, if known
}

func (p piece) String() string {
	v := "?"
	if p.Val != nil {
		v = p.Val.String()
	}
	return p.Enc + "(" + v + ")"
}

func (e *Engine) pieceOf(c *Term) []piece {
	T := e.T
	if c.Kind == KApp {
		switch c.Name {
		case "be16", "be32", "be64", "le16", "le32", "le64", "varint", "uvarint":
			v := c.Args[0]
			if c.Name == "uvarint" && v.Kind == KApp && v.Name == "u64" {
				v = v.Args[0]
			}
			return []piece{{Enc: c.Name, Val: v, Len: T.Len(c)}}
		case "append":
			return append(e.pieceOf(c.Args[0]), e.pieceOf(c.Args[1])...)
		case "bytes":
			if s, ok := c.Args[0].isStr(); ok && s == "" {
				return nil
			}
			return []piece{{Enc: "bytes", Val: c.Args[0], Len: T.Len(c)}}
		case "list":
			var r []piece
			for _, a := range c.Args {
				r = append(r, piece{Enc: "u8", Val: a, Len: T.Int(1)})
			}
			return r
		}
	}
	if c.Kind == KNil {
		return nil
	}
	return []piece{{Enc: "bytes", Val: c, Len: T.Len(c)}}
}

// layout: the encoded items in a byte slice, in order.
func (e *Engine) layout(st *State, v *Term) []piece {
	T := e.T
	v = unbox(v)
	if v.Kind == KNil {
		return nil
	}
	if c := e.contentOf(st, v); c != nil {
		return e.pieceOf(c)
	}
	if v.Kind != KSlice {
		if v.Kind == KConst {
			return []piece{{Enc: "bytes", Val: v, Len: T.Len(v)}}
		}
		return e.pieceOf(v)
	}
	base, lo, hi := v.Args[0], v.Args[1], v.Args[2]
	type cell struct {
		off *Term
		ps  []piece
		n   *Term
	}
	var cells []cell
	for k, c := range st.heap {
		if k.Kind == KApp && k.Name == "content" && k.Args[0] == base {
			cells = append(cells, cell{k.Args[1], e.pieceOf(c), T.Len(c)})
		}
	}
	for k, c := range st.heap {
		if k.Kind == KIndexA && k.Args[0] == base && !isSummary(k) {
			if b, _, ok := intBits(c.Typ); ok && b != 8 {
				continue
			}
			cells = append(cells, cell{k.Args[1], []piece{{Enc: "u8", Val: c, Len: T.Int(1)}}, T.Int(1)})
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].off.ID < cells[j].off.ID })
	var r []piece
	at := lo
	for n := 0; n < 64; n++ {
		if e.provesLe(st, hi, at) {
			return joinBytes(e, r)
		}
		hit := false
		for _, c := range cells {
			if e.provesEq(st, c.off, at) && !(c.n.Kind == KConst && T.Int(0) == c.n) {
				r = append(r, c.ps...)
				at = T.Add(at, c.n)
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		// a gap up to the next cell
		var next *Term
		for _, c := range cells {
			if e.provesLe(st, T.Add(at, T.Int(1)), c.off) && e.provesLe(st, c.off, hi) {
				if next == nil || e.provesLe(st, c.off, next) {
					next = c.off
				}
			}
		}
		if next == nil {
			next = hi
		}
		en := "?"
		if base.Kind == KAlloc && st.heap[e.hvKey(base)] == nil {
			en = "zero"
			if len(cells) == 0 && st.heap[e.verKey(base)] != nil {
				en = "?"
			}
		}
		r = append(r, piece{Enc: en, Val: v, Len: T.Sub(next, at)})
		at = next
	}
	return append(r, piece{Enc: "?", Val: v, Len: T.Sub(hi, at)})
}

// joinBytes puts single stored bytes together into integers where they are
// the bytes of one value.
func joinBytes(e *Engine, ps []piece) []piece {
	T := e.T
	var r []piece
	for i := 0; i < len(ps); i++ {
		done := false
		for _, n := range []int{8, 4, 2} {
			if i+n > len(ps) {
				continue
			}
			for _, be := range []bool{true, false} {
				var val *Term
				ok := true
				for j := 0; j < n && ok; j++ {
					p := ps[i+j]
					if p.Enc != "u8" {
						ok = false
						break
					}
					k := j
					if be {
						k = n - 1 - j
					}
					v, sh := byteOf(p.Val)
					if v == nil || sh != int64(8*k) || val != nil && v != val {
						ok = false
						break
					}
					val = v
				}
				if b, _, k := intBits(typOf(val)); ok && k && b == 8*n {
					nm := fmt.Sprintf("le%d", 8*n)
					if be {
						nm = fmt.Sprintf("be%d", 8*n)
					}
					r = append(r, piece{Enc: nm, Val: val, Len: T.Int(int64(n))})
					i += n - 1
					done = true
					break
				}
			}
			if done {
				break
			}
		}
		if !done {
			r = append(r, ps[i])
		}
	}
	return r
}

func typOf(t *Term) types.Type {
	if t == nil {
		return nil
	}
	return t.Typ
}

// byteOf: t = byte(v >> sh)
func byteOf(t *Term) (*Term, int64) {
	if t.Kind == KApp && t.Name == "mod" {
		if k, ok := t.Args[1].isInt(); ok && k == 256 {
			t = t.Args[0]
		}
	}
	if t.Kind == KApp && t.Name == "quo" {
		if k, ok := t.Args[1].isInt(); ok && isPow2(k) {
			n := int64(0)
			for 1<<uint(n) < k {
				n++
			}
			return t.Args[0], n
		}
	}
	if t.Kind == KApp && t.Name == "shr" {
		if k, ok := t.Args[1].isInt(); ok {
			return t.Args[0], k
		}
	}
	return t, 0
}

// binPieces: what encoding/binary.Write makes of a value of type t.
func (e *Engine) binPieces(st *State, v *Term, t types.Type, be bool) []piece {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return e.binPieces(st, e.load(st, v, u.Elem()), u.Elem(), be)
	case *types.Struct:
		var r []piece
		for i := 0; i < u.NumFields(); i++ {
			f := e.fieldVal(v, i, u.Field(i).Type())
			r = append(r, e.binPieces(st, f, u.Field(i).Type(), be)...)
		}
		return r
	case *types.Basic:
		b, _, ok := intBits(t)
		if !ok {
			break
		}
		if b == 8 {
			return []piece{{Enc: "u8", Val: v, Len: e.T.Int(1)}}
		}
		n := fmt.Sprintf("le%d", b)
		if be {
			n = fmt.Sprintf("be%d", b)
		}
		return []piece{{Enc: n, Val: v, Len: e.T.Int(int64(b / 8))}}
	case *types.Slice:
		if vs, ok := e.listOf(st, v); ok {
			var r []piece
			for _, x := range vs {
				r = append(r, e.binPieces(st, x, u.Elem(), be)...)
			}
			return r
		}
		if b, _, ok := intBits(u.Elem()); ok && b == 8 {
			return e.layout(st, v)
		}
	}
	return []piece{{Enc: "?", Val: v, Len: e.Fresh("binsize", types.Typ[types.Int])}}
}

func (e *Engine) fieldVal(v *Term, i int, t types.Type) *Term {
	if v.Kind == KStruct && i < len(v.Args) {
		return v.Args[i]
	}
	return e.T.App("fld", t, v, e.T.Int(int64(i)))
}

// written: what a successful write operation puts into its file or writer.
func (e *Engine) written(ev *Event) ([]piece, bool) {
	st := ev.St
	switch {
	case ev.Name == "encoding/binary.Write":
		o := ev.Args[1]
		if len(ev.Args) < 3 {
			return nil, false
		}
		be := false
		if s := o.String() + typeName(o); strings.Contains(strings.ToLower(s), "big") {
			be = true
		}
		d := ev.Args[2]
		if d.Kind != KIface {
			return []piece{{Enc: "?", Val: d, Len: e.Fresh("binsize", types.Typ[types.Int])}}, true
		}
		return e.binPieces(st, d.Args[0], d.Typ, be), true
	case strings.HasSuffix(ev.Name, ").Write") || strings.HasSuffix(ev.Name, ").WriteAt") || strings.HasSuffix(ev.Name, ").WriteString") || ev.Name == "io.WriteString":
		if len(ev.Args) < 2 {
			return nil, false
		}
		if strings.HasSuffix(ev.Name, "String") {
			return e.pieceOf(e.T.App("bytes", nil, ev.Args[1])), true
		}
		return e.layout(st, ev.Args[1]), true
	case strings.HasSuffix(ev.Name, ").WriteByte"):
		return []piece{{Enc: "u8", Val: ev.Args[1], Len: e.T.Int(1)}}, true
	}
	return nil, false
}

func typeName(t *Term) string {
	if t.Typ == nil {
		return ""
	}
	return t.Typ.String()
}

func sumLen(e *Engine, ps []piece) *Term {
	s := e.T.Int(0)
	for _, p := range ps {
		s = e.T.Add(s, p.Len)
	}
	return s
}

// mod2 reduces modulo 2^bits for comparison.
func (e *Engine) mod2(x *Term, bits uint) *Term {
	if bits >= 63 {
		return x
	}
	return e.T.Mod(x, e.T.Int(1<<bits), types.Typ[types.Uint64])
}

// same compares two terms modulo 2^bits: 1 equal, -1 provably different, 0 unknown.
func (e *Engine) same(st *State, a, b *Term, bits uint) int {
	a, b = unconv(a), unconv(b)
	if a == b {
		return 1
	}
	x, y := e.mod2(a, bits), e.mod2(b, bits)
	if x == y {
		return 1
	}
	if v, ok := e.truth(st, e.T.EqInt(x, y)); ok {
		if v {
			return 1
		}
	}
	if v, ok := e.truth(st, e.T.EqInt(a, b)); ok {
		if v {
			return 1
		}
	}
	d := e.mod2(e.T.Sub(a, b), bits)
	if i, ok := d.isInt(); ok {
		if i == 0 {
			return 1
		}
		return -1
	}
	if v, ok := e.truth(st, e.T.EqInt(a, b)); ok && !v && bits >= 63 {
		return -1
	}
	// different and built only from inputs: the difference is no constant
	return 0
}

func unconv(a *Term) *Term {
	for a.Kind == KApp && (a.Name == "u64" || a.Name == "i64") {
		a = a.Args[0]
	}
	return a
}

// inputsOnly: built from parameters, constants and initial contents.
func inputsOnly(t *Term) bool {
	ok := true
	t.walk(func(x *Term) bool {
		switch x.Kind {
		case KSym:
			if !strings.HasPrefix(x.Name, "arg:") {
				ok = false
			}
			return false
		case KHv:
			ok = false
			return false
		case KInit:
			return false
		}
		return ok
	})
	return ok
}

// walkFns visits the functions reachable without leaving the module.
func calleesOf(c ssa.CallInstruction) *ssa.Function { return c.Common().StaticCallee() }
