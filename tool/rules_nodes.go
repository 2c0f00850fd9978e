package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F04", "posting list nodes by value numbering: items and offsets one flush writes (symbolic ids, file size and earlier list) against what the query reader and the append reader take from which offset; order of node, link and head on every path, also when a write fails; bound of the buffered postings against the lengths the readers accept", ruleF04)
}

// node format, as the writer has it: the encoding and meaning of the length,
// and the bytes of a node after its ids (kw).
type nodeFmt struct {
	kw int64
}

func ruleF04(r *Rule) {
	w := r.newPostWriter()
	if w == nil {
		return
	}
	nf := w.check()
	if os.Getenv("F04DBG") == "w" {
		return
	}
	if nf == nil {
		return
	}
	r.nodeReader(nf)

	r.nodeAppender(nf, w)
	r.nodeLimits(nf, w)
}

// nodeReader: the query reader finds length, ids and link where the writer
// puts them, whatever the file holds.
func (r *Rule) nodeReader(nf *nodeFmt) {
	np := r.need("internal/shard", "", "newPosts")
	next := r.need("internal/shard", "Posts", "next")
	if np == nil || next == nil {
		return
	}
	e := r.engine()
	T := e.T
	e.NoFault, e.Peel = true, 3
	h := e.arg("head", np.Params[0].Type())
	h.rng = &Rng{big.NewInt(0), big.NewInt(1 << 62)}
	rd := e.arg("r", next.Params[1].Type())
	type cur struct {
		st     *State
		node   *Term // start of the current node
		v      *Term // its length
		at     *Term // next id
		sum    *Term // last id
		inNode bool
	}
	dbg := os.Getenv("F04DBG") != ""
	u32, u64 := types.Typ[types.Uint32], types.Typ[types.Uint64]
	f := func(enc string, t types.Type, off *Term) *Term {
		return T.App(enc+"file", t, handleOf(rd), off)
	}
	start := r.run(e, np, newState(), h)
	for _, so := range okOuts(e, np, start) {
		p := results(so.ret)[0]
		cs := []cur{{st: so.st, node: h, sum: T.Int(0)}}
		for call := 1; call <= 3; call++ {
			var nx []cur
			seen := map[string]int{}
			found, long := false, ""
			for _, c := range cs {
				outs := r.run(e, next, c.st.clone(), p, rd)
				// what the successful paths assume of the bytes of
				// encoded lengths
				fine := map[string]bool{}
				for _, o := range outs {
					if o.kind == "" && (isEOF(retErr(o)) || e.nilness(o.st, retErr(o)) < 0) {
						fine[lenBytes(o.st)] = true
					}
				}
				for _, o := range outs {
					eof := o.kind == "" && isEOF(retErr(o))
					ok := o.kind == "" && e.nilness(o.st, retErr(o)) < 0
					if dbg {
						fmt.Println("CALL", call, o.kind, "ok", ok, "eof", eof, o.ret, "node", c.node)
					}
					if dbg {
						fmt.Println("FINE", lenBytes(o.st), fine[lenBytes(o.st)])
					}
					if !ok && !eof && fine[lenBytes(o.st)] {
						st := e.solved(o.st, e.solve(o.st))
						if env, ok := e.fileWitness(st, h, nil, nil, nf.kw); ok {
							how := "fails"
							if o.kind != "" {
								how = "panics"
							}
							if dbg {
								for f, v := range o.st.facts {
									fmt.Println("   FACT", f.ID, f, v)
								}
								fmt.Println("REPORT", env, o.ret)
							}
							r.failAt(o.st, o.pos, "reader:rejects", "next %s on a well-formed list (e.g. %s)", how, env)
						}
					}
					if !ok && !eof {
						continue
					}
					// where the list stands, the cases of it
					type variant struct {
						cur
						fs    *State
						ended bool
					}
					sol := e.solve(o.st)
					d := c
					d.st = o.st
					vs := []variant{{cur: d, fs: e.solved(o.st, sol)}}
					if d.inNode {
						d.node, d.v, d.at, d.sum = sol(d.node), sol(d.v), sol(d.at), sol(d.sum)
						link := T.Add(d.node, T.Add(sol(T.vlen(true, d.v)), T.Sub(d.v, T.Int(nf.kw))))
						lv := T.Conv(f("be64", u64, link), u64, types.Typ[types.Int64])
						fs := vs[0].fs
						vs = nil
						more := fs.clone()
						if e.assume(more, T.LeInt(T.Add(d.at, T.Int(1)), link), true) {
							vs = append(vs, variant{cur: d, fs: more})
						}
						last := fs.clone()
						if e.assume(last, T.EqInt(d.at, link), true) {
							end := last.clone()
							if e.assume(end, T.EqInt(lv, T.Int(-1)), true) {
								vs = append(vs, variant{cur: d, fs: end, ended: true})
							}
							if e.assume(last, T.EqInt(lv, T.Int(-1)), false) {
								d.node, d.inNode = lv, false
								vs = append(vs, variant{cur: d, fs: last})
							}
						}
					}
					for _, v := range vs {
						st, d := v.fs, v.cur
						if v.ended != eof {
							env, ok := e.fileWitness(st, h, nil, nil, nf.kw)
							switch {
							case ok && eof:
								r.failAt(o.st, o.pos, "reader:eof", "next reports the end of the list although the list goes on at %s after %d ids (e.g. %s)", d.node, call-1, env)
							case ok:
								r.failAt(o.st, o.pos, "reader:noeof", "next yields %s although the list has ended (e.g. %s)", results(o.ret)[0], env)
							default:
								r.undecided("call %d of next: whether the list has ended at %s is not resolved", call, d.node)
							}
							continue
						}
						r.oblige("posting list steps of the query reader", fmt.Sprintf("call %d: %v", call, o.ret))
						if v.ended {
							continue
						}
						if !d.inNode {
							d.v = f("varint", types.Typ[types.Int64], d.node)
							d.at = T.Add(d.node, sol(T.vlen(true, d.v)))
							d.inNode = true
						}
						delta := f("uvarint", u64, d.at)
						d.at = T.Add(d.at, sol(T.vlen(false, delta)))
						d.sum = T.Conv(T.Add(T.Conv(d.sum, u32, u64), delta), u64, u32)
						got, want := sol(results(o.ret)[0]), sol(d.sum)
						if e.same(st, got, want, 32) > 0 {
							found = true
							link := T.Add(d.node, T.Add(sol(T.vlen(true, d.v)), T.Sub(d.v, T.Int(nf.kw))))
							k := fmt.Sprint(d.at, d.node, e.provesEq(st, d.at, link), e.provesLe(st, T.Add(d.at, T.Int(1)), link))
							if seen[k]++; seen[k] <= 2 {
								nx = append(nx, d)
							}
							continue
						}
						if got.contains(func(x *Term) bool { return x.Kind == KHv }) {
							// longer nodes than followed
							long = fmt.Sprintf("id %d of a list is read as %s", call, got)
							continue
						}
						if env, ok := e.fileWitness(st, h, got, want, nf.kw); ok {
							r.failAt(o.st, o.pos, "reader:id", "id %d of a list is read as %s, written is %s (e.g. %s)", call, got, want, env)
							continue
						}
						r.undecided("id %d of a list is read as %s, not shown to be %s", call, got, want)
					}
				}
			}
			if long != "" && !found {
				r.undecided("%s", long)
			}
			cs = nx
			if len(cs) == 0 {
				r.undecided("next does not yield %d ids", call)
				return
			}
		}
	}
}

// solve: the values equalities of the path give to loop variables and to
// encoded lengths.
func (e *Engine) solve(st *State) func(t *Term) *Term {
	type eq struct{ from, to *Term }
	var eqs []eq
	T := e.T
	ap := func(t *Term) *Term {
		for _, q := range eqs {
			t = T.subst(t, map[*Term]*Term{q.from: q.to}, map[*Term]*Term{})
		}
		return t
	}
	var fs []*Term
	for b, v := range st.facts {
		if v && b.Kind == KApp && b.Name == "eq0" {
			fs = append(fs, b)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	for _, b := range fs {
		l := ap(b.Args[0])
		if l.Kind != KLin {
			continue
		}
		var pick *Term
		var pc int64
		for i, a := range l.Args {
			c := l.Coef[i]
			if c != 1 && c != -1 {
				continue
			}
			if a.Kind == KSym && strings.Contains(a.Name, "φ") {
				pick, pc = a, c
				break
			}
			if a.Kind != KApp || a.Name != "varintlen" && a.Name != "uvarintlen" {
				continue
			}
			in := false
			for _, b := range l.Args {
				in = in || b != a && b.contains(func(x *Term) bool { return x == a })
			}
			if !in && (pick == nil || a.ID > pick.ID) {
				pick, pc = a, c
			}
		}
		if pick == nil {
			continue
		}
		// pc*pick + rest = 0
		rest := T.Sub(l, T.MulC(pick, pc))
		eqs = append(eqs, eq{pick, T.MulC(rest, -pc)})
	}
	return ap
}

// solved: the conditions of the path with the values of solve put in.
func (e *Engine) solved(st *State, sol func(*Term) *Term) *State {
	r := newState()
	var fs []*Term
	for b := range st.facts {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	for _, b := range fs {
		e.assume(r, sol(b), st.facts[b])
		if !b.contains(func(x *Term) bool { return x.Kind == KSym && strings.Contains(x.Name, "φ") }) {
			r.facts[b] = st.facts[b]
		}
	}
	return r
}

// isLenByte: a condition on a byte of a buffer filled in a loop.
func isLenByte(f *Term) bool {
	return f.contains(func(x *Term) bool {
		return x.Kind == KHv && x.Args[0].Kind == KIndexA && x.Args[0].contains(func(y *Term) bool { return y.Kind == KAlloc })
	})
}

func lenBytes(st *State) string {
	var r []string
	for f, v := range st.facts {
		if isLenByte(f) {
			r = append(r, fmt.Sprint(f.ID, v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// witFile is a well-formed posting file with one list.
type witFile struct {
	head int64
	b    []byte
	ids  [][]uint64 // deltas by node
	link int64      // position of the last link
}

func witFiles(kw int64) []witFile {
	var r []witFile
	pats := [][]uint64{{3, 5, 9, 2, 7, 4, 6}, {300, 5, 70000, 1, 129, 128, 2}, {0x12345678, 1, 0x80000000, 3, 2, 0x70000000, 5}, {127, 128, 16383, 16384, 1, 1, 1}}
	for _, head := range []int64{0, 100} {
		for _, pat := range pats {
			for _, ns := range [][]int{{1}, {2}, {3}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {1, 1, 1}, {3, 1}, {1, 3}, {2, 1, 1}, {60}, {1, 60, 1}, {60, 2}} {
				for _, gap := range []int{0, 3} {
					f := witFile{head: head, b: make([]byte, head)}
					k, prev := 0, -1
					for _, n := range ns {
						if prev >= 0 {
							binary.BigEndian.PutUint64(f.b[prev:], uint64(len(f.b)))
						}
						var pl []byte
						var ds []uint64
						for i := 0; i < n; i++ {
							pl = binary.AppendUvarint(pl, pat[k%len(pat)])
							ds = append(ds, pat[k%len(pat)])
							k++
						}
						f.b = binary.AppendVarint(f.b, int64(len(pl))+kw)
						f.b = append(f.b, pl...)
						prev = len(f.b)
						f.link = int64(prev)
						f.b = append(f.b, 255, 255, 255, 255, 255, 255, 255, 255)
						f.b = append(f.b, make([]byte, gap)...)
						f.ids = append(f.ids, ds)
					}
					r = append(r, f)
				}
			}
		}
	}
	return r
}

// read: what a read of the given encoding gives at an offset of the file.
func (f *witFile) read(enc string, off int64) *big.Int {
	if off < 0 || off >= int64(len(f.b)) {
		return nil
	}
	b := f.b[off:]
	fix := func(n int, le bool) *big.Int {
		if len(b) < n {
			return nil
		}
		v := new(big.Int)
		for i := 0; i < n; i++ {
			k := i
			if le {
				k = n - 1 - i
			}
			v.Lsh(v, 8)
			v.Or(v, big.NewInt(int64(b[k])))
		}
		return v
	}
	switch enc {
	case "u8":
		return fix(1, false)
	case "be16", "be32", "be64":
		return fix(map[string]int{"be16": 2, "be32": 4, "be64": 8}[enc], false)
	case "le16", "le32", "le64":
		return fix(map[string]int{"le16": 2, "le32": 4, "le64": 8}[enc], true)
	case "varint":
		if v, n := binary.Varint(b); n > 0 {
			return big.NewInt(v)
		}
	case "uvarint":
		if v, n := binary.Uvarint(b); n > 0 {
			return new(big.Int).SetUint64(v)
		}
	}
	return nil
}

// fileWitness: a well-formed posting file and list for which this path is
// taken and a and b (if given) differ, by folding the conditions of the path.
func (e *Engine) fileWitness(st *State, head, a, b *Term, kw int64) (string, bool) {
	if a == nil {
		return e.fileWitnessFor(st, head, nil, nil, kw)
	}
	return e.fileWitnessFor(st, head, a, b, kw)
}

// want is a term, or a function of the file.
func (e *Engine) fileWitnessFor(st *State, head, a *Term, want interface{}, kw int64) (string, bool) {
	b, _ := want.(*Term)
	wf, _ := want.(func(f *witFile) *big.Int)
	var fs, ts []*Term
	for f := range st.facts {
		if isLenByte(f) {
			// a byte of an encoded length; the length itself is in
			// the other conditions
			continue
		}
		fs = append(fs, f)
	}
	ts = append(ts, fs...)
	if a != nil {
		ts = append(ts, a)
	}
	if b != nil {
		ts = append(ts, b)
	}
	var reads []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if !seen[x] && x.Kind == KApp && len(x.Args) == 2 && hasSfx(x.Name, "file") {
				reads = append(reads, x)
			}
			seen[x] = true
			return true
		})
	}
	sort.Slice(reads, func(i, j int) bool { return reads[i].ID < reads[j].ID })
next:
	for _, f := range witFiles(kw) {
		env := instEnv{head: big.NewInt(f.head)}
		outside := map[*Term]bool{}
		for _, x := range reads {
			o, ok := e.instEval(x.Args[1], env, map[*Term]*big.Int{})
			if !ok && x.Args[1].contains(func(y *Term) bool { return outside[y] }) {
				outside[x] = true
				continue
			}
			if !ok || !o.IsInt64() {
				continue next
			}
			v := f.read(strings.TrimSuffix(x.Name, "file"), o.Int64())
			if v == nil {
				outside[x] = true
				continue
			}
			env[x] = v
		}
		memo := map[*Term]*big.Int{}
		for _, b := range fs {
			v, ok := e.instEval(b, env, memo)
			if !ok && len(outside) > 0 && b.contains(func(x *Term) bool { return outside[x] }) {
				// decided only after the read outside has failed
				continue
			}
			if !ok || (v.Sign() != 0) != st.facts[b] {
				continue next
			}
		}
		if len(outside) > 0 {
			// the path reads where the file has nothing
			if b != nil {
				if _, ok := e.instEval(b, env, memo); !ok {
					continue next
				}
			}
			return fmt.Sprintf("nodes with deltas %v from position %d: reads outside of the file", f.ids, f.head), true
		}
		if a != nil {
			x, k1 := e.instEval(a, env, memo)
			var y *big.Int
			k2 := true
			if wf != nil {
				y = wf(&f)
			} else {
				y, k2 = e.instEval(b, env, memo)
			}
			if !k1 || !k2 || wrapInt(x, 32, true).Cmp(wrapInt(y, 32, true)) == 0 {
				continue next
			}
		}
		return fmt.Sprintf("nodes with deltas %v from position %d", f.ids, f.head), true
	}
	return "", false
}

func hasSfx(s, x string) bool { return len(s) >= len(x) && s[len(s)-len(x):] == x }

// nodeAppender: the append reader finds the last link of a list.
func (r *Rule) nodeAppender(nf *nodeFmt, w *postWriter) {
	open := r.need("internal/shard", "Indexer", "InitAppend")
	if w.link == "" || open == nil {
		r.undecided("where the position of the last link is kept is not found")
		return
	}
	// the function InitAppend has for it: sets this field of the poster it
	// is given, and reads a file it is given
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		sets, file, poster := false, false, false
		for _, p := range fn.Params {
			file = file || isFileLike(p.Type())
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				poster = poster || types.Identical(pt.Elem(), w.pt)
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), w.pt) {
						sets = sets || w.pt.Underlying().(*types.Struct).Field(fa.Field).Name() == w.link
					}
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && c.Pkg == open.Pkg {
						visit(c)
					}
				}
			}
		}
		if sets && file && poster {
			fns = append(fns, fn)
		}
	}
	visit(open)
	if len(fns) != 1 {
		r.undecided("the function that finds the end of a list when appending is not found (%d)", len(fns))
		return
	}
	fn := fns[0]
	e := r.engine()
	e.NoFault, e.Peel = true, 2
	// paths are kept apart for the first nodes of a list
	e.H.Key = func(st *State) string {
		for f := range st.facts {
			if nested(f) > 3 {
				return "deep"
			}
		}
		return factKey(st)
	}
	p := e.alloc("poster", nil, nf, types.NewPointer(w.pt))
	st := newState()
	e.resetAlloc(st, p)
	head := e.arg("head", types.Typ[types.Int64])
	head.rng = &Rng{big.NewInt(0), big.NewInt(1 << 62)}
	set := func(name string, v *Term) {
		if a, t := e.fieldNamed(p, w.pt, name); a != nil {
			e.store(st, a, v, t)
		}
	}
	set(w.head, head)
	set(w.link, e.T.Int(-1))
	set(w.total, e.T.Int(1))
	var args []*Term
	for i, q := range fn.Params {
		if pt, ok := q.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), w.pt) {
			args = append(args, p)
			continue
		}
		a := e.arg(fmt.Sprintf("a%d", i), q.Type())
		args = append(args, a)
	}
	all := r.run(e, fn, st, args...)
	for i, a := range args {
		if isFileLike(fn.Params[i].Type()) {
			w.appender = &appenderRuns{fn: fn, e: e, v: e.T.App("varintfile", types.Typ[types.Int64], handleOf(a), head)}
			w.appender.outs = okOuts(e, fn, all)
		}
	}
	fine := map[string]bool{}
	ok := func(o Out) bool { return o.kind == "" && (retErr(o) == nil || e.nilness(o.st, retErr(o)) < 0) }
	for _, o := range all {
		if ok(o) {
			fine[lenBytes(o.st)] = true
		}
	}
	n := 0
	for _, o := range all {
		if !fine[lenBytes(o.st)] {
			continue
		}
		sol := e.solve(o.st)
		fs := e.solved(o.st, sol)
		fa, ft := e.fieldNamed(p, w.pt, w.link)
		got := sol(e.load(o.st, fa, ft))
		r.oblige("ends of lists found by the append reader", got.String())
		if !ok(o) {
			if env, k := e.fileWitness(fs, head, nil, nil, nf.kw); k {
				r.failAt(o.st, o.pos, "appender:rejects", "%s fails on a well-formed list (e.g. %s)", shortFn(fn), env)
			}
			continue
		}
		n++
		if got.contains(func(x *Term) bool { return x.Kind == KSym && strings.Contains(x.Name, "φ") }) {
			continue
		}
		if env, k := e.fileWitnessFor(fs, head, got, func(f *witFile) *big.Int { return big.NewInt(f.link) }, nf.kw); k {
			r.failAt(o.st, o.pos, "appender:link", "%s takes %s for the last link of the list (e.g. %s)", shortFn(fn), got, env)
		}
	}
	if n == 0 {
		r.undecided("%s has no successful outcome", shortFn(fn))
	}
}

// nested: how deep values read are used for where to read.
func nested(t *Term) int {
	n := 0
	for _, a := range t.Args {
		if k := nested(a); k > n {
			n = k
		}
	}
	if t.Kind == KApp && hasSfx(t.Name, "file") {
		n++
	}
	return n
}

func isFileLike(t types.Type) bool {
	s := t.String()
	return s == "*os.File" || strings.HasPrefix(s, "io.Reader")
}

// nodeLimits: the longest node flushes can produce against the lengths the
// query reader takes.
func (r *Rule) nodeLimits(nf *nodeFmt, w *postWriter) {
	if !w.engine(false) {
		return
	}
	e, T := w.e, w.e.T
	s := w.pt.Underlying().(*types.Struct)
	v := e.arg("v1", types.Typ[types.Uint32])
	buf := ""
	for _, o := range okOuts(e, w.add, r.run(e, w.add, w.start.clone(), w.p, v, w.f)) {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			if a, b := T.Len(w.field(w.start, s.Field(i).Name())), T.Len(w.field(o.st, s.Field(i).Name())); a != b {
				buf = s.Field(i).Name()
			}
		}
	}
	if buf == "" || !w.engine(true) {
		r.undecided("where postings are gathered for the next node is not found")
		return
	}
	e, T = w.e, w.e.T
	st := w.start.clone()
	b := w.field(st, buf)
	if b.Kind != KSlice {
		r.undecided("where postings are gathered for the next node is not resolved")
		return
	}
	n := e.arg("gathered", types.Typ[types.Int])
	n.rng = &Rng{big.NewInt(0), big.NewInt(1 << 20)}
	w.set(st, buf, T.mk(&Term{Kind: KSlice, Args: []*Term{b.Args[0], b.Args[1], T.Add(b.Args[1], n)}, Typ: b.Typ}))
	cur := e.arg("cur", types.Typ[types.Uint32])
	w.set(st, w.cur, cur)
	tot := e.arg("total", types.Typ[types.Uint32])
	tot.rng = &Rng{big.NewInt(1), big.NewInt(1 << 30)}
	w.set(st, w.total, tot)
	if w.link != "" {
		w.set(st, w.link, e.arg("link", types.Typ[types.Int64]))
	}
	upper := func(st *State, t *Term) int64 {
		lo, hi := int64(-1), int64(1<<20)
		if !e.provesLe(st, t, T.Int(hi)) {
			return -1
		}
		for lo+1 < hi {
			m := (lo + hi) / 2
			if e.provesLe(st, t, T.Int(m)) {
				hi = m
			} else {
				lo = m
			}
		}
		return hi
	}
	bound := int64(0)
	for _, o := range r.run(e, w.add, st, w.p, e.arg("v", types.Typ[types.Uint32]), w.f) {
		if o.kind != "" {
			continue
		}
		l := T.Len(w.field(o.st, buf))
		r.oblige("growth of the next node", l.String())
		if l == n || e.provesLe(o.st, l, n) {
			continue
		}
		u := upper(o.st, l)
		if u >= 1<<19 || u < 0 {
			if _, ok := e.possible(o.st, n, l); ok && e.nilness(o.st, retErr(o)) > 0 {
				r.failAt(o.st, w.add.Pos(), "limit:grows", "postings gathered grow from %s to %s with every AddPost whose flush fails: the node gets longer than any reader takes", n, l)
				return
			}
			r.undecided("the length %s of the next node is not bounded", l)
			return
		}
		if u > bound {
			bound = u
		}
	}
	if bound == 0 {
		r.undecided("the length of the next node is not bounded")
		return
	}
	// the lengths the query reader takes
	np, next := r.P.Fn("internal/shard", "", "newPosts"), r.P.Fn("internal/shard", "Posts", "next")
	e = r.engine()
	T = e.T
	e.NoFault, e.Peel = true, 3
	h := e.arg("head", np.Params[0].Type())
	h.rng = &Rng{big.NewInt(0), big.NewInt(1 << 62)}
	rd := e.arg("r", next.Params[1].Type())
	var outs []Out
	for _, so := range okOuts(e, np, r.run(e, np, newState(), h)) {
		outs = append(outs, okOuts(e, next, r.run(e, next, so.st.clone(), results(so.ret)[0], rd))...)
	}
	vt := T.App("varintfile", types.Typ[types.Int64], handleOf(rd), h)
	r.takes("the query reader", next, e, outs, vt, nf, bound)
	if w.appender == nil {
		return
	}
	r.takes("the append reader", w.appender.fn, w.appender.e, w.appender.outs, w.appender.v, nf, bound)
}

func (r *Rule) takes(who string, fn *ssa.Function, e *Engine, outs []Out, vt *Term, nf *nodeFmt, bound int64) {
	if len(outs) == 0 {
		return
	}
	for _, v := range []int64{nf.kw + 1, nf.kw + 2, 63, 64, 65, bound + nf.kw - 1, bound + nf.kw} {
		taken := false
		for _, o := range outs {
			all := true
			for f, want := range o.st.facts {
				at := map[*Term]bool{}
				e.atoms(f, at)
				if len(at) != 1 || !at[vt] {
					continue
				}
				x, ok := e.instEval(f, instEnv{vt: big.NewInt(v)}, map[*Term]*big.Int{})
				if ok && (x.Sign() != 0) != want {
					all = false
					break
				}
			}
			taken = taken || all
		}
		r.oblige("lengths of nodes readers take", fmt.Sprintf("%s: %d", who, v))
		if !taken {
			r.fail(fn.Pos(), "limit:"+who, "%s does not take a node of length %d; nodes are written with up to %d bytes of ids", who, v, bound)
		}
	}
}

type appenderRuns struct {
	fn   *ssa.Function
	e    *Engine
	outs []Out
	v    *Term
}

// postWriter follows AddPost and flushTo of one poster on a file.
type postWriter struct {
	r                *Rule
	e                *Engine
	d                *disk
	init, add, flush *ssa.Function
	pt               types.Type
	p, f             *Term
	head, total, cur string
	link             string
	linkAddr         *Term
	start            *State // after initCreate
	appender         *appenderRuns
	found            map[int64]bool
	nodes            int
}

func (r *Rule) newPostWriter() *postWriter {
	w := &postWriter{r: r, head: "head", total: "total", found: map[int64]bool{}}
	w.init = r.need("internal/shard", "poster", "initCreate")
	w.add = r.need("internal/shard", "poster", "AddPost")
	w.flush = r.need("internal/shard", "poster", "flushTo")
	if w.init == nil || w.add == nil || w.flush == nil {
		return nil
	}
	w.pt = deref(w.add.Params[0].Type())
	t := &dirTrip{r: r, pt: w.pt, ft: map[string]types.Type{}}
	s := w.pt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if b := basicOf(s.Field(i).Type()); b != nil && b.Kind() == types.Uint32 {
			t.ft[s.Field(i).Name()] = s.Field(i).Type()
		}
	}
	w.cur = t.currentField()
	w.engine(false)
	return w
}

func (w *postWriter) engine(faults bool) bool {
	r := w.r
	w.e = r.engine()
	e := w.e
	e.OneFault, e.NoFault = true, true
	w.d = r.newDisk(e)
	w.linkAddr = nil
	w.p = e.alloc("poster", nil, w, types.NewPointer(w.pt))
	w.f = e.arg("f", w.add.Params[len(w.add.Params)-1].Type())
	st := newState()
	e.resetAlloc(st, w.p)
	args := []*Term{w.p}
	for i := 1; i < len(w.init.Params); i++ {
		args = append(args, e.arg(fmt.Sprintf("init%d", i), w.init.Params[i].Type()))
	}
	outs := okOuts(e, w.init, r.run(e, w.init, st, args...))
	e.NoFault = !faults
	if len(outs) == 0 {
		r.undecided("initCreate has no successful outcome")
		return false
	}
	w.start = outs[0].st
	return true
}

func (w *postWriter) field(st *State, name string) *Term {
	a, t := w.e.fieldNamed(w.p, w.pt, name)
	if a == nil {
		return nil
	}
	return w.e.load(st, a, t)
}

func (w *postWriter) set(st *State, name string, v *Term) {
	a, t := w.e.fieldNamed(w.p, w.pt, name)
	if a != nil {
		w.e.store(st, a, v, t)
	}
}

// list reads the stored list from a position: the ids in terms of what was
// written, the number of nodes. ok<0 with the reason when it is not well
// formed, 0 when not resolved.
func (w *postWriter) list(st *State, pos, sum *Term) (ids []*Term, end *Term, ok int, why string) {
	T := w.e.T
	cs, good := w.d.cells(st, w.f)
	if !good {
		return nil, nil, 0, "the file is changed in a way that is not followed"
	}
	u32, u64 := types.Typ[types.Uint32], types.Typ[types.Uint64]
	for n := 0; n < 8; n++ {
		l := w.d.at(st, cs, pos)
		if l == nil {
			return ids, nil, 0, fmt.Sprintf("nothing found at %s", pos)
		}
		if l.Enc == "?" || l.Enc == "bytes" {
			return ids, nil, 0, fmt.Sprintf("unknown bytes at %s", pos)
		}
		if l.Enc != "varint" {
			return ids, nil, -1, fmt.Sprintf("the node at %s starts with %s, no signed varint", pos, l)
		}
		at := T.Add(pos, l.Len)
		first := at
		for k := 0; ; k++ {
			c := w.d.at(st, cs, at)
			if c == nil {
				return ids, nil, 0, fmt.Sprintf("nothing found at %s", at)
			}
			if c.Enc == "be64" {
				kw, isK := T.Sub(l.Val, T.Sub(at, first)).isInt()
				if !isK {
					return ids, nil, 0, fmt.Sprintf("length %s of %s bytes of ids", l.Val, T.Sub(at, first))
				}
				w.found[kw] = true
				lv := unconv(c.Val)
				if k, isK := T.Conv(lv, u64, types.Typ[types.Int64]).isInt(); isK && k == -1 {
					return ids, at, 1, ""
				}
				if k == 0 {
					return ids, nil, -1, fmt.Sprintf("the node at %s has no ids", pos)
				}
				w.nodes++
				pos = lv
				break
			}
			if c.Enc == "?" || c.Enc == "bytes" {
				return ids, nil, 0, fmt.Sprintf("unknown bytes at %s", at)
			}
			if c.Enc != "uvarint" {
				return ids, nil, -1, fmt.Sprintf("id %d of the node at %s is %s, no unsigned varint", k, pos, c)
			}
			sum = T.Conv(T.Add(T.Conv(sum, u32, u64), c.Val), u64, u32)
			ids = append(ids, sum)
			at = T.Add(at, c.Len)
			if k > 20 {
				return ids, nil, 0, "node too long"
			}
		}
	}
	return ids, nil, 0, "list too long"
}

// refs: the nodes referred to on a path.
func (w *postWriter) refs(st *State) (refs []*Term) {
	cs, _ := w.d.cells(st, w.f)
	for _, c := range cs {
		if c.p.Enc == "be64" {
			if v := unconv(c.p.Val); !isMinus1(w.e.T.Conv(v, types.Typ[types.Uint64], types.Typ[types.Int64])) {
				refs = append(refs, v)
			}
		}
	}
	return refs
}

func (w *postWriter) check() *nodeFmt {
	r := w.r
	if w.start == nil {
		return nil
	}
	if w.cur == "" {
		r.undecided("the field with the last document id of a posting list is not found")
	}
	for _, faults := range []bool{false, true} {
		for _, variant := range []string{"new", "resumed"} {
			if !w.engine(faults) {
				return nil
			}
			w.history(variant, faults)
		}
	}
	var ks []int64
	for k := range w.found {
		ks = append(ks, k)
	}
	switch len(ks) {
	case 1:
		return &nodeFmt{ks[0]}
	case 0:
		r.undecided("the meaning of the length of a node is not resolved")
	default:
		r.fail(w.flush.Pos(), "writer:length", "the length of a node exceeds its ids by %v bytes", ks)
	}
	return &nodeFmt{8}
}

type wstate struct {
	st  *State
	ids []*Term // accepted
	// failed: the last operation, err: one before
	err, failed bool
}

func (w *postWriter) history(variant string, faults bool) {
	r, e, T := w.r, w.e, w.e.T
	st := w.start.clone()
	sum := T.Int(0)
	total0 := T.Int(0)
	size := e.arg("size", types.Typ[types.Int64])
	size.rng = &Rng{big.NewInt(0), big.NewInt(1 << 60)}
	st.heap[e.sizeKeyOf(st, w.f)] = size
	var head0, link0 *Term
	if variant == "resumed" {
		if w.link == "" || w.cur == "" {
			r.undecided("where the position of the last link is kept is not found")
			return
		}
		head0, link0 = e.arg("head", types.Typ[types.Int64]), e.arg("link", types.Typ[types.Int64])
		big62 := &Rng{big.NewInt(0), big.NewInt(1 << 60)}
		head0.rng, link0.rng = big62, big62
		sum = e.arg("cur", types.Typ[types.Uint32])
		total0 = e.arg("total", types.Typ[types.Uint32])
		total0.rng = &Rng{big.NewInt(1), big.NewInt(1 << 30)}
		w.set(st, w.head, head0)
		w.set(st, w.link, link0)
		w.set(st, w.cur, sum)
		w.set(st, w.total, total0)
		e.assume(st, T.LeInt(T.Add(link0, T.Int(8)), size), true)
		e.assume(st, T.LeInt(T.Add(head0, T.Int(9)), size), true)
	}
	old := e.H.On
	e.H.On = func(ev *Event) {
		if old != nil {
			old(ev)
		}
		op := fsOp(ev)
		if op == nil || op.Op != "writeat" || len(ev.Args) < 3 || w.link != "" {
			return
		}
		for a, v := range ev.St.heap {
			if v == ev.Args[2] && a.Kind == KFieldA && a.Args[0] == w.p && a.N < w.pt.Underlying().(*types.Struct).NumFields() {
				n := w.pt.Underlying().(*types.Struct).Field(a.N).Name()
				if n != w.head {
					w.link = n
				}
			}
		}
	}
	defer func() { e.H.On = old }()
	states := []wstate{{st: st}}
	prev := []*Term{sum}
	step := func(name string, fn *ssa.Function, v *Term, last bool) {
		var nx []wstate
		for _, s := range states {
			args := []*Term{w.p, w.f}
			if v != nil {
				args = []*Term{w.p, v, w.f}
			}
			for _, o := range r.run(e, fn, s.st.clone(), args...) {
				if o.kind != "" {
					r.failAt(o.st, o.pos, "writer:panic", "%s panics on a %s poster", name, variant)
					continue
				}
				n := wstate{st: o.st, err: s.err, ids: append([]*Term{}, s.ids...)}
				if v != nil && !last {
					n.ids = append(n.ids, v)
				}
				if e.nilness(o.st, retErr(o)) > 0 {
					n.failed = true
					w.complete(o.st, name, head0)
					n.err = true
					// a failed AddPost may have taken the posting
					if v != nil {
						tot := e.T.Sub(w.field(o.st, w.total), total0)
						if k, ok := tot.isInt(); ok && int(k) < len(n.ids) {
							n.ids = n.ids[:k]
						}
					}
				}
				nx = append(nx, n)
			}
		}
		states = nx
		_ = prev
	}
	flush := func(name string) {
		step("flushTo", w.flush, nil, false)
		for _, s := range states {
			w.compare(s, variant, name, sum, total0, head0, link0)
		}
	}
	vs := make([]*Term, 5)
	for i := range vs {
		vs[i] = e.arg(fmt.Sprintf("v%d", i+1), types.Typ[types.Uint32])
	}
	distinct := func(i int) {
		for _, s := range states {
			if i > 0 {
				e.assume(s.st, T.EqInt(vs[i], vs[i-1]), false)
			} else if variant == "resumed" {
				e.assume(s.st, T.EqInt(vs[i], sum), false)
			}
		}
	}
	for i := 0; i < 4; i++ {
		distinct(i)
		step("AddPost", w.add, vs[i], false)
		if i == 1 && !faults {
			step("AddPost of the same id", w.add, vs[i], true)
		}
		if i == 1 || i == 2 {
			flush(fmt.Sprintf("%d postings", i+1))
		}
		if i == 1 && faults {
			// once more after an error
			flush("2 postings, second attempt")
		}
		if len(states) == 0 {
			r.undecided("a %s poster has no outcome of AddPost and flushTo", variant)
			return
		}
	}
	flush("4 postings")
	if faults {
		flush("4 postings, again")
	}
}

// complete: nothing refers to a node that is not wholly written.
func (w *postWriter) complete(st *State, name string, head0 *Term) {
	e := w.e
	refs := w.refs(st)
	if h := w.field(st, w.head); h != nil && h != head0 && !isMinus1(h) {
		refs = append(refs, h)
	}
	for _, n := range refs {
		_, _, ok, why := w.list(st, n, e.T.Int(0))
		w.r.oblige("nodes referred to when a write fails", fmt.Sprintf("%s: node at %s", name, n))
		if ok > 0 {
			continue
		}
		cs, good := w.d.cells(st, w.f)
		for _, c := range cs {
			good = good && c.p.Enc != "?" && c.p.Enc != "bytes"
		}
		if !good {
			w.r.undecided("%s: %s", name, why)
			continue
		}
		// the node it is for: was anything stored at this position,
		// or is the position that of nothing stored at all
		l := w.d.at(st, cs, n)
		if ok < 0 || l == nil && e.separateFrom(st, cs, n) {
			w.r.failAt(st, w.flush.Pos(), "writer:order", "%s fails leaving a reference to %s, where no complete node is written (%s)", name, n, why)
			continue
		}
		if l != nil {
			w.r.failAt(st, w.flush.Pos(), "writer:order", "%s fails leaving a reference to the incomplete node at %s (%s)", name, n, why)
			continue
		}
		w.r.undecided("%s: the node at %s is not resolved (%s)", name, n, why)
	}
}

// separateFrom: nothing was stored at this offset.
func (e *Engine) separateFrom(st *State, cs []cell, off *Term) bool {
	for _, c := range cs {
		if e.provesEq(st, c.off, off) {
			return false
		}
	}
	return true
}

// joinedLen: the path depends on a length that differs between the turns of a loop.
func joinedLen(st *State) bool {
	for t := range st.facts {
		if t.contains(func(x *Term) bool {
			return x.Kind == KApp && x.Name == "len" && len(x.Args) > 0 && x.Args[0].Phi
		}) {
			return true
		}
	}
	return false
}

func (w *postWriter) compare(s wstate, variant, name string, sum, total0, head0, link0 *Term) {
	r, e, T := w.r, w.e, w.e.T
	pos := w.field(s.st, w.head)
	if variant == "resumed" {
		if pos != head0 {
			r.failAt(s.st, w.flush.Pos(), "writer:head", "after %s the head of a list that goes on is %s, was %s", name, pos, head0)
			return
		}
		cs, _ := w.d.cells(s.st, w.f)
		c := w.d.at(s.st, cs, link0)
		if c == nil {
			if s.err {
				return
			}
			if len(s.ids) > 0 {
				if joinedLen(s.st) {
					r.undecided("after %s: whether postings were written is not resolved", name)
					return
				}
				r.failAt(s.st, w.flush.Pos(), "writer:link", "after %s nothing is stored at the link of the last node", name)
			}
			return
		}
		if c.Enc != "be64" {
			r.failAt(s.st, w.flush.Pos(), "writer:link", "the link of the last node is written as %s", c)
			return
		}
		pos = unconv(c.Val)
	}
	got, end, ok, why := w.list(s.st, pos, sum)
	r.oblige("lists written", fmt.Sprintf("%s poster, %s, error before %v: %v", variant, name, s.err, got))
	if os.Getenv("F04DBG") == "w" {
		fmt.Println("LIST", variant, name, "err", s.err, "ids", got, "want", s.ids, "end", end, ok, why)
		w.d.dump(s.st)
	}
	if ok < 0 {
		r.failAt(s.st, w.flush.Pos(), "writer:node", "after %s (%s poster): %s", name, variant, why)
		return
	}
	if ok == 0 {
		if s.err {
			// an error before may leave the list as it was
			r.oblige("lists not resolved after an error", why)
			return
		}
		r.undecided("after %s (%s poster): %s", name, variant, why)
		return
	}
	if s.failed {
		return
	}
	where := w.flush.Pos()
	if len(got) != len(s.ids) {
		if env, ok := e.possible(s.st, append(append([]*Term{}, got...), s.ids...)...); ok {
			r.failAt(s.st, where, "writer:ids", "after %s (%s poster) the list holds %d ids, %v, appended were %v (e.g. %s)", name, variant, len(got), got, s.ids, env)
		} else {
			r.undecided("after %s (%s poster) the list holds %v, appended were %v on a path not shown to be taken", name, variant, got, s.ids)
		}
		return
	}
	for i := range got {
		if !r.mustEqual(e, s.st, where, "writer:id", fmt.Sprintf("id %d of the list after %s (%s poster)", i+1, name, variant), got[i], s.ids[i], 32) {
			return
		}
	}
	if tot := w.field(s.st, w.total); tot != nil {
		want := T.Conv(T.Add(T.Conv(total0, types.Typ[types.Uint32], types.Typ[types.Uint64]), T.Int(int64(len(s.ids)))), types.Typ[types.Uint64], types.Typ[types.Uint32])
		r.mustEqual(e, s.st, where, "writer:total", fmt.Sprintf("number of postings after %s (%s poster)", name, variant), tot, want, 32)
	}
	_ = end
}
