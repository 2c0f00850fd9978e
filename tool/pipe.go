package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// RunClosure executes a function value.
func (e *Engine) RunClosure(f *Term, st *State, args []*Term) []Out {
	fn, binds := f.Fn, []*Term(nil)
	if f.Kind == KClosure {
		binds = f.Args
	}
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	fr := e.frame(nil, nil, fn)
	outs := e.runFn(st, fr, fn, args, binds)
	e.npaths += len(outs)
	for _, o := range outs {
		e.sinkAll(o.st)
	}
	return outs
}

// goRec is a goroutine started on a path.
type goRec struct {
	f    *Term
	fn   *ssa.Function
	args []*Term
	ch   *Term // the channel it first receives from
}

// flushRate: how many records the pipes' indexes buffer.
func (r *Rule) flushRate() int64 {
	if r.Rate > 0 {
		return r.Rate
	}
	return 100
}

// pipe is the analysed indexing pipeline: constructor, Add, the workers'
// goroutine and the shards' goroutine, each run by itself on what the one
// before sends.
type pipe struct {
	r    *Rule
	e    *Engine
	s    *session
	n, k int64 // shards, window length
	what string
	st   *State
	x    *Term // the indexer
	gos  []*goRec
	bad  bool
	toker
	over func(ev *Event) ([]Out, bool)
	ends []*State // states at the second receive

	caps   map[*Term]*Term // capacities of the constructor's channels
	added  []Out           // outcomes of the last Add
	refuse *Term           // error of storing a posting
}

// toker stands for the tokenizer and the fingerprinter: the tokens of the next
// text and the fingerprints of the next words.
type toker struct {
	tr   *Rule
	te   *Engine
	toks []tokSpec
	blot func(ev *Event, i int) *Term // the value of the i-th call of Blot
	tokc []*Event
	seq  [][]tokSpec // if set, the tokens of each text
	tokn []int       // which text of a path each call is about
	same bool        // all texts are the same one
}

// counted counts calls on a path.
func (p *toker) counted(st *State, name string) int {
	i := 0
	if g := st.gh[name]; g != nil {
		v, _ := g.isInt()
		i = int(v)
	}
	st.gh[name] = p.te.T.Int(int64(i + 1))
	return i
}

type tokSpec struct {
	word     bool
	lit, pos *Term
	rel      *Term // the position, from the offset the tokenizer is given
}

func (r *Rule) pkgConst(pkg, name string) (*Term, bool) {
	for _, p := range r.P.SSA.AllPackages() {
		if p.Pkg.Path() != modPath+"/"+pkg {
			continue
		}
		if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if i, ok := constant.Int64Val(c.Val()); ok {
				return (&Terms{}).intOf(i), true
			}
		}
	}
	return nil, false
}

func (ts *Terms) intOf(i int64) *Term { return &Term{Kind: KConst, Val: constant.MakeInt64(i)} }

// newPipe constructs an index with n shards, k words a window, some workers.
func (r *Rule) newPipe(n, k, workers int64) *pipe {
	return r.newPipeOn("IndexerFromConfig", n, k, 1, workers)
}

// newPipeOn: by the given constructor, with fingerprints interleaved il times.
func (r *Rule) newPipeOn(which string, n, k, il, workers int64) *pipe {
	s := r.newSession(which)
	if s == nil {
		return nil
	}
	e := s.e
	p := &pipe{r: r, e: e, s: s, n: n, k: k, what: fmt.Sprintf("%d shards, windows of %d", n, k)}
	if il != 1 {
		p.what += fmt.Sprintf(" interleaved %d", il)
	}
	if which == "OpenIndexer" {
		p.what += ", index opened for adding"
	}
	p.toker = toker{tr: r, te: e}
	e.OneFault, e.NoFault, e.UnrollMax = false, true, 16
	s.set = map[string]*Term{"NumShards": e.T.Int(n), "NumShatters": e.T.Int(workers), "SeqLen": e.T.Int(k), "DocFlushRate": e.T.Int(r.flushRate()),
		"BlotConfig.SeqLen": e.T.Int(k / il), "BlotConfig.Interleave": e.T.Int(il)}
	if s.Cfg != nil {
		s.applySettings(s.st, s.Cfg, deref(s.Cfg.Typ))
	}
	p.caps = map[*Term]*Term{}
	s.on(func(ev *Event, op *FsOp) {
		if ev.Kind == "makechan" {
			p.caps[ev.Res] = ev.Args[0]
		}
	})
	e.H.Go = func(ev *Event) string {
		f := ev.Val
		if f == nil && ev.Fn != nil {
			f = e.T.mk(&Term{Kind: KFunc, Name: ev.Fn.String(), Fn: ev.Fn, Typ: ev.Fn.Type()})
		}
		if f == nil {
			f = e.T.Nil
		}
		k := e.T.App("gos", nil)
		ev.St.chans[k] = append(append([]*Term{}, ev.St.chans[k]...), e.T.App("go", nil, append([]*Term{f}, ev.Args...)...))
		return "skip"
	}
	all := s.construct()
	outs := okOuts(e, s.Fn, all)
	if len(outs) != 1 {
		debugOuts(r, e, all)
	}
	// successful paths differ in what they found on disk
	if len(outs) == 0 {
		r.undecided("%s: the constructor has no successful outcome", p.what)
		return nil
	}
	p.st, p.x = outs[0].st, results(outs[0].ret)[0]
	for _, t := range p.st.chans[e.T.App("gos", nil)] {
		g := &goRec{f: t.Args[0], fn: t.Args[0].Fn, args: t.Args[1:]}
		p.gos = append(p.gos, g)
		if g.fn == nil {
			r.undecided("a goroutine of the constructor is not resolved")
			return nil
		}
	}
	e.H.Go = nil
	e.H.On = nil
	e.Peel = 6
	e.H.Override = p.override
	e.H.Send = func(st *State, ch, v *Term) bool {
		k := e.T.App("sent", nil, ch)
		st.chans[k] = append(append([]*Term{}, st.chans[k]...), v)
		return true
	}
	return p
}

func (p *pipe) override(ev *Event) ([]Out, bool) {
	if p.over != nil {
		if o, ok := p.over(ev); ok {
			return o, ok
		}
	}
	return p.toker.call(ev)
}

// call answers calls of the tokenizer and the fingerprinter.
func (p *toker) call(ev *Event) ([]Out, bool) {
	if ev.Com == nil {
		return nil, false
	}
	if isTokenizer(ev.Com.Signature()) && len(ev.Args) == 3 && (p.toks != nil || p.seq != nil) {
		p.tokc = append(p.tokc, ev)
		i := p.counted(ev.St, "ntoks")
		if p.same {
			delete(ev.St.gh, "nblots")
		}
		p.tokn = append(p.tokn, i)
		if p.seq != nil {
			p.toks = p.seq[len(p.seq)-1]
			if i < len(p.seq) {
				p.toks = p.seq[i]
			}
		}
		return []Out{{st: ev.St, ret: p.tokens(ev)}}, true
	}
	if p.blot != nil && isBlot(ev) {
		return []Out{{st: ev.St, ret: p.blot(ev, p.counted(ev.St, "nblots"))}}, true
	}
	return nil, false
}

func isTokenizer(sig *types.Signature) bool {
	return sig.Params().Len() == 3 && sig.Results().Len() == 1 && sig.Recv() == nil &&
		sliceOfNamed(sig.Params().At(0).Type(), "token", "T") && sliceOfNamed(sig.Results().At(0).Type(), "token", "T") &&
		isBytes(sig.Params().At(1).Type())
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && basicOf(s.Elem()) != nil && basicOf(s.Elem()).Kind() == types.Uint8
}

func sliceOfNamed(t types.Type, pkg, name string) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := s.Elem().(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+pkg
}

// isBlot: a call that fingerprints one word.
func isBlot(ev *Event) bool {
	var name string
	if ev.Com.IsInvoke() {
		name = ev.Com.Method.Name()
	} else if ev.Fn != nil && ev.Fn.Signature.Recv() != nil {
		name = ev.Fn.Name()
	}
	sig := ev.Com.Signature()
	n := sig.Params().Len()
	return name == "Blot" && sig.Results().Len() == 1 && n >= 1 && isBytes(sig.Params().At(n-1).Type()) &&
		types.Identical(sig.Results().At(0).Type().Underlying(), types.Typ[types.Uint32])
}

// tokens makes the token slice the specs describe.
func (p *toker) tokens(ev *Event) *Term {
	e := p.te
	typ := ev.Com.Signature().Results().At(0).Type()
	et := elemOfSlice(typ)
	al := e.alloc(fmt.Sprintf("tokens%d", len(p.tokc)), nil, p, typ)
	e.resetAlloc(ev.St, al)
	word, ok1 := p.tr.pkgConst("token", "Word")
	other, ok2 := p.tr.pkgConst("token", "Other")
	if !ok1 || !ok2 {
		p.tr.undecided("token.Word, token.Other not found")
		return e.Fresh("tokens", typ)
	}
	for i, t := range p.toks {
		a := e.indexAddr(al, e.T.Int(int64(i)), et)
		set := func(f string, v *Term) {
			if fa, ft := e.fieldNamed(a, et, f); fa != nil {
				e.store(ev.St, fa, v, ft)
			} else {
				p.tr.undecided("token.T.%s not found", f)
			}
		}
		tag := other
		if t.word {
			tag = word
		}
		v, _ := tag.isInt()
		set("Tag", e.T.Int(v))
		set("Lit", t.lit)
		if t.rel != nil {
			t.pos = e.T.Add(ev.Args[2], t.rel)
		}
		set("Pos", t.pos)
	}
	return e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(int64(len(p.toks)))}, Typ: typ})
}

// add runs Add on doc and returns the channel and the value it sends.
func (p *pipe) add(doc *Term) (ch, req *Term, ok bool) {
	fn := p.r.need("", "Indexer", "Add")
	if fn == nil {
		return
	}
	outs := okOuts(p.e, fn, p.r.run(p.e, fn, p.st, p.x, doc))
	if len(outs) == 0 {
		p.r.undecided("%s: Add has no successful outcome", p.what)
		return
	}
	// the paths differ in how records are buffered
	o := outs[0]
	p.added = append([]Out{}, outs...)
	p.added[0].st = o.st.clone()
	for _, c := range outs {
		for k, v := range c.st.chans {
			if k.Kind == KApp && k.Name == "sent" && len(v) > 0 {
				if req != nil && (req != v[0] || len(v) != 1) {
					p.r.undecided("%s: Add sends more than one value", p.what)
					return
				}
				ch, req = k.Args[0], v[0]
			}
		}
	}
	if req == nil {
		p.r.undecided("%s: Add sends nothing", p.what)
		return
	}
	p.st = o.st
	for k := range p.st.chans {
		if k.Kind == KApp && k.Name == "sent" {
			delete(p.st.chans, k)
		}
	}
	return ch, req, true
}

// firstRecv finds the channel each goroutine waits on first.
func (p *pipe) firstRecv() {
	for _, g := range p.gos {
		g := g
		p.e.H.Recv = func(st *State, ch *Term) (*Term, *Term, bool) {
			if g.ch == nil {
				g.ch = ch
			}
			return nil, p.e.T.F, true
		}
		p.e.RunClosure(g.f, p.st.clone(), g.args)
	}
	p.e.H.Recv = nil
}

// serve runs the goroutine waiting on ch on the given values, and returns the
// states in which it asks for more.
func (p *pipe) serve(g *goRec, st *State, vals ...*Term) []*State {
	e := p.e
	p.ends = nil
	st = st.clone()
	key := script(e.T, g.ch)
	st.chans[key] = vals
	e.H.Recv = func(st *State, ch *Term) (*Term, *Term, bool) {
		if ch != g.ch {
			return nil, e.T.T, true
		}
		q := st.chans[key]
		if len(q) == 0 {
			p.ends = append(p.ends, st.clone())
			return nil, e.T.F, true
		}
		st.chans[key] = q[1:]
		return q[0], e.T.T, true
	}
	e.H.Go = func(ev *Event) string { return "inline" }
	e.RunClosure(g.f, st, g.args)
	e.H.Recv, e.H.Go = nil, nil
	return p.ends
}

func (p *pipe) goFor(ch *Term) *goRec {
	for _, g := range p.gos {
		if g.ch == ch {
			return g
		}
	}
	return nil
}

// slotOf finds the shard and the slot of 65536 an address or value mentions.
// slotOf takes a value or address apart: the shard and the slot of a shard it
// belongs to (the outermost indices; indices are not looked into).
func slotOf(t *Term) (shard, slot *Term) {
	seen := map[*Term]bool{}
	var look func(x *Term)
	look = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.Kind == KIndexA {
			if pt, ok := x.Args[0].Typ.(*types.Pointer); ok && slot == nil {
				if a, ok := pt.Elem().Underlying().(*types.Array); ok && a.Len() == 1<<16 {
					slot = x.Args[1]
				}
			}
			if pt, ok := x.Typ.(*types.Pointer); ok && shard == nil {
				if n, ok := pt.Elem().(*types.Named); ok && (n.Obj().Name() == "Index" || n.Obj().Name() == "Indexer") {
					shard = x.Args[1]
				}
			}
			look(x.Args[0])
			return
		}
		for _, a := range x.Args {
			look(a)
		}
	}
	look(t)
	return
}

func debugOuts(r *Rule, e *Engine, outs []Out) {
	if !debugPipe {
		return
	}
	for _, o := range outs {
		fmt.Println("  out", o.kind, r.P.Pos(o.pos), "err", retErr(o))
		for _, l := range r.trace(o.st.tr) {
			fmt.Println("     ", l)
		}
		for f, v := range o.st.facts {
			fmt.Println("      fact", v, f)
		}
	}
}

var debugPipe = os.Getenv("PIPEDUMP") != ""

// filing is one posting a shard stores: AddPost's receiver and document.
type filing struct {
	shard, slot, doc *Term
	st               *State
	ev               *Event
}

// file runs a shard's goroutine on one batch and returns what it stores.
func (p *pipe) file(g *goRec, st *State, batch *Term) (fs []filing, ok bool) {
	old := p.over
	p.over = func(ev *Event) ([]Out, bool) {
		if ev.Fn != nil && ev.Fn.Name() == "AddPost" && pkgOf(ev.Fn) == "internal/shard" && len(ev.Args) >= 2 {
			sh, sl := slotOf(ev.Args[0])
			p.stored(ev.St, p.e.T.App("filed", nil, orNil(p.e.T, sh), orNil(p.e.T, sl), ev.Args[1]))
			return []Out{{st: ev.St, ret: orNil(p.e.T, p.refuse)}}, true
		}
		return nil, false
	}
	defer func() { p.over = old }()
	ends := p.serve(g, st, batch)
	if len(ends) != 1 {
		return nil, false
	}
	for _, t := range ends[0].chans[p.e.T.App("filings", nil)] {
		if len(t.Args) != 3 {
			return nil, false // differs between paths
		}
		fs = append(fs, filing{t.Args[0], t.Args[1], t.Args[2], ends[0], nil})
	}
	return fs, true
}

func orNil(T *Terms, t *Term) *Term {
	if t == nil {
		return T.Nil
	}
	return t
}

func (p *pipe) stored(st *State, t *Term) {
	k := p.e.T.App("filings", nil)
	st.chans[k] = append(append([]*Term{}, st.chans[k]...), t)
}

// sent lists what was sent on channels other than the workers'.
func (p *pipe) sent(st *State) map[*Term][]*Term {
	m := map[*Term][]*Term{}
	for k, v := range st.chans {
		if k.Kind == KApp && k.Name == "sent" {
			m[k.Args[0]] = v
		}
	}
	return m
}
