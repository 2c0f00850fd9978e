package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Event is shown to rules as the interpreter goes along a path.
type Event struct {
	E     *Engine
	Kind  string // call, enter, leave, store, load, send, recv, go, close, append, mapupdate, slice, index, makeslice, maplookup, panic
	St    *State
	Fr    *Frame
	Ins   ssa.Instruction
	Fn    *ssa.Function
	Name  string
	Args  []*Term
	Res   *Term
	Addr  *Term
	Val   *Term
	Com   *ssa.CallCommon
	Defer bool
}

type Hooks struct {
	// On is told every event; it may change st's flags, ghosts and items.
	On func(ev *Event)
	// Override may replace the model of a call; handled if it returns true.
	Override func(ev *Event) ([]Out, bool)
	// Opaque: do not inline this module function.
	Opaque func(fn *ssa.Function, fr *Frame) bool
	// Go decides about a go statement: "inline", "skip".
	Go func(ev *Event) string
	// Recv may decide what a receive yields; Send whether a send is recorded.
	Recv func(st *State, ch *Term) (v, ok *Term, handled bool)
	Send func(st *State, ch, v *Term) bool
	// Key adds to the partition key at loop heads.
	Key func(st *State) string
	// Back is called on every back edge, Head on every new head state.
	Back func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock)
	// Edge is told the state and the values of the head's phis before and after a turn.
	Edge func(e *Engine, was, st *State, fr *Frame, head *ssa.BasicBlock, old, new map[ssa.Value]*Term)
	Head func(e *Engine, st *State, fr *Frame, head *ssa.BasicBlock)
}

type Engine struct {
	P         *Prog
	T         *Terms
	H         Hooks
	NoFail    func(name string) bool // operations assumed to succeed
	NoFault   bool                   // external operations always succeed
	OneFault  bool                   // at most one operation fails on a path
	CapAppend bool                   // appends within a known capacity are in place
	MaxDepth  int
	Unroll    bool // keep the iterations of loops with a small constant bound apart
	Peel      int  // this many iterations of any loop are kept apart
	// Runes knows the runes of texts: the one at a position, and its length.
	Runes     func(st *State, s, pos *Term) (r, w *Term, end, ok bool)
	FreeMem   bool // unknown memory may hold any values
	Scale     bool // loops over 65536 slots are analysed for 2
	Disk      *disk
	UnrollMax int64
	// NewFrames: objects allocated by different calls of Run are different
	NewFrames bool
	runs      int

	ictx       string
	serial     int
	frames     map[string]*Frame
	loops      map[*ssa.Function]*loopInfo
	sink       []*Viol
	steps      int
	maxSteps   int
	Trouble    []string
	fnsSeen    map[*ssa.Function]bool
	calls      map[ssa.Instruction]bool
	npaths     int
	nloops     int
	loopInst   int
	deadlineAt time.Time
	timedOut   bool
}

func newEngine(p *Prog) *Engine {
	return &Engine{P: p, T: newTerms(), frames: map[string]*Frame{}, loops: map[*ssa.Function]*loopInfo{},
		maxSteps: 6000000, MaxDepth: 14, fnsSeen: map[*ssa.Function]bool{}, calls: map[ssa.Instruction]bool{}}
}

func (e *Engine) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function) *Frame {
	pid := 0
	d := 0
	if parent != nil {
		pid, d = parent.ID, parent.Depth+1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, site, fn)
	if e.ictx != "" {
		k += "~" + e.ictx
	}
	if f := e.frames[k]; f != nil {
		return f
	}
	f := &Frame{ID: len(e.frames) + 1, Fn: fn, Parent: parent, Site: site, Depth: d}
	e.frames[k] = f
	return f
}

func (e *Engine) trouble(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, t := range e.Trouble {
		if t == m {
			return
		}
	}
	e.Trouble = append(e.Trouble, m)
}

// Fresh makes a new scalar symbol.
func (e *Engine) Fresh(name string, typ types.Type) *Term {
	e.serial++
	return e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("%s#%d", name, e.serial), N: e.serial, Typ: typ})
}

// Stable makes a symbol named by its site (handles, opaque objects).
func (e *Engine) Stable(name string, fr *Frame, ins ssa.Instruction, typ types.Type) *Term {
	pos := ""
	if ins != nil {
		pos = fmt.Sprintf("%p", ins)
	}
	if e.ictx != "" {
		pos += "~" + e.ictx
	}
	return e.T.mk(&Term{Kind: KSym, Name: name + "@" + pos, Frame: fr, Typ: typ, NonNil: true})
}

func (e *Engine) alloc(name string, fr *Frame, ins interface{}, typ types.Type) *Term {
	n := fmt.Sprintf("%s@%p", name, ins)
	if e.ictx != "" {
		n += "~" + e.ictx
	}
	return e.T.mk(&Term{Kind: KAlloc, Name: n, Frame: fr, Typ: typ})
}

func (e *Engine) viol(st *State, key, pos, f string, a ...interface{}) {
	st.viols = &Viol{prev: st.viols, Key: key, Msg: fmt.Sprintf(f, a...), Pos: pos, Tr: st.tr}
}

func (e *Engine) on(ev *Event) {
	if e.H.On != nil {
		ev.E = e
		e.H.On(ev)
	}
}

// ---------------------------------------------------------------- loops

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopInfo struct{ at map[*ssa.BasicBlock]*loop }

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if l := e.loops[fn]; l != nil {
		return l
	}
	li := &loopInfo{at: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.at[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.at[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

type deferred struct {
	site *ssa.Defer
	fn   *Term
	stat *ssa.Function
	args []*Term
}

// Path is an activation in progress.
type Path struct {
	iter   int    // iterations of the loop being explored, while kept apart
	ictx   string // iterations of the enclosing loops of this activation that are kept apart
	st     *State
	env    map[ssa.Value]*Term
	defers []deferred
}

func (p *Path) clone() *Path {
	n := &Path{iter: p.iter, ictx: p.ictx, st: p.st.clone(), env: make(map[ssa.Value]*Term, len(p.env)+8), defers: p.defers[:len(p.defers):len(p.defers)]}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type edge struct {
	p        *Path
	from, to *ssa.BasicBlock
}

// Run executes fn from st.
func (e *Engine) Run(fn *ssa.Function, st *State, args []*Term) []Out {
	if e.NewFrames {
		// what one call allocates is not what another one does
		e.runs++
		e.ictx = fmt.Sprintf("call%d", e.runs)
	}
	fr := e.frame(nil, nil, fn)
	e.ictx = ""
	outs := e.runFn(st, fr, fn, args, nil)
	e.npaths += len(outs)
	for _, o := range outs {
		e.sinkAll(o.st)
	}
	return outs
}

func (e *Engine) sinkAll(s *State) {
	for v := s.viols; v != nil; v = v.prev {
		e.sink = append(e.sink, v)
	}
}

func (e *Engine) runFn(st *State, fr *Frame, fn *ssa.Function, args []*Term, binds []*Term) []Out {
	e.fnsSeen[fn] = true
	ictx := e.ictx
	e.ictx = ""
	defer func() { e.ictx = ictx }()
	p := &Path{st: st, env: map[ssa.Value]*Term{}}
	for i, pa := range fn.Params {
		if i < len(args) && args[i] != nil {
			p.env[pa] = args[i]
		} else {
			p.env[pa] = e.Fresh("arg:"+pa.Name(), pa.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			p.env[fv] = binds[i]
		} else {
			p.env[fv] = e.Stable("free:"+fv.Name(), fr, nil, fv.Type())
		}
	}
	outs, _, _ := e.region([]edge{{p, nil, fn.Blocks[0]}}, nil, fr, false)
	return outs
}

// region runs the given edges until they leave the loop (exits), come back to
// its head (backs) or end the function (outs).
func (e *Engine) region(work []edge, lp *loop, fr *Frame, atHead bool) (outs []Out, exits, backs []edge) {
	li := e.loopsOf(fr.Fn)
	first := atHead
	for len(work) > 0 {
		ed := work[len(work)-1]
		work = work[:len(work)-1]
		if e.expired() {
			e.trouble("step budget exceeded in %s", shortFn(fr.Fn))
			return
		}
		if !first {
			if lp != nil && ed.to == lp.head {
				backs = append(backs, ed)
				continue
			}
			if lp != nil && !lp.blocks[ed.to] {
				exits = append(exits, ed)
				continue
			}
			if l := li.at[ed.to]; l != nil {
				o, x := e.exploreLoop(ed, l, fr)
				outs = append(outs, o...)
				work = append(work, x...)
				continue
			}
			e.phis(ed)
		}
		first = false
		o, n := e.execBlock(ed.p, ed.to, 0, fr)
		outs = append(outs, o...)
		work = append(work, n...)
	}
	return
}

func (e *Engine) expired() bool {
	if e.steps > e.maxSteps || e.timedOut {
		return true
	}
	if !e.deadlineAt.IsZero() && time.Now().After(e.deadlineAt) {
		e.timedOut = true
	}
	return e.timedOut
}

func (e *Engine) phis(ed edge) {
	if ed.from == nil {
		return
	}
	idx := -1
	for i, p := range ed.to.Preds {
		if p == ed.from {
			idx = i
			break
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range ed.to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = e.val(ed.p, ph.Edges[idx])
		if c, ok := ph.Edges[idx].(*ssa.Const); ok && e.Scale && c.Value != nil {
			// a loop that runs down from the last slot
			if k, ok := vals[ph].isInt(); ok && k >= 65534 && k <= 65537 {
				vals[ph] = e.T.Int(k - 65536 + 2)
			}
		}
	}
	for ph, v := range vals {
		ed.p.env[ph] = v
	}
}

func (e *Engine) execBlock(p *Path, b *ssa.BasicBlock, from int, fr *Frame) (outs []Out, next []edge) {
	type item struct {
		p *Path
		i int
	}
	work := []item{{p, from}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		p, i := it.p, it.i
		dead := false
		for ; i < len(b.Instrs) && !dead; i++ {
			e.steps++
			e.ictx = p.ictx
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
			case *ssa.If:
				c := e.val(p, in.Cond)
				v, known := e.truth(p.st, c)
				if known {
					k := 1
					if v {
						k = 0
					}
					next = append(next, edge{p, b, b.Succs[k]})
				} else {
					q := p.clone()
					if e.assume(p.st, c, true) {
						next = append(next, edge{p, b, b.Succs[0]})
					}
					if e.assume(q.st, c, false) {
						next = append(next, edge{q, b, b.Succs[1]})
					}
				}
				dead = true
			case *ssa.Jump:
				next = append(next, edge{p, b, b.Succs[0]})
				dead = true
			case *ssa.Return:
				var r *Term
				switch len(in.Results) {
				case 0:
				case 1:
					r = e.val(p, in.Results[0])
				default:
					t := &Term{Kind: KTuple, N: len(in.Results)}
					for _, x := range in.Results {
						t.Args = append(t.Args, e.val(p, x))
					}
					r = e.T.mk(t)
				}
				e.on(&Event{Kind: "return", St: p.st, Fr: fr, Ins: in, Fn: fr.Fn, Res: r})
				outs = append(outs, Out{st: p.st, ret: r, pos: in.Pos(), fr: fr})
				dead = true
			case *ssa.Panic:
				e.on(&Event{Kind: "panic", St: p.st, Fr: fr, Ins: in, Val: e.val(p, in.X)})
				outs = append(outs, Out{st: p.st, kind: "panic", pos: in.Pos(), fr: fr})
				dead = true
			case *ssa.RunDefers:
				os := e.runDefers(p, fr)
				for _, o := range os {
					if o.kind != "" {
						outs = append(outs, o)
						continue
					}
					q := p
					if len(os) > 1 {
						q = &Path{st: o.st, env: p.env}
						q = &Path{st: o.st, env: copyEnv(p.env)}
					} else {
						q.st = o.st
						q.defers = nil
					}
					work = append(work, item{q, i + 1})
				}
				dead = true
			case *ssa.Defer:
				d := deferred{site: in}
				d.fn, d.stat, d.args = e.resolve(p, &in.Call)
				p.defers = append(p.defers[:len(p.defers):len(p.defers)], d)
			case *ssa.Go:
				fnT, stat, args := e.resolve(p, &in.Call)
				ev := &Event{E: e, Kind: "go", St: p.st, Fr: fr, Ins: in, Fn: stat, Args: args, Val: fnT, Com: &in.Call}
				if fnT != nil && (fnT.Kind == KFunc || fnT.Kind == KClosure) {
					ev.Fn = fnT.Fn
				}
				e.on(ev)
				mode := "inline"
				if e.H.Go != nil {
					mode = e.H.Go(ev)
				}
				if mode == "inline" {
					os := e.call(p.st, fr, in, &in.Call, fnT, stat, args, false)
					for k, o := range os {
						if o.kind == "panic" {
							outs = append(outs, o)
							continue
						}
						q := &Path{st: o.st, env: p.env, defers: p.defers}
						if k < len(os)-1 {
							q.env = copyEnv(p.env)
						}
						work = append(work, item{q, i + 1})
					}
					dead = true
				}
			case *ssa.Call:
				fnT, stat, args := e.resolve(p, &in.Call)
				os := e.call(p.st, fr, in, &in.Call, fnT, stat, args, false)
				if len(os) == 1 && os[0].kind == "" {
					p.st = os[0].st
					p.env[in] = os[0].ret
					continue
				}
				for k, o := range os {
					if o.kind != "" {
						outs = append(outs, o)
						continue
					}
					q := &Path{st: o.st, env: p.env, defers: p.defers}
					if k < len(os)-1 {
						q.env = copyEnv(p.env)
					}
					q.env[in] = o.ret
					work = append(work, item{q, i + 1})
				}
				dead = true
			case *ssa.Select:
				ps := e.selectInstr(p, in, fr)
				for _, q := range ps {
					work = append(work, item{q, i + 1})
				}
				dead = true
			case *ssa.Next:
				ps := e.next(p, in, fr)
				for _, q := range ps {
					work = append(work, item{q, i + 1})
				}
				dead = true
			case *ssa.Lookup:
				ps := e.lookup(p, in, fr)
				for _, q := range ps {
					work = append(work, item{q, i + 1})
				}
				dead = true
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					for _, q := range e.recv(p, in, fr) {
						work = append(work, item{q, i + 1})
					}
					dead = true
				} else {
					e.instr(p, b.Instrs[i], fr)
				}
			case *ssa.TypeAssert:
				for _, q := range e.typeAssert(p, in, fr) {
					work = append(work, item{q, i + 1})
				}
				dead = true
			default:
				e.instr(p, b.Instrs[i], fr)
			}
		}
	}
	return
}

func copyEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+8)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *Engine) runDefers(p *Path, fr *Frame) []Out {
	cur := []Out{{st: p.st}}
	ds := p.defers
	var ended []Out
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var nx []Out
		for _, c := range cur {
			for _, o := range e.call(c.st, fr, d.site, &d.site.Call, d.fn, d.stat, d.args, true) {
				if o.kind != "" {
					ended = append(ended, o)
				} else {
					nx = append(nx, Out{st: o.st})
				}
			}
		}
		cur = nx
	}
	return append(cur, ended...)
}

// resolve gives the callee and arguments of a call.
func (e *Engine) resolve(p *Path, c *ssa.CallCommon) (fnT *Term, stat *ssa.Function, args []*Term) {
	if c.IsInvoke() {
		args = append(args, e.val(p, c.Value))
	} else {
		stat = c.StaticCallee()
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			fnT = e.val(p, c.Value)
		}
	}
	for _, a := range c.Args {
		args = append(args, e.val(p, a))
	}
	return
}

// ---------------------------------------------------------------- loop exploration

type headPart struct {
	key    string
	id     int
	H      *Path
	arr0   *Path
	dirty  bool
	joins  int
	black  map[*Term]bool
	outs   []Out
	exits  []edge
	bodies [][]*Item
	sinks  []*Viol
	cands  map[*Term]bool
}

func (e *Engine) partKey(p *Path, l *loop) string {
	var b strings.Builder
	b.WriteString(p.st.flagKey())
	if p.st.fault != nil {
		b.WriteString("|F" + p.st.fault.Name)
	}
	id := func(t *Term, typ types.Type) string {
		if v, ok := t.isBool(); ok {
			return fmt.Sprint(v)
		}
		if t.Kind == KApp && (t.Name == "le0" || t.Name == "eq0" || t.Name == "eq" || t.Name == "not") {
			if v, ok := e.truth(p.st, t); ok {
				return fmt.Sprint(v)
			}
		}
		if n := e.nilness(p.st, t); n != 0 {
			if n > 0 && !isErrorType(typ) && (t.Kind == KAlloc || t.Kind == KSym && t.N == 0) {
				return fmt.Sprintf("p%d", t.ID)
			}
			return fmt.Sprintf("n%d", n)
		}
		return "?"
	}
	small := e.Unroll && e.smallBound(p, l)
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := p.env[ph]
		if t == nil {
			continue
		}
		if small {
			if c, ok := t.isInt(); ok {
				fmt.Fprintf(&b, "|%s:=%d", ph.Name(), c)
				continue
			}
		}
		if bt := basicOf(ph.Type()); bt != nil && bt.Kind() == types.Bool || isPtrLike(ph.Type()) {
			if _, isS := ph.Type().Underlying().(*types.Slice); isS {
				if e.nilness(p.st, t) < 0 {
					b.WriteString("|nil")
				}
				continue
			}
			fmt.Fprintf(&b, "|%s=%s", ph.Name(), id(t, ph.Type()))
		}
	}
	var cs []string
	for a, v := range p.st.heap {
		et := elemType(a)
		if et == nil {
			continue
		}
		if isErrorType(et) {
			cs = append(cs, fmt.Sprintf("|%d=%s", a.ID, id(v, et)))
		} else if bt := basicOf(et); bt != nil && bt.Kind() == types.Bool && a.Kind == KAlloc {
			cs = append(cs, fmt.Sprintf("|%d=%s", a.ID, id(v, et)))
		}
	}
	sort.Strings(cs)
	b.WriteString(strings.Join(cs, ""))
	if e.H.Key != nil {
		b.WriteString("|" + e.H.Key(p.st))
	}
	return b.String()
}

// smallBound: the loop's condition compares two constants close to each other.
func (e *Engine) smallBound(p *Path, l *loop) bool {
	var iff *ssa.If
	for _, in := range l.head.Instrs {
		switch x := in.(type) {
		case *ssa.Call, *ssa.Select, *ssa.Next:
			return false
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.If:
			iff = x
		}
	}
	if iff == nil {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	q := p.clone()
	on := e.H
	e.H = Hooks{}
	e.execBlock(q, l.head, 0, e.frame(nil, nil, l.head.Parent()))
	e.H = on
	get := func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Const); ok {
			return e.constTerm(c).isInt()
		}
		if t := q.env[v]; t != nil {
			return t.isInt()
		}
		return 0, false
	}
	lim := int64(4)
	if e.UnrollMax > 0 {
		lim = e.UnrollMax
	}
	x, okx := get(bo.X)
	y, oky := get(bo.Y)
	return okx && oky && x-y <= lim && y-x <= lim
}

func elemType(addr *Term) types.Type {
	if addr.Typ == nil {
		return nil
	}
	if p, ok := addr.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Engine) exploreLoop(ed edge, l *loop, fr *Frame) (outs []Out, exits []edge) {
	e.nloops++
	e.loopInst++
	inst := e.loopInst
	entrySerial := e.serial
	e.phis(ed)
	entryItems := ed.p.st.items
	mark := &Item{Kind: "mark"}
	parts := map[string]*headPart{}
	var order []*headPart
	// iterations kept apart: items stay in sequence
	seq := e.Unroll && e.smallBound(ed.p, l) || e.Peel > 0
	outerIter, outerCtx := ed.p.iter, ed.p.ictx
	ed.p.iter = 0
	arrive := func(p *Path, entry bool) {
		for v := range p.env {
			if iv, ok := v.(ssa.Instruction); ok && l.blocks[iv.Block()] {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.head {
					continue
				}
				delete(p.env, v)
			}
		}
		k := e.partKey(p, l)
		if e.Peel > 0 {
			n := p.iter
			if n > e.Peel {
				n = e.Peel
			}
			k = fmt.Sprintf("%d#", n) + k
		}
		hp := parts[k]
		if hp == nil {
			hp = &headPart{key: k, id: len(order), H: p.clone(), arr0: p.clone(), dirty: true, black: map[*Term]bool{}, cands: map[*Term]bool{}}
			if !seq {
				hp.H.st.items = mark
			}
			parts[k] = hp
			order = append(order, hp)
			return
		}
		if debugEngine && e.Peel > 0 && hp.joins == 0 {
			fmt.Println("PEELJOIN", e.P.Pos(blockPos(l.head)), k)
			for f, v := range p.st.facts {
				if w, ok := hp.H.st.facts[f]; !ok || w != v {
					fmt.Println("   +", v, f)
				}
			}
			for f, v := range hp.H.st.facts {
				if w, ok := p.st.facts[f]; !ok || w != v {
					fmt.Println("   -", v, f)
				}
			}
		}
		if seq && hp.H.st.items != p.st.items && !(hp.H.st.items != nil && hp.H.st.items.Kind == "mixed") {
			if itemsSig(hp.H.st.items.list(nil)) != itemsSig(p.st.items.list(nil)) {
				hp.H.st.addItem(&Item{Kind: "mixed", Fr: fr, Pos: blockPos(l.head)})
				hp.dirty = true
			}
		}
		if e.join(hp, p, l, inst, entrySerial) {
			hp.dirty = true
		}
	}
	saveSink := e.sink
	arrive(ed.p, true)
	runs := 0
	for {
		var hp *headPart
		for _, x := range order {
			if x.dirty {
				hp = x
				break
			}
		}
		if hp == nil {
			break
		}
		runs++
		if runs > 60+20*len(order) || runs > 1500 {
			e.trouble("loop does not stabilise in %s at %s", shortFn(fr.Fn), e.P.Pos(blockPos(l.head)))
			if debugEngine {
				for _, x := range order {
					fmt.Println("PART", x.key, x.joins)
				}
			}
			break
		}
		if e.expired() {
			break
		}
		hp.dirty = false
		e.sink = nil
		q := hp.H.clone()
		n := q.iter
		if seq {
			k := n
			if e.Peel > 0 && k > e.Peel {
				k = e.Peel
			}
			q.ictx = fmt.Sprintf("%s.%d", outerCtx, k)
		}
		if e.H.Head != nil {
			e.H.Head(e, q.st, fr, l.head)
		}
		o, x, bk := e.region([]edge{{q, nil, l.head}}, l, fr, true)
		hp.outs, hp.exits = o, x
		hp.bodies = nil
		for _, b := range bk {
			e.phis(b)
			if e.H.Back != nil {
				e.H.Back(e, b.p.st, fr, l.head)
			}
			if e.H.Edge != nil {
				e.H.Edge(e, hp.H.st, b.p.st, fr, l.head, hp.H.env, b.p.env)
			}
			e.sinkAll(b.p.st)
			if !seq {
				hp.bodies = append(hp.bodies, b.p.st.items.list(mark))
			}
			b.p.iter = n + 1
		}
		hp.sinks = e.sink
		for _, b := range bk {
			arrive(b.p, false)
		}
	}
	e.sink = saveSink
	var bodies [][]*Item
	seen := map[string]bool{}
	for _, hp := range order {
		e.sink = append(e.sink, hp.sinks...)
		for _, b := range hp.bodies {
			k := itemsSig(b)
			if !seen[k] {
				seen[k] = true
				bodies = append(bodies, b)
			}
		}
	}
	nonempty := false
	for _, b := range bodies {
		if len(b) > 0 {
			nonempty = true
		}
	}
	fix := func(st *State) {
		if seq {
			return
		}
		tail := st.items.list(mark)
		st.items = entryItems
		if nonempty {
			st.addItem(&Item{Kind: "loop", Name: fmt.Sprint(inst), Sub: bodies, Fr: fr, Pos: blockPos(l.head)})
		}
		for _, it := range tail {
			c := *it
			st.addItem(&c)
		}
	}
	for _, hp := range order {
		for _, o := range hp.outs {
			fix(o.st)
			outs = append(outs, o)
		}
		for _, x := range hp.exits {
			x.p.iter, x.p.ictx = outerIter, outerCtx
			fix(x.p.st)
			exits = append(exits, x)
		}
	}
	return
}

func itemsSig(b []*Item) string {
	var s strings.Builder
	for _, it := range b {
		fmt.Fprintf(&s, "%s:%s(", it.Kind, it.Name)
		for _, a := range it.Args {
			if a != nil {
				fmt.Fprintf(&s, "%d,", a.ID)
			}
		}
		s.WriteString(")")
		for _, sb := range it.Sub {
			s.WriteString("{" + itemsSig(sb) + "}")
		}
	}
	return s.String()
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func born(t *Term, since int) bool {
	return t.contains(func(x *Term) bool { return x.Kind == KSym && x.N > since })
}

type pair struct {
	key  string
	h, a *Term
	typ  types.Type
	set  func(t *Term)
	a0   *Term
	sum  bool
}

// join merges arrival A into hp.H; true if H changed.
func (e *Engine) join(hp *headPart, A *Path, l *loop, inst, since int) bool {
	H := hp.H
	hp.joins++
	changed := false
	var prs []*pair
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		h, a := H.env[ph], A.env[ph]
		if h == a || h == nil || a == nil {
			continue
		}
		ph2 := ph
		prs = append(prs, &pair{key: "e" + ph.Name(), h: h, a: a, typ: ph.Type(), a0: hp.arr0.env[ph],
			set: func(t *Term) { H.env[ph2] = t }})
	}
	// defers must agree; otherwise keep H's
	keys := map[*Term]bool{}
	for k := range H.st.heap {
		keys[k] = true
	}
	for k := range A.st.heap {
		if !keys[k] && born(k, since) {
			continue
		}
		keys[k] = true
	}
	ks := make([]*Term, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		if born(k, since) {
			delete(H.st.heap, k)
			continue
		}
		h, okh := H.st.heap[k]
		a, oka := A.st.heap[k]
		if okh && oka && h == a {
			continue
		}
		if !okh {
			h = e.defaultLoad(H.st, k, elemType(k))
		}
		if !oka {
			a = e.defaultLoad(A.st, k, elemType(k))
		}
		if h == a {
			continue
		}
		if h == nil || a == nil {
			if okh {
				delete(H.st.heap, k)
				changed = true
				e.why(1, hp, k)
			}
			continue
		}
		k2 := k
		a0 := hp.arr0.st.heap[k]
		if a0 == nil {
			a0 = e.defaultLoad(hp.arr0.st, k, elemType(k))
		}
		typ := elemType(k)
		if typ == nil {
			typ = h.Typ
		}
		prs = append(prs, &pair{key: fmt.Sprintf("h%d", k.ID), h: h, a: a, typ: typ, a0: a0, sum: isSummary(k),
			set: func(t *Term) { H.st.heap[k2] = t }})
	}
	gks := map[string]bool{}
	for k := range H.st.gh {
		gks[k] = true
	}
	for k := range A.st.gh {
		gks[k] = true
	}
	gl := make([]string, 0, len(gks))
	for k := range gks {
		gl = append(gl, k)
	}
	sort.Strings(gl)
	for _, k := range gl {
		h, a := H.st.gh[k], A.st.gh[k]
		if h == a {
			continue
		}
		if h == nil || a == nil {
			if h != nil {
				delete(H.st.gh, k)
				changed = true
				e.why(2, hp, k)
			}
			continue
		}
		k2 := k
		prs = append(prs, &pair{key: "g" + k, h: h, a: a, typ: h.Typ, a0: hp.arr0.st.gh[k],
			set: func(t *Term) { H.st.gh[k2] = t }})
	}
	for c, as := range A.st.chans {
		if born(c, since) {
			continue
		}
		hs := H.st.chans[c]
		for _, x := range as {
			has := false
			for _, y := range hs {
				if x == y || e.nilness(H.st, y) == 1 && e.nilness(A.st, x) == 1 {
					has = true
				}
			}
			if !has && !born(x, since) {
				hs = append(hs[:len(hs):len(hs)], x)
				H.st.chans[c] = hs
				changed = true
				e.why(3, hp, x)
			} else if !has {
				has2 := false
				for _, y := range hs {
					if y.Kind == KSym && strings.HasPrefix(y.Name, "chanval") {
						has2 = true
					}
				}
				if !has2 {
					x = e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("chanval%d.%d.%d", inst, hp.id, c.ID), N: since + 1, Typ: x.Typ, Phi: true, NonNil: e.nilness(A.st, x) == 1})
					hs = append(hs[:len(hs):len(hs)], x)
					H.st.chans[c] = hs
					changed = true
					e.why(4, hp, x)
				}
			}
		}
	}
	// nothing but scalars, pointers: choose symbols
	phi := func(pr *pair, nonnil bool) *Term {
		return e.T.mk(&Term{Kind: KSym, Name: fmt.Sprintf("φ%d.%d.%s", inst, hp.id, pr.key), N: since + 1, Typ: pr.typ, Phi: true, NonNil: nonnil})
	}
	type lead struct {
		pr  *pair
		d   *Term
		phi *Term
	}
	var leads []*lead
	subst := map[*Term]*Term{}  // φ -> A value
	subst0 := map[*Term]*Term{} // φ -> first arrival's value
	var ints []*pair
	for _, pr := range prs {
		isInt := false
		if _, _, ok := intBits(pr.typ); ok {
			isInt = true
		} else if pr.typ == nil {
			_, o1 := pr.h.isInt()
			_, o2 := pr.a.isInt()
			isInt = (o1 || pr.h.Kind == KLin) && (o2 || pr.a.Kind == KLin) || o1 || o2
		}
		if isInt {
			ints = append(ints, pr)
			continue
		}
		if pr.sum && isPtrLike(pr.typ) && hp.joins < 12 {
			pr.set(pr.a)
			changed = true
			e.why(5, hp, pr.key, pr.h, pr.a)
			continue
		}
		nn := e.nilness(H.st, pr.h) == 1 && e.nilness(A.st, pr.a) == 1
		// slices over the same base: only the bounds vary
		if pr.h.Kind == KSlice && pr.a.Kind == KSlice && pr.h.Args[0] == pr.a.Args[0] {
			h, a := pr.h, pr.a
			lo, hi := h.Args[1], h.Args[2]
			st := pr.set
			var a00, a01 *Term
			if pr.a0 != nil && pr.a0.Kind == KSlice {
				a00, a01 = pr.a0.Args[1], pr.a0.Args[2]
			}
			cur := [2]*Term{lo, hi}
			upd := func() { st(e.T.Slice(h.Args[0], cur[0], cur[1], h.Typ)) }
			if lo != a.Args[1] {
				ints = append(ints, &pair{key: pr.key + "lo", h: lo, a: a.Args[1], typ: types.Typ[types.Int], a0: a00, set: func(t *Term) { cur[0] = t; upd() }})
			}
			if hi != a.Args[2] {
				ints = append(ints, &pair{key: pr.key + "hi", h: hi, a: a.Args[2], typ: types.Typ[types.Int], a0: a01, set: func(t *Term) { cur[1] = t; upd() }})
			}
			continue
		}
		f := phi(pr, nn)
		if pr.h != f {
			changed = true
			e.why(6, hp, pr.key, pr.h, f, pr.a)
			pr.set(f)
		}
		subst[f] = pr.a
		if pr.a0 != nil {
			subst0[f] = pr.a0
		}
	}
	ds := map[*pair]*Term{}
	for _, pr := range ints {
		ds[pr] = e.T.Sub(pr.a, pr.h)
	}
	sort.SliceStable(ints, func(i, j int) bool {
		a, oka := ds[ints[i]].isInt()
		b, okb := ds[ints[j]].isInt()
		if oka != okb {
			return oka
		}
		if a < 0 {
			a = -a
		}
		if b < 0 {
			b = -b
		}
		return oka && a < b
	})
	for _, pr := range ints {
		d := ds[pr]
		var nv *Term
		for _, ld := range leads {
			k, ok := ratio(e.T, d, ld.d)
			if !ok {
				continue
			}
			off := e.T.AddScaled(pr.h, ld.pr.h, -k)
			if born(off, since) {
				continue
			}
			nv = e.T.Add(e.T.MulC(ld.phi, k), off)
			break
		}
		if nv == nil {
			f := phi(pr, false)
			leads = append(leads, &lead{pr, d, f})
			nv = f
			subst[f] = pr.a
			if pr.a0 != nil {
				subst0[f] = pr.a0
			}
		}
		if nv != pr.h {
			changed = true
			e.why(7, hp, pr.key, pr.h, nv, pr.a)
			pr.set(nv)
		}
	}
	// facts
	memo, memo0 := map[*Term]*Term{}, map[*Term]*Term{}
	for f, v := range H.st.facts {
		g := e.T.subst(f, subst, memo)
		tv, ok := e.truth(A.st, g)
		if !ok || tv != v {
			delete(H.st.facts, f)
			H.st.leOK = false
			if hp.cands[f] {
				hp.black[f] = true
			}
			if !bornNonPhi(f, since) {
				changed = true
				e.why(8, hp, f, v, e.T.subst(f, subst, memo))
			}
		}
	}
	// candidate facts about the new symbols
	add := func(f *Term, v bool) {
		for f.Kind == KApp && f.Name == "not" {
			f, v = f.Args[0], !v
		}
		if _, isb := f.isBool(); isb || hp.black[f] || hp.joins > 10 {
			return
		}
		if _, have := H.st.facts[f]; have {
			return
		}
		g0 := e.T.subst(f, subst0, memo0)
		if tv, ok := e.truth(hp.arr0.st, g0); !ok || tv != v {
			return
		}
		g := e.T.subst(f, subst, memo)
		if tv, ok := e.truth(A.st, g); !ok || tv != v {
			return
		}
		if tv, ok := e.truth(H.st, f); ok && tv == v {
			return
		}
		H.st.facts[f] = v
		H.st.leOK = false
		hp.cands[f] = true
		changed = true
		e.why(9, hp, f)
	}
	for _, ld := range leads {
		a0 := subst0[ld.phi]
		if a0 == nil {
			continue
		}
		if !born(a0, since) {
			add(e.T.LeInt(a0, ld.phi), true)
			add(e.T.LeInt(ld.phi, a0), true)
		}
		// transport facts about the symbol A's value is an offset of
		x := toLin(ld.pr.a)
		if len(x.m) == 1 {
			for s, c := range x.m {
				if c != 1 {
					continue
				}
				back := map[*Term]*Term{s: e.T.Sub(ld.phi, e.T.Int(x.c))}
				mb := map[*Term]*Term{}
				var fl []*Term
				for f := range A.st.facts {
					if f.Kind == KApp && (f.Name == "le0" || f.Name == "eq0") && f.contains(func(y *Term) bool { return y == s }) {
						fl = append(fl, f)
					}
				}
				sort.Slice(fl, func(i, j int) bool { return fl[i].ID < fl[j].ID })
				for _, f := range fl {
					g := e.T.subst(f, back, mb)
					if bornNonPhi(g, since) {
						continue
					}
					v := A.st.facts[f]
					add(g, v)
				}
			}
		}
	}
	return changed
}

// bornNonPhi: mentions a symbol made in the loop that is not one of its φs
func bornNonPhi(t *Term, since int) bool {
	return t.contains(func(x *Term) bool { return x.Kind == KSym && x.N > since && !x.Phi })
}

// ratio: d == k*l for an integer k?
func ratio(T *Terms, d, l *Term) (int64, bool) {
	if d == l {
		return 1, true
	}
	if a, ok := d.isInt(); ok {
		if b, ok := l.isInt(); ok && b != 0 && a%b == 0 {
			return a / b, true
		}
		return 0, false
	}
	x, y := toLin(d), toLin(l)
	for t, c := range x.m {
		if e, ok := y.m[t]; ok && e != 0 && c%e == 0 {
			k := c / e
			if T.MulC(l, k) == d {
				return k, true
			}
		}
		break
	}
	return 0, false
}

var debugEngine = false

var _ = constant.MakeBool

var whyOn = false

func (e *Engine) why(n int, hp *headPart, a ...interface{}) {
	if whyOn || hp.joins > 40 && debugEngine {
		fmt.Println("CHANGED", n, hp.key, hp.joins, a)
	}
}
