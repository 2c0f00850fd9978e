package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "effect analysis: every store, append, copy, map update and library call on every path of every query operation, with the object it works on traced back to where it was made: by opening the index, in a global, or by the operation itself", ruleC01)
}

// shareRule looks for effects on what one open index shares between its users.
type shareRule struct {
	r    *Rule
	e    *Engine
	ctor *ssa.Function
	op   string
	seen map[string]bool
}

func topFn(f *Frame) *ssa.Function {
	for f != nil && f.Parent != nil {
		f = f.Parent
	}
	if f == nil {
		return nil
	}
	return f.Fn
}

// shared: what a value is part of: "the open index", "global state", "" if it
// belongs to the operation or its caller, "?" if not known.
func (c *shareRule) shared(t *Term) string {
	for i := 0; t != nil && i < 64; i++ {
		switch t.Kind {
		case KFieldA, KIndexA, KInit, KSlice, KIface, KHv:
			// what shared memory holds is shared, and what an operation's
			// own memory holds was put there by it
			t = t.Args[0]
		case KAlloc:
			if topFn(t.Frame) == c.ctor {
				return "the open index"
			}
			return ""
		case KGlobal:
			if strings.HasPrefix(t.Name, "sentinel:") {
				return ""
			}
			return "global state (" + t.Name + ")"
		case KSym:
			if strings.HasPrefix(t.Name, "arg:") {
				return ""
			}
			if topFn(t.Frame) == c.ctor {
				return "the open index"
			}
			return ""
		case KApp:
			switch t.Name {
			case "bufio", "bufiow", "limitreader", "sectionreader", "teereader", "jsonenc", "jsondec", "mapget", "mapelem", "snap":
				t = t.Args[0]
				continue
			}
			return ""
		default:
			return ""
		}
	}
	return "?"
}

func (c *shareRule) report(ev *Event, what string, t *Term) {
	w := c.shared(t)
	if w == "" {
		return
	}
	r := c.r
	if w == "?" {
		r.oblige("effects on unresolved objects", c.op+": "+what)
		if os.Getenv("C01DBG") == "2" {
			fmt.Println("UNRES", what, r.P.Pos(ev.Ins.Pos()), t)
		}
		return
	}
	if ev.St.flags["mutex"] != "" {
		r.undecided("%s %s %s while it holds a mutex", c.op, what, w)
		return
	}
	key := fmt.Sprintf("%s:%s", what, r.P.Pos(ev.Ins.Pos()))
	r.v(ev, key, "%s %s %s (%s)", c.op, what, w, t)
}

func (c *shareRule) on(ev *Event) {
	if c.op == "" {
		return
	}
	r, e := c.r, c.e
	count := func(k string) {
		id := k + r.P.Pos(ev.Ins.Pos())
		if !c.seen[id] {
			c.seen[id] = true
			r.oblige(k, c.op+" "+r.P.Pos(ev.Ins.Pos()))
		}
	}
	switch ev.Kind {
	case "store":
		count("stores")
		c.report(ev, "writes to", ev.Addr)
	case "mapupdate", "mapdelete", "clear":
		count("map updates")
		c.report(ev, "changes a map of", ev.Addr)
	case "append":
		count("appends")
		d := ev.Args[0]
		if d.Kind == KNil {
			return
		}
		if d.Kind == KSlice {
			if n := e.capOf(ev.St, d); n != nil && e.provesEq(ev.St, n, e.T.Len(d)) {
				return
			}
		}
		c.report(ev, "appends in place to a slice of", d)
	case "copy":
		count("copies")
		c.report(ev, "copies into", ev.Args[0])
	case "go":
		count("goroutines")
	case "call":
		c.call(ev, count)
	}
}

func (c *shareRule) call(ev *Event, count func(string)) {
	st := ev.St
	n := ev.Name
	arg := func(i int) *Term {
		if i < len(ev.Args) {
			return unbox(ev.Args[i])
		}
		return nil
	}
	switch {
	case hasPfx(n, "sync.Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"):
		st.flags["mutex"] = "1"
		return
	case hasPfx(n, "sync.Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock"):
		delete(st.flags, "mutex")
		return
	case hasPfx(n, "(*sync.", "sync/atomic.", "(*sync/atomic."):
		// made for concurrent use; what it is used for is not judged.
		count("synchronised operations")
		return
	case n == "(*os.File).ReadAt" || hasPfx(n, "invoke:(io.ReaderAt)", "(*io.SectionReader).ReadAt"):
		count("reads at given positions")
		if b := arg(1); b != nil {
			c.report(ev, "reads into a buffer of", b)
		}
		return
	case n == "(*os.File).Stat" || n == "(*os.File).Name" || n == "(*os.File).Fd":
		return
	}
	if op := fsOp(ev); op != nil && op.H != nil {
		switch op.Op {
		case "read", "seek", "write":
			count("file positions")
			c.report(ev, "uses the file position ("+n+") of a file of", op.H)
			if len(ev.Args) > 1 && (op.Op == "read") {
				c.report(ev, "reads into a buffer of", ev.Args[1])
			}
			return
		}
	}
	for i := range ev.Args {
		a := arg(i)
		if a == nil {
			continue
		}
		if isHandle(handleOf(a)) && hasPfx(n, "(*bufio.", "io.", "invoke:(io.", "encoding/binary.Read", "encoding/json.NewDecoder") {
			if n == "io.NewSectionReader" {
				continue
			}
			count("file positions")
			c.report(ev, "uses the file position ("+n+") of a file of", handleOf(a))
			return
		}
	}
	for _, m := range mutators {
		if strings.HasPrefix(n, m.name) {
			count("library calls that change an argument")
			if a := arg(m.arg); a != nil {
				c.report(ev, "changes ("+n+")", a)
			}
		}
	}
}

// mutators: library functions that change what an argument refers to.
var mutators = []struct {
	name string
	arg  int
}{
	{"(*bytes.Buffer).", 0}, {"(*strings.Builder).", 0}, {"(*math/rand.Rand).", 0}, {"sort.", 0}, {"slices.Sort", 0}, {"slices.Reverse", 0},
	{"encoding/binary.Read", 2}, {"invoke:(hash.Hash", 0}, {"sync/atomic.Add", 0}, {"sync/atomic.Store", 0}, {"sync/atomic.Swap", 0}, {"sync/atomic.CompareAndSwap", 0},
	{"(*sync/atomic.", 0}, {"(*container/list.List).", 0}, {"encoding/json.Unmarshal", 1}, {"(*encoding/json.Decoder).Decode", 1}, {"encoding/binary.Put", 0}, {"(encoding/binary.bigEndian).Put", 1}, {"(encoding/binary.littleEndian).Put", 1},
	{"maps.Copy", 0}, {"(*bufio.Reader).", 0}, {"(*bufio.Writer).", 0}, {"io.ReadFull", 1}, {"io.ReadAtLeast", 1},
}

func (p *Prog) exportedMethods(pkg, typ string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.methods(pkg, typ) {
		if f.Object() != nil && f.Object().Exported() {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func ruleC01(r *Rule) {
	s := r.newSession("OpenIndex")
	if s == nil {
		return
	}
	e := s.e
	c := &shareRule{r: r, e: e, ctor: s.Fn, seen: map[string]bool{}}
	s.on(func(ev *Event, op *FsOp) { c.on(ev) })
	e.OneFault, e.NoFault = false, true
	s.construct()
	var from *Out
	for _, o := range s.success() {
		if o.st.fault == nil {
			o := o
			from = &o
			break
		}
	}
	if from == nil {
		r.undecided("OpenIndex has no successful outcome")
		return
	}
	e.OneFault, e.NoFault = true, false
	obj := results(from.ret)[0]
	e.Peel = 0
	run := func(what string, fn *ssa.Function, st *State, recv *Term) []Out {
		c.op = what
		args := []*Term{recv}
		for i := 1; i < len(fn.Params); i++ {
			p := fn.Params[i]
			args = append(args, e.arg(fmt.Sprintf("%s:%s", what, p.Name()), p.Type()))
		}
		st = st.clone()
		st.viols, st.tr = nil, nil
		outs := s.call(fn, st, args...)
		c.op = ""
		r.oblige("operations", what)
		var ok []Out
		for _, o := range outs {
			if o.kind == "" {
				ok = append(ok, o)
			}
		}
		if len(ok) == 0 {
			r.undecided("%s has no outcome", what)
		}
		if os.Getenv("C01DBG") != "" {
			fmt.Println("OP", what, len(outs))
		}
		return ok
	}
	for _, fn := range r.P.exportedMethods("", "Index") {
		if fn.Name() == "Close" {
			continue
		}
		what := "Index." + fn.Name()
		outs := run(what, fn, from.st, obj)
		if len(outs) == 0 {
			continue
		}
		if len(outs) > 3 {
			outs = outs[:3]
		}
		for _, o := range outs {
			for _, v := range results(o.ret) {
				c.result(s, what, fn, o, v, run)
			}
		}
	}
}

// result: an object an operation returns is used by one goroutine each.
func (c *shareRule) result(s *session, what string, fn *ssa.Function, o Out, v *Term, run func(string, *ssa.Function, *State, *Term) []Out) {
	r, e := c.r, c.e
	u := unbox(v)
	if u.Kind == KClosure || u.Kind == KFunc {
		c.op = "the function " + what + " returns"
		st := o.st.clone()
		var args []*Term
		for i, p := range u.Fn.Params {
			args = append(args, e.arg(fmt.Sprintf("%s:%d", what, i), p.Type()))
		}
		e.RunClosure(u, st, args)
		r.oblige("operations", c.op)
		c.op = ""
		return
	}
	t := v.Typ
	if v.Kind == KIface {
		t = v.Typ
	}
	pt, ok := t.(*types.Pointer)
	if !ok {
		return
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) {
		return
	}
	pkg := strings.TrimPrefix(strings.TrimPrefix(nt.Obj().Pkg().Path(), modPath), "/")
	for _, m := range r.P.exportedMethods(pkg, nt.Obj().Name()) {
		if m.Signature.Recv() == nil {
			continue
		}
		if _, ok := m.Signature.Recv().Type().(*types.Pointer); !ok {
			continue
		}
		name := nt.Obj().Name() + "." + m.Name()
		outs := run(name+" of "+what, m, o.st, u)
		// once more, from what the first call left
		for i, o2 := range outs {
			if i < 2 {
				run(name+" again", m, o2.st, u)
			}
		}
	}
}
