package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W03", "effect analysis: every file-system operation on every path of OpenIndex, Close, Stats and queries, and every one reachable in the call graph from the index's methods and the reading verbs, is reading, apart from the lock file", ruleW03)
	register("W04", "typestate: at the removal every handle and the lock of the index are closed, and what is removed is the index's own root; call graph: nothing else removes", ruleW04)
}

// rta is reach with interface calls resolved to the types that reached code
// converts to interfaces.
func (p *Prog) rta(roots ...*ssa.Function) []*ssa.Function { return p.rtaExcept(nil, roots...) }

// rtaExcept does not go into the functions of stop.
func (p *Prog) rtaExcept(stop map[*ssa.Function]bool, roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	for f := range stop {
		seen[f] = true
	}
	inst := map[string]types.Type{}
	type inv struct {
		it types.Type
		m  string
	}
	var invs []inv
	var order, stack []*ssa.Function
	push := func(f *ssa.Function) {
		if f == nil {
			return
		}
		f = p.unwrap(f)
		if f.Blocks == nil || !inModule(f) || seen[f] {
			return
		}
		seen[f] = true
		stack = append(stack, f)
	}
	resolve := func(i inv, t types.Type) {
		it, ok := i.it.Underlying().(*types.Interface)
		if !ok || !types.Implements(t, it) {
			return
		}
		ms := p.SSA.MethodSets.MethodSet(t)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == i.m {
				push(p.SSA.MethodValue(ms.At(k)))
			}
		}
	}
	for _, f := range roots {
		push(f)
	}
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		order = append(order, f)
		var ops []*ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch v := (*o).(type) {
					case *ssa.Function:
						push(v)
					case *ssa.MakeClosure:
						push(v.Fn.(*ssa.Function))
					}
				}
				switch x := in.(type) {
				case *ssa.MakeClosure:
					push(x.Fn.(*ssa.Function))
				case *ssa.MakeInterface:
					k := x.X.Type().String()
					if inst[k] == nil {
						inst[k] = x.X.Type()
						for _, i := range invs {
							resolve(i, x.X.Type())
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					i := inv{c.Common().Value.Type(), c.Common().Method.Name()}
					invs = append(invs, i)
					var ks []string
					for k := range inst {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						resolve(i, inst[k])
					}
				}
			}
		}
	}
	return order
}

// mutation classifies a call outside of the module: "" harmless, "?" it
// depends on values not known here, otherwise what it does.
func mutation(c ssa.CallInstruction) string {
	f := c.Common().StaticCallee()
	if f == nil {
		return ""
	}
	n := f.String()
	switch n {
	case "os.Create", "os.CreateTemp", "os.MkdirTemp", "io/ioutil.TempFile", "io/ioutil.TempDir":
		return "creates a file"
	case "os.WriteFile", "io/ioutil.WriteFile":
		return "writes a file"
	case "os.Truncate", "(*os.File).Truncate":
		return "truncates a file"
	case "os.Mkdir", "os.MkdirAll":
		return "creates a directory"
	case "os.Remove", "os.RemoveAll", "syscall.Unlink", "syscall.Rmdir":
		return "removes"
	case "os.Rename", "os.Link", "os.Symlink":
		return "renames or links"
	case "os.Chmod", "os.Chtimes", "os.Chown", "(*os.File).Chmod":
		return "changes attributes"
	case "os.OpenFile":
		k, ok := c.Common().Args[1].(*ssa.Const)
		if !ok || k.Value == nil {
			return "?"
		}
		if k.Int64()&int64(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
			return "opens a file for changing it"
		}
	}
	return ""
}

// fsReadOnly reports the operations that are not reading.
func (r *Rule) fsReadOnly(e *Engine, phase string, lock *Term, ev *Event, op *FsOp) {
	if op == nil {
		return
	}
	if op.Op == "lock" || op.Op == "close" {
		return
	}
	if op.Path != nil && lock != nil && op.Path == lock || inLock(ev.Fr) {
		return
	}
	r.oblige("file operations", fmt.Sprintf("%s: %s %s", phase, op.Op, op.Path))
	switch {
	case op.Op == "open" && !op.FlagsK:
		r.undecided("%s: how %s is opened is not resolved", phase, op.Path)
	case op.Op == "open" && op.Flags&int64(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0:
		r.v(ev, "open", "%s opens %s for changing it", phase, op.Path)
	case op.Op == "mkdir" || op.Op == "mkdirall":
		r.v(ev, op.Op, "%s creates directory %s", phase, op.Path)
	case op.Op != "open" && op.changes():
		if op.Op == "write" && isStd(op.H) {
			return
		}
		if op.H != nil && op.FlagsK && op.Flags&int64(os.O_WRONLY|os.O_RDWR) == 0 {
			return // fails and changes nothing
		}
		r.v(ev, op.Op, "%s: %s of %s", phase, op.Op, op.Path)
	}
}

func isStd(h *Term) bool {
	std := false
	if h != nil {
		h.walk(func(x *Term) bool {
			if x.Kind == KGlobal && strings.Contains(x.String(), "Std") {
				std = true
			}
			return true
		})
	}
	return std
}

func ruleW03(r *Rule) {
	s := r.newSession("OpenIndex")
	if s == nil {
		return
	}
	e := s.e
	e.OneFault, e.NoFault = false, false
	e.NoFail = func(n string) bool { return n == "(*os.File).Close" }
	lock := r.apiPath(e, "LockPath", s.Root)
	phase := "OpenIndex"
	s.on(func(ev *Event, op *FsOp) { r.fsReadOnly(e, phase, lock, ev, op) })
	r.ended(s, s.construct())
	if suc := s.success(); len(suc) > 0 {
		o := suc[0]
		for _, m := range []string{"Close", "Stats"} {
			if r.P.Fn("", "Index", m) == nil {
				continue
			}
			phase = "Index." + m
			_, outs := s.method(o, m)
			r.ended(s, outs)
		}
	} else {
		r.undecided("OpenIndex has no successful outcome")
	}
	// everything else, over the call graph
	var roots []*fnRef
	for _, t := range []string{"Index", "Query", "Doc", "Blot"} {
		for _, f := range r.P.methods("", t) {
			roots = append(roots, &fnRef{f, t + "." + f.Name()})
		}
	}
	if f := r.need("", "", "OpenIndex"); f != nil {
		roots = append(roots, &fnRef{f, "OpenIndex"})
	}
	nv := 0
	for _, f := range r.P.All {
		if pkgOf(f) != "cmd/dupi" || f.Name() != "Run" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		if n := namedName(f.Signature.Recv().Type()); n != "indexCmd" {
			nv++
			roots = append(roots, &fnRef{f, "verb " + n})
		}
	}
	if nv == 0 {
		r.undecided("no reading verbs found in cmd/dupi")
	}
	for _, f := range roots {
		for _, g := range r.P.rta(f.fn) {
			r.fns[g] = true
			if pkgOf(g) == "lock" {
				continue
			}
			if pkgOf(g) == "" && (g.Name() == "IndexerFromConfig" || g.Name() == "CreateIndexer" || g.Name() == "OpenIndexer") {
				r.fail(f.fn.Pos(), "writer:"+f.name, "%s can reach %s", f.name, g.Name())
			}
			for _, c := range r.P.extCalls(g) {
				r.oblige("calls reachable from reading operations", fmt.Sprintf("%s: %s", f.name, c.Common().StaticCallee()))
				switch what := mutation(c); what {
				case "":
				case "?":
					// the engine has seen it with the values of OpenIndex
					if _, seen := e.fnsSeen[g]; !seen {
						r.undecided("%s reaches %s at %s with flags not known", f.name, c.Common().StaticCallee(), r.P.Pos(c.Pos()))
					}
				default:
					r.fail(c.Pos(), "effect:"+c.Common().StaticCallee().String(), "%s can reach %s in %s, which %s", f.name, c.Common().StaticCallee(), shortFn(g), what)
				}
			}
		}
	}
}

func ruleW04(r *Rule) {
	type rm struct{ ctor, fn, typ string }
	for _, w := range []rm{{"OpenIndex", "RemoveIndex", "Index"}, {"IndexerFromConfig", "RemoveIndexer", "Indexer"}, {"OpenIndexer", "RemoveIndexer", "Indexer"}} {
		fn := r.need("", "", w.fn)
		s := r.newSession(w.ctor)
		if s == nil || fn == nil {
			continue
		}
		e := s.e
		on := false
		s.on(func(ev *Event, op *FsOp) {
			s.track(ev, op)
			if op == nil || !on {
				return
			}
			switch op.Op {
			case "remove", "removeall", "rename":
				r.oblige("removals", fmt.Sprintf("%s after %s: %s %s", w.fn, w.ctor, op.Op, op.Path))
				switch {
				case op.Path == nil:
					r.undecided("%s: what is removed is not resolved", w.fn)
				case op.Op == "removeall" && op.Path == s.Root:
					if ev.St.flags["lk"] != "" {
						r.v(ev, "early", "%s removes the index while its lock is held: it is not closed", w.fn)
					}
					for _, h := range s.openHandles(ev.St) {
						r.v(ev, "early", "%s removes the index while %s is open: it is not closed", w.fn, s.hname(ev.St, h))
						break
					}
					if op.OK {
						ev.St.flags["gone"] = "1"
					}
				case op.Op == "removeall" && w.ctor == "OpenIndex" && !resolved(op.Path, s.RootS):
					r.undecided("%s: removes %s, not resolved", w.fn, op.Path)
				default:
					if _, under := e.pathUnder(op.Path, s.Root); under {
						return
					}
					if resolved(op.Path, s.RootS) {
						r.v(ev, "other", "%s: %s of %s, which is not the root of the index (%s)", w.fn, op.Op, op.Path, s.Root)
					} else {
						r.undecided("%s: %s of %s is not resolved", w.fn, op.Op, op.Path)
					}
				}
			default:
				if ev.St.flags["gone"] != "" && op.changes() {
					r.v(ev, "after", "%s: %s of %s after the index was removed", w.fn, op.Op, op.Path)
				}
			}
		})
		s.construct()
		suc := s.success()
		n := 0
		on = true
		for _, o := range suc {
			if o.st.fault != nil {
				continue
			}
			if n++; n > 2 {
				break
			}
			st := o.st.clone()
			st.viols, st.tr = nil, nil
			outs := s.call(fn, st, results(o.ret)[0])
			r.ended(s, outs)
			for _, c := range outs {
				if c.kind != "" {
					continue
				}
				x := e.nilness(c.st, retErr(c))
				if x < 0 && c.st.fault != nil {
					r.failAt(c.st, c.pos, w.fn+":nil", "%s returns nil although a step failed (%s)", w.fn, s.faultName(c.st))
				}
				if x < 0 && c.st.fault == nil && c.st.flags["gone"] == "" {
					r.failAt(c.st, c.pos, w.fn+":left", "%s returns nil without having removed the root of the index", w.fn)
				}
			}
		}
		if n == 0 {
			r.undecided("%s has no successful outcome", w.ctor)
		}
	}
	// nothing else removes
	stop := map[*ssa.Function]bool{}
	for _, n := range []string{"RemoveIndex", "RemoveIndexer"} {
		if f := r.P.Fn("", "", n); f != nil {
			stop[f] = true
		}
	}
	for _, f := range r.P.All {
		if f.Synthetic != "" || f.Parent() != nil || stop[f] {
			continue
		}
		obj, p := f.Object(), pkgOf(f)
		verb := strings.HasPrefix(p, "cmd/")
		if !(obj != nil && obj.Exported() || verb && (f.Name() == "main" || f.Name() == "init")) {
			continue
		}
		if obj != nil && !verb && recvName(f) != "" {
			if rt := f.Signature.Recv(); rt != nil && !exportedType(rt.Type()) {
				continue
			}
		}
		r.oblige("operations that must not remove", shortFn(f))
		for _, g := range r.P.rtaExcept(stop, f) {
			for _, c := range r.P.extCalls(g) {
				if n := c.Common().StaticCallee().String(); mutation(c) == "removes" {
					r.fail(c.Pos(), "removes:"+n, "%s can reach %s in %s", shortFn(f), n, shortFn(g))
				}
			}
		}
	}
}

func exportedType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}
