package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violation, identified by Key.
type Finding struct {
	Key, Pos, Msg string
	Trace         []string
}

// Rule is the run of one property's analysis.
type Rule struct {
	Rate   int64 // of records buffered by analysed pipes, 0: default
	ID     string
	Tier   string
	P      *Prog
	Dir    string
	engs   []*Engine
	finds  []Finding
	undec  []string
	obls   map[string]int // obligation kind -> instances seen
	sample []string
	fns    map[*ssa.Function]bool
	notes  []string
	start  time.Time
}

type ruleDef struct {
	run  func(r *Rule)
	rule string // the rule applied, in words
}

var ruleTab = map[string]ruleDef{}

func register(id, rule string, f func(r *Rule)) { ruleTab[id] = ruleDef{f, rule} }

func (r *Rule) engine() *Engine {
	e := newEngine(r.P)
	e.NewFrames = true
	r.engs = append(r.engs, e)
	return e
}

// oblige counts one checked obligation.
func (r *Rule) oblige(kind string, sample string) {
	r.obls[kind]++
	if r.obls[kind] <= 3 && sample != "" {
		r.sample = append(r.sample, kind+": "+sample)
	}
}

func (r *Rule) undecided(f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	for _, x := range r.undec {
		if x == m {
			return
		}
	}
	r.undec = append(r.undec, m)
}

// fail records a violation outside of a path.
func (r *Rule) fail(pos token.Pos, key, f string, a ...interface{}) {
	r.add(Finding{Key: key, Pos: r.P.Pos(pos), Msg: fmt.Sprintf(f, a...)})
}

func (r *Rule) add(f Finding) {
	for _, x := range r.finds {
		if x.Key == f.Key && x.Pos == f.Pos {
			return
		}
	}
	r.finds = append(r.finds, f)
}

// failAt records a violation at the end of a path.
func (r *Rule) failAt(st *State, pos token.Pos, key, f string, a ...interface{}) {
	r.add(Finding{Key: key, Pos: r.P.Pos(pos), Msg: fmt.Sprintf(f, a...), Trace: r.trace(st.tr)})
}

func (r *Rule) trace(t *Trace) []string { return r.traceIn(r.P, t) }

func (r *Rule) traceIn(p *Prog, t *Trace) []string {
	var out []string
	for ; t != nil && len(out) < 40; t = t.prev {
		out = append(out, p.Pos(t.pos)+": "+t.what)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// v records a violation on a path while it is explored; kept if the path is.
func (r *Rule) v(ev *Event, key, f string, a ...interface{}) {
	pos := token.NoPos
	if ev.Ins != nil {
		pos = ev.Ins.Pos()
	}
	m := fmt.Sprintf(f, a...)
	for v := ev.St.viols; v != nil; v = v.prev {
		if v.Key == key && v.Pos == r.P.Pos(pos) {
			return
		}
	}
	ev.E.viol(ev.St, key, r.P.Pos(pos), "%s", m)
}

// collect takes over what the engines found.
func (r *Rule) collect() {
	for _, e := range r.engs {
		for _, v := range e.sink {
			r.add(Finding{Key: v.Key, Pos: v.Pos, Msg: v.Msg, Trace: r.traceIn(e.P, v.Tr)})
		}
		for _, t := range e.Trouble {
			r.undecided("%s", t)
		}
		for f := range e.fnsSeen {
			r.fns[f] = true
		}
	}
	sort.SliceStable(r.finds, func(i, j int) bool {
		if r.finds[i].Pos != r.finds[j].Pos {
			return r.finds[i].Pos < r.finds[j].Pos
		}
		return r.finds[i].Key < r.finds[j].Key
	})
}

// run executes fn in e, noting the entry function.
func (r *Rule) run(e *Engine, fn *ssa.Function, st *State, args ...*Term) []Out {
	e.deadlineAt = r.start.Add(ruleBudget())
	return e.Run(fn, st, args)
}

func ruleBudget() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 800 * time.Second
	}
	return 500 * time.Second
}

// need finds an API function or declares the rule undecided.
func (r *Rule) need(pkg, recv, name string) *ssa.Function {
	f := r.P.Fn(pkg, recv, name)
	if f == nil {
		n := name
		if recv != "" {
			n = recv + "." + name
		}
		r.undecided("anchor %s/%s not found", pkg, n)
	}
	return f
}

func retErr(o Out) *Term {
	rs := results(o.ret)
	if len(rs) == 0 {
		return nil
	}
	return rs[len(rs)-1]
}

func hasPfx(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// field address by name
func (e *Engine) fieldNamed(base *Term, t types.Type, name string) (*Term, types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.fieldAddr(base, i, st), st.Field(i).Type()
		}
	}
	return nil, nil
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedName(t types.Type) string {
	t = deref(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func pkgOf(fn *ssa.Function) string {
	p := fnPkgPath(fn)
	p = strings.TrimPrefix(p, modPath)
	return strings.TrimPrefix(p, "/")
}

// broken: a violation has been found already.
func (r *Rule) broken() bool { return len(r.finds) > 0 }
