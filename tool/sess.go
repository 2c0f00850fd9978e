package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// session drives a constructor and later calls on what it returned.
type session struct {
	r     *Rule
	e     *Engine
	Name  string // constructor
	Fn    *ssa.Function
	Root  *Term // absolute root of the index
	RootS *Term // as given
	Cfg   *Term // caller's config, for create
	args  []*Term
	st    *State
	Write bool
	Outs  []Out
	fixed map[string]int64 // fields of decoded configurations
	set   map[string]*Term // fields of given and decoded configurations
	nset  int              // decoded configurations seen

	goInline bool // goroutines started now run where they are started
}

const shardsModelled = 2

// newSession prepares a constructor call. which: IndexerFromConfig,
// CreateIndexer, OpenIndexer, OpenIndex.
func (r *Rule) newSession(which string) *session { return r.newSessionIn(r.engine(), which) }

func (r *Rule) newSessionIn(e *Engine, which string) *session {
	fn := r.need("", "", which)
	if fn == nil {
		return nil
	}
	e.OneFault = true
	e.Unroll = true
	s := &session{r: r, e: e, Name: which, Fn: fn, st: newState(), Write: which != "OpenIndex"}
	str := types.Typ[types.String]
	if which == "IndexerFromConfig" {
		pt := fn.Params[0].Type()
		s.Cfg = e.T.mk(&Term{Kind: KSym, Name: "arg:cfg", Typ: pt, NonNil: true})
		ct := deref(pt)
		for _, f := range []string{"NumShards", "NumShatters"} {
			if a, t := e.fieldNamed(s.Cfg, ct, f); a != nil {
				e.store(s.st, a, e.T.Int(shardsModelled), t)
			} else {
				r.undecided("Config.%s not found", f)
			}
		}
		a, t := e.fieldNamed(s.Cfg, ct, "IndexRoot")
		if a == nil {
			r.undecided("Config.IndexRoot not found")
			return nil
		}
		s.RootS = e.T.mk(&Term{Kind: KSym, Name: "arg:root", Typ: str})
		e.store(s.st, a, s.RootS, t)
		s.args = []*Term{s.Cfg}
	} else {
		s.RootS = e.T.mk(&Term{Kind: KSym, Name: "arg:root", Typ: str})
		for i, p := range fn.Params {
			switch {
			case i == 0:
				s.args = append(s.args, s.RootS)
			case i == 1:
				s.args = append(s.args, e.T.Int(shardsModelled))
			default:
				s.args = append(s.args, e.T.mk(&Term{Kind: KSym, Name: "arg:" + p.Name(), Typ: p.Type()}))
			}
		}
	}
	s.Root = e.absTerm(s.RootS)
	// those the constructors start serve until the index is closed
	e.H.Go = func(ev *Event) string {
		if s.goInline {
			return "inline"
		}
		return "skip"
	}
	return s
}

// fixDecoded makes the number of shards of a decoded configuration concrete.
func (s *session) fixDecoded(ev *Event) {
	if ev.Kind != "call" || !strings.Contains(ev.Name, "encoding/json") || strings.Contains(ev.Name, "Marshal") || strings.Contains(ev.Name, "Encode") {
		return
	}
	e := ev.E
	if n := len(results(ev.Res)); n == 0 || e.nilness(ev.St, results(ev.Res)[n-1]) > 0 {
		return
	}
	for _, a := range ev.Args {
		a = unbox(a)
		if a.Kind != KAlloc && a.Kind != KFieldA && a.Kind != KSym {
			continue
		}
		if namedName(a.Typ) != "Config" {
			continue
		}
		ct := deref(a.Typ)
		for _, f := range []string{"NumShards", "NumShatters", "SeqLen", "BlotConfig.SeqLen", "BlotConfig.Interleave", "DocFlushRate"} {
			v, ok := s.fixed[f]
			if !ok {
				if f != "NumShards" && f != "NumShatters" {
					continue
				}
				v = shardsModelled
			}
			if fa, t := e.fieldPath(a, ct, f); fa != nil {
				e.store(ev.St, fa, e.T.Int(v), t)
			}
		}
		s.nset++
		s.applySettings(ev.St, a, ct)
	}
}

// fieldPath: the address of a field of a field ...
func (e *Engine) fieldPath(a *Term, t types.Type, path string) (*Term, types.Type) {
	for _, g := range strings.Split(path, ".") {
		if a != nil {
			a, t = e.fieldNamed(a, t, g)
		}
	}
	return a, t
}

// applySettings stores the session's settings in a configuration.
func (s *session) applySettings(st *State, a *Term, ct types.Type) {
	for f, v := range s.set {
		fa, t := s.e.fieldPath(a, ct, f)
		if fa == nil {
			s.r.undecided("Config.%s not found", f)
			continue
		}
		s.e.store(st, fa, v, t)
	}
}

// on installs an observer (decoded configurations are fixed first).
func (s *session) on(f func(ev *Event, op *FsOp)) {
	s.e.H.On = func(ev *Event) {
		s.fixDecoded(ev)
		s.joins(ev)
		if f != nil {
			f(ev, fsOp(ev))
		}
	}
}

func (s *session) construct() []Out {
	s.Outs = s.r.run(s.e, s.Fn, s.st, s.args...)
	return s.Outs
}

// success: the outcomes in which the constructor returned an object.
func (s *session) success() []Out {
	var r []Out
	for _, o := range s.Outs {
		if o.kind != "" {
			continue
		}
		er := retErr(o)
		switch s.e.nilness(o.st, er) {
		case -1:
			r = append(r, o)
		}
	}
	return r
}

// method runs a method of the object of outcome o.
func (s *session) method(o Out, name string, args ...*Term) (*ssa.Function, []Out) {
	obj := results(o.ret)[0]
	t := obj.Typ
	tn := "Indexer"
	if !s.Write {
		tn = "Index"
	}
	_ = t
	fn := s.r.need("", tn, name)
	if fn == nil {
		return nil, nil
	}
	st := o.st.clone()
	st.viols = nil
	st.tr = nil
	return fn, s.call(fn, st, append([]*Term{obj}, args...)...)
}

// call runs a function on the object, goroutines it starts included.
func (s *session) call(fn *ssa.Function, st *State, args ...*Term) []Out {
	old := s.goInline
	s.goInline = true
	defer func() { s.goInline = old }()
	return s.r.run(s.e, fn, st, args...)
}

// desc names an outcome for messages.
func (s *session) faultName(st *State) string {
	if st.fault == nil {
		return "no failure"
	}
	n := st.fault.Name
	if i := strings.Index(n, "@"); i > 0 {
		n = n[:i]
	}
	n = strings.TrimPrefix(strings.TrimPrefix(n, "err:"), "rerr:")
	return "failing " + n
}

func openFlag(h *Term) string { return fmt.Sprintf("open:%d", h.ID) }

// track keeps the flags every lock/handle rule uses.
//
//	lk     lock mode held ("", sh, ex)
//	open:h handle h is open
//	mk     the root directory was newly created by this call
func (s *session) track(ev *Event, op *FsOp) {
	if op == nil {
		return
	}
	st := ev.St
	switch op.Op {
	case "open":
		if op.OK && op.H != nil {
			st.flags[openFlag(op.H)] = "1"
		}
	case "close":
		if op.H != nil {
			delete(st.flags, openFlag(op.H))
			if st.flags["lkh"] == fmt.Sprint(op.H.ID) {
				delete(st.flags, "lk")
				delete(st.flags, "lkh")
			}
		}
	case "lock":
		if !op.OK || op.H == nil {
			return
		}
		switch {
		case !op.FlagsK:
			st.flags["lk"] = "?"
		case op.Flags&2 != 0:
			st.flags["lk"] = "ex"
		case op.Flags&1 != 0:
			st.flags["lk"] = "sh"
		case op.Flags&8 != 0:
			delete(st.flags, "lk")
			delete(st.flags, "lkh")
			return
		}
		st.flags["lkh"] = fmt.Sprint(op.H.ID)
	case "mkdir":
		if op.OK && op.Path == s.Root {
			st.flags["mk"] = "1"
		}
	}
}

func (s *session) openHandles(st *State) []*Term {
	var r []*Term
	for k, v := range st.flags {
		if v == "1" && strings.HasPrefix(k, "open:") {
			var id int
			fmt.Sscanf(k, "open:%d", &id)
			r = append(r, s.e.T.all[id-1])
		}
	}
	return r
}

func (s *session) hname(st *State, h *Term) string {
	p := st.heap[s.e.pathKey(h)]
	if p == nil {
		return h.String()
	}
	t := p.String()
	if len(t) > 100 {
		t = t[:100]
	}
	return t
}
