package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cli drives one verb of the command: its object is made as the verb table
// does, parsing the flags gives them chosen values.
type cli struct {
	r     *Rule
	e     *Engine
	Verb  string
	Run   *ssa.Function
	recv  *Term
	st    *State
	ptrs  map[string]*Term
	typs  map[string]types.Type
	Flags map[string]*Term // values after parsing
	Args  *Term            // the arguments that are no flags
	over  func(ev *Event) ([]Out, bool)
}

// verbs: the constructor of each verb of the command, by flag set name.
func (r *Rule) verbs() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, fn := range r.P.pkgFuncs("cmd/dupi") {
		if fn.Signature.Recv() != nil || len(fn.Params) != 0 || fn.Signature.Results().Len() != 1 || fn.Parent() != nil {
			continue
		}
		if m := r.runMethod(fn.Signature.Results().At(0).Type()); m == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.String() == "flag.NewFlagSet" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							out[strings.Trim(k.Value.ExactString(), `"`)] = fn
						}
					}
				}
			}
		}
	}
	return out
}

func (r *Rule) runMethod(t types.Type) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	ms := r.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Run" {
			f := r.P.SSA.MethodValue(ms.At(i))
			if f != nil && len(f.Params) == 2 && f.Signature.Results().Len() == 1 {
				return f
			}
		}
	}
	return nil
}

func (r *Rule) newCli(e *Engine, verb string) *cli {
	mk := r.verbs()[verb]
	if mk == nil {
		r.undecided("verb %s not found", verb)
		return nil
	}
	c := &cli{r: r, e: e, Verb: verb, ptrs: map[string]*Term{}, typs: map[string]types.Type{}, Flags: map[string]*Term{}}
	c.Run = r.runMethod(mk.Signature.Results().At(0).Type())
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if c.over != nil {
			if o, ok := c.over(ev); ok {
				return o, ok
			}
		}
		return c.flag(ev)
	}
	for _, o := range r.run(e, mk, newState()) {
		if o.kind == "" {
			c.st, c.recv = o.st, results(o.ret)[0]
		}
	}
	if c.recv == nil {
		r.undecided("verb %s: no object made", verb)
		return nil
	}
	c.st.tr = nil
	return c
}

func (c *cli) flag(ev *Event) ([]Out, bool) {
	e := c.e
	if !strings.HasPrefix(ev.Name, "(*flag.FlagSet).") {
		return nil, false
	}
	done := func(v *Term) ([]Out, bool) {
		return []Out{{st: ev.St, ret: v, pos: ev.Ins.Pos()}}, true
	}
	m := strings.TrimPrefix(ev.Name, "(*flag.FlagSet).")
	switch m {
	case "Int", "Bool", "String", "Float64", "Uint", "Int64", "Uint64", "Duration":
		n, ok := ev.Args[1].isStr()
		if !ok {
			return nil, false
		}
		t := ev.Com.Signature().Results().At(0).Type()
		p := e.T.mk(&Term{Kind: KSym, Name: "flagptr:" + c.Verb + ":" + n, Typ: t, NonNil: true})
		c.ptrs[n], c.typs[n] = p, deref(t)
		e.store(ev.St, p, ev.Args[2], deref(t))
		return done(p)
	case "IntVar", "BoolVar", "StringVar", "Float64Var", "UintVar", "Int64Var", "Uint64Var", "DurationVar":
		n, ok := ev.Args[2].isStr()
		if !ok {
			return nil, false
		}
		t := deref(ev.Com.Signature().Params().At(0).Type())
		c.ptrs[n], c.typs[n] = ev.Args[1], t
		e.store(ev.St, ev.Args[1], ev.Args[3], t)
		return done(nil)
	case "Parse":
		for n, p := range c.ptrs {
			v := c.Flags[n]
			if v == nil {
				v = e.T.mk(&Term{Kind: KSym, Name: "flag:" + c.Verb + ":" + n, Typ: c.typs[n]})
			}
			e.store(ev.St, p, v, c.typs[n])
		}
		ev.St.flags["parsed"] = "1"
		return done(e.T.Nil)
	case "Args":
		if c.Args == nil {
			c.Args = e.T.mk(&Term{Kind: KSym, Name: "flagargs", Typ: ev.Com.Signature().Results().At(0).Type()})
		}
		return done(c.Args)
	case "NArg":
		if c.Args != nil {
			return done(e.T.Len(c.Args))
		}
	}
	return nil, false
}

func (c *cli) run() []Out {
	p := c.Run.Params[1]
	return c.r.run(c.e, c.Run, c.st.clone(), c.recv, c.e.arg("cmdline:"+c.Verb, p.Type()))
}

func (c *cli) names() string {
	var ns []string
	for n := range c.ptrs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return fmt.Sprint(ns)
}

// pkgFuncs: the functions of a package, by position.
func (p *Prog) pkgFuncs(pkg string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.All {
		if pkgOf(f) == pkg && f.Synthetic == "" {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}
