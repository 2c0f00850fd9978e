package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fnRef struct {
	fn   *ssa.Function
	name string
}

func containsStr(a, b string) bool { return strings.Contains(a, b) }

// methods: the exported methods declared on pkg.T.
func (p *Prog) methods(pkg, typ string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.All {
		if pkgOf(f) != pkg || f.Synthetic != "" || f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		if namedName(f.Signature.Recv().Type()) != typ || !f.Object().Exported() {
			continue
		}
		r = append(r, f)
	}
	return r
}

// callees: module functions fn may call or hand out, dynamic calls through
// interfaces resolved to every module type with the method, function values
// to every function referred to.
func (p *Prog) callees(fn *ssa.Function) []*ssa.Function {
	set := map[*ssa.Function]bool{}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				switch v := (*o).(type) {
				case *ssa.Function:
					set[p.unwrap(v)] = true
				case *ssa.MakeClosure:
					set[p.unwrap(v.Fn.(*ssa.Function))] = true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				set[p.unwrap(mc.Fn.(*ssa.Function))] = true
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				m := c.Common().Method
				for _, f := range p.All {
					if f.Signature.Recv() != nil && f.Name() == m.Name() && f.Synthetic == "" {
						if it, ok := c.Common().Value.Type().Underlying().(*types.Interface); ok {
							rt := f.Signature.Recv().Type()
							if types.Implements(rt, it) || types.Implements(types.NewPointer(deref(rt)), it) {
								set[f] = true
							}
						}
					}
				}
			}
		}
	}
	var r []*ssa.Function
	for f := range set {
		if f != nil && f.Blocks != nil && inModule(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (p *Prog) unwrap(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			if x := p.SSA.FuncValue(o); x != nil {
				return x
			}
		}
	}
	return f
}

// reach: every module function reachable from fn, fn included.
func (p *Prog) reach(fns ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	stack := append([]*ssa.Function{}, fns...)
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if f == nil || seen[f] {
			continue
		}
		seen[f] = true
		r = append(r, f)
		stack = append(stack, p.callees(f)...)
	}
	return r
}

// extCalls: calls of functions outside of the module in fn.
func (p *Prog) extCalls(fn *ssa.Function) []ssa.CallInstruction {
	var r []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && !inModule(f) {
					r = append(r, c)
				}
			}
		}
	}
	return r
}
