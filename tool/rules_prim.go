package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L03", "for linux, darwin and windows builds of package lock: every path of Lock, LockShared, Unlock and Close from the state New leaves, with every operation failing in turn: mode held at a nil return, waiting mode, handle closed, errors reported", ruleL03)
}

func ruleL03(r *Rule) {
	orig := r.P
	defer func() { r.P = orig }()
	for _, goos := range []string{"linux", "darwin", "windows"} {
		p := orig
		if goos != "linux" {
			q, err := load(orig.Dir, goos)
			if err != nil {
				r.undecided("package lock for %s: %v", goos, err)
				continue
			}
			p = q
		}
		r.P = p
		lockOn(r, goos)
	}
}

func inLoop(ins ssa.Instruction) bool {
	b := ins.Block()
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			st = append(st, x.Succs...)
		}
	}
	return false
}

func lockOn(r *Rule, goos string) {
	newFn := r.need("lock", "", "New")
	if newFn == nil {
		return
	}
	e := r.engine()
	e.OneFault = true
	sess := &session{r: r, e: e}
	var home *Term // the handle New opened
	phase := ""
	var locks, unlocks []string
	e.H.On = func(ev *Event) {
		op := fsOp(ev)
		if op == nil {
			return
		}
		if op.Op == "open" && op.OK && phase == "New" && home == nil {
			home = op.H
		}
		if op.Op == "lock" {
			r.oblige("lock operations", fmt.Sprintf("%s/%s %s flags=%d in %s", goos, phase, ev.Name, op.Flags, shortFn(ev.Fr.Fn)))
			if !op.FlagsK {
				r.undecided("%s: mode of %s in %s is not constant", goos, ev.Name, phase)
			} else if op.Flags&4 != 0 && op.Flags&8 == 0 && !inLoop(ev.Ins) {
				r.v(ev, "nowait:"+phase, "%s: %s asks for the lock without waiting for it", goos, phase)
			}
			if isHandle(op.H) && home != nil && op.H != home {
				r.v(ev, "handle:"+phase, "%s: %s works on another handle than the one New opened", goos, phase)
			}
			if op.H == nil {
				r.undecided("%s: handle of %s in %s is not resolved", goos, ev.Name, phase)
				op.H = home
			}
			if goos == "windows" && len(ev.Args) >= 5 {
				i := len(ev.Args) - 4
				k := fmt.Sprint(ev.Args[i], ev.Args[i+1], ev.Args[i+2])
				if op.Flags&8 != 0 {
					unlocks = append(unlocks, k)
				} else {
					locks = append(locks, k)
				}
				lo, ok1 := ev.Args[i+1].isInt()
				hi, ok2 := ev.Args[i+2].isInt()
				if ok1 && ok2 && lo == 0 && hi == 0 {
					r.v(ev, "range:"+phase, "%s: %s locks no byte", goos, phase)
				}
			}
		}
		sess.track(ev, op)
	}
	str := types.Typ[types.String]
	phase = "New"
	outs := r.run(e, newFn, newState(), e.T.mk(&Term{Kind: KSym, Name: "arg:path", Typ: str}))
	var objs []Out
	for _, o := range outs {
		if o.kind != "" {
			continue
		}
		if e.nilness(o.st, retErr(o)) < 0 {
			if o.st.fault != nil {
				r.failAt(o.st, o.pos, goos+":newnil", "%s: New succeeds although a step failed (%s)", goos, sess.faultName(o.st))
			}
			objs = append(objs, o)
		}
	}
	if len(objs) == 0 {
		r.undecided("%s: no successful path of lock.New", goos)
		return
	}
	obj := results(objs[0].ret)[0]
	step := func(from *State, name string) []Out {
		phase = name
		fn := r.need("lock", "File", name)
		if fn == nil {
			return nil
		}
		st := from.clone()
		st.viols, st.tr, st.fault = nil, nil, nil
		outs := r.run(e, fn, st, obj)
		for _, o := range outs {
			r.oblige("paths", fmt.Sprintf("%s/%s: %s", goos, name, sess.faultName(o.st)))
		}
		return outs
	}
	base := objs[0].st
	check := func(name, want string) *State {
		var held *State
		for _, o := range step(base, name) {
			if o.kind != "" {
				continue
			}
			n := e.nilness(o.st, retErr(o))
			lk := o.st.flags["lk"]
			if n < 0 {
				if o.st.fault != nil && strings.Contains(o.st.fault.Name, "ock") && lk == "" {
					r.failAt(o.st, o.pos, goos+":lost:"+name, "%s: %s returns nil although the lock was refused", goos, name)
				} else if lk != "ex" && lk != want && lk != "?" {
					r.failAt(o.st, o.pos, goos+":mode:"+name, "%s: %s returns nil holding %q instead of %q", goos, name, lk, want)
				} else if o.st.fault == nil {
					held = o.st
				}
			} else if n == 0 && lk == "" {
				r.undecided("%s: result of %s is not resolved", goos, name)
			}
		}
		return held
	}
	ex := check("Lock", "ex")
	sh := check("LockShared", "sh")
	for i, st := range []*State{ex, sh} {
		if st == nil {
			continue
		}
		from := []string{"Lock", "LockShared"}[i]
		for _, o := range step(st, "Unlock") {
			if o.kind != "" {
				continue
			}
			if o.st.flags["lk"] != "" && e.nilness(o.st, retErr(o)) < 0 {
				r.failAt(o.st, o.pos, goos+":unlock:"+from, "%s: Unlock after %s returns nil with the lock still held (%q)", goos, from, o.st.flags["lk"])
			} else if o.st.flags["lk"] != "" && o.st.fault == nil {
				r.failAt(o.st, o.pos, goos+":unlock2:"+from, "%s: Unlock after %s leaves the lock held (%q)", goos, from, o.st.flags["lk"])
			}
		}
		for _, o := range step(st, "Close") {
			if o.kind != "" {
				continue
			}
			if home != nil && o.st.flags[openFlag(home)] != "" {
				r.failAt(o.st, o.pos, goos+":close:"+from, "%s: Close leaves the handle open (%s)", goos, sess.faultName(o.st))
			}
			if o.st.flags["lk"] != "" {
				r.failAt(o.st, o.pos, goos+":closelock:"+from, "%s: Close leaves the lock held (%s)", goos, sess.faultName(o.st))
			}
			if o.st.fault != nil && e.nilness(o.st, retErr(o)) < 0 {
				r.failAt(o.st, o.pos, goos+":closenil:"+from, "%s: Close returns nil although a step failed (%s)", goos, sess.faultName(o.st))
			}
		}
	}
	for _, u := range unlocks {
		for _, l := range locks {
			if u != l {
				r.fail(newFn.Pos(), goos+":ranges", "%s: unlocked range %s is not the locked range %s", goos, u, l)
			}
		}
	}
}
