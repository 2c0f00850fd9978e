package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("E03", "error-propagation analysis of the index verb: one failure at a time of a directory walk step, of reading a file, or of a call of the library, on every path over two given paths; no such path may end successfully, and every indexer obtained is closed; analysis of main: a verb's error ends in a failing exit status", ruleE03)
}

// outside: failures that leave no file out.
func outsideIndex(name string) bool {
	for _, p := range []string{"os.UserHomeDir", "os.Getwd", "fmt.", "log.", "github.com/google/gops", "(*os.File).Close"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// knownErr: the path has taken a side that the failure was the end of file.
func endOfFile(st *State, f *Term) bool {
	for t, v := range st.facts {
		if v && len(t.Args) == 2 && t.contains(func(x *Term) bool { return x == f }) {
			for _, a := range t.Args {
				if isEOF(a) {
					return true
				}
			}
		}
	}
	return false
}

func ruleE03(r *Rule) {
	for _, add := range []bool{false, true} {
		if r.broken() {
			return
		}
		indexVerb(r, add)
	}
	if !r.broken() {
		indexMain(r)
	}
}

func indexVerb(r *Rule, add bool) {
	e := r.engine()
	e.OneFault, e.NoFault = false, true
	e.Unroll, e.UnrollMax = true, 8
	cl := r.newCli(e, "index")
	if cl == nil {
		return
	}
	e.OneFault, e.NoFault = true, false
	e.NoFail = outsideIndex
	cl.Flags["a"] = e.T.Bool(add)
	what := "the index verb"
	if add {
		what = "the index verb adding to an index"
	}
	strs := cl.Run.Params[1].Type()
	str := types.Typ[types.String]
	al := e.alloc("cliargs", nil, cl, strs)
	e.resetAlloc(cl.st, al)
	for i := int64(0); i < 2; i++ {
		e.store(cl.st, e.indexAddr(al, e.T.Int(i), str), e.arg(fmt.Sprintf("given%d", i), str), str)
	}
	cl.Args = e.T.mk(&Term{Kind: KSlice, Args: []*Term{al, e.T.Int(0), e.T.Int(2)}, Typ: strs})
	e.H.Opaque = func(fn *ssa.Function, fr *Frame) bool { return pkgOf(fn) == "" }
	failures := map[string]bool{}
	adds, walks := 0, 0
	e.H.On = func(ev *Event) {
		if f := ev.St.fault; f != nil && f.MayEOF && ev.St.flags["eof"] == "" && endOfFile(ev.St, f) {
			ev.St.flags["eof"] = "1"
		}
		if ev.Kind == "walk" {
			walks++
			if ev.St.fault != nil && ev.St.flags["at"] == "" {
				ev.St.flags["at"] = "a step of the directory walk"
			}
		}
		if ev.Kind != "call" {
			return
		}
		if ev.St.fault != nil && ev.St.flags["at"] == "" {
			at := strings.TrimPrefix(ev.Name, modPath) + " at " + r.P.Pos(ev.Ins.Pos())
			ev.St.flags["at"] = at
			failures[at] = true
		}
		if ev.Fn == nil || pkgOf(ev.Fn) != "" {
			return
		}
		switch {
		case recvName(ev.Fn) == "Indexer" && ev.Fn.Name() == "Close":
			delete(ev.St.flags, "indexer")
		case recvName(ev.Fn) == "Indexer" && strings.HasPrefix(ev.Fn.Name(), "Add"):
			adds++
		case ev.Res != nil:
			rs := results(ev.Res)
			sr := ev.Fn.Signature.Results()
			if sr.Len() == 2 && namedName(sr.At(0).Type()) == "Indexer" && e.nilness(ev.St, rs[1]) < 0 {
				ev.St.flags["indexer"] = "1"
			}
		}
	}
	n, ok := 0, 0
	for _, o := range r.run(e, cl.Run, cl.st.clone(), cl.recv, cl.Args) {
		name := o.st.flags["at"]
		if o.st.fault != nil && name == "" {
			name = strings.TrimPrefix(strings.SplitN(strings.TrimPrefix(o.st.fault.Name, "r"), "@", 2)[0], "err:")
			failures[name] = true
		}
		switch o.kind {
		case "":
			if o.st.fault == nil {
				ok++
				if o.st.flags["indexer"] != "" && e.nilness(o.st, retErr(o)) < 0 {
					r.failAt(o.st, o.pos, "unclosed", "%s ends successfully without closing the indexer", what)
				}
				continue
			}
			n++
			if o.st.flags["eof"] != "" || endOfFile(o.st, o.st.fault) {
				continue
			}
			if e.nilness(o.st, retErr(o)) < 0 {
				r.failAt(o.st, o.pos, "success:"+name, "%s ends successfully after a failure of %s", what, name)
			}
		case "exit":
			if o.st.fault == nil {
				continue
			}
			n++
			if k, is := o.ret.isInt(); is && k == 0 {
				r.failAt(o.st, o.pos, "exit:"+name, "%s exits with status 0 after a failure of %s", what, name)
			}
		case "panic":
			if o.st.fault != nil {
				n++
			}
		}
	}
	for f := range failures {
		r.oblige("failures", what+": "+f)
	}
	r.oblige("failing paths", fmt.Sprintf("%s: %d", what, n))
	if n == 0 || ok == 0 || adds == 0 {
		r.undecided("%s: %d failing and %d successful paths, %d documents added, %d walk steps", what, n, ok, adds, walks)
	}
}

// indexMain: an error of a verb gives a failing exit status.
func indexMain(r *Rule) {
	fn := r.need("cmd/dupi", "", "main")
	if fn == nil {
		return
	}
	e := r.engine()
	e.NoFault = true
	runs := 0
	e.H.Override = func(ev *Event) ([]Out, bool) {
		if ev.Com == nil {
			return nil, false
		}
		sg := ev.Com.Signature()
		isRun := strings.HasSuffix(ev.Name, ".Run") && sg.Params().Len() == 1 && sg.Results().Len() == 1 && isErrorType(sg.Results().At(0).Type())
		if isRun {
			runs++
			er := e.T.mk(&Term{Kind: KSym, Name: "verberror", Typ: sg.Results().At(0).Type(), NonNil: true})
			ev.St.fault = er
			ev.St.note(ev.Ins.Pos(), "the verb returns an error")
			return []Out{{st: ev.St, ret: er, pos: ev.Ins.Pos()}}, true
		}
		return nil, false
	}
	n := 0
	for _, o := range r.run(e, fn, newState()) {
		if o.st.fault == nil {
			continue
		}
		n++
		k, is := int64(1), true
		switch o.kind {
		case "exit":
			k, is = o.ret.isInt()
		case "":
			k = 0
		}
		if is && k == 0 {
			r.failAt(o.st, o.pos, "main", "the command ends with a successful status although its verb returned an error")
		}
	}
	r.oblige("ends of main after an error", fmt.Sprint(n))
	if runs == 0 || n == 0 {
		r.undecided("main: running a verb is not found")
	}
}
