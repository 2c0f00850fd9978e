package main

import (
	"fmt"
	"go/token"
)

func init() {
	register("L01", "typestate of the lock along every path of the writing constructors and Close: exclusive lock held at every operation on a data file, at success, and released at every exit of Close", ruleL01)
	register("L02", "typestate of the lock along every path of OpenIndex and Index.Close; call graph of the other methods", ruleL02)
	register("L04", "the path terms of the lock and of every file are one function of the absolute root in all constructors", ruleL04)
	register("L05", "every handle opened on a path to an error return is closed on it; handles of a successful open are closed by Close on every path", ruleL05)
	register("W01", "the root is newly created (os.Mkdir succeeded) before any creating or changing operation below it, on every path", ruleW01)
}

// dataPath: is p a file below the root, other than the configuration?
func (s *session) dataPath(p *Term, cfg *Term) bool {
	if p == nil || p == cfg {
		return false
	}
	_, ok := s.e.pathUnder(p, s.Root)
	return ok
}

func (r *Rule) ended(s *session, outs []Out) {
	for _, o := range outs {
		r.oblige(s.Name+" paths", fmt.Sprintf("%s, %s, ends at %s", s.Name, s.faultName(o.st), r.P.Pos(o.pos)))
	}
}

func ruleL01(r *Rule) {
	for _, which := range []string{"IndexerFromConfig", "CreateIndexer", "OpenIndexer"} {
		s := r.newSession(which)
		if s == nil {
			continue
		}
		e := s.e
		cfg := r.apiPath(e, "Path", s.Root)
		closing := false
		s.on(func(ev *Event, op *FsOp) {
			if op != nil && op.Op != "lock" && op.Op != "stat" && op.Op != "fstat" && op.Op != "close" {
				data := s.dataPath(op.Path, cfg)
				if closing && op.changes() && op.Path != nil && op.Path == cfg {
					data = true
				}
				if data {
					r.oblige("data file operations", fmt.Sprintf("%s %s in %s", op.Op, op.Path, shortFn(ev.Fr.Fn)))
					if lk := ev.St.flags["lk"]; lk != "ex" && lk != "?" {
						what := "without the exclusive lock"
						if closing && lk == "" {
							what = "after the lock was given up"
						} else if lk == "sh" {
							what = "holding only a shared lock"
						}
						r.v(ev, which+":"+op.Op, "%s %s of %s %s", which, op.Op, op.Path, what)
					}
				}
			}
			lk := ev.St.flags["lk"]
			s.track(ev, op)
			if closing && lk != "" && ev.St.flags["lk"] == "" {
				r.oblige("unlocks", which+": "+s.faultName(ev.St))
				if k := s.running(ev.St); k > 0 {
					r.v(ev, which+":running", "Close gives up the lock while %d goroutines it started are not waited for", k)
				}
			}
		})
		e.NoFail = func(n string) bool { return n != "golang.org/x/sys/unix.Flock" }
		outs := s.construct()
		r.ended(s, outs)
		for _, o := range outs {
			if o.kind != "" {
				continue
			}
			er := retErr(o)
			if o.st.fault != nil && e.nilness(o.st, er) < 0 {
				r.failAt(o.st, o.pos, which+":lockerr", "%s succeeds although the lock was not granted (%s)", which, s.faultName(o.st))
			}
			if o.st.fault == nil && e.nilness(o.st, er) < 0 {
				if lk := o.st.flags["lk"]; lk != "ex" && lk != "?" {
					r.failAt(o.st, o.pos, which+":success", "%s succeeds without holding the exclusive lock (mode %q)", which, lk)
				}
			}
		}
		if which == "CreateIndexer" {
			continue // the same object as IndexerFromConfig
		}
		closing = true
		e.NoFail = nil
		suc := s.success()
		if len(suc) > 2 {
			suc = suc[:2]
		}
		for _, o := range suc {
			_, couts := s.method(o, "Close")
			r.ended(s, couts)
			for _, c := range couts {
				if c.kind != "" {
					continue
				}
				if lk := c.st.flags["lk"]; lk != "" {
					r.failAt(c.st, c.pos, which+":closekeeps", "Close of an indexer from %s returns with the lock still held (%s)", which, s.faultName(c.st))
				}
			}
		}
	}
}

func ruleL02(r *Rule) {
	s := r.newSession("OpenIndex")
	if s == nil {
		return
	}
	e := s.e
	s.on(func(ev *Event, op *FsOp) {
		if op != nil && op.Op != "lock" && op.Op != "close" && op.Path != nil {
			if _, under := e.pathUnder(op.Path, s.Root); under {
				r.oblige("index file operations", fmt.Sprintf("%s %s in %s", op.Op, op.Path, shortFn(ev.Fr.Fn)))
				if ev.St.flags["lk"] == "" {
					r.v(ev, "unlocked:"+op.Op, "OpenIndex: %s of %s without holding the lock", op.Op, op.Path)
				}
			}
		}
		s.track(ev, op)
	})
	e.NoFail = func(n string) bool { return n == "(*os.File).Close" }
	outs := s.construct()
	r.ended(s, outs)
	for _, o := range outs {
		if o.kind != "" {
			continue
		}
		if e.nilness(o.st, retErr(o)) < 0 {
			if o.st.fault != nil && hasPfx(o.st.fault.Name, "err:golang.org/x/sys/unix.Flock") {
				r.failAt(o.st, o.pos, "lockerr", "OpenIndex succeeds although the lock was not granted")
			} else if o.st.flags["lk"] == "" {
				r.failAt(o.st, o.pos, "success", "OpenIndex succeeds without holding the lock")
			}
		}
	}
	e.NoFail = nil
	for _, o := range s.success() {
		if o.st.fault != nil {
			continue
		}
		_, couts := s.method(o, "Close")
		r.ended(s, couts)
		for _, c := range couts {
			if c.kind != "" {
				continue
			}
			if c.st.flags["lk"] != "" {
				r.failAt(c.st, c.pos, "closekeeps", "Index.Close returns with the lock still held (%s)", s.faultName(c.st))
			}
			for _, h := range s.openHandles(c.st) {
				r.failAt(c.st, c.pos, "closeleaves", "Index.Close returns with %s still open (%s)", s.hname(c.st, h), s.faultName(c.st))
			}
			if c.st.fault != nil && e.nilness(c.st, retErr(c)) < 0 {
				r.failAt(c.st, c.pos, "closenil", "Index.Close returns nil although a step failed (%s)", s.faultName(c.st))
			}
		}
	}
	// no other operation of the index or of a query gives the lock up
	var from []*fnRef
	for _, f := range r.P.methods("", "Index") {
		if f.Name() != "Close" {
			from = append(from, &fnRef{f, "Index." + f.Name()})
		}
	}
	for _, f := range r.P.methods("", "Query") {
		from = append(from, &fnRef{f, "Query." + f.Name()})
	}
	for _, f := range from {
		r.oblige("methods that keep the lock", f.name)
		for _, c := range r.P.reach(f.fn) {
			if pkgOf(c) == "lock" && (c.Name() == "Unlock" || c.Name() == "Close" || c.Name() == "Lock" || c.Name() == "LockShared") {
				r.fail(f.fn.Pos(), "uses:"+f.name, "%s can reach %s", f.name, shortFn(c))
			}
		}
	}
}

func ruleL04(r *Rule) {
	type pth struct {
		t     string
		which string
		pos   token.Pos
	}
	var locks []pth
	for _, which := range []string{"IndexerFromConfig", "CreateIndexer", "OpenIndexer", "OpenIndex"} {
		s := r.newSession(which)
		if s == nil {
			continue
		}
		e := s.e
		e.NoFault = true
		phase := which
		s.on(func(ev *Event, op *FsOp) {
			if op == nil {
				return
			}
			switch op.Op {
			case "lock":
				if op.Path == nil {
					return
				}
				r.oblige("lock paths", fmt.Sprintf("%s locks %s", phase, op.Path))
				if _, under := e.pathUnder(op.Path, s.Root); under {
					r.v(ev, "lockinside", "%s: the lock file %s lies inside the index directory", phase, op.Path)
				}
				if resolved(op.Path, s.RootS) {
					locks = append(locks, pth{op.Path.String(), phase, ev.Ins.Pos()})
				} else {
					r.undecided("%s: lock path %s is not resolved", phase, op.Path)
				}
			case "open", "mkdir", "mkdirall", "stat", "remove", "removeall", "rename", "truncate":
				if op.Path == nil {
					return
				}
				if op.Op == "remove" || op.Op == "removeall" || op.Op == "rename" {
					for _, l := range locks {
						if l.t == op.Path.String() {
							r.v(ev, "lockremoved", "%s: %s of the lock file", phase, op.Op)
						}
					}
				}
				r.oblige("file paths", fmt.Sprintf("%s: %s %s", phase, op.Op, op.Path))
				if op.Path == s.Root {
					return
				}
				if _, under := e.pathUnder(op.Path, s.Root); under {
					return
				}
				if op.Op == "open" && ev.Fr != nil && inLock(ev.Fr) {
					return // the lock file, judged when it is locked
				}
				if resolved(op.Path, s.RootS) {
					r.v(ev, "outside:"+op.Op, "%s: %s of %s, which is not below the absolute root it was given", phase, op.Op, op.Path)
				} else {
					r.undecided("%s: path %s is not resolved", phase, op.Path)
				}
			}
		})
		outs := s.construct()
		r.ended(s, outs)
		if which != "CreateIndexer" {
			for i, o := range s.success() {
				if i > 1 {
					break
				}
				phase = which + "+Close"
				_, c := s.method(o, "Close")
				r.ended(s, c)
			}
		}
		phase = which
		// the lock must depend on the absolute root only
		want := s.Root.String()
		for _, l := range locks {
			if l.which == which && !containsStr(l.t, want) {
				r.fail(l.pos, "lockroot:"+which, "%s locks %s, which is not derived from the absolute root", which, l.t)
			}
		}
	}
	for i := 1; i < len(locks); i++ {
		if locks[i].t != locks[0].t {
			r.fail(locks[i].pos, "differs", "%s locks %s but %s locks %s", locks[i].which, locks[i].t, locks[0].which, locks[0].t)
		}
	}
	if len(locks) == 0 {
		r.undecided("no lock operation seen")
	}
}

// resolved: the path is built from constants, numbers, and roots (as given,
// made absolute, or remembered in a stored configuration).
func resolved(p, root *Term) bool {
	ok := true
	p.walk(func(x *Term) bool {
		switch x.Kind {
		case KSym:
			if x != root && !isNum(x) {
				ok = false
			}
		case KInit, KHv:
			return false
		case KApp:
			switch x.Name {
			case "cat", "abs", "clean":
			case "itoa":
				return false
			default:
				ok = false
			}
		}
		return true
	})
	return ok
}

func isNum(t *Term) bool { _, _, ok := intBits(t.Typ); return ok }

func inLock(fr *Frame) bool {
	for f := fr; f != nil; f = f.Parent {
		if pkgOf(f.Fn) == "lock" {
			return true
		}
	}
	return false
}

func ruleL05(r *Rule) {
	for _, which := range []string{"IndexerFromConfig", "OpenIndexer", "OpenIndex"} {
		s := r.newSession(which)
		if s == nil {
			continue
		}
		e := s.e
		s.on(func(ev *Event, op *FsOp) { s.track(ev, op) })
		e.NoFail = func(n string) bool { return n == "(*os.File).Close" }
		outs := s.construct()
		r.ended(s, outs)
		for _, o := range outs {
			if o.kind != "" || e.nilness(o.st, retErr(o)) < 0 {
				continue
			}
			if o.st.flags["lk"] != "" {
				r.failAt(o.st, o.pos, which+":lock", "%s returns an error at %s with the lock still held (%s)", which, r.P.Pos(o.pos), s.faultName(o.st))
			}
			for _, h := range s.openHandles(o.st) {
				r.failAt(o.st, o.pos, which+":handle", "%s returns an error with %s still open (%s)", which, s.hname(o.st, h), s.faultName(o.st))
			}
		}
		e.NoFail = nil
		n := 0
		for _, o := range s.success() {
			if o.st.fault != nil {
				continue
			}
			if n++; n > 2 {
				break
			}
			_, couts := s.method(o, "Close")
			r.ended(s, couts)
			for _, c := range couts {
				if c.kind != "" {
					continue
				}
				if c.st.flags["lk"] != "" {
					r.failAt(c.st, c.pos, which+":closelock", "Close after %s leaves the lock held (%s)", which, s.faultName(c.st))
				}
				for _, h := range s.openHandles(c.st) {
					r.failAt(c.st, c.pos, which+":closehandle", "Close after %s leaves %s open (%s)", which, s.hname(c.st, h), s.faultName(c.st))
				}
			}
		}
	}
}

func ruleW01(r *Rule) {
	for _, which := range []string{"IndexerFromConfig", "CreateIndexer"} {
		s := r.newSession(which)
		if s == nil {
			continue
		}
		e := s.e
		e.OneFault = false // the root exists, and a test for something in it fails
		s.on(func(ev *Event, op *FsOp) {
			s.track(ev, op)
			if op == nil || op.Path == nil {
				return
			}
			_, under := e.pathUnder(op.Path, s.Root)
			if !under && op.Path != s.Root {
				return
			}
			bad := op.changes() || op.Op == "open" && op.writable() && op.OK || op.Op == "mkdir" && under || op.Op == "mkdirall" && under || op.Op == "seek"
			if op.Op == "mkdirall" && op.Path == s.Root {
				bad = false
			}
			if !bad {
				return
			}
			r.oblige("operations below the new root", fmt.Sprintf("%s %s in %s", op.Op, op.Path, shortFn(ev.Fr.Fn)))
			if ev.St.flags["mk"] != "1" {
				r.v(ev, which+":"+op.Op, "%s: %s of %s although the root was not newly created by this call", which, op.Op, op.Path)
			}
		})
		e.NoFail = func(n string) bool { return n != "os.Mkdir" && n != "os.MkdirAll" && n != "os.Stat" && n != "os.Lstat" }
		outs := s.construct()
		r.ended(s, outs)
		for _, o := range outs {
			if o.kind != "" {
				continue
			}
			if e.nilness(o.st, retErr(o)) < 0 && o.st.flags["mk"] != "1" {
				r.failAt(o.st, o.pos, which+":exists", "%s succeeds without having created its root directory", which)
			}
		}
	}
}
