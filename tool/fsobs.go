package main

import (
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FsOp is one file-system operation seen on a path.
type FsOp struct {
	Op     string // open read write writeat seek stat truncate close mkdir mkdirall remove removeall rename lock fstat
	H      *Term  // handle, if on an open file
	Path   *Term  // path term, if known
	Flags  int64
	FlagsK bool
	Args   []*Term
	OK     bool // did it succeed
	Err    *Term
}

// handleOf finds the os.File behind wrappers.
func handleOf(t *Term) *Term {
	for i := 0; i < 8 && t != nil; i++ {
		switch {
		case t.Kind == KIface:
			t = t.Args[0]
		case t.Kind == KApp && (t.Name == "bufio" || t.Name == "bufiow" || t.Name == "limitreader" || t.Name == "sectionreader" || t.Name == "teereader" || t.Name == "jsonenc" || t.Name == "jsondec"):
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

func isHandle(t *Term) bool {
	return t != nil && t.Kind == KSym && strings.HasPrefix(t.Name, "file") && strings.Contains(t.Name, "@")
}

// fsOp describes ev if it is a file-system operation.
func fsOp(ev *Event) *FsOp {
	if ev.Kind != "call" {
		return nil
	}
	e := ev.E
	op := &FsOp{}
	rs := results(ev.Res)
	op.OK = true
	if n := len(rs); n > 0 {
		if x := e.nilness(ev.St, rs[n-1]); x > 0 && ev.Com != nil {
			sr := ev.Com.Signature().Results()
			if sr.Len() > 0 && isErrorType(sr.At(sr.Len()-1).Type()) {
				op.OK = false
				op.Err = rs[n-1]
			}
		}
	}
	path := func(t *Term) { op.Path = t }
	hd := func(t *Term) {
		op.H = handleOf(t)
		op.Path = ev.St.heap[e.pathKey(op.H)]
		if f := ev.St.heap[e.flagsKey(op.H)]; f != nil {
			op.Flags, op.FlagsK = f.isInt()
		}
	}
	n := ev.Name
	if strings.HasPrefix(n, "invoke:(io.") || strings.HasPrefix(n, "invoke:(io/fs.File)") {
		if !isHandle(handleOf(ev.Args[0])) {
			return nil
		}
		n = "(*os.File)" + n[strings.LastIndex(n, "."):]
	}
	switch n {
	case "os.OpenFile":
		op.Op = "open"
		path(ev.Args[0])
		op.Flags, op.FlagsK = ev.Args[1].isInt()
		if op.OK && len(rs) > 0 {
			op.H = rs[0]
		}
	case "(*os.File).Read", "(*os.File).ReadAt", "io.ReadFull", "io.ReadAll", "(*os.File).ReadByte", "io.ReadAtLeast":
		op.Op = "read"
		hd(ev.Args[0])
	case "(*bufio.Reader).Read", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "encoding/binary.ReadUvarint", "encoding/binary.ReadVarint", "encoding/binary.Read", "(*encoding/json.Decoder).Decode":
		op.Op = "read"
		hd(ev.Args[0])
		if !isHandle(op.H) {
			return nil
		}
	case "io.Copy", "io.CopyN":
		op.Op = "write"
		hd(ev.Args[0])
		if !isHandle(op.H) {
			return nil
		}
	case "(*os.File).Write", "(*os.File).WriteString":
		op.Op = "write"
		hd(ev.Args[0])
	case "(*os.File).WriteAt":
		op.Op = "writeat"
		hd(ev.Args[0])
	case "io.WriteString", "encoding/binary.Write", "invoke:(io.Writer).Write", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "(*bufio.Writer).Flush", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte":
		op.Op = "write"
		hd(ev.Args[0])
		if !isHandle(op.H) {
			return nil
		}
	case "(*os.File).Seek":
		op.Op = "seek"
		hd(ev.Args[0])
	case "(*os.File).Stat":
		op.Op = "fstat"
		hd(ev.Args[0])
	case "(*os.File).Truncate":
		op.Op = "truncate"
		hd(ev.Args[0])
	case "(*os.File).Close":
		op.Op = "close"
		hd(ev.Args[0])
	case "(*os.File).Sync", "(*os.File).Chmod":
		op.Op = "sync"
		hd(ev.Args[0])
	case "os.Mkdir":
		op.Op = "mkdir"
		path(ev.Args[0])
	case "os.MkdirAll":
		op.Op = "mkdirall"
		path(ev.Args[0])
	case "os.Remove":
		op.Op = "remove"
		path(ev.Args[0])
	case "os.RemoveAll":
		op.Op = "removeall"
		path(ev.Args[0])
	case "os.Truncate":
		op.Op = "truncate"
		path(ev.Args[0])
	case "os.Rename", "os.Link", "os.Symlink":
		op.Op = "rename"
		path(ev.Args[0])
		op.Args = ev.Args
	case "os.Stat", "os.Lstat":
		op.Op = "stat"
		path(ev.Args[0])
	case "os.Chmod", "os.Chtimes", "os.Chown", "os.Lchown":
		op.Op = "sync"
		path(ev.Args[0])
	case "os.ReadDir", "io/ioutil.ReadDir":
		op.Op = "stat"
		path(ev.Args[0])
	case "golang.org/x/sys/unix.Flock":
		op.Op = "lock"
		ev.Args[0].walk(func(x *Term) bool {
			if x.Kind == KApp && x.Name == "fd" {
				hd(x.Args[0])
			}
			return true
		})
		op.Flags, op.FlagsK = ev.Args[1].isInt()
	case "golang.org/x/sys/windows.LockFileEx", "golang.org/x/sys/windows.UnlockFileEx":
		op.Op = "lock"
		ev.Args[0].walk(func(x *Term) bool {
			if x.Kind == KApp && x.Name == "fd" {
				hd(x.Args[0])
			}
			return true
		})
		if n == "golang.org/x/sys/windows.UnlockFileEx" {
			op.Flags, op.FlagsK = 8, true
			break
		}
		w, k := ev.Args[1].isInt()
		op.FlagsK = k
		op.Flags = 1
		if w&2 != 0 {
			op.Flags = 2
		}
		if w&1 != 0 {
			op.Flags |= 4
		}
	default:
		return nil
	}
	op.Args = ev.Args
	return op
}

// opens for changing
func (o *FsOp) creates() bool {
	return o.Op == "open" && (!o.FlagsK || o.Flags&int64(os.O_CREATE|os.O_TRUNC) != 0)
}
func (o *FsOp) truncs() bool {
	return o.Op == "open" && (!o.FlagsK || o.Flags&int64(os.O_TRUNC) != 0) || o.Op == "truncate"
}
func (o *FsOp) writable() bool {
	return o.Op == "open" && (!o.FlagsK || o.Flags&int64(os.O_WRONLY|os.O_RDWR) != 0)
}

// changes: does the operation change what is stored?
func (o *FsOp) changes() bool {
	switch o.Op {
	case "write", "writeat", "truncate", "remove", "removeall", "rename":
		return true
	case "open":
		return o.creates()
	}
	return false
}

// pathUnder: is p = root "/" ...?  (rest, true)
func (e *Engine) pathUnder(p, root *Term) (*Term, bool) {
	if p == nil || p.Kind != KApp || p.Name != "cat" || len(p.Args) < 2 || p.Args[0] != root {
		return nil, false
	}
	s, ok := p.Args[1].isStr()
	if !ok || !strings.HasPrefix(s, "/") || strings.HasPrefix(s, "/../") {
		return nil, false
	}
	var rest []*Term
	rest = append(rest, e.T.Str(s[1:]))
	rest = append(rest, p.Args[2:]...)
	return e.T.Cat(rest...), true
}

// apiPath runs a path method of Config (exported) on a config whose
// IndexRoot is root, with the given further arguments.
func (r *Rule) apiPath(e *Engine, method string, root *Term, args ...*Term) *Term {
	fn := r.P.Fn("", "Config", method)
	if fn == nil {
		return nil
	}
	st := newState()
	var recv *Term
	rt := fn.Signature.Recv().Type()
	ct := deref(rt)
	a := e.T.mk(&Term{Kind: KSym, Name: "apicfg", Typ: rt, NonNil: true})
	f, ft := e.fieldNamed(a, ct, "IndexRoot")
	if f == nil {
		return nil
	}
	e.store(st, f, root, ft)
	recv = a
	if ct == rt {
		recv = e.load(st, a, ct)
	}
	h := e.H
	e.H = Hooks{}
	outs := e.runFn(st, e.frame(nil, nil, fn), fn, append([]*Term{recv}, args...), nil)
	e.H = h
	if len(outs) != 1 {
		return nil
	}
	return outs[0].ret
}

func callerOutside(fr *Frame) *ssa.Function {
	if fr == nil {
		return nil
	}
	return fr.Fn
}
