package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines started by an analysed method run, one after the other, where
// they are started; joins follows which of them the method has waited for: a
// goroutine announces its end by its last send on a channel or
// WaitGroup.Done, and the one who starts it learns of it by receiving from
// that channel or by WaitGroup.Wait.
//
//	gh running      goroutines started whose end was not waited for
//	gh ended:<ch>   of these, those that announced their end on ch

func goFrame(fr *Frame) *Frame {
	for f := fr; f != nil; f = f.Parent {
		if _, ok := f.Site.(*ssa.Go); ok {
			return f
		}
	}
	return nil
}

func (s *session) count(st *State, k string, d int64) int64 {
	n := int64(0)
	if g := st.gh[k]; g != nil {
		n, _ = g.isInt()
	}
	n += d
	if n < 0 {
		n = 0
	}
	if n > 20 {
		n = 20
	}
	if n == 0 {
		delete(st.gh, k)
	} else {
		st.gh[k] = s.e.T.Int(n)
	}
	return n
}

func (s *session) running(st *State) int64 { return s.count(st, "running", 0) }

func (s *session) joins(ev *Event) {
	if s.e.H.Go == nil || ev.St == nil {
		return
	}
	st := ev.St
	ended := func(c *Term) string { return fmt.Sprintf("ended:%d", c.ID) }
	switch ev.Kind {
	case "go":
		if s.goInline {
			s.count(st, "running", 1)
			delete(st.gh, "announced")
		}
	case "send":
		if goFrame(ev.Fr) != nil && ev.Addr != nil {
			st.gh["announced"] = ev.Addr
		} else if ev.Addr != nil {
			s.count(st, fmt.Sprintf("own:%d", ev.Addr.ID), 1)
		}
	case "recv":
		if own := ""; goFrame(ev.Fr) == nil && ev.Addr != nil {
			// what it sent itself is no news of others
			if own = fmt.Sprintf("own:%d", ev.Addr.ID); s.count(st, own, 0) > 0 {
				s.count(st, own, -1)
				return
			}
		}
		if goFrame(ev.Fr) == nil && ev.Addr != nil && s.count(st, ended(ev.Addr), 0) > 0 {
			s.count(st, ended(ev.Addr), -1)
			s.count(st, "running", -1)
		}
	case "leave":
		// nothing of it runs any more, whether anyone waits or not
		if f := goFrame(ev.Fr); f != nil && f == ev.Fr {
			if a := st.gh["announced"]; a != nil {
				s.count(st, ended(a), 1)
			}
			delete(st.gh, "announced")
		}
	case "call":
		switch ev.Name {
		case "(*sync.WaitGroup).Done":
			if goFrame(ev.Fr) != nil {
				st.gh["announced"] = ev.Args[0]
			}
		case "(*sync.WaitGroup).Wait":
			if goFrame(ev.Fr) == nil {
				n := s.count(st, ended(ev.Args[0]), 0)
				s.count(st, ended(ev.Args[0]), -n)
				s.count(st, "running", -n)
			}
		}
	}
}
