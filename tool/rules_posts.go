package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func misread(st *State) string {
	for it := st.items; it != nil; it = it.prev {
		if it.Kind == "misread" {
			return it.Name
		}
	}
	return ""
}

type shardAPI struct {
	create, appendTo, serve, closeFn, chanFn, makePost *ssa.Function
	init, readState, next, total                       *ssa.Function
	xt, it                                             types.Type
}

func (r *Rule) shardAPI() *shardAPI {
	const p = "internal/shard"
	a := &shardAPI{
		create: r.need(p, "Indexer", "InitCreate"), appendTo: r.need(p, "Indexer", "InitAppend"),
		serve: r.need(p, "Indexer", "Serve"), closeFn: r.need(p, "Indexer", "Close"), chanFn: r.need(p, "Indexer", "PostChan"),
		init: r.need(p, "Index", "Init"), readState: r.need(p, "Index", "ReadStateFor"), next: r.need(p, "ReadState", "Next"),
		makePost: r.need("post", "", "Make"),
	}
	if a.create == nil || a.appendTo == nil || a.serve == nil || a.closeFn == nil || a.chanFn == nil || a.init == nil || a.readState == nil || a.next == nil || a.makePost == nil {
		return nil
	}
	a.xt = deref(a.create.Signature.Recv().Type())
	a.it = deref(a.init.Signature.Recv().Type())
	return a
}

func isEOF(t *Term) bool {
	return t != nil && strings.Contains(t.String(), "EOF") && !strings.Contains(t.String(), "Unexpected")
}

// script: the queue of values a channel is going to yield.
func script(T *Terms, ch *Term) *Term { return T.App("script", nil, ch) }
