package main

import (
	"context"
	"errors"
	"time"

	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/zzverif/sym"
)

type run struct {
	started, finished bool
	cancelled         bool // the context was cancelled when the handler finished
}

func quietExec() {
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		return recovered
	}
	concurrent.LogInfo = func(event string, properties ...interface{}) {}
}

// handler k: what a started function does
func handler(e *concurrent.UnboundedExecutor, r *[]*run, depth int) func(context.Context) {
	me := &run{}
	*r = append(*r, me)
	k := sym.Choice("handler", sym.Param("kinds", 10))
	return func(ctx context.Context) {
		me.started = true
		defer func() { me.finished = true; me.cancelled = ctx.Err() != nil }()
		switch k {
		case 0: // returns at once
		case 1:
			<-ctx.Done()
		case 2:
			time.Sleep(50 * time.Millisecond)
		case 3:
			time.Sleep(100 * time.Millisecond)
		case 4:
			time.Sleep(250 * time.Millisecond)
		case 5:
			panic("a string")
		case 6:
			panic(concurrent.StopSignal)
		case 7:
			<-ctx.Done()
			panic(errors.New("error"))
		case 8: // a value that can not be compared
			panic([]int{1})
		case 9: // starts another one
			if depth > 0 {
				e.Go(handler(e, r, depth-1))
			}
		}
	}
}

func allFinished(rs []*run) bool {
	for _, r := range rs {
		if !r.finished {
			return false
		}
	}
	return true
}

// Exec: handlers of every kind, then StopAndWaitForever
func Exec() {
	quietExec()
	sym.Flag("maxtime", 30e9)
	e := concurrent.NewUnboundedExecutor()
	n := sym.Choice("n", sym.Param("n", 2)+1)
	var rs []*run
	for i := 0; i < n; i++ {
		h := handler(e, &rs, 1)
		if sym.Choice("same", 2) == 1 {
			start(e, h)
		} else {
			e.Go(h)
		}
	}
	if sym.Choice("stop", 2) == 1 {
		e.Stop()
	}
	if sym.Choice("later", 2) == 1 {
		sym.Advance(int(120 * time.Millisecond))
	}
	e.StopAndWaitForever()
	sym.Assert(allFinished(rs), "every handler started before has finished")
	var seen context.Context
	ok := make(chan bool, 1)
	e.Go(func(ctx context.Context) { seen = ctx; ok <- true })
	<-ok
	sym.Assert(seen.Err() != nil, "the context given to handlers is cancelled")
	e.StopAndWaitForever()
	sym.Reach("checked")
}

func start(e *concurrent.UnboundedExecutor, h func(context.Context)) { e.Go(h) }

// ExecDeadline: a bounded wait
func ExecDeadline() {
	quietExec()
	sym.Flag("maxtime", 30e9)
	e := concurrent.NewUnboundedExecutor()
	n := sym.Choice("n", sym.Param("n", 2)+1)
	var rs []*run
	release := make(chan bool)
	stuck := false
	for i := 0; i < n; i++ {
		if sym.Choice("stuck", 2) == 1 {
			stuck = true
			r := &run{}
			rs = append(rs, r)
			e.Go(func(ctx context.Context) { <-release; r.finished = true })
		} else {
			e.Go(handler(e, &rs, 0))
		}
	}
	d := []time.Duration{0, 40, 150, 260, 1000}[sym.Choice("deadline", 5)] * time.Millisecond
	ctx, cancel := context.WithTimeout(context.Background(), d)
	begin := time.Now()
	e.StopAndWait(ctx)
	took := time.Since(begin)
	if !allFinished(rs) {
		sym.Assert(ctx.Err() != nil, "it returns early only when the deadline has passed")
	}
	if sym.Symbolic() {
		sym.Assert(took <= d, "it does not wait beyond the deadline")
	} else {
		sym.Assert(took <= d+time.Second, "it does not wait beyond the deadline")
	}
	if stuck {
		sym.Assert(ctx.Err() != nil, "a handler is still running")
	}
	cancel()
	close(release)
	e.StopAndWaitForever()
	sym.Assert(allFinished(rs), "every handler has finished")
	sym.Reach("checked")
}
