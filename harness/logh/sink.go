package main

import (
	"context"

	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/loglog"
)

// rec is what a handler was given
type rec struct {
	site  spi.LogSite
	event spi.Event
	props []interface{}
	ctx   []interface{} // properties of the event's context at that time
}

// sink records the events, and does something with them afterwards
type sink struct {
	made  int
	got   []rec
	none  bool // no handler
	after func(site *spi.LogSite) func(e *spi.Event)
}

func (s *sink) HandlerOf(site *spi.LogSite) spi.EventHandler {
	s.made++
	if s.none {
		return nil
	}
	kept := *site
	kept.Sample = append([]interface{}(nil), site.Sample...)
	var after func(e *spi.Event)
	if s.after != nil {
		after = s.after(site)
	}
	return spi.FuncEventHandler(func(e *spi.Event) {
		r := rec{site: kept, event: *e, props: append([]interface{}(nil), e.Properties...)}
		if e.Context != nil {
			if lc := spi.GetLogContext(e.Context); lc != nil {
				r.ctx = append([]interface{}(nil), lc.Properties...)
			}
		}
		s.got = append(s.got, r)
		if after != nil {
			after(e)
		}
	})
}

// fanOut gives every event to all the sinks
type fanOut []spi.EventSink

func (f fanOut) HandlerOf(site *spi.LogSite) spi.EventHandler {
	var hs spi.EventHandlers
	for _, s := range f {
		hs = append(hs, s.HandlerOf(site))
	}
	return hs
}

type lines struct{ all [][]byte }

func (c *lines) Write(p []byte) (int, error) {
	c.all = append(c.all, append([]byte(nil), p...))
	return len(p), nil
}

func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

var internalErrors int

// quiet: errors of the logger itself are counted instead of printed
func quiet() {
	internalErrors = 0
	loglog.Error = func(err error) { internalErrors++ }
}

var bg = context.Background()
