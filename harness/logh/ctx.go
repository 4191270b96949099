package main

import (
	"context"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/zzverif/sym"
)

func formatOf(k int) output.Format {
	switch k {
	case 0:
		return &json.JsonFormat{}
	case 1:
		return &hrf.Format{ShowTimestamp: true}
	case 2:
		return &compact.Format{}
	}
	return &printf.Format{Layout: "{level} {message} {timestamp, goTime} {event} {func} {file} {line}"}
}

// one property list; bad: formatting it may panic
func shape(k int) (props []interface{}, bad bool) {
	switch k {
	case 0:
		return nil, false
	case 1:
		return []interface{}{"k", sym.IntIn("int", 0, 9)}, false
	case 2:
		return []interface{}{"k", string([]byte{sym.ByteIn("str", 'a', 'c')})}, false
	case 3:
		return []interface{}{"x", true, "k", uint8(7)}, false
	case 4:
		return []interface{}{"k", badName{}}, true
	case 5:
		return []interface{}{"k"}, false
	case 6:
		return []interface{}{7, "x", nil, 8}, false
	case 7:
		return []interface{}{"k", nil}, false
	case 8:
		return []interface{}{"k", "v", "agg", "counter", "dim", "k"}, false
	case 9:
		return []interface{}{"timer", time.Now().UnixNano()}, false
	case 10:
		return []interface{}{"timer", "soon"}, false
	case 11:
		return []interface{}{"k", []byte{'b'}}, false
	case 12:
		return []interface{}{"k", struct{ A interface{} }{map[string]int{"m": 1}}}, false
	case 13:
		return []interface{}{"agg", 1, "dim", 2}, false
	case 14:
		return []interface{}{"{k", 1, "k}", 2, "k", 3, "k", 4}, false
	case 15:
		return []interface{}{"k", badErr{}}, true
	case 16:
		return []interface{}{"k", "v", "agg", "nosuch"}, false
	case 17: // many
		return []interface{}{"a", 1, "b", 2, "c", 3, "d", 4, "e", 5, "timer", time.Now().UnixNano(), "k", 6}, false
	case 18:
		return []interface{}{"a", 1, "b", 2, "c", 3, "d", 4, "e", 5, "timer", "s", "k", 6}, false
	default:
		return []interface{}{"a", 1, "b", 2, "c", 3, "d", 4, "k", 5, "e", 6}, false
	}
}

const nshapes = 20

// Deliver: histories of events of the same name and any shape, to two writers, one of which may fail
func Deliver() {
	quiet()
	format := formatOf(sym.Choice("format", sym.Param("formats", 4)))
	buf := &lines{}
	real := output.NewEventWriter(output.EventWriterConfig{Format: format, Writer: buf})
	first := &sink{}
	var site *spi.LogSite
	var inner spi.EventHandler
	second := &sink{after: func(s *spi.LogSite) func(e *spi.Event) {
		kept := *s
		kept.Sample = nil
		h := real.HandlerOf(s)
		return func(e *spi.Event) { site = &kept; inner = h; h.Handle(e) }
	}}
	failing := sym.Choice("failing", sym.Param("failing", 4))
	switch failing {
	case 1:
		first.after = func(s *spi.LogSite) func(e *spi.Event) { return func(e *spi.Event) { panic("failing") } }
	case 2: // fails the first time only
		failed := false
		first.after = func(s *spi.LogSite) func(e *spi.Event) {
			return func(e *spi.Event) {
				if !failed {
					failed = true
					panic(badErr{})
				}
			}
		}
	}
	if failing == 3 {
		countlog.EventWriter = fanOut{second, first}
	} else {
		countlog.EventWriter = fanOut{first, second}
	}
	n := 1 + sym.Choice("n", sym.Param("n", 2))
	event := []string{"event {k}", "event!e"}[sym.Choice("event", sym.Param("events", 2))]
	for i := 0; i < n; i++ {
		var ctx *countlog.Context
		viaNil = false
		if c := sym.Choice("ctx", sym.Param("ctx", 3)); c == 2 {
			viaNil = true
		} else if c == 1 {
			ctx = countlog.Ctx(bg)
			if sym.Choice("add", 2) == 1 {
				ctx.Add("ck", i)
			}
		}
		fn := []int{fInfo, fTraceCall, fWarn}[sym.Choice("fn", sym.Param("fns", 2))]
		props, bad := shape(sym.Choice("shape", sym.Param("shapes", nshapes)))
		given := append([]interface{}(nil), props...)
		var err, callErr error
		level := levels[fn]
		if isCall(fn) {
			callErr = &wrapped{context.Canceled}
			level = countlog.LevelWarn
		}
		before := len(buf.all)
		_, panicked := sym.Panics(func() { err = call(fn, ctx, 0, event, callErr, props) })
		_ = err
		sym.Assert(!panicked, "a logging call never panics")
		for j := range props {
			if !bad && j%2 == 0 {
				sym.Assert(props[j] == given[j], "the caller's properties are left alone")
			}
		}
		agg := len(props) == 6
		if agg && !isCall(fn) && level < countlog.LevelInfoCall && level < countlog.LevelWarn {
			continue
		}
		for _, s := range []*sink{first, second} {
			sym.Assert(len(s.got) == i+1, "each writer gets each event exactly once")
			r := s.got[i]
			sym.Assert(r.site.Event == event, "with its own name")
			sym.Assert(r.event.Level == level, "with its own level")
			sym.Assert(r.event.Error == callErr, "with its own error")
			sym.Assert(len(r.props) == len(props), "with all its properties")
			for j := range props {
				if !bad && comparable(props[j]) {
					sym.Assert(r.props[j] == props[j], "with its own properties")
				}
			}
			if ctx == nil {
				sym.Assert(r.ctx == nil, "without the context of another event")
			}
		}
		if bad {
			sym.Assert(len(buf.all)-before <= 1, "never written twice")
			continue
		}
		sym.Assert(len(buf.all) == before+1, "written exactly once")
		// the text does not depend on what was logged before
		e := second.got[i].event
		fresh := *site
		fresh.Sample = given
		want := format.FormatterOf(&fresh).Format(nil, &e)
		sym.ObsInt("lines", len(buf.all))
		sym.Assert(eq(buf.all[before], want), "written as if it was the first event")
		_ = inner
	}
	sym.Reach("checked")
}

func comparable(x interface{}) bool {
	switch x.(type) {
	case []byte, struct{ A interface{} }:
		return false
	}
	return true
}

// Ctx: contexts, what is added to them and what the events see
func Ctx() {
	quiet()
	type key struct{ n int }
	out := &sink{}
	buf := &lines{}
	hr := output.NewEventWriter(output.EventWriterConfig{Format: &hrf.Format{}, Writer: buf})
	countlog.EventWriter = fanOut{out, hr}
	parent := context.WithValue(bg, key{1}, "parent")
	type model struct {
		ctx   *countlog.Context
		props []interface{}
		below int
	}
	ms := []*model{{ctx: countlog.Ctx(parent)}, {ctx: countlog.Ctx(context.Background())}}
	sym.Assert(ms[0].ctx.Value(key{1}) == "parent", "values of the parent are reachable")
	sym.Assert(ms[1].ctx.Value(key{1}) == nil, "values of another context are not")
	n := sym.Param("ops", 4)
	logged := 0
	for i := 0; i < n; i++ {
		m := ms[sym.Choice("which", len(ms))]
		switch sym.Choice("op", 7) {
		case 0:
			v := sym.IntIn("v", 0, 99)
			m.ctx.Add("k", v)
			m.props = append(m.props, "k", v)
		case 1:
			spi.AddLogContext(m.ctx, "a{", "b")
			m.props = append(m.props, "a{", "b")
		case 2: // through a context derived from it
			d := context.WithValue(m.ctx, key{2}, "derived")
			spi.AddLogContext(d, "d", nil)
			m.props = append(m.props, "d", nil)
			sym.Assert(m.ctx.Value(key{2}) == nil, "the derived value is not in the parent")
			sym.Assert(spi.GetLogContext(d) == spi.GetLogContext(m.ctx), "a derived context has the same log context")
		case 3:
			sym.Assert(countlog.Ctx(m.ctx) == m.ctx, "wrapping a logging context again is itself")
			other := countlog.Ctx(context.WithValue(m.ctx, key{3}, "other"))
			sym.Assert(other != m.ctx && other.Value(key{3}) == "other" && other.Value(key{1}) == m.ctx.Value(key{1}), "a context made of a derived one has the values of its parents")
			other.Add("not", "here")
		case 4:
			m.below = []int{0, countlog.LevelInfo, countlog.LevelWarn, countlog.LevelFatal + 1}[sym.Choice("below", 4)]
			m.ctx.SuppressLevelsBelow(m.below)
		default:
			fn := []int{fInfo, fWarn, fDebug}[sym.Choice("fn", 3)]
			call(fn, m.ctx, 0, "event!e", nil, []interface{}{"p", logged})
			if levels[fn] < m.below && fn != fWarn {
				sym.Assert(len(out.got) == logged, "suppressed below the level of the context")
				sym.Reach("suppressed")
				continue
			}
			logged++
			sym.Assert(len(out.got) == logged && len(buf.all) == logged, "logged once")
			r := out.got[logged-1]
			sym.Assert(len(r.ctx) == len(m.props), "exactly the properties added to the context so far")
			for j := range m.props {
				sym.Assert(r.ctx[j] == m.props[j], "exactly the properties added to the context so far, in order")
			}
			var texts []byte
			for j := 0; j < len(m.props); j += 2 {
				texts = append(texts, '\n')
				texts = append(texts, m.props[j].(string)...)
				texts = append(texts, ": "...)
				switch v := m.props[j+1].(type) {
				case int:
					texts = appendInt(texts, v)
				case nil:
					texts = append(texts, "null"...)
				case string:
					texts = append(texts, v...)
				}
			}
			texts = append(texts, "\np: "...)
			texts = appendInt(texts, logged-1)
			line := plain(buf.all[logged-1])
			
			i := 0
			for i < len(line) && line[i] != '\n' {
				i++
			}
			sym.Obs("texts", texts)
			sym.Assert(len(line)-i >= len(texts) && eq(line[i:i+len(texts)], texts), "the human readable text shows them")
			// what is logged without a context, or by another context, does not show them
			countlog.Warn("event!e", "p", 0)
			sym.Assert(out.got[len(out.got)-1].ctx == nil, "not in events of no context")
			out.got = out.got[:logged]
			buf.all = buf.all[:logged]
		}
	}
	sym.Reach("checked")
}

func appendInt(b []byte, v int) []byte {
	if v >= 10 {
		b = append(b, '0'+byte(v/10))
	}
	return append(b, '0'+byte(v%10))
}

// plain removes the terminal colors
func plain(b []byte) []byte {
	var r []byte
	for i := 0; i < len(b); i++ {
		if b[i] == 0x1b && i+1 < len(b) && b[i+1] == '[' {
			for i < len(b) && b[i] != 'm' {
				i++
			}
			continue
		}
		r = append(r, b[i])
	}
	return r
}
