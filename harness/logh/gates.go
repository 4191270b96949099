package main

import (
	"errors"
	"strings"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/zzverif/sym"
	"context"
)

const (
	fTrace = iota
	fDebug
	fInfo
	fWarn
	fError
	fFatal
	fTraceCall
	fDebugCall
	fInfoCall
	fLogAccess // of a context only
	fLog       // of the package only
	nfns
)

var levels = []int{countlog.LevelTrace, countlog.LevelDebug, countlog.LevelInfo, countlog.LevelWarn, countlog.LevelError, countlog.LevelFatal,
	countlog.LevelTrace, countlog.LevelDebug, countlog.LevelInfo, countlog.LevelInfo}

// viaNil: the functions of a context are called with a nil one
var viaNil bool

// call calls the function; level is that of fLog
func call(fn int, ctx *countlog.Context, level int, event string, err error, props []interface{}) error {
	if ctx == nil && !viaNil {
		switch fn {
		case fTrace:
			countlog.Trace(event, props...)
		case fDebug:
			countlog.Debug(event, props...)
		case fInfo:
			countlog.Info(event, props...)
		case fWarn:
			countlog.Warn(event, props...)
		case fError:
			countlog.Error(event, props...)
		case fFatal:
			countlog.Fatal(event, props...)
		case fTraceCall:
			return countlog.TraceCall(event, err, props...)
		case fDebugCall:
			return countlog.DebugCall(event, err, props...)
		case fInfoCall:
			return countlog.InfoCall(event, err, props...)
		case fLog:
			countlog.Log(level, event, props...)
		default:
			sym.Fail("no such function")
		}
		return nil
	}
	switch fn {
	case fTrace:
		ctx.Trace(event, props...)
	case fDebug:
		ctx.Debug(event, props...)
	case fInfo:
		ctx.Info(event, props...)
	case fWarn:
		ctx.Warn(event, props...)
	case fError:
		ctx.Error(event, props...)
	case fFatal:
		ctx.Fatal(event, props...)
	case fTraceCall:
		return ctx.TraceCall(event, err, props...)
	case fDebugCall:
		return ctx.DebugCall(event, err, props...)
	case fInfoCall:
		return ctx.InfoCall(event, err, props...)
	case fLogAccess:
		return ctx.LogAccess(event, err, props...)
	default:
		sym.Fail("no such function")
	}
	return nil
}

func isCall(fn int) bool { return fn >= fTraceCall && fn <= fLogAccess }

// choose a function that exists for the context (or the package), and the level of its events
func choose(ctx bool) (fn, level int) {
	if ctx {
		fn = sym.Choice("fn", fLogAccess+1)
	} else {
		fn = sym.Choice("fn", nfns-1)
		if fn == fLogAccess {
			fn = fLog
		}
	}
	if fn == fLog {
		return fn, sym.IntIn("level", 0, 80)
	}
	return fn, levels[fn]
}

type collector struct{ points []stats.Point }

func (c *collector) Collect(p *stats.Point) { c.points = append(c.points, *p) }

// Gates: every function, minimum level, suppression, error, aggregation
func Gates() {
	quiet()
	out := &sink{}
	countlog.EventWriter = out
	agg := &sink{}
	withStats := false
	aggMode := sym.Choice("agg", 3)
	switch aggMode {
	case 0: // no collector: the default
		countlog.EventAggregator = fanless{agg, stats.NewEventAggregator(stats.EventAggregatorConfig{})}
	case 1:
		countlog.EventAggregator = fanless{agg, stats.NewEventAggregator(stats.EventAggregatorConfig{
			Collector: &collector{}, Executor: func(f func(ctx context.Context)) {}})}
	case 2: // a sink that never wants events
		countlog.EventAggregator = fanless{agg, &sink{none: true}}
	}
	minLevel := countlog.LevelTrace
	if sym.Bool("set") {
		minLevel = sym.IntIn("min", 0, 80)
		countlog.SetMinLevel(minLevel)
	}
	var ctx *countlog.Context
	suppressed := 0
	viaNil = false
	if c := sym.Choice("ctx", 3); c == 2 {
		viaNil = true
	} else if c == 1 {
		ctx = countlog.Ctx(bg)
		if sym.Bool("suppress") {
			suppressed = sym.IntIn("below", 0, 80)
			ctx.SuppressLevelsBelow(suppressed)
		}
	}
	fn, level := choose(ctx != nil || viaNil)
	var err error
	if isCall(fn) && sym.Choice("err", 2) == 1 {
		err = errors.New("failed")
	}
	var props []interface{}
	aggProp := sym.Choice("aggprop", 2) == 1
	if aggProp {
		props = []interface{}{"agg", "counter"}
	}

	enabled := level >= minLevel && level >= suppressed
	if fn == fWarn || fn == fError || fn == fFatal {
		enabled = true
	}
	if err != nil {
		enabled = true
		level = countlog.LevelWarn
		if fn == fLogAccess {
			level = countlog.LevelError
		}
	}
	withStats = aggMode != 2 && (isCall(fn) || aggProp)
	emitted := enabled
	if withStats && level < minLevel+5 && level < countlog.LevelWarn {
		emitted = false
	}
	// what was logged before under this name changes nothing
	switch sym.Choice("prior", sym.Param("prior", 4)) {
	case 1:
		countlog.Warn("event!e", props...)
	case 2:
		countlog.TraceCall("event!e", errors.New("before"), props...)
	case 3:
		countlog.InfoCall("event!e", nil, props...)
		countlog.Log(80, "event!e", props...)
	}
	out.got = nil
	made, aggMade := out.made, agg.made
	for k := 1; k <= 2; k++ {
		ret := call(fn, ctx, level, "event!e", err, props)
		sym.Assert((ret == nil) == (err == nil), "returns nil exactly when it succeeded")
		if !enabled {
			sym.Assert(len(out.got) == 0 && out.made == made && agg.made == aggMade, "a disabled event evaluates no handler and writes nothing")
			continue
		}
		if !emitted {
			sym.Assert(len(out.got) == 0, "a successful or aggregated event below the level for single calls is not written")
			continue
		}
		sym.Assert(len(out.got) == k, "an enabled event is written once")
		e := out.got[k-1].event
		sym.Assert(e.Level == level, "with its own level")
		sym.Assert(e.Error == err || (e.Error != nil && err != nil), "with its error")
	}
	sym.Assert(countlog.ShouldLog(level) == (level >= minLevel), "ShouldLog")
	sym.Assert((countlog.TraceTimer() != 0) == (countlog.LevelTrace >= minLevel), "TraceTimer is 0 exactly when the level is disabled")
	sym.Assert((countlog.DebugTimer() != 0) == (countlog.LevelDebug >= minLevel), "DebugTimer is 0 exactly when the level is disabled")
	sym.Assert((countlog.InfoTimer() != 0) == (countlog.LevelInfo >= minLevel), "InfoTimer is 0 exactly when the level is disabled")
	sym.Reach("checked")
}

// fanless counts the handlers made by another sink
type fanless struct {
	count *sink
	to    spi.EventSink
}

func (f fanless) HandlerOf(site *spi.LogSite) spi.EventHandler {
	f.count.made++
	h := f.to.HandlerOf(site)
	if s, ok := f.to.(*sink); ok && s.none {
		return nil
	}
	return h
}

type badErr struct{}

func (badErr) Error() string { panic("no text") }

type badName struct{}

func (badName) String() string { panic("no name") }

type goodName struct{ s string }

func (n goodName) String() string { return "<" + n.s + ">" }

// CallErrors: what the call functions return
func CallErrors() {
	quiet()
	out := &sink{}
	switch sym.Choice("writer", sym.Param("writers", 3)) {
	case 1:
		out.after = func(site *spi.LogSite) func(e *spi.Event) {
			return func(e *spi.Event) { panic("writer") }
		}
	case 2:
		out.after = func(site *spi.LogSite) func(e *spi.Event) { panic("sink") }
	}
	countlog.EventWriter = out
	if sym.Choice("set", sym.Param("set", 2)) == 1 {
		countlog.SetMinLevel(sym.IntIn("min", 0, 80))
	}
	n := sym.Param("calls", 1)
	for i := 0; i < n; i++ {
		var ctx *countlog.Context
		if sym.Choice("ctx", 2) == 1 {
			ctx = countlog.Ctx(bg)
		}
		fn := fTraceCall + sym.Choice("fn", 3)
		if ctx != nil && fn == fTraceCall && sym.Choice("access", 2) == 1 {
			fn = fLogAccess
		}
		var err error
		text, msg := "", ""
		switch sym.Choice("err", sym.Param("errs", 5)) {
		case 1:
			text = sym.String("text", 2)
			err = errors.New(text)
		case 2: // a text that is like a template
			text = "{k} \x00é"
			err = errors.New(text)
		case 3:
			err = badErr{}
		case 4:
			text = "wrapped"
			err = &wrapped{errors.New("wrapped")}
		}
		event := []string{"a{k}b", "plain", "event!{k", "{missing}é", ""}[sym.Choice("event", sym.Param("events", 5))]
		var props []interface{}
		switch sym.Choice("props", sym.Param("props", 6)) {
		case 1:
			s := string([]byte{sym.ByteIn("p", 'a', 'z')})
			props = []interface{}{"k", s}
			msg = s
		case 2:
			d := sym.IntIn("d", 0, 9)
			props = []interface{}{"k", d}
			msg = string([]byte{'0' + byte(d)})
		case 3:
			props = []interface{}{"k", badName{}}
		case 4:
			props = []interface{}{"x", "y", "k"}
		case 5:
			props = []interface{}{1, nil, "k", goodName{"n"}}
			msg = "<n>"
		}
		var ret error
		_, panicked := sym.Panics(func() { ret = call(fn, ctx, 0, event, err, props) })
		sym.Assert(!panicked, "a logging call never panics")
		if err == nil {
			sym.Assert(ret == nil, "nil when the call succeeded")
			continue
		}
		sym.Assert(ret != nil, "an error when the call failed")
		got := ret.Error()
		sym.ObsStr("text", got)
		sym.Assert(strings.HasSuffix(got, text), "ends with the text of the original error")
		want := event
		if _, bad := err.(badErr); bad {
			continue
		}
		switch {
		case event == "a{k}b" && msg != "":
			want = "a" + msg + "b"
		case event == "plain" || event == "":
		default:
			v, p := sym.Panics(func() { want = msgfmt.Sprintf(event, props...) })
			if p {
				_ = v
				continue
			}
		}
		sym.Assert(len(got) >= len(want)+len(text) && got[:len(want)] == want, "begins with the formatted event message")
	}
	sym.Reach("checked")
}

type wrapped struct{ error }
