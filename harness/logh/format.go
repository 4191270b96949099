package main

import (
	"errors"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/zzverif/sym"
)

// val is a value of some type, its text in a message, and its json (nil: a string of these bytes)
func val(tag string, kinds int) (v interface{}, text []byte, js []byte) {
	switch sym.Choice(tag, kinds) {
	case 0:
		b := sym.Bytes(tag+"s", sym.Param("vlen", 2))
		for _, c := range b {
			sym.Assume(c != 0x1b)
		}
		return string(b), b, nil
	case 1:
		d := sym.IntIn(tag+"i", 0, 9)
		t := []byte{'0' + byte(d)}
		return d, t, t
	case 2:
		return nil, []byte("null"), []byte("null")
	case 3:
		return goodName{"n"}, []byte("<n>"), []byte(`{}`)
	case 4:
		return []byte{'b', 'y'}, []byte("by"), nil
	case 5:
		return true, []byte("true"), []byte("true")
	case 6:
		t := []byte(`{"A":1,"B":["x"]}`)
		return struct {
			A int
			B []string
		}{1, []string{"x"}}, t, t
	case 7:
		return errors.New("q\"e"), []byte(`"q\"e"`), []byte(`"q\"e"`)
	case 8:
		x := 5
		return &x, []byte("5"), []byte("5")
	default:
		return map[string]int{"m": 1}, []byte(`{"m":1}`), []byte(`{"m":1}`)
	}
}

type prop struct {
	key      []byte
	text, js []byte
}

// properties with arbitrary or equal keys
func properties(tag string, max, kinds int, list []interface{}) ([]interface{}, []prop) {
	n := sym.Choice(tag+"n", max+1)
	var ps []prop
	for i := 0; i < n; i++ {
		var k []byte
		switch sym.Choice(tag+"key", 3) {
		case 0:
			k = []byte("k")
		case 1:
			k = sym.Bytes(tag+"k", 1)
			sym.Assume(k[0] != 0x1b && k[0] != 'w')
		case 2:
			k = []byte("{k}, \"é")
		}
		v, text, js := val(tag+"v", kinds)
		list = append(list, string(k), v)
		ps = append(ps, prop{k, text, js})
	}
	return list, ps
}

var allLevels = []int{countlog.LevelTraceCall, countlog.LevelTrace, countlog.LevelDebugCall, countlog.LevelDebug, countlog.LevelInfoCall,
	countlog.LevelInfo, countlog.LevelWarn, countlog.LevelError, countlog.LevelFatal}

var levelNames = []string{"TRACE", "TRACE", "DEBUG", "DEBUG", "INFO", "INFO", "WARN", "ERROR", "FATAL"}

// an event with everything
type all struct {
	name      []byte // as given
	msg, call []byte // as formatted; "callee!" events are called a call by some formats
	level     int
	levelName string
	err       []byte
	props     []prop
	ctx       []prop
	site      *spi.LogSite
	event     *spi.Event
	location  []byte
	file      []byte
}

func anEvent(maxProps, kinds, maxCtx int) *all {
	a := &all{}
	lv := sym.Choice("level", sym.Param("levels", len(allLevels)))
	a.level, a.levelName = allLevels[len(allLevels)-1-lv], levelNames[len(allLevels)-1-lv]
	var list []interface{}
	list, a.props = properties("p", maxProps, kinds, nil)
	plainName := sym.Bytes("name", sym.Param("name", 1))
	for _, c := range plainName {
		sym.Assume(c != '{' && c != 0x1b)
	}
	switch sym.Choice("event", sym.Param("events", 4)) {
	case 0:
		a.name = append([]byte("event!"), plainName...)
		a.msg = plainName
		a.call = plainName
	case 1:
		a.name = append([]byte("callee!"), plainName...)
		a.msg = plainName
		a.call = append([]byte("call "), plainName...)
	case 2:
		a.name = append([]byte("m"), plainName...)
		a.msg = a.name
		a.call = a.name
	case 3:
		list = append(list, "w", "W")
		a.props = append(a.props, prop{[]byte("w"), []byte("W"), []byte(`"W"`)})
		a.name = append([]byte("m{w}"), plainName...)
		a.msg = append([]byte("mW"), plainName...)
		a.call = a.msg
	}
	a.file = append([]byte("dir\\a\""), sym.Bytes("file", sym.Param("file", 1))...)
	sym.Assume(a.file[len(a.file)-1] != 0x1b)
	a.site = &spi.LogSite{Func: "pkg.(*T).F", File: string(a.file), Line: 17, Event: string(a.name), Sample: list}
	a.location = append(append([]byte("pkg.(*T).F @ "), a.file...), ":17"...)
	a.event = &spi.Event{Level: a.level, Properties: list, Timestamp: time.Unix(1600000000+int64(sym.Choice("t", sym.Param("times", 2))), 123456789).UTC()}
	if sym.Choice("err", sym.Param("errs", 2)) == 1 {
		a.err = sym.Bytes("errtext", 1)
		sym.Assume(a.err[0] != 0x1b)
		a.event.Error = errors.New(string(a.err))
	}
	switch sym.Choice("ctx", 2+maxCtx) {
	case 0:
	case 1:
		a.event.Context = bg
	default:
		c := countlog.Ctx(bg)
		var l []interface{}
		l, a.ctx = properties("c", maxCtx, kinds, nil)
		for i := 0; i < len(l); i += 2 {
			c.Add(l[i].(string), l[i+1])
		}
		a.event.Context = c
	}
	return a
}

// format it after something that is in the buffer already, twice with the same formatter
func formatted(f output.Format, a *all) []byte {
	fm := f.FormatterOf(a.site)
	pre := []byte("xy")
	r := fm.Format(append(make([]byte, 0, 4+60*sym.Choice("room", sym.Param("room", 2))), pre...), a.event)
	sym.Assert(len(r) >= 2 && r[0] == 'x' && r[1] == 'y', "what is in the buffer before is kept")
	r2 := fm.Format(nil, a.event)
	sym.Assert(eq(r[2:], r2), "the same each time")
	return r2
}

func Json() {
	a := anEvent(sym.Param("props", 2), sym.Param("kinds", 10), 0)
	out := formatted(&json.JsonFormat{}, a)
	sym.Obs("out", out)
	i := 0
	lit := func(s string) {
		sym.Assert(len(out)-i >= len(s) && string(out[i:i+len(s)]) == s, "a json object of the event's members")
		i += len(s)
	}
	str := func(want []byte, msg string) {
		d, e := jsonString(out, i)
		sym.Assert(e > 0, "a json string")
		sym.Assert(eq(d, want), msg)
		i = e
	}
	lit(`{"event":`)
	str(a.name, "the event name")
	for _, p := range a.props {
		lit(",")
		str(p.key, "the key of the property")
		lit(":")
		if p.js == nil {
			str(p.text, "the value of the property")
		} else {
			lit(string(p.js))
		}
	}
	lit(`,"timestamp":`)
	if a.event.Timestamp.Unix()%10 == 0 {
		lit("1600000000123456789")
	} else {
		lit("1600000001123456789")
	}
	lit(`,"location":`)
	str(a.location, "the location")
	lit("}\n")
	sym.Assert(i == len(out), "nothing after it")
	for _, c := range out[:len(out)-1] {
		sym.Assert(c != '\n', "one line")
	}
	sym.Reach("checked")
}

func Hrf() {
	a := anEvent(sym.Param("props", 1), sym.Param("kinds", 10), sym.Param("ctx", 1))
	show := sym.Choice("show", 2) == 1
	out := plain(formatted(&hrf.Format{ShowTimestamp: show}, a))
	sym.Obs("out", out)
	w := append([]byte("["+a.levelName+"] "), a.msg...)
	if show {
		w = append(w, "\ntimestamp: 12:26:40.123"...)
		if a.event.Timestamp.Unix()%10 == 1 {
			w[len(w)-5]++
		}
	}
	if a.err != nil {
		w = append(append(w, "\nerror: "...), a.err...)
	}
	for _, p := range append(append([]prop(nil), a.ctx...), a.props...) {
		w = append(append(append(append(w, '\n'), p.key...), ": "...), p.text...)
	}
	if a.level >= countlog.LevelWarn {
		w = append(append(w, "\nlocation: "...), a.location...)
	}
	w = append(w, '\n')
	sym.Assert(eq(out, w), "level, message, timestamp, error, properties of context and call, location")
	sym.Reach("checked")
}

func Compact() {
	a := anEvent(sym.Param("props", 2), sym.Param("kinds", 10), 0)
	out := formatted(&compact.Format{}, a)
	sym.Obs("out", out)
	w := append([]byte("["+a.levelName+"] ["), a.event.Timestamp.Format(time.RFC3339)...)
	w = append(append(append(w, "]["...), a.location...), "] "...)
	w = append(w, a.call...)
	if a.err != nil {
		w = append(append(w, " error:"...), a.err...)
	}
	for _, p := range a.props {
		w = append(append(append(append(w, "||"...), p.key...), '='), p.text...)
	}
	w = append(w, '\n')
	sym.Assert(eq(out, w), "level, timestamp, location, message, error, properties")
	sym.Reach("checked")
}

func Printf() {
	a := anEvent(sym.Param("props", 2), sym.Param("kinds", 10), 0)
	out := formatted(&printf.Format{Layout: "{level}|{message}|{timestamp, goTime}|{event}|{func}|{file}|{line}"}, a)
	sym.Obs("out", out)
	name := a.msg
	if len(a.name) > 6 && (string(a.name[:6]) == "event!" || string(a.name[:6]) == "callee") {
		name = a.name
	}
	var w []byte
	for _, part := range [][]byte{[]byte(a.levelName), name, []byte(a.event.Timestamp.Format(time.RFC3339)), a.name, []byte("pkg.(*T).F"), a.file} {
		w = append(append(w, part...), '|')
	}
	w = append(w, "17\n"...)
	sym.Assert(eq(out, w), "the layout with everything replaced")
	sym.Reach("checked")
}

// Timer: a property called timer is shown as the time since then, if it is a time
func Timer() {
	now := time.Unix(1600000000, 0).UTC()
	since := []int64{0, 1, 1500, 2000000, 90000000000}[sym.Choice("since", 5)]
	texts := []string{"0s", "1ns", "1.5µs", "2ms", "1m30s"}
	var v interface{} = now.UnixNano() - since
	want := texts[sym.Choice("since2", 1)]
	for i, s := range []int64{0, 1, 1500, 2000000, 90000000000} {
		if s == since {
			want = texts[i]
		}
	}
	switch sym.Choice("type", 3) {
	case 1:
		v, want = "soon", "soon"
	case 2:
		v, want = nil, "null"
	}
	list := []interface{}{"timer", v}
	site := &spi.LogSite{Event: "event!e", Sample: list}
	out := plain((&hrf.Format{}).FormatterOf(site).Format(nil, &spi.Event{Level: countlog.LevelInfo, Timestamp: now, Properties: list}))
	sym.Assert(string(out) == "[INFO] e\ntimer: "+want+"\n", "the timer")
	sym.Reach("checked")
}
