package main

import (
	"context"
	"sync"
	"time"
	"unsafe"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"github.com/v2pro/plz/gls"
	"github.com/v2pro/plz/zzverif/sym"
)

func main() {
	sym.Main(sym.T{"Count": Count, "Concurrent": Concurrent, "Periodic": Periodic, "Logged": Logged})
}

// points is the collector: the values reported for each combination of dimensions
type points struct {
	mu  sync.Mutex
	all []stats.Point
}

func (p *points) Collect(pt *stats.Point) {
	c := *pt // a point belongs to the collector
	p.mu.Lock()
	p.all = append(p.all, c)
	p.mu.Unlock()
}

func eqDims(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type tally struct {
	dims []string
	n    int
}

type tallies []tally

func (t tallies) add(dims []string) tallies {
	for i := range t {
		if eqDims(t[i].dims, dims) {
			t[i].n++
			return t
		}
	}
	return append(t, tally{append([]string(nil), dims...), 1})
}

// check: the points report exactly these counts
func (t tallies) check(pts []stats.Point, event string) {
	var got tallies
	for _, p := range pts {
		sym.Assert(p.Event == event, "a point has the name of the event")
		n := int(p.Value)
		sym.Assert(float64(n) == p.Value && n >= 0, "a count")
		found := false
		for i := range got {
			if eqDims(got[i].dims, p.Dimension) {
				got[i].n += n
				found = true
			}
		}
		if !found {
			got = append(got, tally{p.Dimension, n})
		}
	}
	for _, w := range t {
		n := 0
		for _, g := range got {
			if eqDims(g.dims, w.dims) {
				n = g.n
			}
		}
		sym.Assert(n == w.n, "the value for a dimension is the number of events since the export before")
	}
	for _, g := range got {
		n := 0
		for _, w := range t {
			if eqDims(g.dims, w.dims) {
				n = w.n
			}
		}
		sym.Assert(n == g.n, "nothing is reported that did not happen")
	}
}

// dimSpec: which properties are dimensions, and the order in which they come
type dimSpec struct {
	dim  string
	keys []string // the other keys, in the order of the properties
	pos  int      // of "agg" and "dim": before, between, after
	mem  [][]byte // the memory of the values
}

var specs = []dimSpec{
	{"", []string{"x"}, 0, nil},
	{"a", []string{"a"}, 0, nil},
	{"a,b", []string{"a", "b"}, 1, nil},
	{"b,a", []string{"a", "x", "b"}, 2, nil},
	{"a,b,c", []string{"x", "c", "b", "a"}, 0, nil},
	{"a,b,c,d,e", []string{"a", "b", "c", "d", "e"}, 0, nil},
	{"a,missing", []string{"x", "a"}, 2, nil},
	{"nosuch", []string{"a"}, 0, nil},
}

func (s dimSpec) isDim(k string) bool {
	for len(s.dim) > 0 {
		i := 0
		for i < len(s.dim) && s.dim[i] != ',' {
			i++
		}
		if s.dim[:i] == k {
			return true
		}
		if i == len(s.dim) {
			break
		}
		s.dim = s.dim[i+1:]
	}
	return false
}

// event builds properties with arbitrary values; also the dimension they fall into
func (s *dimSpec) event(full bool) (props []interface{}, dims []string) {
	ctl := []interface{}{"agg", "counter"}
	if s.dim != "" || s.pos == 1 {
		ctl = append(ctl, "dim", s.dim)
	}
	if s.pos == 0 {
		props = append(props, ctl...)
	}
	for i, k := range s.keys {
		if s.pos == 1 && i == 1 {
			props = append(props, ctl...)
		}
		var v interface{}
		text := ""
		if i >= 2 && !full {
			text = "fix"
			v = text
		} else if typ := sym.Choice("type", sym.Param("types", 3)); typ == 0 {
			b := []byte{'v', sym.ByteIn("v", 'a', 'b')}
			text = string(b)
			v = *(*string)(unsafe.Pointer(&b))
			s.mem = append(s.mem, b)
		} else if typ == 1 {
			text = ""
			v = text
		} else if typ == 2 {
			d := sym.IntIn("d", 0, 1)
			text = string([]byte{'0' + byte(d)})
			v = d
		} else {
			text = "<nil>"
		}
		props = append(props, k, v)
		if s.isDim(k) {
			dims = append(dims, k, text)
		}
	}
	if s.pos == 2 {
		props = append(props, ctl...)
	}
	return props, dims
}

func noExport(func(ctx context.Context)) {}

// Count: a history of events and exports, the events from one goroutine or from one each
func Count() {
	loglog.Error = func(err error) { sym.Fail("the logger reports an error") }
	col := &points{}
	agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: noExport, Collector: col})
	s := specs[sym.Choice("spec", sym.Param("specs", len(specs)))]
	byAgg := sym.Choice("by", 2) == 1
	where := sym.Choice("where", sym.Param("where", 3))
	elsewhere := where > 0
	shard := 0
	if where == 2 {
		shard = sym.Choice("shard", 16)
		sym.Flag("goidstride", 16)
		sym.Flag("goidadd", shard)
	}
	var h spi.EventHandler
	var want tallies
	n := sym.Param("n", 3)
	at := time.Unix(1600000000, 0)
	for i := 0; i < n; i++ {
		if h != nil && sym.Choice("export", 2) == 1 {
			h.(stats.State).GetWindow().Export(at)
			for _, p := range col.all {
				sym.Assert(p.Timestamp == at, "the time of the export")
			}
			want.check(col.all, "event!e")
			want, col.all = nil, nil
		}
		props, dims := s.event(sym.Param("full", 0) == 1)
		if h == nil {
			site := &spi.LogSite{Event: "event!e", Sample: props}
			if byAgg {
				site.Agg = "counter"
			}
			h = agg.HandlerOf(site)
			sym.Assert(h != nil, "there is a handler for an aggregated event")
		}
		e := &spi.Event{Level: countlog.LevelInfo, Properties: props}
		if elsewhere {
			done := make(chan bool)
			var f func()
			f = func() {
				if where == 2 && gls.GoID()%16 != int64(shard) {
					go f() // natively: until the goroutine has the shard
					return
				}
				h.Handle(e)
				// what was given belongs to the caller
				for j := range e.Properties {
					e.Properties[j] = nil
				}
				done <- true
			}
			go f()
			<-done
		} else {
			h.Handle(e)
		}
		// so does the memory of the strings: it may be on the stack of the caller
		for _, b := range s.mem {
			for j := range b {
				b[j] = '?'
			}
		}
		want = want.add(dims)
	}
	h.(stats.State).GetWindow().Export(at)
	want.check(col.all, "event!e")
	col.all = nil
	h.(stats.State).GetWindow().Export(at)
	tallies(nil).check(col.all, "event!e")
	sym.Reach("checked")
}

// Concurrent: goroutines counting while others export
func Concurrent() {
	sym.Flag("goidstride", []int{1, 16}[sym.Choice("sameshard", 2)])
	col := &points{}
	agg := stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: noExport, Collector: col})
	props := []interface{}{"agg", "counter", "dim", "a", "a", "x"}
	h := agg.HandlerOf(&spi.LogSite{Event: "e", Sample: props})
	w := h.(stats.State).GetWindow()
	threads, each, exports := sym.Param("threads", 2), sym.Param("each", 1), sym.Param("exports", 1)
	if sym.Choice("before", 2) == 1 {
		h.Handle(&spi.Event{Properties: props})
	} else {
		each++
	}
	vals := []string{"x", "y"}
	differ := sym.Choice("differ", 2) == 1
	var wg sync.WaitGroup
	var want tallies
	total := 0
	for t := 0; t < threads; t++ {
		wg.Add(1)
		v := vals[0]
		if differ {
			v = vals[t%2]
		}
		for i := 0; i < each; i++ {
			want = want.add([]string{"a", v})
			total++
		}
		go func() {
			defer wg.Done()
			_ = gls.GoID()
			for i := 0; i < each; i++ {
				h.Handle(&spi.Event{Properties: []interface{}{"agg", "counter", "dim", "a", "a", v}})
			}
		}()
	}
	if each == sym.Param("each", 1) {
		want = want.add([]string{"a", "x"})
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < exports; i++ {
			w.Export(time.Unix(1600000000, 0))
		}
	}()
	wg.Wait()
	w.Export(time.Unix(1600000001, 0))
	want.check(col.all, "e")
	sym.Reach("checked")
}

// Periodic: the export of every second, by the default executor
func Periodic() {
	col := &points{}
	cfg := stats.EventAggregatorConfig{Collector: col}
	var cancel func()
	stopped := make(chan bool, 1)
	custom := sym.Choice("custom", 2) == 1
	if custom {
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		cfg.Executor = func(f func(ctx context.Context)) {
			go func() { f(ctx); stopped <- true }()
		}
	}
	h := stats.NewEventAggregator(cfg).HandlerOf(&spi.LogSite{Event: "e", Agg: "counter"})
	seconds := sym.Param("seconds", 3)
	sym.Advance(100 * 1000 * 1000)
	for s := 0; s < seconds; s++ {
		k := sym.Choice("events", 3)
		var want tallies
		for i := 0; i < k; i++ {
			h.Handle(&spi.Event{})
			want = want.add(nil)
		}
		sym.Advance(1000 * 1000 * 1000)
		col.mu.Lock()
		pts := col.all
		col.all = nil
		col.mu.Unlock()
		want.check(pts, "e")
	}
	if custom {
		cancel()
		<-stopped
	}
	sym.Reach("checked")
}

// Logged: events counted through the logging functions, whatever their shapes
func Logged() {
	loglog.Error = func(err error) { sym.Fail("the logger reports an error") }
	col := &points{}
	var windows []func(ctx context.Context)
	countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
		Executor:  func(f func(ctx context.Context)) { windows = append(windows, f) },
		Collector: col,
	})
	out := &lines{}
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: out})
	want := map[string]tallies{}
	written := 0
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		event := []string{"event!e", "event!f"}[sym.Choice("event", 2)]
		switch sym.Choice("shape", 6) {
		case 0:
			countlog.Info(event, "agg", "counter")
			want[event] = want[event].add(nil)
			written++
		case 1:
			v := string([]byte{sym.ByteIn("v", 'a', 'b')})
			countlog.Info(event, "agg", "counter", "dim", "k", "k", v)
			want[event] = want[event].add([]string{"k", v})
			written++
		case 2:
			countlog.Trace(event, "agg", "counter", "dim", "k", "k", 5)
			want[event] = want[event].add([]string{"k", "5"})
		case 3: // not aggregated
			countlog.Info(event, "k", "v")
			written++
		case 4:
			countlog.Info(event, "agg", "counter", "dim", "j", "k", "v", "j", "w")
			want[event] = want[event].add([]string{"j", "w"})
			written++
		case 5:
			countlog.InfoCall(event, nil, "agg", "counter") // calls are not counted
			written++
		}
	}
	sym.Assert(out.n == written, "each one written as well, from the level for single calls on")
	ctx, cancel := context.WithCancel(context.Background())
	for _, w := range windows {
		go w(ctx)
	}
	sym.Advance(1500 * 1000 * 1000)
	cancel()
	col.mu.Lock()
	for _, event := range []string{"event!e", "event!f"} {
		var pts []stats.Point
		for _, p := range col.all {
			if p.Event == event {
				pts = append(pts, p)
			}
		}
		want[event].check(pts, event)
	}
	col.mu.Unlock()
	sym.Reach("checked")
}

type lines struct{ n int }

func (c *lines) Write(p []byte) (int, error) {
	c.n++
	return len(p), nil
}
