package main

import (
	"errors"
	"sync"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/zzverif/sym"
)

// lineFormat: the line is the value of the property k, repeated
type lineFormat struct{ repeat int }

func (f lineFormat) FormatterOf(site *spi.LogSite) output.Formatter { return f }
func (f lineFormat) Format(space []byte, e *spi.Event) []byte {
	if e.Properties[1] == nil {
		panic("can not be formatted")
	}
	n := f.repeat
	if len(e.Properties) > 2 {
		n = e.Properties[3].(int)
	}
	if n < 0 {
		panic("can not be formatted")
	}
	for i := 0; i < n; i++ {
		space = append(space, e.Properties[1].(byte))
	}
	return append(space, '\n')
}

// slowWriter looks at the buffer twice, with other goroutines running in between
type slowWriter struct {
	mu    sync.Mutex
	lines [][]byte
	fault int // the writes that fail
	n     int
}

func (w *slowWriter) Write(p []byte) (int, error) {
	early := append([]byte(nil), p...)
	w.mu.Lock()
	i := w.n
	w.n++
	w.mu.Unlock()
	w.mu.Lock()
	w.lines = append(w.lines, append([]byte(nil), p...))
	w.mu.Unlock()
	sym.Assert(eq(p, early), "the line does not change while it is written")
	if w.fault>>uint(i)&1 == 1 {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func isLine(l []byte, c byte, n int) bool {
	if len(l) != n+1 || l[n] != '\n' {
		return false
	}
	ok := true
	for _, x := range l[:n] {
		if x != c {
			ok = false
		}
	}
	return ok
}

// Faults: one goroutine, any pattern of failing writes and events that can not be formatted
func Faults() {
	quiet()
	n := sym.Param("n", 4)
	w := &slowWriter{fault: sym.Choice("faults", 1<<uint(n))}
	sizes := []int{0, 3, 5000}
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: lineFormat{}, Writer: w})
	want := 0
	errs := 0
	for i := 0; i < n; i++ {
		c := sym.Byte("c")
		size := sizes[sym.Choice("size", len(sizes))]
		if bad := sym.Choice("bad", 3); bad > 0 {
			if bad == 1 {
				countlog.Info("e", "k", nil, "n", size)
			} else {
				countlog.Info("e", "k", c, "n", -1)
			}
			sym.Assert(len(w.lines) == want, "an event that can not be formatted writes nothing")
			continue
		}
		_, panicked := sym.Panics(func() { countlog.Info("e", "k", c, "n", size) })
		sym.Assert(!panicked, "a failing write does not make the logging call fail")
		if w.fault>>uint(want)&1 == 1 {
			errs++
		}
		want++
		sym.Assert(len(w.lines) == want, "exactly one write for each event")
		sym.Assert(isLine(w.lines[want-1], c, size), "with the complete line")
	}
	_ = errs
	sym.Reach("checked")
}

// Concurrent: goroutines logging at the same time
func Concurrent() {
	loglog.Error = func(err error) {}
	threads := sym.Param("threads", 2)
	each := sym.Param("each", 2)
	w := &slowWriter{fault: sym.Choice("faults", 2)}
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: lineFormat{3}, Writer: w})
	if sym.Choice("cached", 2) == 1 {
		countlog.Info("e", "k", byte('z'))
		w.lines = nil
	}
	same := sym.Choice("same", 2) == 1
	var wg sync.WaitGroup
	for t := 0; t < threads; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				c := byte('a' + t*each + i)
				if same || i == 0 {
					countlog.Info("e", "k", c)
				} else {
					countlog.Info("e", "k", c, "n", 5)
				}
			}
		}()
	}
	wg.Wait()
	sym.Assert(len(w.lines) == threads*each, "exactly one write for each event")
	for t := 0; t < threads; t++ {
		last := -1
		for i := 0; i < each; i++ {
			c := byte('a' + t*each + i)
			found := -1
			for j, l := range w.lines {
				if isLine(l, c, 3) && (same || i == 0) || isLine(l, c, 5) && !same && i > 0 {
					found = j
				}
			}
			sym.Assert(found >= 0, "the complete line of each event")
			sym.Assert(found > last, "in the order of the goroutine")
			last = found
		}
	}
	sym.Reach("checked")
}
