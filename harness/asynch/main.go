package main

import (
	"errors"
	"io"
	"runtime"
	"sync"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/async"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/zzverif/sym"
)

func main() {
	sym.Main(sym.T{"Blocking": Blocking, "Dropping": Dropping, "Closing": Closing, "Slow": Slow, "Default": Default, "Sizes": Sizes, "Logged": Logged})
}

var errInner = errors.New("inner writer fails")

// inner is the writer the messages are written to: by one goroutine, so that it needs no lock
type inner struct {
	fault  int // which writes fail
	delay  time.Duration
	yield  bool
	got    [][]byte
	closed int
}

func (w *inner) Write(p []byte) (int, error) {
	i := len(w.got)
	w.got = append(w.got, append([]byte(nil), p...))
	if w.delay > 0 {
		time.Sleep(w.delay)
	}
	if w.yield {
		runtime.Gosched()
	}
	if w.fault>>uint(i)&1 == 1 {
		return 0, errInner
	}
	return len(p), nil
}

// closing is an inner writer that is closed
type closing struct{ *inner }

func (w closing) Close() error {
	w.closed++
	return errInner
}

// message of a producer: who, which, any byte, and a size
func message(buf []byte, p, i int, c byte) []byte {
	buf = append(buf[:0], byte('A'+p), byte('0'+i), c)
	for k := 0; k < i; k++ {
		buf = append(buf, c)
	}
	return buf
}

func same(a, b []byte) bool { return string(a) == string(b) }

type log struct {
	mu       sync.Mutex
	accepted [][][]byte // for each producer, in order
}

// subsequence: got contains the messages of each producer in order, each at most once and unmodified, and nothing else;
// returns how many of each
func (l *log) match(got [][]byte, what string) [][]bool {
	seen := make([][]bool, len(l.accepted))
	next := make([]int, len(l.accepted))
	for p := range l.accepted {
		seen[p] = make([]bool, len(l.accepted[p]))
	}
	for _, g := range got {
		sym.Assert(len(g) >= 3, what)
		p, found := int(g[0]-'A'), false
		sym.Assert(p >= 0 && p < len(l.accepted), what)
		for next[p] < len(l.accepted[p]) && !found {
			m := l.accepted[p][next[p]]
			if m[1] == g[1] {
				sym.Assert(same(m, g), "a message arrives unmodified")
				seen[p][next[p]] = true
				found = true
			}
			next[p]++
		}
		sym.Assert(found, what)
	}
	return seen
}

func quiet(n *int) {
	loglog.Error = func(err error) {
		if err == errInner {
			*n++
		}
	}
}

func bits(f, n int) int {
	k := 0
	for i := 0; i < n; i++ {
		k += f >> uint(i) & 1
	}
	return k
}

var queues = []int{1, 2, 0, 3}

func (l *log) produce(w io.Writer, p, each int, done *sync.WaitGroup, closedErr bool) {
	defer done.Done()
	buf := make([]byte, 0, 16)
	for i := 0; i < each; i++ {
		c := l.accepted[p][i][2]
		buf = message(buf, p, i, c)
		n, err := w.Write(buf)
		if err != nil {
			sym.Assert(closedErr, "a write is accepted")
			l.mu.Lock()
			l.accepted[p] = l.accepted[p][:i]
			l.mu.Unlock()
			return
		}
		sym.Assert(n == len(buf), "a write is accepted")
		for k := range buf { // the buffer belongs to the caller
			buf[k] = 'X'
		}
	}
}

func newLog(threads, each int) *log {
	l := &log{accepted: make([][][]byte, threads)}
	for p := range l.accepted {
		for i := 0; i < each; i++ {
			l.accepted[p] = append(l.accepted[p], message(nil, p, i, sym.Byte("c")))
		}
	}
	return l
}

func (l *log) all(seen [][]bool, what string) {
	for p := range seen {
		for i := range seen[p] {
			sym.Assert(seen[p][i], what)
		}
	}
}

// Blocking: producers, then Close
func Blocking() {
	errs := 0
	quiet(&errs)
	threads, each := sym.Param("threads", 2), sym.Param("each", 2)
	total := threads * each
	in := &inner{yield: sym.Choice("yield", 2) == 1, fault: sym.Choice("faults", 1<<uint(sym.Param("faults", total)))}
	var to io.Writer = in
	closer := sym.Choice("closer", 2) == 1
	if closer {
		to = closing{in}
	}
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queues[sym.Choice("queue", sym.Param("queues", 2))], Writer: to, IsQueueBlocking: true})
	l := newLog(threads, each)
	var done sync.WaitGroup
	done.Add(threads)
	for p := 1; p < threads; p++ {
		go l.produce(w, p, each, &done, false)
	}
	l.produce(w, 0, each, &done, false)
	done.Wait()
	err := w.Close()
	if closer {
		sym.Assert(err == errInner && in.closed == 1, "closes the writer")
	} else {
		sym.Assert(err == nil, "nothing to close")
	}
	sym.Assert(len(in.got) == total, "every accepted message is written exactly once before close returns")
	l.all(l.match(in.got, "the messages of a producer are written in order, each once"), "every accepted message is written")
	sym.Assert(errs == bits(in.fault, total), "each failing write is reported")
	_, err = w.Write([]byte("later"))
	sym.Assert(err != nil && len(in.got) == total, "nothing is accepted after close")
	sym.Reach("checked")
}

// Dropping: each message is written or reported
func Dropping() {
	errs := 0
	quiet(&errs)
	threads, each := sym.Param("threads", 2), sym.Param("each", 2)
	in := &inner{yield: sym.Choice("yield", 2) == 1, fault: sym.Choice("faults", 1<<uint(sym.Param("faults", 1)))}
	var mu sync.Mutex
	var dropped [][]byte
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queues[sym.Choice("queue", sym.Param("queues", 2))], Writer: in, OnMessageDropped: func(msg []byte) {
		mu.Lock()
		dropped = append(dropped, append([]byte(nil), msg...))
		mu.Unlock()
	}})
	l := newLog(threads, each)
	var done sync.WaitGroup
	done.Add(threads)
	racing := sym.Choice("racing", 2) == 1
	for p := 1; p < threads; p++ {
		go l.produce(w, p, each, &done, racing)
	}
	l.produce(w, 0, each, &done, racing)
	if !racing {
		done.Wait()
	}
	sym.Assert(w.Close() == nil, "nothing to close")
	if racing {
		done.Wait()
	}
	mu.Lock()
	a := l.match(in.got, "the messages of a producer are written in order, each once")
	b := l.match(dropped, "a message is reported at most once")
	mu.Unlock()
	for p := range a {
		for i := range a[p] {
			sym.Assert(a[p][i] != b[p][i], "each message is either written or reported as dropped")
		}
	}
	sym.Reach("checked")
}

// Closing: producers while the writer is closed
func Closing() {
	errs := 0
	quiet(&errs)
	threads, each := sym.Param("threads", 1), sym.Param("each", 2)
	in := &inner{yield: sym.Choice("yield", 2) == 1}
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: queues[sym.Choice("queue", sym.Param("queues", 2))], Writer: in, IsQueueBlocking: true})
	l := newLog(threads, each)
	var done sync.WaitGroup
	done.Add(threads)
	for p := 0; p < threads; p++ {
		go l.produce(w, p, each, &done, true)
	}
	sym.Assert(w.Close() == nil, "nothing to close")
	done.Wait()
	l.all(l.match(in.got, "the messages of a producer are written in order, each once"), "every accepted message is written")
	sym.Reach("checked")
}

// Slow: what is in the queue when the writer is closed takes almost a second to write
func Slow() {
	errs := 0
	quiet(&errs)
	n := sym.Param("n", 4)
	in := &inner{delay: []time.Duration{0, 1, 300}[sym.Choice("delay", 3)] * time.Millisecond, fault: sym.Choice("faults", 1<<uint(n))}
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: n, Writer: in, IsQueueBlocking: sym.Choice("blocking", 2) == 1,
		OnMessageDropped: func(msg []byte) { sym.Fail("there is room in the queue") }})
	l := newLog(1, n)
	var done sync.WaitGroup
	done.Add(1)
	l.produce(w, 0, n, &done, false)
	if sym.Choice("later", 2) == 1 {
		sym.Advance(int(400 * time.Millisecond))
	}
	sym.Assert(w.Close() == nil, "nothing to close")
	sym.Assert(len(in.got) == n, "every accepted message is written exactly once before close returns")
	l.all(l.match(in.got, "the messages of a producer are written in order, each once"), "every accepted message is written")
	sym.Assert(errs == bits(in.fault, n), "each failing write is reported")
	sym.Reach("checked")
}

// stuck blocks until it is released
type stuck struct {
	got     [][]byte
	release chan bool
	n       int
}

func (w *stuck) Write(p []byte) (int, error) {
	<-w.release
	w.got = append(w.got, append([]byte(nil), p...))
	w.n++
	return len(p), nil
}

// Default: the default report of dropped messages, from several producers
func Default() {
	var mu sync.Mutex
	reports := 0
	loglog.Error = func(err error) { mu.Lock(); reports++; mu.Unlock() }
	in := &stuck{release: make(chan bool)}
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: 1, Writer: in})
	threads := sym.Param("threads", 2)
	var done sync.WaitGroup
	done.Add(threads)
	for p := 0; p < threads; p++ {
		go func() {
			defer done.Done()
			for i := 0; i < 3; i++ {
				n, err := w.Write([]byte("abc"))
				sym.Assert(n == 3 && err == nil, "a write is accepted")
			}
		}()
	}
	done.Wait() // also: never blocks
	close(in.release)
	sym.Assert(w.Close() == nil, "nothing to close")
	sym.Assert(in.n >= 1 && in.n <= 2, "the queue and the one being written")
	sym.Assert(reports == 1, "reported once for the first thousand")
	sym.Reach("checked")
}

// Sizes: messages of any size, dropped or not
func Sizes() {
	errs := 0
	quiet(&errs)
	in := &stuck{release: make(chan bool)}
	var dropped [][]byte
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: 2, Writer: in, OnMessageDropped: func(msg []byte) {
		dropped = append(dropped, append([]byte(nil), msg...))
	}})
	var all [][]byte
	for i := 0; i < 4; i++ {
		m := sym.Bytes("m", []int{0, 1, 2, 5000}[sym.Choice("size", 4)])
		all = append(all, append([]byte(nil), m...))
		n, err := w.Write(m)
		sym.Assert(n == len(m) && err == nil, "a write is accepted")
		for k := range m {
			m[k] = 'X'
		}
		if i == 0 && sym.Choice("taken", 2) == 1 {
			sym.Advance(int(time.Millisecond))
		}
	}
	close(in.release)
	sym.Assert(w.Close() == nil, "nothing to close")
	sym.Assert(len(in.got)+len(dropped) == 4, "each message is either written or reported as dropped")
	sym.Assert(len(in.got) >= 2, "there was room for two")
	for i, g := range in.got { // only the last ones can be dropped
		sym.Assert(same(g, all[i]), "a message arrives unmodified, in order")
	}
	for i, g := range dropped {
		sym.Assert(same(g, all[len(in.got)+i]), "the message that is dropped is reported")
	}
	sym.Reach("checked")
}

// Logged: an event writer on top
func Logged() {
	errs := 0
	quiet(&errs)
	in := &inner{}
	w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: 2, Writer: in, IsQueueBlocking: true})
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: w})
	n := sym.Param("n", 3)
	cs := make([]byte, n)
	for i := range cs {
		cs[i] = sym.ByteIn("c", 'a', 'z')
		countlog.Info("event!x", "k", string([]byte{cs[i]}))
	}
	sym.Assert(w.Close() == nil, "nothing to close")
	sym.Assert(len(in.got) == n, "every line is written")
	for i, g := range in.got {
		k := len(g) - 1
		for k > 0 && !(g[k-1] == '=' && g[k-2] == 'k') {
			k--
		}
		sym.Assert(k > 0 && k < len(g), "a line has its property")
		sym.Assert(g[k] == cs[i], "each line with the value of its event")
	}
	sym.Reach("checked")
}
