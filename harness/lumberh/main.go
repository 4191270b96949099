package main

import (
	"compress/gzip"
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/v2pro/plz/countlog/output/lumberjack"
	"github.com/v2pro/plz/zzverif/sym"
)

func main() {
	sym.Main(sym.T{"Roll": Roll, "Parallel": Parallel, "Retain": Retain, "RetainTimes": RetainTimes, "Squeeze": Squeeze, "RetainGz": RetainGz, "Odd": Odd, "Full": Full, "SqueezeFull": SqueezeFull, "Vanish": Vanish, "RetainOrder": RetainOrder, "Limits": Limits})
}

var start = time.Date(2018, 2, 28, 23, 59, 58, 0, time.UTC)

type clock struct {
	mu sync.Mutex
	t  time.Time
}

func (c *clock) now() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.t
}

func (c *clock) add(d time.Duration) {
	c.mu.Lock()
	c.t = c.t.Add(d)
	c.mu.Unlock()
}

// the default and coarser formats
var formats = []string{"", "2006-01-02", "2006-01-02T15-04"}

const dflt = "2006-01-02T15-04-05.000"

type backup struct {
	name string
	at   time.Time
	data []byte
}

// backups: the files called prefix-TIME.ext, oldest first
func backups(dir, prefix, ext, format string) []backup {
	if format == "" {
		format = dflt
	}
	files, err := ioutil.ReadDir(dir)
	sym.Assert(err == nil, "the directory is there")
	var out []backup
	for _, f := range files {
		n := f.Name()
		if n == prefix+ext {
			continue
		}
		sym.Assert(strings.HasPrefix(n, prefix+"-") && strings.HasSuffix(n, ext), "a backup has the name of the log file and its extension")
		at, err := time.Parse(format, n[len(prefix)+1:len(n)-len(ext)])
		sym.Assert(err == nil, "the name of a backup has the time in the configured format")
		data, err := ioutil.ReadFile(filepath.Join(dir, n))
		sym.Assert(err == nil, "a backup can be read")
		out = append(out, backup{n, at, data})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].at.Before(out[j].at) })
	return out
}

// whole: the files, in order, consist of the writes, in order, none of them split
func whole(files [][]byte, writes [][]byte, max int) {
	i := 0
	for _, f := range files {
		sym.Assert(len(f) <= max, "no file is larger than the limit")
		for len(f) > 0 {
			sym.Assert(i < len(writes), "nothing is in the files that was not written")
			w := writes[i]
			sym.Assert(len(w) <= len(f), "a write is in one file")
			sym.Assert(string(f[:len(w)]) == string(w), "the writes are in the files, in order and unmodified")
			f = f[len(w):]
			i++
		}
	}
	sym.Assert(i == len(writes), "every accepted write is in a file")
}

func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = sym.Byte("c")
		} else {
			b[i] = byte('a' + i)
		}
	}
	return b
}

var errFault = errors.New("fault")

// Roll: writes of any size, rotations, reopening, restarts, time standing still or going on
func Roll() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	fault := 0
	stats := 0
	lumberjack.VerifStat(func(name string) error {
		stats++
		if fault == stats {
			return errFault
		}
		return nil
	})
	max := sym.Param("max", 4)
	format := formats[sym.Choice("format", sym.Param("formats", 2))]
	name := []string{"foo.log", "foo", "sub/foo.log", "a/b/foo.x"}[sym.Choice("name", sym.Param("names", 2))]
	path := filepath.Join(dir, name)
	ext := filepath.Ext(name)
	prefix := strings.TrimSuffix(filepath.Base(name), ext)
	var writes [][]byte
	if k := sym.Choice("existing", sym.Param("existing", max+2)); k > 0 {
		sym.Assert(os.MkdirAll(filepath.Dir(path), 0755) == nil, "directory")
		w := content(k - 1)
		sym.Assert(ioutil.WriteFile(path, w, 0644) == nil, "existing file")
		if len(w) > 0 {
			writes = append(writes, w)
		}
	}
	open := func() *lumberjack.Logger {
		return &lumberjack.Logger{Filename: path, MaxSize: max, BackupTimeFormat: format}
	}
	l := open()
	n := sym.Param("n", 3)
	faults := sym.Param("faults", 0)
	for i := 0; i < n; i++ {
		switch op := sym.Choice("op", 5); op {
		case 0: // write
			k := sym.Choice("len", max+2)
			w := content(k)
			if faults > 0 && sym.Choice("fault", 2) == 1 {
				stats, fault = 0, 1+sym.Choice("which", 2)
			}
			m, err := l.Write(w)
			failed := fault > 0 && stats >= fault
			fault = 0
			if k > max {
				sym.Assert(m == 0 && err != nil, "a write larger than the limit is rejected")
			} else if failed {
				sym.Assert(err == nil && m == k || err != nil && m == 0, "a write is accepted or not")
			} else {
				sym.Assert(m == k && err == nil, "a write is accepted")
			}
			if err == nil && k > 0 {
				writes = append(writes, append([]byte(nil), w...))
			}
			for j := range w {
				w[j] = 'X'
			}
		case 1:
			if faults > 0 && sym.Choice("fault", 2) == 1 {
				stats, fault = 0, 1
			}
			err := l.Rotate()
			failed := fault > 0 && stats >= fault
			fault = 0
			sym.Assert(failed || err == nil, "rotates")
			if err == nil {
				fi, err := os.Stat(path)
				sym.Assert(err == nil && fi.Size() == 0, "there is a new file after a rotation")
			}
		case 2:
			sym.Assert(l.Close() == nil, "closes")
		case 3:
			c.add([]time.Duration{time.Millisecond, 3 * time.Second}[sym.Choice("pass", 2)])
		case 4: // a restart
			sym.Assert(l.Close() == nil, "closes")
			l = open()
		}
	}
	sym.Assert(l.Close() == nil, "closes")
	if len(writes) == 0 {
		sym.Reach("nothing written")
		return
	}
	var files [][]byte
	for _, b := range backups(filepath.Dir(path), prefix, ext, format) {
		files = append(files, b.data)
	}
	if data, err := ioutil.ReadFile(path); err == nil {
		files = append(files, data)
	} else {
		sym.Assert(os.IsNotExist(err), "the file can be read")
	}
	whole(files, writes, max)
	sym.Reach("checked")
}

// Parallel: goroutines writing and one rotating
func Parallel() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	max := 4
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: max, MaxBackups: sym.Param("backups", 0), BackupTimeFormat: formats[sym.Choice("format", 2)]}
	threads, each := sym.Param("threads", 2), sym.Param("each", 2)
	var done sync.WaitGroup
	for p := 0; p < threads; p++ {
		done.Add(1)
		p := p
		go func() {
			defer done.Done()
			for i := 0; i < each; i++ {
				n, err := l.Write([]byte{byte('A' + p), byte('0' + i)})
				sym.Assert(n == 2 && err == nil, "a write is accepted")
			}
		}()
	}
	switch sym.Choice("rotate", 3) {
	case 1:
		sym.Assert(l.Rotate() == nil, "rotates")
	case 2: // the next write opens it again
		sym.Assert(l.Close() == nil, "closes")
	}
	done.Wait()
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	if sym.Param("backups", 0) > 0 {
		sym.Reach("checked")
		return
	}
	next := make([]int, threads)
	var files [][]byte
	for _, b := range backups(dir, "foo", ".log", l.BackupTimeFormat) {
		files = append(files, b.data)
	}
	data, err := ioutil.ReadFile(filepath.Join(dir, "foo.log"))
	sym.Assert(err == nil, "the file can be read")
	for _, f := range append(files, data) {
		sym.Assert(len(f) <= max, "no file is larger than the limit")
		sym.Assert(len(f)%2 == 0, "a write is in one file")
		for i := 0; i < len(f); i += 2 {
			p := int(f[i] - 'A')
			sym.Assert(p >= 0 && p < threads && int(f[i+1]-'0') == next[p], "the writes of each are in the files, in order and unmodified")
			next[p]++
		}
	}
	for _, k := range next {
		sym.Assert(k == each, "every accepted write is in a file")
	}
	sym.Reach("checked")
}

func gunzip(path string) (string, bool) {
	f, err := os.Open(path)
	if err != nil {
		return "", false
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return "", false
	}
	b, err := ioutil.ReadAll(z)
	return string(b), err == nil
}

type file struct {
	name   string
	backup int // days before now, if it is a backup, at which it was made; else -1
	hours  int
}

// the files that may be there: log files to keep or not, and others
var candidates = []file{
	{"foo-2018-02-28T22-59-58.000.log", 0, 1},
	{"foo-2018-02-27T23-59-58.001.log", 0, 23}, // just younger than a day
	{"foo-2018-02-27T23-59-57.999.log", 1, 1},  // just older
	{"foo-2018-02-26T03-00-00.000.log", 2, 0},
	{"foo-2017-12-31T03-00-00.500.log", 60, 0},
	{"foo-2018-02-28T22-59-58.000.log.bak", -1, 0},
	{"foobar-2018-02-01T22-59-58.000.log", -1, 0},
	{"foo-2018-02-30T22-59-58.000.log", -1, 0},
	{"foo-.log", -1, 0},
	{"foo-2018-02-01.log", -1, 0},
	{"bar-2018-01-01T22-59-58.000.log", -1, 0},
	{"foo-2018-01-01T22-59-58.000.txt", -1, 0},
}

// Retain: which files are left after a rotation
func Retain() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: 10, MaxBackups: sym.Choice("backups", sym.Param("backups", 4)), MaxAge: sym.Choice("age", 4)}
	var have []file
	own := sym.Param("own", 5)
	if sym.Param("others", 0) == 0 {
		for i := 0; i < own; i++ {
			if sym.Choice("file", 2) == 1 {
				have = append(have, candidates[i])
			}
		}
	} else {
		have = append(have, candidates[0], candidates[3], candidates[4])
		have = append(have, candidates[5+sym.Choice("other", len(candidates)-5)])
	}
	for _, f := range have {
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, f.name), []byte(f.name), 0644) == nil, "write")
	}
	subdir := sym.Choice("dir", 2) == 1
	if subdir {
		sym.Assert(os.Mkdir(filepath.Join(dir, "foo-2016-02-01T22-59-58.000.log"), 0755) == nil, "mkdir")
	}
	n, err := l.Write([]byte("hello"))
	sym.Assert(n == 5 && err == nil, "a write is accepted")
	rotate := sym.Choice("rotate", 2) == 1
	if rotate {
		sym.Assert(l.Rotate() == nil, "rotates")
		have = append([]file{{"foo-2018-02-28T23-59-58.000.log", 0, 0}}, have...)
	}
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	kept := 0
	for _, f := range have { // newest first
		_, err := os.Stat(filepath.Join(dir, f.name))
		there := err == nil
		sym.Assert(there || os.IsNotExist(err), "stat")
		if f.backup < 0 {
			sym.Assert(there, "a file that is no backup is never removed")
			continue
		}
		keep := l.MaxBackups == 0 || kept < l.MaxBackups
		kept++
		if l.MaxAge > 0 && f.backup >= l.MaxAge {
			keep = false
		}
		if keep {
			sym.Assert(there, "a backup within the limits is kept")
		} else {
			sym.Assert(!there, "a backup outside of the limits is removed")
		}
	}
	if subdir {
		_, err := os.Stat(filepath.Join(dir, "foo-2016-02-01T22-59-58.000.log"))
		sym.Assert(err == nil, "a directory is never removed")
	}
	data, err := ioutil.ReadFile(filepath.Join(dir, "foo.log"))
	sym.Assert(err == nil && (rotate && len(data) == 0 || !rotate && string(data) == "hello"), "the log file itself is not touched")
	sym.Reach("checked")
}

// RetainTimes: backups at any second of the minutes around, in another time zone, formats of the user
func RetainTimes() {
	dir := sym.TempDir()
	zone := time.FixedZone("zone", []int{0, 9 * 3600, -5 * 3600}[sym.Choice("zone", 3)])
	time.Local = zone
	now := time.Date(2018, 2, 28, 12, 30, 30, 0, zone)
	c := &clock{t: now}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo"), MaxSize: 10, MaxAge: 1, LocalTime: sym.Choice("local", 2) == 1}
	format := dflt
	if sym.Choice("format", 2) == 1 {
		l.BackupTimeFormat = "0102-150405"
		l.BackupTimeFormat = "20060102-150405"
		format = l.BackupTimeFormat
	}
	base := now
	if !l.LocalTime {
		base = now.UTC()
	}
	stamp := func(s int) string { // a day before, s seconds later
		return "foo-" + base.AddDate(0, 0, -1).Add(time.Duration(s)*time.Second).Format(format)
	}
	// one symbolic digit of the seconds: 00..09 of the minute that ends a day ago, or later
	s1, s2 := stamp(-30), stamp(3600)
	d := sym.ByteIn("second", '0', '9')
	i := strings.LastIndex(s1, "00")
	if format == dflt {
		i = strings.LastIndex(s1, "-00.000") + 1
	}
	old := s1[:i] + "3" + string([]byte{d}) + s1[i+2:] // 30..39: a day ago, or up to 9 seconds less
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, s1), nil, 0644) == nil, "write")
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, s2), nil, 0644) == nil, "write")
	older := s1[:i] + "2" + string([]byte{d}) + s1[i+2:]
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, old), nil, 0644) == nil, "write")
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, older), nil, 0644) == nil, "write")
	_, err := l.Write([]byte("x"))
	sym.Assert(err == nil, "a write is accepted")
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	there := func(n string) bool { _, err := os.Stat(filepath.Join(dir, n)); return err == nil }
	sym.Assert(!there(s1), "a backup older than the limit is removed")
	sym.Assert(!there(older), "a backup older than the limit is removed")
	sym.Assert(there(s2), "a backup younger than the limit is kept")
	sym.Assert(there(old), "a backup younger than the limit is kept")
	sym.Reach("checked")
}

// Squeeze: compression keeps the content of the backups
func Squeeze() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	max := 8
	name := []string{"foo.log", "foo"}[sym.Choice("name", 2)]
	l := &lumberjack.Logger{Filename: filepath.Join(dir, name), MaxSize: max, Compress: true, MaxBackups: sym.Choice("backups", 3)}
	n := sym.Param("n", 3)
	var all []string
	for i := 0; i < n; i++ {
		s := strings.Repeat(string([]byte{byte('a' + i)}), 5)
		_, err := l.Write([]byte(s))
		sym.Assert(err == nil, "a write is accepted")
		all = append(all, s)
		if sym.Choice("pass", 2) == 1 {
			c.add(time.Second)
		}
		if sym.Choice("wait", 2) == 1 {
			sym.Quiesce()
		}
	}
	sym.Assert(l.Rotate() == nil, "rotates")
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	files, err := ioutil.ReadDir(dir)
	sym.Assert(err == nil, "the directory can be read")
	var got []string
	for _, f := range files {
		if f.Name() == name {
			sym.Assert(f.Size() == 0, "the new file")
			continue
		}
		sym.Assert(strings.HasSuffix(f.Name(), name[3:]+".gz"), "each backup is compressed")
		s, ok := gunzip(filepath.Join(dir, f.Name()))
		sym.Assert(ok, "and can be read")
		got = append(got, s)
	}
	want := all
	if l.MaxBackups > 0 && l.MaxBackups < len(all) {
		want = all[len(all)-l.MaxBackups:]
	}
	sym.Assert(strings.Join(got, "|") == strings.Join(want, "|"), "the backups to keep, in order, with their content")
	sym.Reach("checked")
}

// RetainGz: compressed and uncompressed backups, and both of the same
func RetainGz() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: 10, MaxBackups: sym.Choice("backups", 4), MaxAge: 3 * sym.Choice("age", 2), Compress: sym.Param("compress", 0) == 1}
	own := []file{candidates[0], candidates[1], candidates[3], candidates[4]}
	n := sym.Param("own", 4)
	own = own[len(own)-n:]
	kind := make([]int, n) // none, plain, compressed, both
	for i, f := range own {
		kind[i] = sym.Choice("kind", 4)
		for b := 0; b < 2; b++ {
			if kind[i]>>uint(b)&1 == 1 {
				data := f.name
				if b == 1 { // what an attempt that was interrupted may have left
					data = strings.Repeat("x", 100)
				}
				sym.Assert(ioutil.WriteFile(filepath.Join(dir, f.name+[]string{"", ".gz"}[b]), []byte(data), 0644) == nil, "write")
			}
		}
	}
	_, err := l.Write([]byte("hello"))
	sym.Assert(err == nil, "a write is accepted")
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	kept := 0
	for i, f := range own {
		if kind[i] == 0 {
			continue
		}
		keep := l.MaxBackups == 0 || kept < l.MaxBackups
		kept++
		if l.MaxAge > 0 && f.backup >= l.MaxAge {
			keep = false
		}
		want := 0
		if keep {
			want = kind[i]
			if l.Compress {
				want = 2
			}
		}
		for b := 0; b < 2; b++ {
			_, err := os.Stat(filepath.Join(dir, f.name+[]string{"", ".gz"}[b]))
			sym.Assert(err == nil || os.IsNotExist(err), "stat")
			if want>>uint(b)&1 == 1 {
				sym.Assert(err == nil, "a backup within the limits is kept")
			} else {
				sym.Assert(err != nil, "a backup outside of the limits is removed")
			}
		}
		if keep && l.Compress && kind[i] != 2 {
			s, ok := gunzip(filepath.Join(dir, f.name+".gz"))
			sym.Assert(ok && s == f.name, "a compressed backup has the same content")
		}
	}
	sym.Reach("checked")
}

// Odd: names of log files for which prefix and extension look alike, next to other files
func Odd() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	name := []string{"foo.log", "foo", ".log", "a..-", "foo-bar.log", "foo.tar.gz", "foo.gz", "-"}[sym.Choice("name", 8)]
	l := &lumberjack.Logger{Filename: filepath.Join(dir, name), MaxSize: 10, MaxBackups: 1, MaxAge: sym.Choice("age", 2)}
	other := []string{"a.-", "foo-", "-", "-.log", "foo-.log", "foo-2018-02-28T22-59-58.000.log.gz.gz", "foo-bar-baz.log", "foo-bar-x2018-02-28T22-59-58.000.log", "foo-2018-02-28T22-59-58.000", "foo-.gz"}
	if k := sym.Choice("other", len(other)+1); k < len(other) {
		sym.Assume(other[k] != name && !(name == "foo" && other[k] == "foo-2018-02-28T22-59-58.000")) // which is a backup
		other = other[k : k+1]
	} else {
		c := []byte{sym.ByteIn("x", '!', '~'), sym.ByteIn("y", '-', '~')}
		for _, b := range c {
			sym.Assume(b != '/' && b != '.')
		}
		other = []string{string(c)}
		sym.Assume(other[0] != name)
	}
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, other[0]), []byte("x"), 0644) == nil, "write")
	for i := 0; i < 3; i++ {
		_, err := l.Write([]byte("hello"))
		sym.Assert(err == nil && l.Rotate() == nil, "a write is accepted")
		c.add(time.Second)
	}
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	data, err := ioutil.ReadFile(filepath.Join(dir, other[0]))
	sym.Assert(err == nil && string(data) == "x", "a file that is no backup is never removed")
	files, err := ioutil.ReadDir(dir)
	sym.Assert(err == nil && len(files) == 3, "one backup is kept")
	sym.Reach("checked")
}

// Full: writes that fail in the middle, the disk being full
func Full() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	max := sym.Param("max", 4)
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: max}
	n := sym.Param("n", 3)
	bad := sym.Choice("bad", n)
	var writes [][]byte
	for i := 0; i < n; i++ {
		k := 1 + sym.Choice("len", max)
		w := content(k)
		full := -1
		if i == bad {
			full = sym.Choice("full", max)
			sym.FileLimit(full)
		}
		m, err := l.Write(w)
		sym.FileLimit(-1)
		sym.Assert(err == nil && m == k || full >= 0 && err != nil && m < k && m >= 0, "a write is accepted or, if the disk is full, what was written is told")
		if m > 0 {
			writes = append(writes, append([]byte(nil), w[:m]...))
		}
	}
	sym.Assert(l.Close() == nil, "closes")
	var files [][]byte
	for _, b := range backups(dir, "foo", ".log", "") {
		files = append(files, b.data)
	}
	data, err := ioutil.ReadFile(filepath.Join(dir, "foo.log"))
	sym.Assert(err == nil, "the file can be read")
	whole(append(files, data), writes, max)
	sym.Reach("checked")
}

// SqueezeFull: compression that fails in the middle, the disk being full
func SqueezeFull() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	fail := ""
	lumberjack.VerifStat(func(name string) error {
		if name == fail {
			return errFault
		}
		return nil
	})
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: 40, Compress: true}
	n := sym.Param("n", 2)
	var all []string
	for i := 0; i < n; i++ {
		name := "foo-2018-02-28T2" + string([]byte{byte('0' + i)}) + "-59-58.000.log"
		s := strings.Repeat(string([]byte{byte('a' + i)}), 5)
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, name), []byte(s), 0644) == nil, "write")
		all = append(all, s)
		if i == 0 && sym.Choice("stat", 2) == 1 {
			fail = filepath.Join(dir, name)
		}
	}
	if full := sym.Choice("full", 36); fail == "" {
		sym.FileLimit(full)
	} else {
		sym.Assume(full == 0)
	}
	sym.Assert(l.Rotate() == nil, "rotates")
	sym.Quiesce()
	sym.FileLimit(-1)
	fail = ""
	look := func() (squeezed int) {
		files, err := ioutil.ReadDir(dir)
		sym.Assert(err == nil, "the directory can be read")
		got := map[string]bool{}
		for _, f := range files {
			p := filepath.Join(dir, f.Name())
			if strings.HasSuffix(p, ".gz") {
				s, ok := gunzip(p)
				sym.Assert(ok, "a compressed backup is complete")
				got[s] = true
				squeezed++
			} else {
				data, err := ioutil.ReadFile(p)
				sym.Assert(err == nil, "read")
				got[string(data)] = true
			}
		}
		for _, s := range all {
			sym.Assert(got[s], "the content of each backup is there, compressed or not")
		}
		return squeezed
	}
	k := look()
	sym.Assert(k <= n, "a compressed backup for each")
	if k < n {
		sym.Reach("failed")
	}
	sym.Assert(os.Remove(filepath.Join(dir, "foo.log")) == nil, "remove")
	sym.Assert(l.Rotate() == nil, "rotates")
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	sym.Assert(look() == n, "compressing is tried again")
	sym.Reach("checked")
}

// Vanish: someone else removes a backup at the same time
func Vanish() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: 10}
	compress := sym.Choice("compress", 2) == 1
	if compress {
		l.Compress = true
	} else {
		l.MaxBackups = 1
	}
	have := []file{candidates[0], candidates[3], candidates[4]}
	for _, f := range have {
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, f.name), []byte(f.name), 0644) == nil, "write")
	}
	k := 1 + sym.Choice("which", 2)
	go os.Remove(filepath.Join(dir, have[k].name))
	_, err := l.Write([]byte("hello"))
	sym.Assert(err == nil, "a write is accepted")
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	for i, f := range have {
		_, err := os.Stat(filepath.Join(dir, f.name))
		if compress {
			s, ok := gunzip(filepath.Join(dir, f.name+".gz"))
			sym.Assert(i == k || err != nil && ok && s == f.name, "the others are compressed")
		} else {
			sym.Assert((err == nil) == (i == 0), "the backups to keep are kept and the others removed")
		}
	}
	sym.Reach("checked")
}

// RetainOrder: names that do not sort as the times in them
func RetainOrder() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifUnit(1)
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log"), MaxSize: 10, MaxBackups: 1 + sym.Choice("backups", 2)}
	n := sym.Param("n", 3)
	at := make([]int, n)
	names := make([]string, n)
	l.BackupTimeFormat = "02-01-2006"
	pm := sym.Choice("format", 2) == 1
	if pm {
		l.BackupTimeFormat = "03PM 02Jan06"
	}
	for i := range at {
		d, m := 1+sym.Choice("day", 3), 1+sym.Choice("month", 3)
		if pm {
			h := "AM"
			if m == 2 {
				h = "PM"
			}
			at[i] = d*10 + m
			sym.Assume(m != 3)
			names[i] = "foo-03" + h + " 0" + string([]byte{byte('0' + d)}) + "Jan18.log"
		} else {
			at[i] = m*10 + d
			names[i] = "foo-0" + string([]byte{byte('0' + d)}) + "-0" + string([]byte{byte('0' + m)}) + "-2018.log"
		}
		for j := 0; j < i; j++ {
			sym.Assume(at[i] != at[j])
		}
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, names[i]), nil, 0644) == nil, "write")
	}
	_, err := l.Write([]byte("x"))
	sym.Assert(err == nil, "a write is accepted")
	sym.Quiesce()
	sym.Assert(l.Close() == nil, "closes")
	for i := range at {
		newer := 0
		for j := range at {
			if at[j] > at[i] {
				newer++
			}
		}
		_, err := os.Stat(filepath.Join(dir, names[i]))
		sym.Assert((err == nil) == (newer < l.MaxBackups), "exactly the newest backups are kept")
	}
	sym.Reach("checked")
}

// Limits: the default limit and the unit of limits
func Limits() {
	dir := sym.TempDir()
	c := &clock{t: start}
	lumberjack.VerifTime(c.now)
	lumberjack.VerifStat(func(name string) error { return nil })
	l := &lumberjack.Logger{Filename: filepath.Join(dir, "foo.log")}
	max := 100
	if sym.Choice("default", 2) == 1 {
		lumberjack.VerifUnit(1)
	} else {
		l.MaxSize = 1
		max = 1 << 20
	}
	k := max/2 - 1 + sym.Choice("k", 4)
	big := make([]byte, max+1)
	n, err := l.Write(big)
	sym.Assert(n == 0 && err != nil, "a write larger than the limit is rejected")
	n, err = l.Write(big[:max-k])
	sym.Assert(n == max-k && err == nil, "a write is accepted")
	n, err = l.Write(big[:max/2])
	sym.Assert(n == max/2 && err == nil, "a write is accepted")
	sym.Assert(l.Close() == nil, "closes")
	fi, err := os.Stat(filepath.Join(dir, "foo.log"))
	sym.Assert(err == nil, "the file is there")
	if k >= max/2 {
		sym.Assert(fi.Size() == int64(max-k+max/2), "what fits is in one file")
	} else {
		sym.Assert(fi.Size() == int64(max/2), "what does not fit is in the next file")
	}
	sym.Reach("checked")
}
