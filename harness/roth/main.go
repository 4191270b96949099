package main

import (
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/clock"
	"github.com/v2pro/plz/countlog/output/rotation"
	"github.com/v2pro/plz/zzverif/sym"
)

func main() {
	sym.Main(sym.T{"Interval": Interval, "Size": Size, "SizeFile": SizeFile, "Retain": Retain, "Purge": Purge, "Names": Names, "Digits": Digits, "Next": Next, "Move": Move, "Index": Index,
		"Write": Write, "Retry": Retry})
}

// Interval: any time, with nanoseconds, and any of the usual intervals
func Interval() {
	intervals := []time.Duration{time.Second, 7 * time.Second, time.Minute, 90 * time.Second, time.Hour, 24 * time.Hour, 7 * 24 * time.Hour, time.Millisecond, 1500 * time.Millisecond, 1}
	var interval time.Duration
	if k := sym.Choice("interval", len(intervals)+1); k < len(intervals) {
		interval = intervals[k]
	} else {
		interval = time.Duration(sym.Uint64In("seconds", 1, 100)) * time.Second
	}
	sec := int64(sym.Uint64In("sec", 0, uint64(sym.Param("maxsec", 1<<32))))
	nsec := int64(sym.Uint64In("nsec", 0, 999999999))
	defer clock.ResetNow()
	clock.Now = func() time.Time { return time.Unix(sec, nsec) }
	d := (&rotation.TriggerByInterval{Interval: interval}).TimeToTrigger()
	sym.Assert(d > 0, "after now")
	sym.Assert(d <= interval, "at most one interval ahead")
	sym.Assert((uint64(sec)*1000000000+uint64(d))%uint64(interval) == 0, "at a multiple of the interval")
	stat, triggered, err := (&rotation.TriggerByInterval{Interval: interval}).UpdateStat(7, nil, make([]byte, 5))
	sym.Assert(stat == 7 && !triggered && err == nil, "data does not trigger")
}

var big [4096]byte

// Size: any size so far, any limit, writes of several lengths
func Size() {
	limit := int64(sym.Uint64In("limit", 0, 1<<40))
	trigger := &rotation.TriggerBySize{SizeInKB: limit}
	size := int64(sym.Uint64In("size", 0, 1<<52))
	var stat interface{} = size
	for i := 0; i < sym.Param("n", 3); i++ {
		k := []int{0, 1, 2, 1023, 1024, 4096}[sym.Choice("len", 6)]
		var triggered bool
		var err error
		stat, triggered, err = trigger.UpdateStat(stat, nil, big[:k])
		size += int64(k)
		sym.Assert(err == nil, "no error")
		sym.Assert(triggered == (size >= limit*1024), "triggers when the size is reached")
	}
}

// SizeFile: the size of a file that is there at the start counts
func SizeFile() {
	dir := sym.TempDir()
	name := filepath.Join(dir, "x.log")
	size := []int{0, 1, 1000, 1023, 1024, 1025, 2047, 2048}[sym.Choice("size", 8)]
	sym.Assert(ioutil.WriteFile(name, big[:size], 0644) == nil, "write")
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_APPEND, 0644)
	sym.Assert(err == nil, "open")
	trigger := &rotation.TriggerBySize{SizeInKB: int64(sym.Choice("limit", 4))}
	var stat interface{}
	for i := 0; i < sym.Param("n", 3); i++ {
		k := []int{0, 1, 24, 1000, 1024}[sym.Choice("len", 5)]
		n, err := f.Write(big[:k])
		sym.Assert(n == k && err == nil, "write")
		size += k
		var triggered bool
		stat, triggered, err = trigger.UpdateStat(stat, f, big[:k])
		sym.Assert(err == nil, "no error")
		sym.Assert(triggered == (int64(size) >= trigger.SizeInKB*1024), "triggers when the size is reached")
	}
	sym.Assert(f.Close() == nil, "close")
	_, triggered, err := trigger.UpdateStat(nil, f, nil)
	sym.Assert(err != nil && !triggered, "a file that cannot be examined is an error")
}

// Retain: which of 0..n archives are selected
func Retain() {
	n := sym.Choice("n", sym.Param("n", 6)+1)
	max := int(sym.Uint64In("max", 0, 1<<40))
	var archives, want []rotation.Archive
	for i := 0; i < n; i++ {
		a := rotation.Archive{Path: sym.String("path", 1), ArchivedAt: time.Unix(int64(i), 0), Size: int64(sym.Byte("size"))}
		archives = append(archives, a)
		want = append(want, a)
	}
	got := (&rotation.RetainByCount{MaxArchivesCount: max}).PurgeSet(archives)
	k := 0
	if n > max {
		k = n - max
	}
	sym.Assert(len(got) == k, "all but the newest are selected")
	for i := 0; i < len(got); i++ {
		sym.Assert(got[i] == want[i], "the oldest are selected")
	}
	for i := range archives {
		sym.Assert(archives[i] == want[i], "the archives are not modified")
	}
}

// Purge: files, missing files and things that cannot be removed, selected or not
func Purge() {
	dir := sym.TempDir()
	n := sym.Param("n", 4)
	var set []rotation.Archive
	kind := make([]int, n)
	selected := make([]bool, n)
	failing := 0
	for i := 0; i < n; i++ {
		p := filepath.Join(dir, string([]byte{'a' + byte(i)}))
		kind[i] = sym.Choice("kind", 3) // file, missing, a directory that is not empty
		switch kind[i] {
		case 0:
			sym.Assert(ioutil.WriteFile(p, []byte("x"), 0644) == nil, "write")
		case 2:
			sym.Assert(os.Mkdir(p, 0755) == nil && ioutil.WriteFile(filepath.Join(p, "x"), nil, 0644) == nil, "mkdir")
		}
		if selected[i] = sym.Bool("selected"); selected[i] {
			set = append(set, rotation.Archive{Path: p})
			if kind[i] != 0 {
				failing++
			}
		}
	}
	err := (&rotation.PurgeByDelete{}).Purge(set)
	if failing == 0 {
		sym.Assert(err == nil, "no error")
	} else {
		sym.Assert(err != nil, "a failing removal is reported")
		var m plz.MultiError
		if merged, ok := err.(plz.MultiError); ok {
			m = merged
		} else {
			m = plz.MultiError{err}
		}
		sym.Assert(len(m) == failing, "every failing removal is reported")
	}
	for i := 0; i < n; i++ {
		_, err := os.Stat(filepath.Join(dir, string([]byte{'a' + byte(i)})))
		if kind[i] == 1 || kind[i] == 0 && selected[i] {
			sym.Assert(os.IsNotExist(err), "a selected file is removed")
		} else {
			sym.Assert(err == nil, "nothing else is removed")
		}
	}
}

var patterns = []string{"2006-01-02.log", "test-02-01-2006.log", "x.2006Jan02-150405", "2006-01-02T15-04-05.000.log", "foo-2006-2.log"}

var instants = []time.Time{
	time.Date(2018, 2, 28, 23, 59, 59, 999e6, time.UTC), time.Date(2018, 3, 1, 0, 0, 0, 0, time.UTC), time.Date(2017, 12, 31, 12, 0, 0, 5e6, time.UTC),
	time.Date(1999, 10, 3, 1, 2, 3, 0, time.UTC), time.Date(2018, 11, 2, 3, 4, 5, 6e6, time.UTC), time.Date(2018, 2, 28, 1, 0, 0, 0, time.UTC),
}

// Names: the archives of a directory, in the order of the times in their names
func Names() {
	dir := sym.TempDir()
	pattern := patterns[sym.Choice("pattern", len(patterns))]
	type arch struct {
		at   time.Time
		size int
	}
	want := map[string]arch{}
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		k := sym.Choice("instant", len(instants)+1)
		if k == len(instants) {
			continue
		}
		name := instants[k].Format(pattern)
		at, err := time.Parse(pattern, name)
		sym.Assert(err == nil, "parses")
		size := i
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, name), big[:size], 0644) == nil, "write")
		want[name] = arch{at, size}
	}
	if k := sym.Choice("other", 5); k > 0 {
		other := []string{"2006-01-02", "x", "2018-13-01.log", "test-2018-01-01.log"}[k-1]
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, other), nil, 0644) == nil, "write")
	}
	var namer rotation.NamingStrategy = &rotation.NameByTime{Directory: dir, Pattern: pattern}
	got, err := namer.ListFiles()
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == len(want), "the files named so are listed")
	for i, a := range got {
		sym.Assert(filepath.Dir(a.Path) == dir, "in the directory")
		name := filepath.Base(a.Path)
		w, ok := want[name]
		sym.Assert(ok, "only the files named so")
		delete(want, name)
		sym.Assert(a.ArchivedAt.Equal(w.at) && a.Size == int64(w.size), "time and size")
		sym.Assert(i == 0 || !got[i-1].ArchivedAt.After(a.ArchivedAt), "in the order of their times")
	}
	_, err = (&rotation.NameByTime{Directory: filepath.Join(dir, "missing"), Pattern: pattern}).ListFiles()
	sym.Assert(err != nil, "a directory that is not there is an error")
}

// Digits: two archives with any digits in their names
func Digits() {
	dir := sym.TempDir()
	one := func(tag string) (string, int) {
		m, d := sym.ByteIn(tag, '1', '9'), sym.ByteIn(tag, '1', '9')
		return "t-0" + string([]byte{d}) + "-0" + string([]byte{m}) + ".log", int(m)*10 + int(d)
	}
	a, x := one("a")
	b, y := one("b")
	sym.Assume(x != y)
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, a), nil, 0644) == nil, "write")
	sym.Assert(ioutil.WriteFile(filepath.Join(dir, b), nil, 0644) == nil, "write")
	got, err := (&rotation.NameByTime{Directory: dir, Pattern: "t-02-01.log"}).ListFiles()
	sym.Assert(err == nil && len(got) == 2, "both")
	if x > y {
		a, b = b, a
	}
	sym.Assert(got[0].Path == filepath.Join(dir, a) && got[1].Path == filepath.Join(dir, b), "in the order of their times")
}

// Next: the name of the next archive has the current time
func Next() {
	zone := time.FixedZone("zone", []int{0, 9 * 3600, -5 * 3600}[sym.Choice("zone", 3)])
	at := instants[sym.Choice("instant", len(instants))].In(zone)
	pattern := patterns[sym.Choice("pattern", len(patterns))]
	defer clock.ResetNow()
	clock.Now = func() time.Time { return at }
	name, err := (&rotation.NameByTime{Directory: "/a/b", Pattern: pattern}).NextFile()
	sym.Assert(err == nil && name == "/a/b/"+at.Format(pattern), "the directory and the time")
}

var errNaming = errors.New("naming")

type naming struct {
	next, list int
	path       string
}

func (n *naming) NextFile() (string, error) {
	if n.next == 1 {
		return "", errNaming
	}
	return n.path, nil
}
func (n *naming) ListFiles() ([]rotation.Archive, error) {
	if n.list == 1 {
		return nil, errNaming
	}
	return []rotation.Archive{{Path: n.path, Size: 42}}, nil
}

// Move: archiving moves the file
func Move() {
	dir := sym.TempDir()
	path := filepath.Join(dir, "x.log")
	content := sym.Bytes("content", 2)
	there := sym.Choice("there", 2) == 1
	if there {
		sym.Assert(ioutil.WriteFile(path, content, 0644) == nil, "write")
	}
	n := &naming{next: sym.Choice("next", 2), list: sym.Choice("list", 2), path: filepath.Join(dir, "x-1.log")}
	blocked := sym.Choice("blocked", 2) == 1
	if blocked { // the new name is a directory with something in it
		sym.Assert(os.Mkdir(n.path, 0755) == nil && ioutil.WriteFile(filepath.Join(n.path, "y"), nil, 0644) == nil, "mkdir")
	}
	got, err := (&rotation.ArchiveByMove{NamingStrategy: n}).Archive(path)
	moved := there && n.next == 0 && !blocked
	data, e1 := ioutil.ReadFile(path)
	sym.Assert((e1 == nil) == (there && !moved), "the file is moved")
	if e1 == nil {
		sym.Assert(string(data) == string(content), "the file is not modified")
	}
	if moved {
		data, err := ioutil.ReadFile(n.path)
		sym.Assert(err == nil && string(data) == string(content), "to the next name")
	}
	switch {
	case n.next == 1:
		sym.Assert(err == errNaming, "an error is reported")
	case !there && !blocked:
		sym.Assert(len(got) == 0 && err == nil, "nothing to archive")
	case blocked && there:
		sym.Assert(err != nil, "an error is reported")
	case blocked:
	case n.list == 1:
		sym.Assert(err == errNaming, "an error is reported")
	default:
		sym.Assert(err == nil && len(got) == 1 && got[0].Size == 42 && got[0].Path == n.path, "the archives that are there")
	}
}

// Index: files named by an index
func Index() {
	dir := sym.TempDir()
	naming := &rotation.NameByIndex{Directory: dir, Pattern: "test-%d.log"}
	want := map[string]bool{}
	for i := 0; i < sym.Param("n", 3); i++ {
		k := sym.Choice("file", 9)
		if k == 8 {
			continue
		}
		name := []string{"test-1.log", "test-12.log", "test-003.log", "test-a.log", "test-.log", "1.log", "test-1-log", "foo-1.log"}[k]
		sym.Assert(ioutil.WriteFile(filepath.Join(dir, name), nil, 0644) == nil, "write")
		if k < 3 {
			want[filepath.Join(dir, name)] = true
		}
	}
	got, err := naming.ListFiles()
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == len(want), "the files named so")
	for _, p := range got {
		sym.Assert(want[p], "only these")
		delete(want, p)
	}
	naming.Directory = filepath.Join(dir, "missing")
	got, err = naming.ListFiles()
	sym.Assert(err == nil && len(got) == 0, "none if there is no directory")
}

type every struct{ d time.Duration }

func (e every) UpdateStat(stat interface{}, file *os.File, buf []byte) (interface{}, bool, error) {
	return stat, false, nil
}
func (e every) TimeToTrigger() time.Duration { return e.d }

type counted struct {
	dir   string
	n     int
	fails int
}

func (c *counted) NextFile() (string, error) {
	if c.fails > 0 {
		c.fails--
		return "", errNaming
	}
	c.n++
	return filepath.Join(c.dir, "a"+strings.Repeat("a", c.n)), nil
}
func (c *counted) ListFiles() ([]rotation.Archive, error) {
	var out []rotation.Archive
	for i := 1; i <= c.n; i++ {
		p := filepath.Join(c.dir, "a"+strings.Repeat("a", i))
		if _, err := os.Stat(p); err == nil {
			out = append(out, rotation.Archive{Path: p})
		}
	}
	return out, nil
}

// Write: what was written is in the archives, in order, and in the file
func Write() {
	dir := sym.TempDir()
	path := filepath.Join(dir, "sub", "x.log")
	all := ""
	if sym.Choice("existing", 2) == 1 {
		sym.Assert(os.Mkdir(filepath.Join(dir, "sub"), 0755) == nil && ioutil.WriteFile(path, []byte("old"), 0644) == nil, "write")
		all = "old"
	}
	names := &counted{dir: dir, fails: sym.Choice("fails", sym.Param("fails", 0)+1)}
	keep := []int{100, 1}[sym.Choice("keep", sym.Param("keep", 1))]
	w, err := rotation.NewWriter(rotation.Config{
		WritePath:       path,
		TriggerStrategy: every{time.Second},
		ArchiveStrategy: &rotation.ArchiveByMove{NamingStrategy: names},
		RetainStrategy:  &rotation.RetainByCount{MaxArchivesCount: keep},
		PurgeStrategy:   &rotation.PurgeByDelete{},
	})
	sym.Assert(err == nil, "opens")
	for i := 0; i < sym.Param("n", 3); i++ {
		if sym.Choice("pass", 2) == 1 {
			sym.Advance(2100000000)
		}
		s := string([]byte{'0' + byte(i), '.'})
		n, err := w.Write([]byte(s))
		sym.Assert(n == 2 && err == nil, "a write is accepted")
		all += s
	}
	sym.Assert(w.Close() == nil, "closes")
	got := ""
	archives, err := names.ListFiles()
	sym.Assert(err == nil, "list")
	for _, a := range archives {
		data, err := ioutil.ReadFile(a.Path)
		sym.Assert(err == nil, "read")
		got += string(data)
	}
	data, err := ioutil.ReadFile(path)
	sym.Assert(err == nil || os.IsNotExist(err), "read")
	got += string(data)
	if keep < 100 && names.n > keep {
		sym.Assert(len(archives) <= keep, "no more archives than to be kept")
		sym.Assert(len(archives) == keep && strings.HasSuffix(all, got), "the last writes are in the files, in order")
		sym.Reach("purged")
		return
	}
	sym.Assert(got == all, "the writes are in the files, in order")
	sym.Reach("checked")
}

// at: intervals to the first triggers, then an hour
type at struct {
	every
	n int
}

func (a *at) TimeToTrigger() time.Duration {
	if a.n == 0 {
		return time.Hour
	}
	a.n--
	return a.every.d
}

// Retry: archiving that fails is tried again
func Retry() {
	dir := sym.TempDir()
	path := filepath.Join(dir, "x.log")
	names := &counted{dir: dir, fails: sym.Choice("fails", sym.Param("fails", 3))}
	n := names.fails
	w, err := rotation.NewWriter(rotation.Config{
		WritePath:       path,
		TriggerStrategy: &at{every{time.Second}, n + 1},
		ArchiveStrategy: &rotation.ArchiveByMove{NamingStrategy: names},
		RetainStrategy:  &rotation.RetainByCount{MaxArchivesCount: 3},
		PurgeStrategy:   &rotation.PurgeByDelete{},
	})
	sym.Assert(err == nil, "opens")
	k, err := w.Write([]byte("a"))
	sym.Assert(k == 1 && err == nil, "a write is accepted")
	_, err = os.Stat(path)
	sym.Assert(err == nil, "the file is there")
	sym.Advance((n+1)*61000000000 + 2000000000) // at the latest a minute after each failure
	_, err = os.Stat(path)
	sym.Assert(os.IsNotExist(err) && names.n == 1, "the file is archived, however often that failed")
	k, err = w.Write([]byte("b"))
	sym.Assert(k == 1 && err == nil, "a write is accepted")
	sym.Assert(w.Close() == nil, "closes")
	old, err := ioutil.ReadFile(filepath.Join(dir, "aa"))
	sym.Assert(err == nil && string(old) == "a", "the archive")
	cur, err := ioutil.ReadFile(path)
	sym.Assert(err == nil && string(cur) == "b", "the new file")
	sym.Reach("checked")
}
