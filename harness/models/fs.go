package models

import (
	"errors"
	"io"
	"os"
	"syscall"
	"time"
)

// An in-memory file system: what the os package does on a POSIX system with one process, as far as the code under test
// uses it. Every operation is atomic.

type node struct {
	path     string
	dir      bool
	linked   bool
	mode     os.FileMode
	data     []byte
	mod      time.Time
	uid, gid uint32
}

type handle struct {
	f      *os.File
	n      *node
	path   string
	off    int
	app    bool
	rd, wr bool
	closed bool
	listed bool
}

var nodes = []*node{{path: "/", dir: true, linked: true, mode: os.ModeDir | 0755}, {path: "/vroot", dir: true, linked: true, mode: os.ModeDir | 0755}}
var handles []*handle

func point()       // engine: other goroutines may run before the operation
func quiet(on int) // engine: the model's own memory is not subject to race detection

func find(p string) *node {
	for _, n := range nodes {
		if n.linked && n.path == p {
			return n
		}
	}
	return nil
}

func clean(p string) string {
	if p == "" {
		return p
	}
	// the paths of the code under test come from filepath.Join; the working directory is the root
	if p[0] != '/' {
		p = "/" + p
	}
	out := ""
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		e := p[i:j]
		if e == ".." {
			k := len(out)
			for k > 0 && out[k-1] != '/' {
				k--
			}
			if k > 0 {
				out = out[:k-1]
			}
		} else if e != "" && e != "." {
			out += "/" + e
		}
		i = j
	}
	if out == "" {
		return "/"
	}
	return out
}

func parent(p string) string {
	i := len(p) - 1
	for i > 0 && p[i] != '/' {
		i--
	}
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

func base(p string) string {
	i := len(p)
	for i > 0 && p[i-1] != '/' {
		i--
	}
	return p[i:]
}

func pathErr(op, path string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: path, Err: e}
}

// checkParent: the directory of p exists
func checkParent(p string) syscall.Errno {
	d := find(parent(p))
	if d == nil {
		return syscall.ENOENT
	}
	if !d.dir {
		return syscall.ENOTDIR
	}
	return 0
}

func FsOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	point()
	quiet(1)
	f, err := openFile(name, flag, perm)
	quiet(0)
	return f, err
}

func openFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	p := clean(name)
	if p == "" {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	n := find(p)
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if e := checkParent(p); e != 0 {
			return nil, pathErr("open", name, e)
		}
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		n = &node{path: p, linked: true, mode: perm.Perm(), mod: time.Now()}
		nodes = append(nodes, n)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, pathErr("open", name, syscall.EEXIST)
	} else if n.dir && (acc != os.O_RDONLY || flag&os.O_CREATE != 0) {
		return nil, pathErr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && !n.dir {
		n.data = nil
	}
	f := new(os.File)
	handles = append(handles, &handle{f: f, n: n, path: name, app: flag&os.O_APPEND != 0, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY})
	return f, nil
}

func handleOf(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func use(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handleOf(f)
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.closed {
		return nil, &os.PathError{Op: op, Path: h.path, Err: os.ErrClosed}
	}
	return h, nil
}

func FsWrite(f *os.File, b []byte) (int, error) {
	point()
	quiet(1)
	n, err := write(f, b)
	quiet(0)
	return n, err
}

func write(f *os.File, b []byte) (int, error) {
	h, err := use(f, "write")
	if err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, pathErr("write", h.path, syscall.EBADF)
	}
	if h.app {
		h.off = len(h.n.data)
	}
	full := false
	if limit >= 0 && h.off+len(b) > limit && len(b) > 0 {
		full = true
		if h.off >= limit {
			return 0, pathErr("write", h.path, syscall.EFBIG)
		}
		b = b[:limit-h.off]
	}
	for len(h.n.data) < h.off {
		h.n.data = append(h.n.data, 0)
	}
	k := copy(h.n.data[h.off:], b)
	h.n.data = append(h.n.data, b[k:]...)
	h.off += len(b)
	if len(b) > 0 {
		h.n.mod = time.Now()
	}
	if full {
		return len(b), pathErr("write", h.path, syscall.EFBIG)
	}
	return len(b), nil
}

// limit: the largest size of a file that writing can give it, if not negative
var limit = -1

func FsLimit(n int) { limit = n }

func FsWriteString(f *os.File, s string) (int, error) { return FsWrite(f, []byte(s)) }

func FsRead(f *os.File, b []byte) (int, error) {
	point()
	quiet(1)
	n, err := read(f, b)
	quiet(0)
	return n, err
}

func read(f *os.File, b []byte) (int, error) {
	h, err := use(f, "read")
	if err != nil {
		return 0, err
	}
	if !h.rd {
		return 0, pathErr("read", h.path, syscall.EBADF)
	}
	if h.n.dir {
		return 0, pathErr("read", h.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[h.off:])
	h.off += n
	return n, nil
}

func FsWriteTo(f *os.File, w io.Writer) (int64, error) {
	total := int64(0)
	buf := make([]byte, 512)
	for {
		n, err := FsRead(f, buf)
		if n > 0 {
			k, werr := w.Write(buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func FsReadFrom(f *os.File, r io.Reader) (int64, error) {
	total := int64(0)
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			k, werr := FsWrite(f, buf[:n])
			total += int64(k)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func FsClose(f *os.File) error {
	point()
	quiet(1)
	h, err := use(f, "close")
	if err == nil {
		h.closed = true
	}
	quiet(0)
	return err
}

func FsSync(f *os.File) error {
	_, err := use(f, "sync")
	return err
}

func FsName(f *os.File) string {
	h := handleOf(f)
	if h == nil {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	return h.path
}

func FsSeek(f *os.File, offset int64, whence int) (int64, error) {
	quiet(1)
	h, err := use(f, "seek")
	if err == nil {
		switch whence {
		case 0:
			h.off = int(offset)
		case 1:
			h.off += int(offset)
		case 2:
			h.off = len(h.n.data) + int(offset)
		}
		offset = int64(h.off)
	}
	quiet(0)
	return offset, err
}

func FsTruncate(name string, size int64) error {
	point()
	quiet(1)
	n := find(clean(name))
	var err error
	if n == nil {
		err = pathErr("truncate", name, syscall.ENOENT)
	} else {
		n.truncate(int(size))
	}
	quiet(0)
	return err
}

func FsFileTruncate(f *os.File, size int64) error {
	point()
	quiet(1)
	h, err := use(f, "truncate")
	if err == nil {
		h.n.truncate(int(size))
	}
	quiet(0)
	return err
}

func (n *node) truncate(size int) {
	if size <= len(n.data) {
		n.data = n.data[:size:size]
		return
	}
	n.data = append(n.data, make([]byte, size-len(n.data))...)
}

type info struct {
	name     string
	size     int64
	mode     os.FileMode
	mod      time.Time
	uid, gid uint32
}

func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() os.FileMode          { return i.mode }
func (i *info) ModTime() time.Time         { return i.mod }
func (i *info) IsDir() bool                { return i.mode.IsDir() }
func (i *info) Sys() interface{}           { return &syscall.Stat_t{Uid: i.uid, Gid: i.gid} }
func (i *info) Type() os.FileMode          { return i.mode.Type() }
func (i *info) Info() (os.FileInfo, error) { return i, nil }

func (n *node) info() *info {
	return &info{name: base(n.path), size: int64(len(n.data)), mode: n.mode, mod: n.mod, uid: n.uid, gid: n.gid}
}

func FsStat(name string) (os.FileInfo, error) {
	point()
	quiet(1)
	n := find(clean(name))
	var fi os.FileInfo
	var err error
	if n == nil || name == "" {
		err = pathErr("stat", name, syscall.ENOENT)
	} else {
		fi = n.info()
	}
	quiet(0)
	return fi, err
}

func FsFileStat(f *os.File) (os.FileInfo, error) {
	point()
	quiet(1)
	h, err := use(f, "stat")
	var fi os.FileInfo
	if err == nil {
		fi = h.n.info()
	}
	quiet(0)
	return fi, err
}

func FsRename(from, to string) error {
	point()
	quiet(1)
	e := rename(clean(from), clean(to))
	quiet(0)
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

func rename(from, to string) syscall.Errno {
	n := find(from)
	if n == nil {
		return syscall.ENOENT
	}
	if e := checkParent(to); e != 0 {
		return e
	}
	if from == to {
		return 0
	}
	o := find(to)
	if o != nil {
		if o.dir {
			return syscall.EEXIST
		}
		if n.dir {
			return syscall.ENOTDIR
		}
		o.linked = false
	}
	if n.dir {
		for _, c := range nodes {
			if c.linked && len(c.path) > len(from) && c.path[:len(from)] == from && c.path[len(from)] == '/' {
				c.path = to + c.path[len(from):]
			}
		}
	}
	n.path = to
	return 0
}

func empty(dir string) bool {
	for _, c := range nodes {
		if c.linked && c.path != dir && parent(c.path) == dir {
			return false
		}
	}
	return true
}

func FsRemove(name string) error {
	point()
	quiet(1)
	n := find(clean(name))
	var err error
	if n == nil || name == "" {
		err = pathErr("remove", name, syscall.ENOENT)
	} else if n.dir && !empty(n.path) {
		err = pathErr("remove", name, syscall.ENOTEMPTY)
	} else {
		n.linked = false
	}
	quiet(0)
	return err
}

func FsRemoveAll(name string) error {
	point()
	quiet(1)
	p := clean(name)
	for _, c := range nodes {
		if c.path == p || len(c.path) > len(p) && c.path[:len(p)] == p && c.path[len(p)] == '/' {
			c.linked = false
		}
	}
	quiet(0)
	return nil
}

func mkdir(p string, perm os.FileMode) syscall.Errno {
	if find(p) != nil {
		return syscall.EEXIST
	}
	if e := checkParent(p); e != 0 {
		return e
	}
	nodes = append(nodes, &node{path: p, dir: true, linked: true, mode: os.ModeDir | perm.Perm(), mod: time.Now()})
	return 0
}

func FsMkdir(name string, perm os.FileMode) error {
	point()
	quiet(1)
	e := mkdir(clean(name), perm)
	quiet(0)
	if e != 0 {
		return pathErr("mkdir", name, e)
	}
	return nil
}

func FsMkdirAll(name string, perm os.FileMode) error {
	point()
	quiet(1)
	e := mkdirAll(clean(name), perm)
	quiet(0)
	if e != 0 {
		return pathErr("mkdir", name, e)
	}
	return nil
}

func mkdirAll(p string, perm os.FileMode) syscall.Errno {
	if n := find(p); n != nil {
		if n.dir {
			return 0
		}
		return syscall.ENOTDIR
	}
	if e := mkdirAll(parent(p), perm); e != 0 {
		return e
	}
	return mkdir(p, perm)
}

func FsChown(name string, uid, gid int) error {
	point()
	quiet(1)
	n := find(clean(name))
	var err error
	if n == nil {
		err = pathErr("chown", name, syscall.ENOENT)
	} else {
		n.uid, n.gid = uint32(uid), uint32(gid)
	}
	quiet(0)
	return err
}

func FsChmod(name string, mode os.FileMode) error {
	point()
	quiet(1)
	n := find(clean(name))
	var err error
	if n == nil {
		err = pathErr("chmod", name, syscall.ENOENT)
	} else {
		n.mode = n.mode&^os.ModePerm | mode.Perm()
	}
	quiet(0)
	return err
}

func FsChtimes(name string, a, m time.Time) error {
	point()
	quiet(1)
	n := find(clean(name))
	var err error
	if n == nil {
		err = pathErr("chtimes", name, syscall.ENOENT)
	} else {
		n.mod = m
	}
	quiet(0)
	return err
}

// list: the entries of a directory, sorted by name
func list(dir string) []*info {
	var out []*info
	for _, c := range nodes {
		if c.linked && c.path != dir && parent(c.path) == dir {
			i := c.info()
			out = append(out, i)
			for k := len(out) - 1; k > 0 && out[k-1].name > i.name; k-- {
				out[k], out[k-1] = out[k-1], i
			}
		}
	}
	return out
}

func FsReadDir(name string) ([]os.DirEntry, error) {
	point()
	quiet(1)
	n := find(clean(name))
	var out []os.DirEntry
	var err error
	if n == nil {
		err = pathErr("open", name, syscall.ENOENT)
	} else if !n.dir {
		err = pathErr("readdirent", name, syscall.ENOTDIR)
	} else {
		for _, i := range list(n.path) {
			out = append(out, &entry{i, name})
		}
	}
	quiet(0)
	return out, err
}

// entry: examined when asked for, it may be gone by then
type entry struct {
	i   *info
	dir string
}

func (e *entry) Name() string               { return e.i.name }
func (e *entry) IsDir() bool                { return e.i.IsDir() }
func (e *entry) Type() os.FileMode          { return e.i.Type() }
func (e *entry) Info() (os.FileInfo, error) { return FsStat(e.dir + "/" + e.i.name) }

func listHandle(f *os.File, n int, op string) ([]*info, error) {
	if n > 0 {
		panic("model: reading a directory in pieces")
	}
	h, err := use(f, op)
	if err != nil {
		return nil, err
	}
	if !h.n.dir {
		return nil, pathErr(op, h.path, syscall.ENOTDIR)
	}
	if h.listed {
		return nil, nil
	}
	h.listed = true
	// the order of a directory is arbitrary: neither sorted nor in the order of creation
	l := list(h.n.path)
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l, nil
}

func FsReaddirnames(f *os.File, n int) ([]string, error) {
	point()
	quiet(1)
	l, err := listHandle(f, n, "readdirent")
	var out []string
	for _, i := range l {
		out = append(out, i.name)
	}
	quiet(0)
	return out, err
}

func FsReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	point()
	quiet(1)
	l, err := listHandle(f, n, "readdirent")
	quiet(0)
	var out []os.FileInfo
	for _, i := range l {
		// what is gone meanwhile is left out
		if fi, err := FsStat(FsName(f) + "/" + i.name); err == nil {
			out = append(out, fi)
		}
	}
	return out, err
}

func FsFileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	point()
	quiet(1)
	l, err := listHandle(f, n, "readdirent")
	var out []os.DirEntry
	for _, i := range l {
		out = append(out, &entry{i, FsName(f)})
	}
	quiet(0)
	return out, err
}

func FsReadFile(name string) ([]byte, error) {
	point()
	quiet(1)
	n := find(clean(name))
	var out []byte
	var err error
	if n == nil {
		err = pathErr("open", name, syscall.ENOENT)
	} else if n.dir {
		err = pathErr("read", name, syscall.EISDIR)
	} else {
		out = append([]byte{}, n.data...)
	}
	quiet(0)
	return out, err
}

func FsTempDir() string { return "/vroot" }

var errUnused = errors.New("")
