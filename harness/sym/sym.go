// Package sym is the nondeterminism interface of the harnesses. Under the symbolic executor every
// function marked "engine" is intercepted; natively the values come from a replay file.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/signal"
	"runtime"
	"syscall"
	"time"
)

type T map[string]func()

type replay struct {
	Fn     string           `json:"fn"`
	Params map[string]int64 `json:"params"`
	Inputs []struct {
		Tag string `json:"tag"`
		Val uint64 `json:"val"`
	} `json:"inputs"`
}

var cur replay
var pos int
var tmp string

// Main runs the harness function named in the replay file VERIF_REPLAY.
func Main(t T) {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "sym:", err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Fprintln(os.Stderr, "sym:", err)
		os.Exit(9)
	}
	f := t[cur.Fn]
	if f == nil {
		fmt.Fprintln(os.Stderr, "sym: no harness", cur.Fn)
		os.Exit(9)
	}
	f()
	Cleanup()
	fmt.Println("DONE")
}

func next(tag string) uint64 {
	for pos < len(cur.Inputs) && cur.Inputs[pos].Tag[0] == '!' {
		pos++
	}
	if pos >= len(cur.Inputs) {
		Cleanup()
		fmt.Println("INPUTS-EXHAUSTED " + tag)
		os.Exit(7)
	}
	in := cur.Inputs[pos]
	if in.Tag != tag {
		Cleanup()
		fmt.Println("INPUT-MISMATCH want " + in.Tag + " got " + tag)
		os.Exit(7)
	}
	pos++
	return in.Val
}

func byteIn(tag string, lo, hi byte) byte                  { return byte(next(tag)) } // engine
func uintIn(tag string, width int, lo, hi uint64) uint64   { return next(tag) }       // engine
func boolIn(tag string) bool                               { return next(tag) != 0 }  // engine

func Byte(tag string) byte                { return byteIn(tag, 0, 255) }
func ByteIn(tag string, lo, hi byte) byte { return byteIn(tag, lo, hi) }
func Bool(tag string) bool                { return boolIn(tag) }
func Uint64(tag string) uint64            { return uintIn(tag, 64, 0, 1<<64-1) }
func Uint64In(tag string, lo, hi uint64) uint64 {
	return uintIn(tag, 64, lo, hi)
}
func Int64(tag string) int64   { return int64(uintIn(tag, 64, 0, 1<<64-1)) }
func Uint32(tag string) uint32 { return uint32(uintIn(tag, 32, 0, 1<<32-1)) }
func Int32(tag string) int32   { return int32(uintIn(tag, 32, 0, 1<<32-1)) }
func Uint16(tag string) uint16 { return uint16(uintIn(tag, 16, 0, 1<<16-1)) }
func Int16(tag string) int16   { return int16(uintIn(tag, 16, 0, 1<<16-1)) }
func Int8(tag string) int8     { return int8(byteIn(tag, 0, 255)) }

// IntIn is a symbolic int in [lo,hi], lo >= 0.
func IntIn(tag string, lo, hi int) int { return int(uintIn(tag, 64, uint64(lo), uint64(hi))) }

// Choice is a concrete int in [0,n): the executor forks over its values.
func Choice(tag string, n int) int {
	if n <= 1 {
		return 0
	}
	return Concrete(int(byteIn(tag, 0, byte(n-1))))
}

// Bytes is a slice of exactly n symbolic bytes (capacity n).
func Bytes(tag string, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byteIn(tag, 0, 255)
	}
	return b
}

func BytesIn(tag string, n int, lo, hi byte) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byteIn(tag, lo, hi)
	}
	return b
}

// BytesOf: n symbolic bytes drawn from alphabet.
func BytesOf(tag string, n int, alphabet string) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = alphabet[byteIn(tag, 0, byte(len(alphabet)-1))]
	}
	return b
}

func String(tag string, n int) string { return string(Bytes(tag, n)) }

func Concrete(v int) int      { return v } // engine
func ConcreteBytes(b []byte)  {}           // engine
func Symbolic() bool          { return false }
func Reach(tag string)        {}
func Flag(name string, v int) {}

// Param is a bound chosen by the check configuration.
func Param(name string, def int) int { // engine
	if v, ok := cur.Params[name]; ok {
		return int(v)
	}
	return def
}

func Assume(b bool) { // engine
	if !b {
		Cleanup()
		fmt.Println("ASSUME-FALSE")
		os.Exit(6)
	}
}

func Assert(b bool, msg string) { // engine
	if !b {
		Fail(msg)
	}
}

func Fail(msg string) {
	Cleanup()
	fmt.Println("ASSERT " + msg)
	os.Exit(3)
}

func observe(tag string, b []byte) { fmt.Println("OBS " + tag + " " + hex.EncodeToString(b)) } // engine
func observeInt(tag string, v int64) { fmt.Printf("OBS #%s %x\n", tag, uint64(v)) }            // engine

func Obs(tag string, b []byte)       { observe(tag, b) }
func ObsStr(tag string, s string)    { observe(tag, []byte(s)) }
func ObsInt(tag string, v int)       { observeInt(tag, int64(v)) }
func ObsBool(tag string, v bool) {
	if v {
		observeInt(tag, 1)
	} else {
		observeInt(tag, 0)
	}
}

// Advance moves the virtual clock; natively it sleeps.
func Advance(ns int) { time.Sleep(time.Duration(ns)) }

// Quiesce waits until every other goroutine is blocked.
func Quiesce() { // engine
	for i := 0; i < 50; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

// TempDir is an empty scratch directory.
func TempDir() string { // engine
	if tmp == "" {
		d, err := ioutil.TempDir("", "verif")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}

// FileLimit makes every write that lets a file grow beyond n bytes fail, after writing up to there; -1 ends that.
func FileLimit(n int) { // engine
	signal.Ignore(syscall.SIGXFSZ)
	var r syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
	r.Cur = uint64(n)
	if n < 0 || r.Cur > r.Max {
		r.Cur = r.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

func Cleanup() { // engine
	if tmp != "" {
		os.RemoveAll(tmp)
		tmp = ""
	}
}

// Panics reports whether f panicked, and with what.
func Panics(f func()) (v interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
		}
	}()
	f()
	panicked = false
	return
}
