package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type ReplayFile struct {
	Property string           `json:"property"`
	Pkg      string           `json:"pkg"`
	Fn       string           `json:"fn"`
	Params   map[string]int64 `json:"params"`
	Flags    map[string]int64 `json:"flags,omitempty"`
	Inputs   []InVal          `json:"inputs"`
	Kind     string           `json:"kind,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	Native   string           `json:"native,omitempty"`
	How      string           `json:"how,omitempty"`
}

type Native struct {
	dir  string
	bin  string
	err  error
	once sync.Once
	hpkg string
}

func overlayJSON(path string) error {
	rep := map[string]string{}
	for v, r := range harnessFiles() {
		rep[v] = r
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	return os.WriteFile(path, b, 0o644)
}

func (n *Native) build() error {
	n.once.Do(func() {
		ov := filepath.Join(n.dir, "overlay.json")
		if n.err = overlayJSON(ov); n.err != nil {
			return
		}
		n.bin = filepath.Join(n.dir, "h_"+n.hpkg)
		cmd := exec.Command(targetRoot+"/bin/go", "build", "-overlay", ov, "-tags", "verif", "-o", n.bin, hPrefix+n.hpkg)
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v: %s", err, out)
		}
	})
	return n.err
}

type NativeOut struct {
	exit    int
	timeout bool
	lines   []string
	stderr  string
}

var tmpSeq int
var tmpMu sync.Mutex

func (n *Native) run(rf *ReplayFile, timeout time.Duration) (*NativeOut, error) {
	if err := n.build(); err != nil {
		return nil, err
	}
	tmpMu.Lock()
	tmpSeq++
	f := filepath.Join(n.dir, fmt.Sprintf("r%d.json", tmpSeq))
	td := filepath.Join(n.dir, fmt.Sprintf("t%d", tmpSeq))
	tmpMu.Unlock()
	os.MkdirAll(td, 0o755)
	b, _ := json.Marshal(rf)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	defer os.RemoveAll(td)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 8000000; exec \"$0\"", n.bin)
	cmd.Env = append(goEnv(), "VERIF_REPLAY="+f, "TMPDIR="+td)
	cmd.Dir = td
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &se
	err := cmd.Run()
	o := &NativeOut{stderr: se.String()}
	if len(o.stderr) > 3000 {
		o.stderr = o.stderr[:3000]
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "OBS ") || strings.HasPrefix(l, "ASSERT ") || l == "DONE" || strings.HasPrefix(l, "INPUT") || l == "ASSUME-FALSE" {
			o.lines = append(o.lines, l)
		}
	}
	if ctx.Err() != nil {
		o.timeout = true
	} else if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			o.exit = ee.ExitCode()
		} else {
			return nil, err
		}
	}
	return o, nil
}

func (o *NativeOut) last() string {
	if len(o.lines) == 0 {
		return ""
	}
	return o.lines[len(o.lines)-1]
}

// reproduces: does the native run show the violation?
func (o *NativeOut) reproduces(kind string) (bool, string) {
	switch {
	case o.timeout:
		return true, "native run hangs"
	case o.exit == 3:
		return true, "native: " + o.last()
	case o.exit == 2 && (strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:")) || strings.Contains(o.stderr, "SIGSEGV") || strings.Contains(o.stderr, "unexpected fault address"):
		l := o.stderr
		if i := strings.IndexByte(l, '\n'); i > 0 {
			l = l[:i]
		}
		return true, "native: " + l
	}
	return false, fmt.Sprintf("native exit %d %s", o.exit, o.last())
}
