package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Env is what a case needs to run the code under test: the binaries built
// from /repo's working tree and a scratch directory that belongs to the case.
type Env struct {
	Oct    string // the CLI
	Helper string // loads and saves octopus files through the public Go API
	Root   string // parent of the scratch directories
	n      int

	FullDisk bool // the case itself lets writes fail for want of space
}

// Infra is an error of the check itself (never a violation).
type Infra struct{ err error }

func (i Infra) Error() string { return "infrastructure: " + i.err.Error() }

// limitMemory bounds the memory of the processes a worker starts, so that
// one that allocates without end is reported and does not fill the machine.
func limitMemory() {
	const max = 2500 << 20
	if err := syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: max, Max: max}); err != nil {
		infra("setrlimit: %v", err)
	}
}

func infra(format string, args ...interface{}) { panic(Infra{fmt.Errorf(format, args...)}) }

// Scratch makes a fresh directory; done removes it.
func (e *Env) Scratch() (dir string, done func()) {
	e.n++
	dir, err := os.MkdirTemp(e.Root, "case")
	if err != nil {
		infra("mkdtemp: %v", err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

type Result struct {
	Exit   int
	Stdout string
	Stderr string
	Signal string
}

func (r *Result) OK() bool { return r.Exit == 0 }
func (r *Result) Crashed() bool {
	return r.Signal != "" || strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:"))
}
func (r *Result) Brief() string {
	return fmt.Sprintf("exit=%d signal=%q stderr=%q stdout=%q", r.Exit, r.Signal, clip(r.Stderr, 600), clip(r.Stdout, 200))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

const procTimeout = 40 * time.Second

// Run executes a command with cwd dir, and a clean environment.
func (e *Env) Run(dir, bin string, extraEnv []string, args ...string) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), procTimeout)
	defer cancel()
	var so, se bytes.Buffer
	var err error
	for try := 0; ; try++ {
		so.Reset()
		se.Reset()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = dir
		cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + dir, "LANG=C.UTF-8", "TZ=UTC", "GOMAXPROCS=2"}, extraEnv...)
		cmd.Stdout, cmd.Stderr = &so, &se
		err = cmd.Run()
		// starting a process can fail on a busy machine; that says nothing about the code
		if err != nil && try < 5 && (errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ENOMEM) || errors.Is(err, syscall.ETXTBSY)) {
			time.Sleep(300 * time.Millisecond)
			continue
		}
		break
	}
	r := &Result{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		// it takes milliseconds; this is a hang
		r.Exit, r.Signal = -1, fmt.Sprintf("did not finish within %v", procTimeout)
		return r
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			infra("cannot run %s: %v", bin, err)
		}
		r.Exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signal = ws.Signal().String()
			if ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM {
				infra("%s was killed from outside (%s)", bin, r.Signal)
			}
		}
		if strings.Contains(r.Stderr, "no space left on device") && !e.FullDisk {
			infra("%s ran out of a resource: %s", bin, clip(r.Stderr, 300))
		}
	}
	return r
}

func (e *Env) RunOct(dir string, args ...string) *Result { return e.Run(dir, e.Oct, nil, args...) }

func write(path string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		infra("mkdir: %v", err)
	}
	if err := os.WriteFile(path, data, 0644); err != nil {
		infra("write: %v", err)
	}
}

func read(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	return string(b)
}

func exists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

// tree lists every file below dir with its content.
func tree(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			if rel != "." {
				m[rel+"/"] = ""
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[rel] = string(b)
		return nil
	})
	if err != nil {
		infra("walk: %v", err)
	}
	return m
}
