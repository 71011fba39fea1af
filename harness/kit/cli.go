package kit

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"time"
)

// RunResult is what a run of the real command-line program did.
type RunResult struct {
	Rc      int // exit code; 2 is Go's code for a panic
	How     string
	Stdout  []byte
	Stderr  string
	Timeout bool
}

// Alive restarts the clock of the running case.
func (t *T) Alive() {
	fmt.Println("H")
	t.started.Store(time.Now().UnixNano())
}

// Run runs the real diskii binary in dir.
func (t *T) Run(dir string, stdin []byte, args ...string) RunResult {
	for try := 0; ; try++ {
		lim := 10 * time.Second
		if try > 0 {
			lim = time.Duration(t.limit-2) * time.Second
		}
		t.Alive()
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		cmd := exec.CommandContext(ctx, t.CLI, args...)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single", "GOMEMLIMIT=2GiB"}
		var o, e bytes.Buffer
		cmd.Stdout = &capped{b: &o, max: 64 << 20}
		cmd.Stderr = &tail{b: &e}
		if stdin != nil {
			cmd.Stdin = bytes.NewReader(stdin)
		}
		err := cmd.Run()
		t.Alive()
		timedOut := ctx.Err() != nil
		cancel()
		r := RunResult{Stdout: o.Bytes(), Stderr: e.String(), Timeout: timedOut, How: "ok"}
		var ee *exec.ExitError
		switch {
		case timedOut:
			if try == 0 {
				continue
			}
			if t.limit < t.confirm {
				select {} // the case is run again, with more time
			}
			r.Rc, r.How = -1, "timeout"
		case err == nil:
		case errors.As(err, &ee):
			r.Rc = ee.ExitCode()
			if bytes.Contains(e.Bytes(), []byte("panic: ")) || bytes.Contains(e.Bytes(), []byte("fatal error: ")) {
				r.How = "panic"
			}
		default:
			panic("kit: cannot run the program: " + err.Error())
		}
		return r
	}
}

type capped struct {
	b   *bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len()+len(p) > c.max {
		return len(p), nil
	}
	return c.b.Write(p)
}

// Must stops the driver on an error of its own.
func Must(err error) {
	if err != nil {
		panic("kit: " + err.Error())
	}
}

// WriteFile writes a scratch file.
func WriteFile(name string, b []byte) {
	Must(os.WriteFile(name, b, 0o600))
}
