// Package kit is the shared part of the conformance drivers: it runs numbered
// cases in a supervised child process, records what the real code did as one
// JSON line per event, and nothing else. It judges nothing: the TLA+
// specifications in /verif/spec do.
package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Obj is one JSON object of a trace line.
type Obj map[string]interface{}

// Ctx is handed to a family's Run function.
type Ctx struct {
	Tier    string // quick or thorough
	Seed    int64
	Gen     string // file of cases generated by TLC (may be "")
	Scratch string // private directory, removed by the orchestrator
	CLI     string // the real diskii binary ("" if the family has no use for it)
	Repo    string
	Prop    string // the property asked about ("" for all)

	idx     int
	from    int
	only    int
	shard   int
	shards  int
	out     *bufio.Writer
	cur     int
	started atomic.Int64 // unix nanos at which the current case started; 0 if none
	lines   int

	limit, confirm int // seconds an operation may take, and when the case is run again

	deadline int64 // unix seconds after which no further case is started
}

// Over tells whether the time for the whole run is used up: a long case then
// ends with what it has.
func (c *Ctx) Over() bool { return c.deadline != 0 && time.Now().Unix() > c.deadline }

// Thorough tells whether the thorough tier was asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// T is a running case.
type T struct {
	*Ctx
	Kind string
	R    *rand.Rand
	Int  *Interner
}

// Case runs one case, unless it belongs to another shard or has been run
// already. Everything a case does must depend only on its own T.R and its
// arguments, so that cases can be skipped or run alone.
func (c *Ctx) Case(kind string, f func(t *T)) {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if i < c.from || i%c.shards != c.shard {
		return
	}
	if c.Over() {
		return
	}
	_ = c.out.Flush()
	fmt.Printf("S %d %s\n", i, kind)
	c.cur = i
	c.started.Store(time.Now().UnixNano())
	t := &T{Ctx: c, Kind: kind, R: rand.New(rand.NewSource(c.Seed*1000003 + int64(i))), Int: NewInterner()}
	f(t)
	c.started.Store(0)
	_ = c.out.Flush()
}

// Emit writes one event line of the case.
func (t *T) Emit(o Obj) {
	o["case"] = t.cur
	if _, ok := o["kind"]; !ok {
		o["kind"] = t.Kind
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic("kit: " + err.Error())
	}
	_, _ = t.out.Write(b)
	_ = t.out.WriteByte('\n')
	_ = t.out.Flush()
	t.lines++
}

// Outcome runs f, the only place where code under test is called, and
// returns "ok" or "panic".
func Outcome(f func()) (how string) {
	defer func() {
		if e := recover(); e != nil {
			how = "panic"
			LastPanic = fmt.Sprint(e)
			if len(LastPanic) > 300 {
				LastPanic = LastPanic[:300]
			}
		}
	}()
	f()
	return "ok"
}

// LastPanic is the text of the last recovered panic.
var LastPanic string

// Interner gives equal sectors equal small numbers; the all-zero sector is 0.
type Interner struct {
	m map[string]int
}

// NewInterner returns an empty Interner.
func NewInterner() *Interner { return &Interner{m: map[string]int{}} }

// Tok is the number of a piece of data (any length).
func (in *Interner) Tok(b []byte) int {
	zero := true
	for _, x := range b {
		if x != 0 {
			zero = false
			break
		}
	}
	if zero && len(b) == 256 {
		return 0
	}
	k := string(b)
	if n, ok := in.m[k]; ok {
		return n
	}
	n := len(in.m) + 1
	in.m[k] = n
	return n
}

// Sectors splits data in 256-byte pieces (the last may be shorter) and
// returns their numbers.
func (in *Interner) Sectors(b []byte) []int {
	r := make([]int, 0, (len(b)+255)/256)
	for i := 0; i < len(b); i += 256 {
		e := i + 256
		if e > len(b) {
			e = len(b)
		}
		r = append(r, in.Tok(b[i:e]))
	}
	return r
}

// Padded is Sectors of b padded with zeros to whole sectors.
func (in *Interner) Padded(b []byte) []int {
	p := make([]byte, (len(b)+255)/256*256)
	copy(p, b)
	return in.Sectors(p)
}

// Ints turns bytes into a JSON array of numbers.
func Ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// Str is Ints of a string.
func Str(s string) []int { return Ints([]byte(s)) }

// ErrFlag is 0 or 1.
func ErrFlag(err error) int {
	if err != nil {
		return 1
	}
	return 0
}

// B is 0 or 1.
func B(b bool) int {
	if b {
		return 1
	}
	return 0
}

// RLE is the run-length encoding [[value, count], ...] of bytes.
func RLE(b []byte) [][2]int {
	r := [][2]int{}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		r = append(r, [2]int{int(b[i]), j - i})
		i = j
	}
	return r
}

// GenLines reads the TLC-generated cases.
func (c *Ctx) GenLines() []map[string]interface{} {
	if c.Gen == "" {
		return nil
	}
	b, err := os.ReadFile(c.Gen)
	if err != nil {
		panic(err)
	}
	var r []map[string]interface{}
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(l)) == 0 {
			continue
		}
		var m map[string]interface{}
		if err := json.Unmarshal(l, &m); err != nil {
			panic(err)
		}
		r = append(r, m)
	}
	return r
}

// Main runs a family of cases. Without -child it supervises.
func Main(run func(c *Ctx)) {
	c := &Ctx{}
	var outName string
	var child bool
	var budget int
	flag.StringVar(&c.Tier, "tier", "quick", "")
	flag.Int64Var(&c.Seed, "seed", 1, "")
	flag.StringVar(&c.Gen, "gen", "", "")
	flag.StringVar(&c.Scratch, "scratch", "", "")
	flag.StringVar(&c.CLI, "cli", "", "")
	flag.StringVar(&c.Repo, "repo", "/repo", "")
	flag.StringVar(&c.Prop, "prop", "", "")
	flag.StringVar(&outName, "out", "", "")
	flag.BoolVar(&child, "child", false, "")
	flag.IntVar(&c.from, "from", 0, "")
	flag.IntVar(&c.only, "only", -1, "")
	flag.IntVar(&c.shard, "shard", 0, "")
	flag.IntVar(&c.shards, "shards", 1, "")
	flag.IntVar(&c.limit, "limit", 20, "seconds a case may take")
	flag.IntVar(&c.confirm, "confirm", 60, "seconds a case may take when run again")
	flag.IntVar(&budget, "budget", 0, "seconds after which no further case is started")
	flag.Int64Var(&c.deadline, "deadline", 0, "")
	flag.Parse()
	if budget > 0 {
		c.deadline = time.Now().Unix() + int64(budget)
	}
	if child {
		f, err := os.OpenFile(outName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
		if err != nil {
			panic(err)
		}
		c.out = bufio.NewWriterSize(f, 1<<20)
		debug.SetMaxStack(64 << 20)
		debug.SetGCPercent(200)
		var rl syscall.Rlimit
		rl.Cur, rl.Max = 6<<30, 6<<30
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &rl)
		go func() {
			for {
				time.Sleep(200 * time.Millisecond)
				if s := c.started.Load(); s != 0 && time.Since(time.Unix(0, s)) > time.Duration(c.limit)*time.Second {
					fmt.Printf("T %d\n", c.cur)
					os.Exit(7)
				}
				if c.deadline != 0 && time.Now().Unix() > c.deadline+90 {
					fmt.Printf("B %d\n", c.cur)
					os.Exit(8)
				}
			}
		}()
		run(c)
		_ = c.out.Flush()
		fmt.Printf("E %d\n", c.idx)
		return
	}
	os.Exit(supervise(c, outName, c.limit, c.confirm))
}

// supervise runs child processes. A case that kills the process or exceeds
// its time is run once more, alone and with more time; only if that ends the
// same way is it recorded as {"ev":"died"}.
func supervise(c *Ctx, outName string, limit, confirm int) int {
	_ = os.Remove(outName)
	if f, err := os.Create(outName); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	} else {
		_ = f.Close()
	}
	from := c.from
	deaths, timeouts := 0, 0
	for {
		last, kind, off, how, msg, total, err := child(c, outName, from, c.only, limit)
		if err != nil {
			fmt.Fprintln(os.Stderr, "driver:", err)
			return 2
		}
		if how == "budget" { // an unfinished case is left out
			if err := os.Truncate(outName, off); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			fmt.Printf("cases %d deaths %d (out of time)\n", last, deaths)
			return 0
		}
		if how == "" {
			fmt.Printf("cases %d deaths %d\n", total, deaths)
			return 0
		}
		if last < 0 {
			fmt.Fprintf(os.Stderr, "driver died outside any case: %s %s\n", how, msg)
			return 2
		}
		if err := os.Truncate(outName, off); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		last2, _, off2, how2, msg2, _, err := child(c, outName, 0, last, confirm)
		if err != nil {
			fmt.Fprintln(os.Stderr, "driver:", err)
			return 2
		}
		if how2 == "budget" {
			_ = os.Truncate(outName, off)
			fmt.Printf("cases %d deaths %d (out of time)\n", last, deaths)
			return 0
		}
		if how2 != "" {
			if last2 < 0 {
				fmt.Fprintf(os.Stderr, "driver died outside any case: %s %s\n", how2, msg2)
				return 2
			}
			_ = off2
			f, err := os.OpenFile(outName, os.O_WRONLY|os.O_APPEND, 0o600)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			// A line cut short by the death is completed as garbage would
			// be unreadable: cut back to the last full line instead.
			trimPartial(outName)
			b, _ := json.Marshal(Obj{"case": last, "kind": kind, "ev": "died", "how": how2, "msg": msg2})
			_, _ = f.Write(append(b, '\n'))
			_ = f.Close()
			deaths++
			if how2 == "timeout" {
				timeouts++
			}
			if deaths > 25 || timeouts > 1 {
				fmt.Printf("cases %d deaths %d (stopped)\n", last, deaths)
				return 0
			}
		}
		if c.only >= 0 {
			fmt.Printf("cases 1 deaths %d\n", deaths)
			return 0
		}
		from = last + 1
	}
}

func trimPartial(name string) {
	b, err := os.ReadFile(name)
	if err != nil || len(b) == 0 || b[len(b)-1] == '\n' {
		return
	}
	i := bytes.LastIndexByte(b, '\n')
	_ = os.Truncate(name, int64(i+1))
}

func child(c *Ctx, outName string, from, only, limit int) (last int, kind string, off int64, how, msg string, total int, err error) {
	last = -1
	args := []string{"-child", "-tier", c.Tier, "-seed", strconv.FormatInt(c.Seed, 10), "-gen", c.Gen,
		"-scratch", c.Scratch, "-cli", c.CLI, "-repo", c.Repo, "-prop", c.Prop, "-out", outName,
		"-deadline", strconv.FormatInt(c.deadline, 10), "-from", strconv.Itoa(from), "-only", strconv.Itoa(only), "-limit", strconv.Itoa(limit), "-confirm", strconv.Itoa(c.confirm),
		"-shard", strconv.Itoa(c.shard), "-shards", strconv.Itoa(c.shards)}
	self, err := os.Executable()
	if err != nil {
		return
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var stderr bytes.Buffer
	cmd.Stderr = &tail{b: &stderr}
	so, err := cmd.StdoutPipe()
	if err != nil {
		return
	}
	if err = cmd.Start(); err != nil {
		return
	}
	// Backstop: a child whose own watchdog cannot run is killed.
	var seen atomic.Int64
	seen.Store(time.Now().UnixNano())
	var killed atomic.Bool
	done := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
				if time.Since(time.Unix(0, seen.Load())) > time.Duration(limit+15)*time.Second {
					killed.Store(true)
					_ = cmd.Process.Kill()
				}
			}
		}
	}()
	ended, timeout, budget := false, false, false
	sc := bufio.NewScanner(so)
	sc.Buffer(make([]byte, 1<<16), 1<<20)
	for sc.Scan() {
		seen.Store(time.Now().UnixNano())
		f := strings.SplitN(sc.Text(), " ", 3)
		switch f[0] {
		case "S":
			last, _ = strconv.Atoi(f[1])
			kind = f[2]
			if st, e := os.Stat(outName); e == nil {
				off = st.Size()
			}
		case "T":
			timeout = true
		case "B":
			budget = true
		case "E":
			ended = true
			total, _ = strconv.Atoi(f[1])
		}
	}
	werr := cmd.Wait()
	close(done)
	wg.Wait()
	if ended && werr == nil {
		return
	}
	if budget {
		how = "budget"
		return
	}
	msg = stderr.String()
	if len(msg) > 400 {
		msg = msg[:400]
	}
	if strings.Contains(msg, "kit:") {
		err = fmt.Errorf("driver bug: %s", msg)
		return
	}
	how = "crash"
	if timeout || killed.Load() {
		how = "timeout"
	} else if strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate memory") {
		how = "memory"
	} else if !strings.Contains(msg, "fatal error:") && !strings.Contains(msg, "panic:") && !strings.Contains(msg, "goroutine stack exceeds") {
		err = fmt.Errorf("child ended for an unknown reason (%v): %s", werr, msg)
	}
	return
}

// tail keeps the first few kB of what is written to it.
type tail struct{ b *bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 4096 {
		t.b.Write(p)
	}
	return len(p), nil
}

var _ io.Writer = (*tail)(nil)

// Disk reads one of the repository's own disk images.
func (c *Ctx) Disk(rel string) []byte {
	b, err := os.ReadFile(filepath.Join(c.Repo, rel))
	if err != nil {
		panic("kit: " + err.Error())
	}
	return b
}

// Tmp makes a fresh directory under the scratch directory.
func (t *T) Tmp() string {
	d, err := os.MkdirTemp(t.Scratch, "c")
	if err != nil {
		panic("kit: " + err.Error())
	}
	return d
}

// Shuffle is a permutation of 0..n-1 that depends on the seed only.
func Shuffle(seed int64, n int) []int {
	return rand.New(rand.NewSource(seed)).Perm(n)
}
