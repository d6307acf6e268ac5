package gv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/jumboframes/armorigo/log"
)

// ---- executing one plan in this process -----------------------------------

func execPlan(t *testing.T, p *Prop, plan json.RawMessage) (o Outcome) {
	if !p.Bubble {
		c := newCase()
		if p.InShard {
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 16<<10)
					buf = buf[:runtime.Stack(buf, false)]
					o = c.outcome()
					crash := fmt.Sprintf("panic: %v\n%s", r, buf)
					if libraryStack(afterPanic(crash)) {
						o.Fails = append(o.Fails, trunc("panic in the library: "+crash, 3000))
					} else {
						o.HarnessErr = crash
					}
				}
			}()
		}
		if p.RealTime {
			defer perturbed(plan)()
		}
		p.Run(c, plan)
		return c.outcome()
	}
	defer perturbed(plan)()
	var c *Case
	leak := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				// synctest panics in the caller when goroutines of the bubble remain
				leak = fmt.Sprint(r)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			c = newCase()
			defer debugAids()()
			p.Run(c, plan)
		})
	}()
	o = c.outcome()
	if leak != "" {
		o.Leak = true
		if !strings.Contains(leak, "main bubble goroutine has exited") {
			o.HarnessErr = "bubble: " + leak
		}
	}
	return o
}

func afterPanic(s string) string {
	// the stack printed by a deferred recover starts with the recovering frames
	if i := strings.LastIndex(s, "\npanic("); i >= 0 {
		return s[i:]
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- worker side ----------------------------------------------------------

type workReq struct {
	Prop string
	Plan json.RawMessage
}

// workerLoop serves plans on fd 3 (requests) and fd 4 (outcomes).
func workerLoop(t *testing.T) {
	log.SetLevel(log.LevelFatal)
	in := bufio.NewReaderSize(os.NewFile(3, "req"), 1<<20)
	out := os.NewFile(4, "rsp")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req workReq
		if err := json.Unmarshal(line, &req); err != nil {
			panic("harness: bad request: " + err.Error())
		}
		o := execPlan(t, props[req.Prop], req.Plan)
		b := append(mustJSON(o), '\n')
		if _, err := out.Write(b); err != nil {
			return
		}
	}
}

// ---- parent side ----------------------------------------------------------

type worker struct {
	cmd    *exec.Cmd
	req    *os.File
	rsp    *bufio.Reader
	rspF   *os.File
	stderr *tailBuf
	lines  chan []byte
	dead   chan struct{}
	leaks  int
	done   int
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (b *tailBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	// keep the head: a Go crash prints the guilty goroutine first
	if len(b.buf) < 1<<20 {
		b.buf = append(b.buf, p...)
	}
	return len(p), nil
}

func (b *tailBuf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return string(b.buf)
}

type executor struct {
	procs int
	w     *worker
	t     *testing.T
}

func (e *executor) start() error {
	r1, w1, err := os.Pipe()
	if err != nil {
		return err
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		return err
	}
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	cmd := exec.Command(exe, "-test.run=^TestWorker$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "GV_MODE=worker", "GOMAXPROCS="+strconv.Itoa(e.procs), "GOTRACEBACK=all", "GOGC=200")
	cmd.ExtraFiles = []*os.File{r1, w2}
	tb := &tailBuf{}
	cmd.Stdout = io.Discard
	cmd.Stderr = tb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err = cmd.Start()
	runtime.UnlockOSThread()
	r1.Close()
	w2.Close()
	if err != nil {
		w1.Close()
		r2.Close()
		return err
	}
	w := &worker{cmd: cmd, req: w1, rspF: r2, stderr: tb, lines: make(chan []byte, 1), dead: make(chan struct{})}
	go func() {
		rd := bufio.NewReaderSize(r2, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			w.lines <- line
		}
		cmd.Wait()
		close(w.dead)
	}()
	e.w = w
	return nil
}

func (e *executor) stop() {
	if e.w == nil {
		return
	}
	w := e.w
	e.w = nil
	w.req.Close()
	w.cmd.Process.Kill()
	<-w.dead
	w.rspF.Close()
}

// Exec runs one plan. Panics and hangs come back as part of the outcome.
func (e *executor) Exec(p *Prop, plan []byte) Outcome {
	if p.InShard {
		return execPlan(e.t, p, plan)
	}
	if e.w != nil && (e.w.leaks > 150 || e.w.done > 5000) {
		e.stop()
	}
	if e.w == nil {
		if err := e.start(); err != nil {
			return Outcome{HarnessErr: "cannot start worker: " + err.Error()}
		}
	}
	w := e.w
	req := append(mustJSON(workReq{p.ID, plan}), '\n')
	// the worker reads while we write, so this cannot block for good
	if _, err := w.req.Write(req); err != nil {
		e.stop()
		return Outcome{HarnessErr: "worker request: " + err.Error()}
	}
	begin := time.Now()
	cpu0 := procCPU(w.cmd.Process.Pid)
	lastCPU, lastBusy := cpu0, time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case line := <-w.lines:
			var o Outcome
			if err := json.Unmarshal(line, &o); err != nil {
				e.stop()
				return Outcome{HarnessErr: "worker outcome: " + err.Error()}
			}
			w.done++
			if o.Leak {
				w.leaks++
			}
			return o
		case <-w.dead:
			// the outcome may have raced with the exit
			select {
			case line := <-w.lines:
				var o Outcome
				if json.Unmarshal(line, &o) == nil {
					e.stop()
					return o
				}
			default:
			}
			stderr := w.stderr.String()
			state := w.cmd.ProcessState.String()
			e.stop()
			return crashOutcome(stderr, state)
		case <-tick.C:
			pid := w.cmd.Process.Pid
			cpu := procCPU(pid)
			if cpu-lastCPU > 3 || anyRunning(pid) {
				lastBusy = time.Now()
				lastCPU = cpu
			}
			idle := time.Since(lastBusy)
			if (time.Since(begin) > 12*time.Second && idle > 8*time.Second && (!p.RealTime || idle > 90*time.Second)) || cpu-cpu0 > 90*100 {
				what := fmt.Sprintf("no goroutine makes progress: idle for %v with the case unfinished", idle.Round(time.Second))
				if cpu-cpu0 > 90*100 {
					what = "the case burned more than 90 s of CPU without finishing"
				}
				w.cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-w.dead:
				case <-time.After(5 * time.Second):
				}
				dump := w.stderr.String()
				e.stop()
				return Outcome{Fails: []string{"deadlock: " + what}, Crash: blockedDump(dump)}
			}
		}
	}
}

// blockedDump keeps the goroutines of a dump that are inside the library.
func blockedDump(s string) string {
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.HasPrefix(g, "goroutine ") && strings.Contains(g, "singchia/geminio") {
			keep = append(keep, g)
		}
	}
	// those blocked on locks first
	var a, b []string
	for _, g := range keep {
		head := strings.SplitN(g, "\n", 2)[0]
		if strings.Contains(head, "Mutex") || strings.Contains(head, "semacquire") {
			a = append(a, g)
		} else {
			b = append(b, g)
		}
	}
	return trunc(strings.Join(append(a, b...), "\n\n"), 12000)
}

var frameRE = regexp.MustCompile(`(?m)^([a-zA-Z0-9_./\-]+(?:\.\(?[^\s(]*\)?)?[^\s]*)\(.*\)$`)

// libraryStack tells whether the innermost frame that is neither the runtime
// nor the standard library belongs to the code under test or what it calls.
func libraryStack(s string) bool {
	for _, line := range strings.Split(s, "\n") {
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "created by") {
			break
		}
		if strings.HasPrefix(line, "github.com/singchia/") || strings.HasPrefix(line, "github.com/jumboframes/") {
			return true
		}
		if strings.HasPrefix(line, "verif/harness.") {
			return false
		}
	}
	return false
}

func crashOutcome(stderr, state string) Outcome {
	// find the panicking goroutine
	i := strings.Index(stderr, "panic: ")
	j := strings.Index(stderr, "fatal error: ")
	k := i
	if k < 0 || (j >= 0 && j < k) {
		k = j
	}
	if k < 0 {
		return Outcome{HarnessErr: "worker died (" + state + "): " + trunc(stderr, 2000)}
	}
	s := stderr[k:]
	head := strings.SplitN(s, "\n", 2)[0]
	if strings.Contains(head, "out of memory") || strings.Contains(head, "cannot allocate") {
		return Outcome{HarnessErr: "worker died: " + trunc(s, 2000)}
	}
	first := s
	if m := strings.Index(s, "\ngoroutine "); m >= 0 {
		first = s[m+1:]
		if n := strings.Index(first, "\n\n"); n >= 0 {
			first = first[:n]
		}
	}
	if !libraryStack(first) {
		return Outcome{HarnessErr: "worker died outside the library: " + head + "\n" + trunc(first, 3000)}
	}
	return Outcome{Fails: []string{"the process crashed inside the library: " + head}, Crash: head + "\n" + trunc(first, 4000)}
}

func procCPU(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndex(s, ")"); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseInt(f[11], 10, 64)
			k, _ := strconv.ParseInt(f[12], 10, 64)
			return u + k
		}
	}
	return 0
}

func anyRunning(pid int) bool {
	ents, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return false
	}
	for _, en := range ents {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, en.Name()))
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, ")"); i >= 0 && len(s) > i+2 {
			if s[i+2] == 'R' || s[i+2] == 'D' {
				return true
			}
		}
	}
	return false
}
