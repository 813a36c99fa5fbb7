// Command vh executes operation scripts on the real packages of dargueta/disko
// and records what happens as event traces. It never judges: the only oracle is
// the TLA+ specification the traces are validated against.
//
//	vh run COMPONENT SCRIPTS TRACES JOBS    run every script, write one trace per line
//	vh child COMPONENT SCRIPTS FIRST STEP   (internal) run scripts FIRST, FIRST+STEP, ...
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// M is a JSON object.
type M = map[string]any

// Script is one episode: a configuration and a list of operations.
type Script struct {
	C   M   `json:"c"`
	Ops []M `json:"ops"`
}

// Component executes one script, recording events in rec.
type Component func(s *Script, rec *Rec)

var components = map[string]Component{}

// Rec records the events of the episode being executed.
type Rec struct {
	w   *bufio.Writer
	dir string // a scratch directory that's removed after the run
	n   int    // events of this episode
}

// Scripts make at most a few thousand events; code that makes more than this is
// going around in circles.
const maxEvents = 30000

// E records an event. Arguments are alternating field names and values.
func (r *Rec) E(name string, kv ...any) {
	ev := M{"e": name}
	for i := 0; i < len(kv); i += 2 {
		ev[kv[i].(string)] = kv[i+1]
	}
	b, err := json.Marshal(ev)
	if err != nil {
		panic(harnessFailure{err})
	}
	if r.n++; r.n > maxEvents {
		r.w.WriteString("E {\"e\":\"hang\",\"msg\":\"endless events\"}\n")
		r.w.Flush()
		os.Exit(4)
	}
	r.w.WriteString("E ")
	r.w.Write(b)
	r.w.WriteByte('\n')
}

// Call records the event for a call that's about to be made. It's pushed out to
// the parent process so that it's known even if the call never returns.
func (r *Rec) Call(name string, kv ...any) {
	r.E("call", append([]any{"op", name}, kv...)...)
	r.w.Flush()
}

// harnessFailure is what the harness itself panics with; it's never mistaken for
// a panic of the code under test.
type harnessFailure struct{ err error }

func bug(format string, args ...any) {
	panic(harnessFailure{fmt.Errorf(format, args...)})
}

func must(err error) {
	if err != nil {
		panic(harnessFailure{err})
	}
}

func readScripts(path string) [][]byte {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	lines := bytes.Split(data, []byte{'\n'})
	if len(lines) > 0 && len(lines[len(lines)-1]) == 0 {
		lines = lines[:len(lines)-1]
	}
	return lines
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "vh:", err)
	os.Exit(3)
}

func decodeScript(line []byte) *Script {
	dec := json.NewDecoder(bytes.NewReader(line))
	dec.UseNumber()
	var s Script
	if err := dec.Decode(&s); err != nil {
		fatal(fmt.Errorf("bad script %.100q: %w", line, err))
	}
	return &s
}

func child(component, path string, first, step int) {
	debug.SetMaxStack(64 << 20)
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)

	run, ok := components[component]
	if !ok {
		fatal(fmt.Errorf("no component %q", component))
	}
	lines := readScripts(path)
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	rec := &Rec{w: w, dir: os.Getenv("VH_DIR")}
	for i := first; i < len(lines); i += step {
		fmt.Fprintf(w, "B %d\n", i)
		rec.n = 0
		s := decodeScript(lines[i])
		func() {
			defer func() {
				if p := recover(); p != nil {
					if hf, ok := p.(harnessFailure); ok {
						w.Flush()
						fmt.Fprintf(os.Stderr, "vh: script %d: harness failure: %v\n%s\n", i, hf.err, debug.Stack())
						os.Exit(3)
					}
					rec.E("panic", "msg", fmt.Sprint(p), "stack", string(debug.Stack()))
				}
			}()
			run(s, rec)
		}()
		w.WriteString("X\n")
		w.Flush()
	}
}

type episode struct {
	I  int               `json:"i"`
	Ev []json.RawMessage `json:"ev"`
}

// supervise runs one child (restarting it after crashes) and returns the traces
// of all episodes assigned to it.
func supervise(component, path string, first, step, total int, dir string, out [][]byte, crashes *int, mu *sync.Mutex) error {
	timeout := 30 * time.Second
	for next := first; next < total; {
		cmd := exec.Command(os.Args[0], "child", component, path, strconv.Itoa(next), strconv.Itoa(step))
		cmd.Env = append(os.Environ(), "VH_DIR="+dir, "GOTRACEBACK=single")
		stdout, err := cmd.StdoutPipe()
		if err != nil {
			return err
		}
		stderr := &tailBuffer{}
		cmd.Stderr = stderr
		if err := cmd.Start(); err != nil {
			return err
		}

		lines := make(chan []byte, 1024)
		go func() {
			rd := bufio.NewReaderSize(stdout, 1<<16)
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 && line[len(line)-1] == '\n' {
					lines <- line[:len(line)-1]
				}
				if err != nil {
					close(lines)
					return
				}
			}
		}()

		cur := -1
		var evs []json.RawMessage
		hung := false
		timer := time.NewTimer(timeout)
	loop:
		for {
			select {
			case line, ok := <-lines:
				if !ok {
					break loop
				}
				if !timer.Stop() {
					select {
					case <-timer.C:
					default:
					}
				}
				timer.Reset(timeout)
				switch line[0] {
				case 'B':
					cur, _ = strconv.Atoi(string(line[2:]))
					evs = []json.RawMessage{}
				case 'E':
					evs = append(evs, append(json.RawMessage(nil), line[2:]...))
				case 'X':
					b, err := json.Marshal(episode{cur, evs})
					if err != nil {
						return err
					}
					out[cur] = b
					next = cur + step
					cur = -1
				}
			case <-timer.C:
				hung = true
				cmd.Process.Kill()
				break loop
			}
		}
		if hung {
			for range lines {
			}
		}
		err = cmd.Wait()
		if cur < 0 && err == nil {
			return nil
		}
		if ee, ok := err.(*exec.ExitError); !hung && (!ok || ee.ExitCode() == 3 || cur < 0) {
			return fmt.Errorf("child failed: %v\n%s", err, stderr.String())
		}
		kind := "crash"
		if hung {
			kind = "hang"
		}
		b, _ := json.Marshal(M{"e": kind, "msg": stderr.String()})
		evs = append(evs, b)
		b, err = json.Marshal(episode{cur, evs})
		if err != nil {
			return err
		}
		out[cur] = b
		next = cur + step
		mu.Lock()
		*crashes++
		stop := *crashes >= 3
		mu.Unlock()
		if stop {
			return nil
		}
	}
	return nil
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 3000 {
		t.b = append(t.b, p[:min(len(p), 3000-len(t.b))]...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return string(t.b) }

func parent(component, scripts, traces string, jobs int) {
	total := len(readScripts(scripts))
	out := make([][]byte, total)
	dir, err := os.MkdirTemp("", "vh")
	if err != nil {
		fatal(err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	crashes := 0
	errs := make([]error, jobs)
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[j] = supervise(component, scripts, j, jobs, total, dir, out, &crashes, &mu)
		}()
	}
	wg.Wait()
	os.RemoveAll(dir)
	for _, err := range errs {
		if err != nil {
			fatal(err)
		}
	}
	f, err := os.Create(traces)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(f)
	n := 0
	for _, line := range out {
		if line != nil {
			w.Write(line)
			io.WriteString(w, "\n")
			n++
		}
	}
	if err := w.Flush(); err != nil {
		fatal(err)
	}
	if err := f.Close(); err != nil {
		fatal(err)
	}
	fmt.Printf("{\"scripts\": %d, \"traces\": %d, \"crashes\": %d}\n", total, n, crashes)
}

func main() {
	a := os.Args[1:]
	switch {
	case len(a) == 5 && a[0] == "run":
		jobs, _ := strconv.Atoi(a[4])
		parent(a[1], a[2], a[3], jobs)
	case len(a) == 5 && a[0] == "child":
		first, _ := strconv.Atoi(a[3])
		step, _ := strconv.Atoi(a[4])
		child(a[1], a[2], first, step)
	default:
		fmt.Fprintln(os.Stderr, "usage: vh run COMPONENT SCRIPTS TRACES JOBS")
		os.Exit(3)
	}
}
