package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
)

// One trace line per program. Before a program runs its id is written to the
// progress file, so that a crash of the process can be attributed to it.
type tracer struct {
	f     *os.File
	w     *bufio.Writer
	prog  *os.File
	n     int
	only  int
	after int
	mu    sync.Mutex

	flushed time.Time
}

func newTracer(path string, only, after int) *tracer {
	mode := os.O_CREATE | os.O_WRONLY | os.O_TRUNC
	if after > 0 {
		mode = os.O_CREATE | os.O_WRONLY | os.O_APPEND
	}
	f, err := os.OpenFile(path, mode, 0o644)
	must(err)
	p, err := os.Create(path + ".cur")
	must(err)
	return &tracer{f: f, w: bufio.NewWriterSize(f, 1<<20), prog: p, only: only, after: after}
}

// begin says whether the program with the next id is to be run
func (t *tracer) begin() bool {
	t.n++
	if t.only > 0 && t.n != t.only {
		return false
	}
	if t.n <= t.after {
		return false
	}
	if giveUp != nil {
		giveUp(false)
	}
	t.prog.WriteAt([]byte(fmt.Sprintf("%012d", t.n)), 0)
	return true
}

func (t *tracer) emit(rec J) {
	rec["pid"] = t.n
	b, err := json.Marshal(rec)
	must(err)
	t.w.Write(b)
	t.w.WriteByte('\n')
	if now := time.Now(); t.w.Buffered() > 1<<19 || now.Sub(t.flushed) > time.Second {
		t.w.Flush()
		t.flushed = now
	}
	if leaks >= 3 { // every further one takes seconds to be sure of
		t.close()
		exit(0)
	}
}

func (t *tracer) flush() { t.w.Flush() }

func (t *tracer) close() {
	t.w.Flush()
	t.f.Close()
	t.prog.Close()
	os.Remove(t.prog.Name())
}

var hangLimit = 20 * time.Second

// guard runs f and says how it ended: ok, panic or hang.
// After a hang the trace is closed and the process ends: the goroutine cannot be stopped.
func guard(f func()) string {
	done := make(chan string, 1)
	go func() {
		res := "panic"
		defer func() {
			if res == "panic" {
				recover()
			}
			done <- res
		}()
		f()
		res = "ok"
	}()
	select {
	case r := <-done:
		return r
	default:
	}
	if giveUp != nil {
		return patient(done)
	}
	t := time.NewTimer(hangLimit)
	defer t.Stop()
	select {
	case r := <-done:
		return r
	case <-t.C:
		return "hang"
	}
}

// giveUp is set while objects of millions of cells and more are driven (see tracer.huge)
var giveUp func(late bool)

// huge runs programs on objects so large that a call may take its time without being wrong (it
// cannot be told from one that never ends): when one takes too long or too much memory, the
// recording ends there, without a verdict on that call
func (t *tracer) huge(f func()) {
	mark := t.f.Name() + ".huge"
	must(os.WriteFile(mark, nil, 0o644))
	end := time.Now().Add(90 * time.Second)
	if thorough {
		end = end.Add(150 * time.Second)
	}
	giveUp = func(late bool) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if late || time.Now().After(end) || m.HeapAlloc > 6<<30 {
			fmt.Fprintln(os.Stderr, "given up in program", t.n)
			t.close()
			os.Remove(mark)
			exit(0)
		}
	}
	f()
	giveUp = nil
	os.Remove(mark)
}

func patient(done <-chan string) string {
	for end := time.Now().Add(hangLimit); ; {
		select {
		case r := <-done:
			return r
		case <-time.After(50 * time.Millisecond):
		}
		giveUp(time.Now().After(end))
	}
}

// inline runs f on this goroutine: ok or panic
func inline(f func()) (res string) {
	res = "panic"
	defer func() {
		if res == "panic" {
			recover()
		}
	}()
	f()
	return "ok"
}
