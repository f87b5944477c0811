package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one recorded event: the call, its arguments and its results.
type Ev map[string]interface{}

// Trace is one recorded history of the real code.
type Trace struct {
	Name string `json:"name"`
	Mode string `json:"mode"`
	Ev   []Ev   `json:"ev"`

	mu   sync.Mutex
	beat int64
	meta Ev
}

func newTrace(name string) *Trace { return &Trace{Name: name, Mode: "rw", Ev: []Ev{}} }

func (t *Trace) add(e Ev) {
	t.mu.Lock()
	t.Ev = append(t.Ev, e)
	t.mu.Unlock()
	t.alive()
}

func (t *Trace) alive() { atomic.StoreInt64(&t.beat, time.Now().UnixNano()) }

// frozen returns a copy of the trace as recorded so far.
func (t *Trace) frozen() *Trace {
	t.mu.Lock()
	defer t.mu.Unlock()
	c := &Trace{Name: t.Name, Mode: t.Mode, meta: t.meta}
	c.Ev = append([]Ev{}, t.Ev...)
	return c
}

// hangLimit is how long one call may take before the history is recorded as
// hanging: three orders of magnitude above the slowest call of the drivers.
var hangLimit = 40 * time.Second

var hangs int32

// guarded runs a scenario recording into t. A panic of the code under test
// ends the trace with a "panic" event, a call that does not return with a
// "hang" event; no specification has an action for either.
func guarded(t *Trace, f func(t *Trace)) *Trace {
	t.alive()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(harnessError); ok {
					fmt.Fprintln(os.Stderr, "HARNESS-ERROR", t.Name, string(s))
					debug.PrintStack()
					os.Exit(3)
				}
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				t.add(Ev{"op": "panic", "msg": fmt.Sprint(r), "stack": st})
			}
		}()
		debug.SetPanicOnFault(true)
		f(t)
	}()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return t.frozen()
		case <-tick.C:
			if time.Since(time.Unix(0, atomic.LoadInt64(&t.beat))) > hangLimit {
				c := t.frozen()
				c.Ev = append(c.Ev, Ev{"op": "hang"})
				atomic.AddInt32(&hangs, 1)
				return c
			}
		}
	}
}

// harnessError is a failure of the harness itself, not of the code under test.
type harnessError string

func must(err error) {
	if err != nil {
		panic(harnessError(err.Error()))
	}
}

// mustReal is for calls of the code under test that may not fail where the
// harness needs them: the failure is recorded and no specification explains it.
func mustReal(err error) {
	if err != nil {
		panic("unexpected error: " + err.Error())
	}
}

func hx(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) < run {
		return hex.EncodeToString(b)
	}
	// long runs of the filler are counted: what is written this way still
	// tells every value from every other, and of values put together is what
	// is written of them put together
	var o []byte
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == filler {
			j++
		}
		if j-i >= run {
			o = append(o, fmt.Sprint("z", j-i, "z")...)
			i = j
			continue
		}
		o = append(o, hex.EncodeToString(b[i:i+1])...)
		i++
	}
	return string(o)
}

const (
	filler = 0x5a
	run    = 64
)

// long is a value of n bytes and more.
func long(what string, n int) []byte {
	b := append([]byte(what), bytes.Repeat([]byte{filler}, n+run)...)
	return append(b, what...)
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, c := range b {
		r[i] = int(c)
	}
	return r
}

func bytesOf(v interface{}) []byte {
	switch x := v.(type) {
	case []int:
		b := make([]byte, len(x))
		for i, c := range x {
			b[i] = byte(c)
		}
		return b
	case []interface{}:
		b := make([]byte, len(x))
		for i, c := range x {
			b[i] = byte(c.(float64))
		}
		return b
	}
	panic(harnessError(fmt.Sprintf("not a byte string: %v", v)))
}

func unhex(s string) []byte {
	if i := strings.Index(s, "z"); i >= 0 {
		j := i + 1 + strings.Index(s[i+1:], "z")
		n, err := strconv.Atoi(s[i+1 : j])
		must(err)
		return append(append(unhex(s[:i]), bytes.Repeat([]byte{filler}, n)...), unhex(s[j+1:])...)
	}
	b, err := hex.DecodeString(s)
	must(err)
	return b
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0644))
}
