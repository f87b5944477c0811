package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akhenakh/oureadb/store"
)

// concRun has several goroutines use one store and records the calls and
// returns of all of them in one order. A call is recorded before it is made
// and a return after it, so the recorded intervals contain the real ones.
type concRun struct {
	be   *Backend
	st   store.KVStore
	tr   *Trace
	cnt  int32
	wide int // keys standing for the one key "w"
	stop int32
}

var wideKey = []byte("w")

func (r *concRun) wideKeyAt(i int) []byte { return []byte(fmt.Sprintf("w%04d", i)) }

// concOps is a batch of one thread.
func (r *concRun) concOps(rnd *rand.Rand, keys [][]byte, dict bool) []Ev {
	ops := []Ev{}
	merged, plain := map[string]bool{}, map[string]bool{}
	n := 1 + rnd.Intn(4)
	uniq := func() []byte { return []byte(fmt.Sprint(atomic.AddInt32(&r.cnt, 1))) }
	for i := 0; i < n; i++ {
		k := keys[rnd.Intn(len(keys))]
		switch x := rnd.Intn(10); {
		case x < 5 && !plain[string(k)]:
			v := uniq()
			if rnd.Intn(25) == 0 {
				v = poison
			} else if rnd.Intn(6) == 0 {
				v = append([]byte{'!'}, v...)
			}
			merged[string(k)] = true
			ops = append(ops, Ev{"t": "merge", "k": ints(k), "v": hx(v)})
		case x < 8 && !merged[string(k)]:
			plain[string(k)] = true
			v := uniq()
			if dict && k[0] == 'd' && rnd.Intn(2) == 0 {
				v = []byte{0}
			} else if rnd.Intn(20) == 0 {
				v = long(string(v), rnd.Intn(1<<uint(4+rnd.Intn(13))))
			}
			ops = append(ops, Ev{"t": "set", "k": ints(k), "v": hx(v)})
		case !merged[string(k)]:
			plain[string(k)] = true
			ops = append(ops, Ev{"t": "del", "k": ints(k)})
		}
	}
	if r.wide > 0 && rnd.Intn(2) == 0 {
		if rnd.Intn(6) == 0 {
			ops = append(ops, Ev{"t": "del", "k": ints(wideKey)})
		} else {
			ops = append(ops, Ev{"t": "set", "k": ints(wideKey), "v": hx(uniq())})
		}
	}
	return ops
}

func (r *concRun) exec(t int, w store.KVWriter, ops []Ev) {
	b := w.NewBatch()
	for _, o := range ops {
		k := bytesOf(o["k"])
		ks := [][]byte{k}
		if bytes.Equal(k, wideKey) {
			ks = nil
			for i := 0; i < r.wide; i++ {
				ks = append(ks, r.wideKeyAt(i))
			}
		}
		for _, k := range ks {
			switch o["t"] {
			case "set":
				b.Set(k, unhex(o["v"].(string)))
			case "del":
				b.Delete(k)
			case "merge":
				b.Merge(k, unhex(o["v"].(string)))
			}
		}
	}
	r.tr.add(Ev{"op": "call", "t": t, "ops": ops})
	err := w.ExecuteBatch(b)
	e := Ev{"op": "ret", "t": t, "ok": err == nil, "ops": ops}
	if err != nil {
		e["err"] = err.Error()
	}
	r.tr.add(e)
	b.Close()
}

func (r *concRun) read(t int, rnd *rand.Rand, keys [][]byte) {
	r.tr.add(Ev{"op": "rcall", "t": t})
	rd, err := r.st.Reader()
	r.tr.add(Ev{"op": "rret", "t": t, "ok": err == nil})
	if err != nil {
		return
	}
	for n := 1 + rnd.Intn(2); n > 0; n-- {
		if rnd.Intn(3) == 0 {
			k := keys[rnd.Intn(len(keys))]
			v, err := rd.Get(k)
			mustReal(err)
			r.tr.add(Ev{"op": "rget", "t": t, "k": ints(k), "v": hx(v)})
		}
		r.tr.add(Ev{"op": "rscan", "t": t, "kv": r.scan(rd)})
		if n > 1 {
			pause(rnd)
		}
	}
	mustReal(rd.Close())
	r.tr.add(Ev{"op": "rend", "t": t})
}

// scan reads everything; the wide keys show as one.
func (r *concRun) scan(rd store.KVReader) [][]interface{} {
	kv := [][]interface{}{}
	wide, val, mixed := 0, "", false
	it := rd.RangeIterator(nil, nil)
	for {
		k, v, ok := it.Current()
		if !ok {
			break
		}
		if len(k) == 5 && k[0] == 'w' {
			if wide > 0 && val != hexn(v) {
				mixed = true
			}
			wide, val = wide+1, hexn(v)
		} else {
			kv = append(kv, []interface{}{ints(k), hexn(v)})
		}
		it.Next()
	}
	mustReal(it.Close())
	if wide > 0 {
		if mixed || wide != r.wide {
			val = fmt.Sprintf("%d of %d, mixed %v", wide, r.wide, mixed)
		}
		// no other key is above "w"
		kv = append(kv, []interface{}{ints(wideKey), val})
	}
	return kv
}

// results adds to every call what it returned.
func (r *concRun) results() {
	call := map[int]Ev{}
	for _, e := range r.tr.Ev {
		t, _ := e["t"].(int)
		switch e["op"] {
		case "call":
			call[t] = e
			e["ok"] = false
		case "ret":
			call[t]["ok"] = e["ok"]
		case "rcall":
			call[t] = e
			e["kv"] = [][]interface{}{}
		case "rscan":
			if c := call[t]; c != nil {
				c["kv"] = e["kv"]
				call[t] = nil
			}
		}
	}
}

func pause(rnd *rand.Rand) {
	switch rnd.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rnd.Intn(300)) * time.Microsecond)
	case 2:
		for i := rnd.Intn(2000); i > 0; i-- {
			_ = i
		}
	}
}

func concHistory(be *Backend, t *Trace, seed int64, wide, dict bool) {
	rnd := rand.New(rand.NewSource(seed))
	t.Mode = be.Kind
	r := &concRun{be: be, tr: t}
	if wide {
		r.wide = 20 + rnd.Intn(300)
		if seed%7 == 0 {
			r.wide = 1000 + rnd.Intn(5000)
		}
	}
	mo := &mergeOp{partial: rnd.Intn(4)}
	var hash uint32
	mo.onFull = func([]byte) {
		// a writer stops in the middle of its batch
		h := atomic.AddUint32(&hash, 1) * 2654435761
		switch h >> 29 {
		case 0, 1, 2:
			time.Sleep(time.Duration(h>>8&2047) * time.Microsecond)
		case 3, 4:
			runtime.Gosched()
		}
	}
	dir := tmpDir()
	st, err := be.open(dir, mo)
	mustReal(err)
	r.st = st
	prefill(be, st)
	keys := [][]byte{[]byte("a"), {0}, []byte("dx"), []byte("dy")}
	if !dict {
		keys[3] = []byte("q")
	}
	writers := 2 + rnd.Intn(3)
	readers := 1 + rnd.Intn(2)
	shared, err := st.Writer()
	mustReal(err)
	var wg sync.WaitGroup
	var failed sync.Once
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					if s, ok := x.(harnessError); ok {
						panic(s)
					}
					failed.Do(func() {
						t.add(Ev{"op": "panic", "msg": fmt.Sprint(x), "stack": string(debug.Stack())})
					})
					atomic.StoreInt32(&r.stop, 1)
				}
			}()
			debug.SetPanicOnFault(true)
			f()
		}()
	}
	// rounds, each ended by a look at the store while nothing runs
	for round := 0; round < 5 && r.stop == 0; round++ {
		var left = int32(writers)
		for i := 1; i <= writers; i++ {
			i, rnd := i, rand.New(rand.NewSource(seed*31+int64(i*10+round)))
			w := shared
			if rnd.Intn(2) == 0 {
				w, err = st.Writer()
				mustReal(err)
			}
			run(func() {
				defer atomic.AddInt32(&left, -1)
				for n := 1 + rnd.Intn(3); n > 0 && atomic.LoadInt32(&r.stop) == 0; n-- {
					switch c, ok := st.(compacter); {
					case dict && ok && rnd.Intn(5) == 0:
						t.add(Ev{"op": "ccall", "t": i})
						err := c.CompactWithBatchSize(1 + rnd.Intn(3))
						t.add(Ev{"op": "cret", "t": i, "ok": err == nil})
					case rnd.Intn(6) == 0:
						r.read(i, rnd, keys)
					default:
						r.exec(i, w, r.concOps(rnd, keys, dict))
					}
					pause(rnd)
				}
			})
		}
		for i := 1; i <= readers; i++ {
			i, rnd := writers+i, rand.New(rand.NewSource(seed*37+int64(i*10+round)))
			run(func() {
				for n := 0; n < 12 && atomic.LoadInt32(&left) > 0 && atomic.LoadInt32(&r.stop) == 0; n++ {
					r.read(i, rnd, keys)
					pause(rnd)
				}
			})
		}
		wg.Wait()
		if r.stop == 0 {
			r.read(1, rnd, keys)
		}
	}
	r.results()
	mustReal(st.Close())
	rmDir(dir)
}

// compactHistory compacts a store while others give counts to the entries
// which had none, and take them away.
func compactHistory(be *Backend, t *Trace, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	t.Mode = be.Kind
	r := &concRun{be: be, tr: t}
	dir := tmpDir()
	st, err := be.open(dir, &mergeOp{partial: rnd.Intn(4)})
	mustReal(err)
	r.st = st
	prefill(be, st)
	keys := [][]byte{[]byte("d"), []byte("d\x00"), []byte("dx"), []byte("dxy"), []byte("d\xff"), []byte("e")}
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	fill := func(k []byte, zero bool) Ev {
		v := []byte{0}
		if !zero {
			v = []byte(fmt.Sprint(atomic.AddInt32(&r.cnt, 1)))
		}
		return Ev{"t": "set", "k": ints(k), "v": hx(v)}
	}
	for round := 0; round < 6; round++ {
		w, err := st.Writer()
		mustReal(err)
		ops := []Ev{}
		for _, k := range keys {
			if rnd.Intn(4) > 0 {
				ops = append(ops, fill(k, rnd.Intn(5) > 0))
			}
		}
		r.exec(1, w, ops)
		var left int32 = 1
		// how many deletions to wait for
		after := rnd.Intn(3)
		compact := func() {
			t.add(Ev{"op": "ccall", "t": 1})
			err := st.(compacter).CompactWithBatchSize(1 + after%2)
			t.add(Ev{"op": "cret", "t": 1, "ok": err == nil})
			atomic.StoreInt32(&left, 0)
		}
		if rnd.Intn(6) > 0 {
			run(compact)
			for i := 2; i <= 3; i++ {
				i, rnd := i, rand.New(rand.NewSource(seed*31+int64(i*10+round)))
				run(func() {
					w, err := st.Writer()
					mustReal(err)
					for n := 0; n < 2 && (n == 0 || atomic.LoadInt32(&left) > 0); n++ {
						pause(rnd)
						k := keys[rnd.Intn(len(keys))]
						if i == 2 {
							// the one compaction comes to last
							k = keys[3+rnd.Intn(3)]
						}
						r.exec(i, w, []Ev{fill(k, rnd.Intn(4) == 0)})
					}
				})
			}
			run(func() { r.read(4, rand.New(rand.NewSource(seed*37+int64(round))), keys) })
			wg.Wait()
		} else {
			compact()
		}
		r.read(4, rnd, keys)
	}
	r.results()
	mustReal(st.Close())
	rmDir(dir)
}

func init() {
	drivers["C10conc"] = func(seed int64, thorough bool) []scenario {
		var sc []scenario
		n := 60
		if thorough {
			n = 600
		}
		for i := 0; i < n; i++ {
			for j, be := range backends {
				if be.Kind != "bolt" && be.Kind != "goleveldb" {
					continue
				}
				be, s := be, seed*1000003+int64(i)*101+int64(j)
				sc = append(sc, scenario{fmt.Sprintf("C10/conc/%s/%d", be.Name, s), func(t *Trace) { compactHistory(be, t, s) }})
			}
		}
		return sc
	}
	drivers["C09"] = func(seed int64, thorough bool) []scenario {
		var sc []scenario
		n := 50
		if thorough {
			n = 1000
		}
		for i := 0; i < n; i++ {
			for j, be := range backends {
				be, i := be, i
				s := seed*1000003 + int64(i)*101 + int64(j)
				sc = append(sc, scenario{fmt.Sprintf("C09/%s/%d", be.Name, s), func(t *Trace) {
					concHistory(be, t, s, i%2 == 0, i%3 == 0)
				}})
			}
		}
		return sc
	}
}
