//go:build crash
// +build crash

package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/akhenakh/oureadb/store"
)

// The crash driver of C08. The syscall package is built with a hook on every
// call that changes a file (bin/overlay.py); the calls a store makes are
// recorded, and the files as they would be after a crash between any two of
// them are made up again and opened.

type fsOp struct {
	kind byte // w write, t truncate, s sync, c create, r rename, u unlink, d mkdir, m mark
	file int
	data []byte
	off  int64
	a, b string
}

type recorder struct {
	root  string
	mu    sync.Mutex
	ops   []fsOp
	names map[string]int // path -> file
	nfile int
}

type openFile struct {
	r     *recorder
	file  int
	dsync bool
	app   bool
}

var (
	recMu sync.Mutex
	recs  = map[string]*recorder{}
	fds   = map[int]*openFile{}
)

func recOf(path string) *recorder {
	if !strings.HasPrefix(path, scratch) {
		return nil
	}
	for root, r := range recs {
		if strings.HasPrefix(path, root+"/") || path == root {
			return r
		}
	}
	return nil
}

func fileHook(op, fd int, path string, data []byte, x, y int64) {
	recMu.Lock()
	defer recMu.Unlock()
	switch op {
	case 5, 7, 8, 9, 10, 12:
		r := recOf(path)
		if r == nil {
			if op == 5 {
				delete(fds, fd)
			}
			return
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, r.root), "/")
		switch op {
		case 5:
			delete(fds, fd)
			if x&syscall.O_DIRECTORY != 0 {
				return
			}
			id, ok := r.names[rel]
			if !ok {
				if x&syscall.O_CREAT == 0 {
					return // a directory
				}
				r.nfile++
				id = r.nfile
				r.names[rel] = id
				r.log(fsOp{kind: 'c', file: id, a: rel})
			} else if x&syscall.O_TRUNC != 0 {
				r.log(fsOp{kind: 't', file: id, off: 0})
			}
			fds[fd] = &openFile{r, id, x&(syscall.O_DSYNC|0x100000) != 0, x&syscall.O_APPEND != 0}
		case 7:
			to := strings.TrimPrefix(strings.TrimPrefix(string(data), r.root), "/")
			if id, ok := r.names[rel]; ok {
				delete(r.names, rel)
				r.names[to] = id
			}
			r.log(fsOp{kind: 'r', a: rel, b: to})
		case 8:
			delete(r.names, rel)
			r.log(fsOp{kind: 'u', a: rel})
		case 9:
			r.log(fsOp{kind: 'd', a: rel})
		case 10:
			if id, ok := r.names[rel]; ok {
				r.log(fsOp{kind: 't', file: id, off: x})
			}
		case 12:
			panic(harnessError("hard link"))
		}
		return
	}
	f := fds[fd]
	switch op {
	case 6:
		delete(fds, fd)
		return
	case 11:
		if g := fds[int(x)]; g != nil {
			fds[fd] = g
		}
		return
	}
	if f == nil {
		return
	}
	switch op {
	case 1:
		pos, err := syscall.Seek(fd, 0, 1)
		must(err)
		f.r.log(fsOp{kind: 'w', file: f.file, off: pos - int64(len(data)), data: append([]byte{}, data...)})
	case 2:
		f.r.log(fsOp{kind: 'w', file: f.file, off: x, data: append([]byte{}, data...)})
	case 3:
		f.r.log(fsOp{kind: 't', file: f.file, off: x})
	case 4:
		f.r.log(fsOp{kind: 's', file: f.file})
	}
	if f.dsync && (op == 1 || op == 2) {
		f.r.log(fsOp{kind: 's', file: f.file})
	}
}

func (r *recorder) log(o fsOp) { r.ops = append(r.ops, o) }

func (r *recorder) mark(i int) {
	recMu.Lock()
	r.log(fsOp{kind: 'm', off: int64(i)})
	recMu.Unlock()
}

func record(root string) *recorder {
	recMu.Lock()
	defer recMu.Unlock()
	r := &recorder{root: root, names: map[string]int{}}
	recs[root] = r
	syscall.VerifHook = fileHook
	return r
}

func (r *recorder) end() {
	recMu.Lock()
	defer recMu.Unlock()
	delete(recs, r.root)
}

// disk is what a crash leaves: names and directories as they were, and of
// every file what was written and what of it was synced.
type disk struct {
	dirs   map[string]bool
	names  map[string]int
	cache  map[int][]byte
	synced map[int][]byte
	dirty  map[int]bool
	// what was done to each file since it was synced
	pending map[int][]fsOp
}

// change is the file b after a write or a truncation.
func change(b []byte, o fsOp) []byte {
	if o.kind == 't' {
		if int(o.off) < len(b) {
			return b[:o.off:o.off]
		}
		return append(b, make([]byte, int(o.off)-len(b))...)
	}
	if n := int(o.off) + len(o.data); n > len(b) {
		b = append(b, make([]byte, n-len(b))...)
	}
	copy(b[o.off:], o.data)
	return b
}

// notSynced tells of the files that were not synced, for whoever reads traces.
func (d *disk) notSynced() string {
	r := []string{}
	for name, id := range d.names {
		if d.dirty[id] {
			n := 0
			for _, o := range d.pending[id] {
				n += len(o.data)
			}
			r = append(r, fmt.Sprintf("%s: %d synced, %d writes of %d", name, len(d.synced[id]), len(d.pending[id]), n))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

// torn is the file when some of what was not synced arrived: a first part of
// it, the last write of which is cut, or any of its pages.
func (d *disk) torn(id int, rnd *rand.Rand) []byte {
	b := append([]byte{}, d.synced[id]...)
	ops := d.pending[id]
	if rnd.Intn(3) > 0 {
		n := rnd.Intn(len(ops))
		for _, o := range ops[:n] {
			b = change(b, o)
		}
		if o := ops[n]; o.kind == 'w' {
			o.data = o.data[:rnd.Intn(len(o.data)+1)]
			b = change(b, o)
		}
		return b
	}
	for _, o := range ops {
		if o.kind == 't' {
			b = change(b, o)
			continue
		}
		// the length of the file is that of all the writes
		if n := int(o.off) + len(o.data); n > len(b) {
			b = append(b, make([]byte, n-len(b))...)
		}
		const page = 4096
		for at := 0; at < len(o.data); {
			n := page - (int(o.off)+at)%page
			if n > len(o.data)-at {
				n = len(o.data) - at
			}
			if rnd.Intn(2) == 0 {
				copy(b[int(o.off)+at:], o.data[at:at+n])
			}
			at += n
		}
	}
	return b
}

func (d *disk) apply(o fsOp) (changed bool) {
	switch o.kind {
	case 'c':
		d.names[o.a] = o.file
		d.cache[o.file], d.synced[o.file] = nil, nil
	case 'w', 't':
		d.cache[o.file] = change(d.cache[o.file], o)
		d.dirty[o.file] = true
		d.pending[o.file] = append(d.pending[o.file], o)
	case 's':
		if !d.dirty[o.file] {
			return false
		}
		d.synced[o.file] = append([]byte{}, d.cache[o.file]...)
		delete(d.dirty, o.file)
		delete(d.pending, o.file)
	case 'r':
		if id, ok := d.names[o.a]; ok {
			delete(d.names, o.a)
			d.names[o.b] = id
		}
	case 'u':
		delete(d.names, o.a)
		delete(d.dirs, o.a)
	case 'd':
		d.dirs[o.a] = true
	case 'm':
		return false
	}
	return true
}

// image writes the files to dir; of each that is not synced, what left says.
func (d *disk) image(dir string, left func(file int) []byte) {
	must(os.MkdirAll(dir, 0700))
	dirs := []string{}
	for x := range d.dirs {
		dirs = append(dirs, x)
	}
	sort.Strings(dirs)
	for _, x := range dirs {
		must(os.MkdirAll(filepath.Join(dir, x), 0700))
	}
	for name, id := range d.names {
		b := d.cache[id]
		if d.dirty[id] {
			b = left(id)
		}
		f, err := os.OpenFile(filepath.Join(dir, name), os.O_CREATE|os.O_WRONLY, 0600)
		must(err)
		_, err = f.Write(b)
		must(err)
		must(f.Close())
	}
}

// bigValue is the value standing for a short one: most of a megabyte.
func bigValue(v []byte, n int) []byte {
	b := make([]byte, n)
	rnd := rand.New(rand.NewSource(int64(len(v))*1000 + int64(v[len(v)-1])))
	rnd.Read(b)
	copy(b, fmt.Sprintf("%04d%x", len(v), v))
	return b
}

func smallValue(b []byte) []byte {
	if len(b) < 10000 {
		return b
	}
	var n int
	fmt.Sscanf(string(b[:4]), "%04d", &n)
	v := make([]byte, n)
	if _, err := fmt.Sscanf(string(b[4:4+2*n]), "%x", &v); err != nil {
		return []byte("garbled")
	}
	if string(bigValue(v, len(b))) != string(b) {
		return []byte("garbled")
	}
	return v
}

type crashRun struct {
	be   *Backend
	rnd  *rand.Rand
	t    *Trace
	mo   *mergeOp
	keys [][]byte
	big  [][]byte
	cnt  int
	wide int // how many keys a wide operation has
}

func (r *crashRun) uniq() []byte { r.cnt++; return []byte(fmt.Sprint(r.cnt)) }

// fill adds a random batch.
func (r *crashRun) ops(big bool) []Ev {
	rnd := r.rnd
	ops := []Ev{}
	merged, plain := map[string]bool{}, map[string]bool{}
	for n := rnd.Intn(6); n >= 0; n-- {
		k := r.keys[rnd.Intn(len(r.keys))]
		switch x := rnd.Intn(10); {
		case x < 4 && !plain[string(k)]:
			merged[string(k)] = true
			v := r.uniq()
			switch rnd.Intn(16) {
			case 0, 1:
				v = append([]byte{'!'}, v...)
			case 2:
				v = long(string(v), rnd.Intn(1<<uint(4+rnd.Intn(12))))
			}
			ops = append(ops, Ev{"t": "merge", "k": ints(k), "v": hx(v)})
		case x < 8 && !merged[string(k)]:
			plain[string(k)] = true
			v := r.uniq()
			if rnd.Intn(12) == 0 {
				// over pages and log blocks
				v = long(string(v), rnd.Intn(1<<uint(4+rnd.Intn(13))))
			}
			ops = append(ops, Ev{"t": "set", "k": ints(k), "v": hx(v)})
		case !merged[string(k)]:
			plain[string(k)] = true
			ops = append(ops, Ev{"t": "del", "k": ints(k)})
		}
	}
	if !big && rnd.Intn(5) == 0 {
		// thousands of keys, one of the specification
		if rnd.Intn(3) == 0 {
			ops = append(ops, Ev{"t": "del", "k": ints([]byte(bulkPrefix))})
		} else {
			ops = append(ops, Ev{"t": "set", "k": ints([]byte(bulkPrefix)), "v": hx(bulkValue(r.wide, 0, fmt.Sprintf("%04d", r.cnt)))})
			r.cnt++
		}
	}
	if big {
		for n := 1 + rnd.Intn(2); n > 0; n-- {
			k := r.big[rnd.Intn(len(r.big))]
			if rnd.Intn(5) == 0 {
				ops = append(ops, Ev{"t": "del", "k": ints(k)})
			} else {
				ops = append(ops, Ev{"t": "set", "k": ints(k), "v": hx(r.uniq())})
			}
		}
	}
	return ops
}

func (r *crashRun) batch(w store.KVWriter, ops []Ev) store.KVBatch {
	b := w.NewBatch()
	for _, o := range ops {
		k := bytesOf(o["k"])
		if string(k) == bulkPrefix {
			v := []byte{}
			if o["t"] == "set" {
				v = unhex(o["v"].(string))
			}
			for i := 0; i < r.wide; i++ {
				s := fmt.Sprintf("%08d", i)
				if o["t"] == "set" {
					b.Set(append([]byte(bulkPrefix), s...), append(append([]byte{}, v[len(v)-4:]...), s...))
				} else {
					b.Delete(append([]byte(bulkPrefix), s...))
				}
			}
			continue
		}
		switch o["t"] {
		case "set":
			v := unhex(o["v"].(string))
			if k[0] == 'B' {
				v = bigValue(v, 300000+1000*len(v))
			}
			b.Set(k, v)
		case "del":
			b.Delete(k)
		case "merge":
			b.Merge(k, unhex(o["v"].(string)))
		}
	}
	return b
}

func contents(st store.KVStore) ([][]interface{}, error) {
	rd, err := st.Reader()
	if err != nil {
		return nil, err
	}
	kv := scanned(rd, func(k, v []byte) []byte {
		if k[0] == 'B' {
			v = smallValue(v)
		}
		return append([]byte{}, v...)
	})
	return kv, rd.Close()
}

// recovered opens what a crash left and records what it holds, and that it
// can be used.
func (r *crashRun) recovered(dir, how string, at int, use bool) Ev {
	e := Ev{"op": "crash", "how": how, "at": at, "ok": false, "kv": [][]interface{}{}, "used": false, "ops": []Ev{}, "kv2": [][]interface{}{}}
	st, err := r.be.open(dir, r.mo)
	if err != nil {
		e["err"] = err.Error()
		return e
	}
	kv, err := contents(st)
	if err != nil {
		e["err"] = err.Error()
		st.Close()
		return e
	}
	e["kv"] = kv
	if use && r.rnd.Intn(3) == 0 {
		w, err := st.Writer()
		mustReal(err)
		ops := r.ops(false)
		if err := w.ExecuteBatch(r.batch(w, ops)); err != nil {
			e["err"] = err.Error()
			st.Close()
			return e
		}
		mustReal(st.Close())
		st, err = r.be.open(dir, r.mo)
		if err != nil {
			e["err"] = err.Error()
			return e
		}
		kv, err = contents(st)
		if err != nil {
			e["err"] = err.Error()
			st.Close()
			return e
		}
		e["used"], e["ops"], e["kv2"] = true, ops, kv
	}
	mustReal(st.Close())
	e["ok"] = true
	return e
}

// again opens what a crash left, executes a batch on it, and crashes once
// more at some points of all that, recovery included.
func (r *crashRun) again(top, dir string, untorn bool) {
	rnd := r.rnd
	rec := record(dir)
	d := &disk{map[string]bool{}, map[string]int{}, map[int][]byte{}, map[int][]byte{}, map[int]bool{}, map[int][]fsOp{}}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return err
		}
		rel := strings.TrimPrefix(p, dir+"/")
		if fi.IsDir() {
			d.dirs[rel] = true
			return nil
		}
		b, err := os.ReadFile(p)
		rec.nfile++
		rec.names[rel], d.names[rel] = rec.nfile, rec.nfile
		d.cache[rec.nfile], d.synced[rec.nfile] = append([]byte{}, b...), b
		return err
	}))
	stages := []string{"opening"}
	stage := func(s string) {
		rec.mark(len(stages))
		stages = append(stages, s)
	}
	st, err := r.be.open(dir, r.mo)
	mustReal(err)
	kv, err := contents(st)
	mustReal(err)
	stage("opened")
	w, err := st.Writer()
	mustReal(err)
	ops := r.ops(false)
	b := r.batch(w, ops)
	stage("flying")
	mustReal(w.ExecuteBatch(b))
	stage("done")
	mustReal(st.Close())
	rec.end()
	n, now := 0, stages[0]
	for _, o := range rec.ops {
		if o.kind != 'm' {
			n++
		}
	}
	d.played(rec.ops, func(at int, o fsOp) {
		if o.kind == 'm' {
			now = stages[o.off]
		}
		if rnd.Float64()*float64(n) > 5 {
			return
		}
		hows := []string{"kept", "lost", "torn"}
		if untorn {
			hows = hows[:2]
		}
		how := hows[rnd.Intn(len(hows))]
		dir2 := filepath.Join(top, "image2")
		d.image(dir2, func(id int) []byte {
			switch how {
			case "kept":
				return d.cache[id]
			case "lost":
				return d.synced[id]
			}
			return d.torn(id, rnd)
		})
		e := r.recovered(dir2, how, at, false)
		must(os.RemoveAll(dir2))
		if e["ok"] != true {
			atomic.AddInt32(&failedOpens, 1)
		}
		r.t.add(Ev{"op": "crash2", "how": how, "at": at, "dirty": d.notSynced(), "stage": now, "kv": kv, "ops": ops, "ok": e["ok"], "kv2": e["kv"], "err": fmt.Sprint(e["err"])})
	})
}

// played redoes the operations, one after the other.
func (d *disk) played(ops []fsOp, after func(at int, o fsOp)) {
	for i, o := range ops {
		if o.kind == 'm' || d.apply(o) {
			after(i, o)
		}
	}
}

// failedOpens counts the stores that a crash left unusable.
var failedOpens int32

func crashHistory(be *Backend, t *Trace, seed int64, big bool) {
	rnd := rand.New(rand.NewSource(seed))
	r := &crashRun{be: be, rnd: rnd, t: t, mo: &mergeOp{partial: rnd.Intn(4)},
		wide: 10 + rnd.Intn(300),
		keys: [][]byte{{1}, []byte("a"), []byte("b"), []byte("c"), {0xff, 0xff}},
		big:  [][]byte{[]byte("B1"), []byte("B2"), []byte("B3"), []byte("B4"), []byte("B5")}}
	if rnd.Intn(2) == 0 {
		r.wide = 1000 + rnd.Intn(3000)
	}
	top := tmpDir()
	defer rmDir(top)
	root := filepath.Join(top, "live")
	must(os.Mkdir(root, 0700))
	rec := record(root)
	// the history; marks in the record of the files tell where its events are
	evs := []Ev{}
	ev := func(e Ev) {
		rec.mark(len(evs))
		evs = append(evs, e)
		t.alive()
	}
	n := 8 + rnd.Intn(5)
	if big {
		n = 30
	}
	var st store.KVStore
	var w store.KVWriter
	open := func() {
		var err error
		st, err = be.open(root, r.mo)
		mustReal(err)
		w, err = st.Writer()
		mustReal(err)
	}
	open()
	ev(Ev{"op": "created"})
	for i := 0; i < n; i++ {
		ops := r.ops(big)
		b := r.batch(w, ops)
		if rnd.Intn(12) == 0 {
			b.Merge(r.big[0], poison)
			ops = append(ops, Ev{"t": "merge", "k": ints(r.big[0]), "v": hx(poison)})
		}
		ev(Ev{"op": "call", "ops": ops})
		err := w.ExecuteBatch(b)
		e := Ev{"op": "ret", "ok": err == nil}
		if err != nil {
			e["err"] = err.Error()
		}
		ev(e)
		if rnd.Intn(8) == 0 {
			mustReal(st.Close())
			open()
			ev(Ev{"op": "reopened"})
		}
	}
	mustReal(st.Close())
	rec.end()

	// every crash point, in order
	points := 0
	for _, o := range rec.ops {
		if o.kind != 'm' && o.kind != 's' {
			points++
		}
	}
	limit := 150.0
	if big {
		limit = 60
	}
	prob := limit / float64(points+1)
	twice := 0.04
	if big {
		twice = 0.02
	}
	d := &disk{map[string]bool{}, map[string]int{}, map[int][]byte{}, map[int][]byte{}, map[int]bool{}, map[int][]fsOp{}}
	flying := 0
	created := false
	fresh := false // nothing executed since the store was last opened
	try := func(how string, at int, left func(int) []byte) {
		dir := filepath.Join(top, "image")
		d.image(dir, left)
		// a finding: see KNOWN_FINDINGS
		vlog := strings.Contains(d.notSynced(), ".vlog") && (how == "torn" || how == "some lost")
		e := r.recovered(dir, how, at, !(vlog && fresh))
		e["dirty"], e["vlog"] = d.notSynced(), vlog
		t.add(e)
		must(os.RemoveAll(dir))
		if e["ok"] != true && created {
			// enough is enough: a store that does not open leaves memory behind
			atomic.AddInt32(&failedOpens, 1)
		}
		if e["ok"] == true && !(vlog && fresh) && rnd.Float64() < twice {
			d.image(dir, left)
			r.again(top, dir, !created || be.Kind == "badger") // badger: see KNOWN_FINDINGS
			must(os.RemoveAll(dir))
		}
	}
	kept := func(id int) []byte { return d.cache[id] }
	lost := func(id int) []byte { return d.synced[id] }
	points3 := func(at int) {
		if atomic.LoadInt32(&failedOpens) > 20 {
			return
		}
		if rnd.Float64() > prob {
			return
		}
		try("kept", at, kept)
		if len(d.dirty) == 0 {
			return
		}
		try("lost", at, lost)
		if !created {
			// nothing is promised of the files of a store that never was
			return
		}
		try("torn", at, func(id int) []byte { return d.torn(id, rnd) })
		if len(d.dirty) > 1 {
			try("some lost", at, func(id int) []byte {
				switch rnd.Intn(3) {
				case 0:
					return kept(id)
				case 1:
					return lost(id)
				}
				return d.torn(id, rnd)
			})
		}
	}
	for i, o := range rec.ops {
		if o.kind == 'm' {
			e := evs[o.off]
			created = true
			if e["op"] == "reopened" {
				fresh = true
			}
			if e["op"] == "call" {
				flying = len(e["ops"].([]Ev))
			}
			if e["op"] == "ret" && e["ok"] == true && flying > 0 {
				fresh = false
			}
			if e["op"] == "ret" {
				t.add(e)
				// what was acknowledged is there whatever is lost
				p := prob
				if !big || rnd.Intn(4) == 0 {
					prob = 1
				}
				points3(i)
				prob = p
			} else {
				t.add(e)
			}
			continue
		}
		if d.apply(o) {
			points3(i)
		}
	}
	prob = 1
	points3(len(rec.ops))
}

var _ = io.EOF

func init() {
	drivers["C08"] = func(seed int64, thorough bool) []scenario {
		var sc []scenario
		n := 8
		if thorough {
			n = 160
		}
		for i := 0; i < n; i++ {
			for j, name := range []string{"bolt", "goleveldb-default", "badger"} {
				be := &Backend{name, strings.Split(name, "-")[0], conf{}}
				i := i
				s := seed*1000003 + int64(i)*101 + int64(j)
				sc = append(sc, scenario{fmt.Sprintf("C08/%s/%d", name, s), func(t *Trace) {
					crashHistory(be, t, s, i%8 == 7)
				}})
			}
		}
		return sc
	}
}
