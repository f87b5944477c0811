package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/null"
)

// mergeOp is the merge operator of the KV specification (KV!Full): it is
// order sensitive and shows whether the key existed, which key it was called
// for, and every operand.
type mergeOp struct {
	partial int // 0 never, 1 always, 2 depending on the operands, 3 appending in place
	onFull  func(key []byte)
}

var poison = []byte{0xfa, 0x11}

func (m *mergeOp) FullMerge(key, ex []byte, operands [][]byte) ([]byte, bool) {
	if m.onFull != nil {
		m.onFull(key)
	}
	var r []byte
	if ex == nil {
		r = append(r, 0)
	} else {
		r = append(r, 1)
		r = append(r, ex...)
	}
	r = append(r, '<')
	r = append(r, key...)
	r = append(r, '>')
	from := 0
	for i, o := range operands {
		if bytes.Contains(o, poison) {
			return nil, false
		}
		if discards(o) {
			from = i
		}
	}
	for i, o := range operands[from:] {
		if i > 0 {
			r = append(r, '|')
		}
		r = append(r, o...)
	}
	return r, true
}

// discards: the operand makes those before it count for nothing.
func discards(o []byte) bool { return len(o) > 0 && o[0] == '!' }

func (m *mergeOp) PartialMerge(key, l, r []byte) ([]byte, bool) {
	if m.partial > 0 && discards(r) && !bytes.Contains(l, poison) {
		return r, true // the operand itself, not a copy
	}
	switch m.partial {
	case 0:
		return nil, false
	case 2:
		if len(l)%2 == 1 {
			return nil, false
		}
	case 3:
		l = append(l, '|')
		return append(l, r...), true
	}
	v := append([]byte{}, l...)
	v = append(v, '|')
	return append(v, r...), true
}

func (m *mergeOp) Name() string { return "verif" }

// kvRun interprets abstract operations on a real store and records them
// together with what the store answered.
type kvRun struct {
	be     *Backend
	dir    string
	mo     *mergeOp
	st     store.KVStore
	w      store.KVWriter
	tr     *Trace
	rd     map[int]store.KVReader
	it     map[int]*kvIter
	ba     map[int]*kvBatch
	held   map[int][]byte
	next   int
	owned  bool // scribble over every buffer the caller owns
	rnd    *rand.Rand
	other  []store.KVBatch
	bulkOK bool
}

type kvIter struct {
	r     int
	it    store.KVIterator
	valid bool
}

type kvBatch struct {
	b     store.KVBatch
	n     int
	merge map[string]bool
	plain map[string]bool
	arena []byte // until the batch is executed or closed
	fill  byte
}

func newKVRun(be *Backend, tr *Trace, rnd *rand.Rand, partial int) *kvRun {
	r := &kvRun{be: be, tr: tr, rnd: rnd, mo: &mergeOp{partial: partial},
		rd: map[int]store.KVReader{}, it: map[int]*kvIter{}, ba: map[int]*kvBatch{}, held: map[int][]byte{}}
	r.dir = tmpDir()
	st, err := be.open(r.dir, r.mo)
	mustReal(err)
	r.st = st
	prefill(be, st)
	r.w, err = st.Writer()
	mustReal(err)
	tr.alive()
	return r
}

func (r *kvRun) id() int { r.next++; return r.next }

// buf returns a private copy of b the interpreter may scribble over.
func (r *kvRun) buf(ba *kvBatch, b []byte) []byte {
	if b == nil {
		return nil
	}
	if ba != nil && len(ba.arena) >= len(b) && len(b) > 0 {
		// a piece of the byte array NewBatchEx returned
		c := ba.arena[:len(b):len(b)]
		for _, x := range ba.arena {
			if x != ba.fill {
				r.tr.add(Ev{"op": "arena", "want": int(ba.fill), "got": int(x)})
				break
			}
		}
		ba.arena = ba.arena[len(b):]
		copy(c, b)
		return c
	}
	return append([]byte{}, b...)
}

func (r *kvRun) scribble(bs ...[]byte) {
	if !r.owned {
		return
	}
	for _, b := range bs {
		for i := range b {
			b[i] = 0xEE
		}
	}
}

func (r *kvRun) newBatch(ex bool) int {
	id := r.id()
	kb := &kvBatch{merge: map[string]bool{}, plain: map[string]bool{}}
	if ex {
		n := r.rnd.Intn(64)
		arena, b, err := r.w.NewBatchEx(store.KVBatchOptions{TotalBytes: n, NumSets: 2, NumDeletes: 1, NumMerges: 1})
		mustReal(err)
		if len(arena) != n {
			r.tr.add(Ev{"op": "arena", "want": n, "got": len(arena)})
		}
		// all of it is this batch's, whatever becomes of others
		kb.fill = byte(id)
		for i := range arena {
			arena[i] = kb.fill
		}
		kb.b, kb.arena = b, arena
	} else {
		kb.b = r.w.NewBatch()
	}
	r.ba[id] = kb
	r.tr.add(Ev{"op": "batch", "b": id})
	return id
}

func (r *kvRun) set(id int, k, v []byte) {
	b := r.ba[id]
	kk, vv := r.buf(b, k), r.buf(b, v)
	b.b.Set(kk, vv)
	r.scribble(kk, vv)
	b.plain[string(k)] = true
	b.n++
	r.tr.add(Ev{"op": "set", "b": id, "k": ints(k), "v": hexv(v)})
}

// hexv is the value a store keeps for v: a nil value is an empty value.
func hexv(v []byte) string {
	if v == nil {
		return ""
	}
	return hx(v)
}

func (r *kvRun) del(id int, k []byte) {
	b := r.ba[id]
	kk := r.buf(b, k)
	b.b.Delete(kk)
	r.scribble(kk)
	b.plain[string(k)] = true
	b.n++
	r.tr.add(Ev{"op": "del", "b": id, "k": ints(k)})
}

func (r *kvRun) merge(id int, k, v []byte) {
	b := r.ba[id]
	kk, vv := r.buf(b, k), r.buf(b, v)
	b.b.Merge(kk, vv)
	r.scribble(kk, vv)
	b.merge[string(k)] = true
	b.n++
	r.tr.add(Ev{"op": "merge", "b": id, "k": ints(k), "v": hx(v)})
}

// ops adds many operations at once, each type, key, value.
func (r *kvRun) ops(id int, os []op3) {
	b := r.ba[id]
	l := [][]interface{}{}
	for _, o := range os {
		kk, vv := r.buf(b, o.k), r.buf(b, o.v)
		v := ""
		switch o.t {
		case "set":
			b.b.Set(kk, vv)
			v = hexv(o.v)
		case "del":
			b.b.Delete(kk)
		case "merge":
			b.b.Merge(kk, vv)
			v = hx(o.v)
		}
		r.scribble(kk, vv)
		if o.t == "merge" {
			b.merge[string(o.k)] = true
		} else {
			b.plain[string(o.k)] = true
		}
		b.n++
		l = append(l, []interface{}{o.t, ints(o.k), v})
	}
	r.tr.add(Ev{"op": "ops", "b": id, "os": l})
}

type op3 struct {
	t    string
	k, v []byte
}

// odd adds an operation some engines refuse.
func (r *kvRun) odd(id int, t string, k, v []byte) {
	b := r.ba[id]
	switch t {
	case "set":
		b.b.Set(append([]byte{}, k...), append([]byte{}, v...))
	case "del":
		b.b.Delete(append([]byte{}, k...))
	case "merge":
		b.b.Merge(append([]byte{}, k...), append([]byte{}, v...))
	}
	b.n++
	if t == "merge" {
		b.merge[string(k)] = true
	} else {
		b.plain[string(k)] = true
	}
	r.tr.add(Ev{"op": "odd", "b": id, "t": t, "k": ints(k), "v": hx(v)})
}

func (r *kvRun) reset(id int) {
	b := r.ba[id]
	b.b.Reset()
	b.merge, b.plain, b.n = map[string]bool{}, map[string]bool{}, 0
	r.tr.add(Ev{"op": "reset", "b": id})
}

func (r *kvRun) exec(id int) bool {
	err := r.w.ExecuteBatch(r.ba[id].b)
	r.ba[id].arena = nil
	e := Ev{"op": "exec", "b": id, "ok": err == nil}
	if err != nil {
		e["err"] = err.Error()
	}
	r.tr.add(e)
	return err == nil
}

// closeBatch closes a batch.
func (r *kvRun) closeBatch(id int) {
	r.ba[id].b.Close()
	delete(r.ba, id)
	r.tr.add(Ev{"op": "cbatch", "b": id})
}

func (r *kvRun) foreign() {
	if r.be.Kind == "null" {
		return
	}
	if r.other == nil {
		ns, _ := null.New(nil, nil)
		nw, _ := ns.Writer()
		r.other = append(r.other, nw.NewBatch())
		if r.be.Kind == "goleveldb" {
			eb := store.NewEmulatedBatch(r.mo)
			eb.Set([]byte("foreign"), []byte("x"))
			r.other = append(r.other, eb)
		} else {
			d := tmpDir()
			ls, err := goleveldb.New(r.mo, conf{"path": d, "create_if_missing": true})
			mustReal(err)
			lw, err := ls.Writer()
			mustReal(err)
			lb := lw.NewBatch()
			lb.Set([]byte("foreign"), []byte("x"))
			ls.Close()
			r.other = append(r.other, lb)
		}
	}
	err := r.w.ExecuteBatch(r.other[r.rnd.Intn(len(r.other))])
	r.tr.add(Ev{"op": "foreign", "ok": err == nil})
}

func (r *kvRun) reader() int {
	id := r.id()
	rd, err := r.st.Reader()
	r.tr.add(Ev{"op": "reader", "r": id, "ok": err == nil})
	mustReal(err)
	r.rd[id] = rd
	return id
}

func (r *kvRun) closeReader(id int) {
	for _, i := range sortedKeys(r.it) {
		if r.it[i].r == id {
			r.closeIter(i)
		}
	}
	err := r.rd[id].Close()
	mustReal(err)
	delete(r.rd, id)
	r.tr.add(Ev{"op": "creader", "r": id})
}

func (r *kvRun) get(id int, k []byte, keep bool) {
	kk := append([]byte{}, k...)
	v, err := r.rd[id].Get(kk)
	mustReal(err)
	h := 0
	e := Ev{"op": "get", "r": id, "k": ints(k), "v": hx(v)}
	if keep {
		h = r.id()
		r.held[h] = v
	} else {
		r.scribble(v)
	}
	r.scribble(kk)
	e["h"] = h
	r.tr.add(e)
}

func (r *kvRun) lookHeld(h int) {
	r.tr.add(Ev{"op": "held", "h": h, "v": hx(r.held[h])})
}

func (r *kvRun) mget(id int, ks [][]byte) {
	vs, err := r.rd[id].MultiGet(ks)
	e := Ev{"op": "mget", "r": id, "ok": err == nil}
	kk, vv := [][]int{}, []string{}
	for _, k := range ks {
		kk = append(kk, ints(k))
	}
	for _, v := range vs {
		vv = append(vv, hx(v))
	}
	e["ks"], e["vs"] = kk, vv
	r.tr.add(e)
	for _, v := range vs {
		r.scribble(v)
	}
}

// The keys of a bulk batch, n of them with values of one generation, are one
// abstract key of the specification.
const bulkPrefix = "\xfe\xfdbulk"

func bulkValue(n, bad int, gen string) []byte { return []byte(fmt.Sprintf("%d %d %s", n, bad, gen)) }

// bulkOps adds n sets (or deletes) to the batch without recording them.
func (r *kvRun) bulkOps(id, n int, gen string, del bool) {
	b := r.ba[id]
	for i := 0; i < n; i++ {
		s := []byte(fmt.Sprintf("%08d", i))
		k := append([]byte(bulkPrefix), s...)
		if del {
			b.b.Delete(k)
		} else {
			b.b.Set(k, append([]byte(gen), s...))
		}
		if i%1000 == 0 {
			r.tr.alive()
		}
	}
	b.n += n
	b.plain[bulkPrefix] = true
}

// wide adds a set or a delete of all the n bulk keys to the batch.
func (r *kvRun) wide(id, n, gen int, del bool) {
	g := fmt.Sprintf("%04d", gen%10000)
	r.bulkOps(id, n, g, del)
	if del {
		r.tr.add(Ev{"op": "del", "b": id, "k": ints([]byte(bulkPrefix))})
	} else {
		r.tr.add(Ev{"op": "set", "b": id, "k": ints([]byte(bulkPrefix)), "v": hx(bulkValue(n, 0, g))})
	}
}

// scanned is everything a reader shows, nil if there is no end to it.
func scanned(rd store.KVReader, value func(k, v []byte) []byte) [][]interface{} {
	it := rd.RangeIterator(nil, nil)
	kv := [][]interface{}{}
	bulk, bad, gen := 0, 0, ""
	for n := 0; ; n++ {
		k, v, ok := it.Current()
		if !ok {
			break
		}
		if bytes.HasPrefix(k, []byte(bulkPrefix)) {
			if bulk == 0 && len(v) >= 4 {
				gen = string(v[:4])
			}
			bulk++
			if string(v) != gen+string(k[len(bulkPrefix):]) {
				bad++
			}
		} else {
			if len(kv) > 3000 {
				return nil
			}
			kv = append(kv, []interface{}{ints(k), hexn(value(k, v))})
		}
		it.Next()
	}
	mustReal(it.Close())
	if bulk > 0 {
		e := []interface{}{ints([]byte(bulkPrefix)), hx(bulkValue(bulk, bad, gen))}
		i := 0
		for i < len(kv) && bytes.Compare(bytesOf(kv[i][0]), []byte(bulkPrefix)) < 0 {
			i++
		}
		kv = append(kv[:i], append([][]interface{}{e}, kv[i:]...)...)
	}
	return kv
}

// scan reads everything a reader shows.
func (r *kvRun) scan(id int) {
	kv := scanned(r.rd[id], func(k, v []byte) []byte { return v })
	if kv == nil {
		r.tr.add(Ev{"op": "endless"})
		return
	}
	r.tr.add(Ev{"op": "scan", "r": id, "kv": kv})
}

// look opens a reader, scans it and closes it.
func (r *kvRun) look() {
	id := r.reader()
	r.scan(id)
	r.closeReader(id)
}

func (r *kvRun) piter(rid int, p []byte) int {
	id := r.id()
	it := r.rd[rid].PrefixIterator(append([]byte{}, p...))
	r.it[id] = &kvIter{r: rid, it: it}
	r.tr.add(Ev{"op": "piter", "i": id, "r": rid, "p": ints(p)})
	r.cur(id)
	return id
}

func (r *kvRun) riter(rid int, s, e []byte) int {
	id := r.id()
	it := r.rd[rid].RangeIterator(s, e)
	r.it[id] = &kvIter{r: rid, it: it}
	r.tr.add(Ev{"op": "riter", "i": id, "r": rid, "s": ints(s), "sn": s == nil, "e": ints(e), "en": e == nil})
	r.cur(id)
	return id
}

// cur records where an iterator is; all its accessors have to agree.
func (r *kvRun) cur(id int) {
	it := r.it[id]
	k, v, ok := it.it.Current()
	e := Ev{"op": "cur", "i": id, "ok": ok, "k": []int{}, "v": ""}
	if ok {
		e["k"], e["v"] = ints(k), hexn(v)
	}
	it.valid = ok
	r.tr.add(e)
	e = Ev{"op": "cur", "i": id, "ok": it.it.Valid(), "k": []int{}, "v": ""}
	if e["ok"] == true {
		e["k"], e["v"] = ints(it.it.Key()), hexn(it.it.Value())
	}
	r.tr.add(e)
}

// hexn: iterators may show an empty value as nil.
func hexn(v []byte) string {
	if v == nil {
		return ""
	}
	return hx(v)
}

func (r *kvRun) seek(id int, k []byte) {
	r.it[id].it.Seek(append([]byte{}, k...))
	r.tr.add(Ev{"op": "seek", "i": id, "k": ints(k)})
	r.cur(id)
}

func (r *kvRun) nextIt(id int) {
	if !r.it[id].valid {
		return
	}
	r.it[id].it.Next()
	r.tr.add(Ev{"op": "next", "i": id})
	r.cur(id)
}

func (r *kvRun) closeIter(id int) {
	mustReal(r.it[id].it.Close())
	delete(r.it, id)
	r.tr.add(Ev{"op": "citer", "i": id})
}

type compacter interface {
	Compact() error
	CompactWithBatchSize(int) error
}

func (r *kvRun) compact(n int) {
	c, ok := r.st.(compacter)
	if !ok {
		return
	}
	var err error
	if n == 0 {
		err = c.Compact()
	} else {
		err = c.CompactWithBatchSize(n)
	}
	r.tr.add(Ev{"op": "compact", "n": n, "ok": err == nil})
}

func (r *kvRun) closeAll() {
	for _, id := range sortedKeys(r.rd) {
		r.closeReader(id)
	}
}

// reopen closes everything and opens the store again.
func (r *kvRun) reopen() {
	if !r.be.persistent() {
		return
	}
	r.closeAll()
	for _, id := range sortedKeys(r.ba) {
		r.closeBatch(id)
	}
	mustReal(r.w.Close())
	mustReal(r.st.Close())
	st, err := r.be.open(r.dir, r.mo)
	r.tr.add(Ev{"op": "reopen", "ok": err == nil})
	mustReal(err)
	r.st = st
	r.w, err = st.Writer()
	mustReal(err)
}

// finish ends a history: everything the store holds is recorded.
func (r *kvRun) finish() {
	for _, h := range sortedKeys(r.held) {
		r.lookHeld(h)
	}
	r.look()
	r.closeAll()
	if err := r.st.Close(); err != nil {
		panic("unexpected error: " + err.Error())
	}
	for _, h := range sortedKeys(r.held) {
		r.lookHeld(h)
	}
	rmDir(r.dir)
}
