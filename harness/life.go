package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/akhenakh/oureadb/store"
)

// lifeRun opens, uses and closes stores under random options.
type lifeRun struct {
	*kvGen
	kind    string
	root    string
	made    map[int]bool
	blocked map[int]string
	open    bool
	ro      bool
	cfg     conf
	old     store.KVStore
	oldW    store.KVWriter
}

func (r *lifeRun) path(p int) string { return filepath.Join(r.root, fmt.Sprint("p", p), "db") }

var buckets = []string{"bleve", "other", "bleve2", "b"}

func (r *lifeRun) tune(c conf) {
	rnd := r.rnd
	num := func(k string, vs ...float64) {
		if rnd.Intn(2) == 0 {
			c[k] = vs[rnd.Intn(len(vs))]
		}
	}
	switch r.kind {
	case "bolt":
		if rnd.Intn(2) == 0 {
			c["nosync"] = rnd.Intn(2) == 0
		}
		num("fillPercent", 0, 0.1, 0.3, 0.5, 0.9, 1, 5)
	case "goleveldb":
		num("write_buffer_size", 1, 200, 600, 5000, 1<<20)
		num("block_size", 1, 16, 64, 500, 4096)
		num("block_restart_interval", 1, 2, 3, 16)
		num("lru_cache_capacity", 1, 100, 1<<20)
		num("bloom_filter_bits_per_key", 1, 3, 10, 30)
	}
}

// tryOpen opens a store under random options.
func (r *lifeRun) tryOpen() {
	rnd := r.rnd
	c := conf{}
	p := 1 + rnd.Intn(3)
	if r.kind == "gtreap" {
		p = 1
		c["path"] = ""
	} else {
		c["path"] = r.path(p)
	}
	if rnd.Intn(6) == 0 {
		p = 0
		delete(c, "path")
		if rnd.Intn(3) > 0 {
			c["path"] = []interface{}{1.5, nil, true, []string{"x"}, map[string]interface{}{}}[rnd.Intn(5)]
		}
		if r.kind != "gtreap" && rnd.Intn(2) == 0 {
			c["path"] = ""
		}
		if r.kind == "gtreap" && rnd.Intn(2) == 0 {
			c["path"] = r.path(1)
		}
	}
	o := Ev{"path": p, "bucket": "bleve", "ro": false, "cim": "unset", "eie": "unset"}
	switch r.kind {
	case "bolt":
		if rnd.Intn(3) > 0 {
			b := buckets[rnd.Intn(len(buckets))]
			if rnd.Intn(10) == 0 {
				b = ""
			}
			c["bucket"], o["bucket"] = b, b
		}
	case "goleveldb":
		for _, x := range []struct{ k, e string }{{"create_if_missing", "cim"}, {"error_if_exists", "eie"}} {
			if rnd.Intn(3) > 0 {
				b := rnd.Intn(2) == 0
				if x.e == "eie" && rnd.Intn(2) == 0 {
					b = false
				}
				c[x.k], o[x.e] = b, fmt.Sprint(b)
			}
		}
	}
	if rnd.Intn(3) == 0 {
		ro := rnd.Intn(3) > 0
		c["read_only"], o["ro"] = ro, ro
	}
	r.tune(c)
	r.openWith(p, c, o)
}

// openWith opens the store at path p with the configuration c, of which o are
// the options the specification knows.
func (r *lifeRun) openWith(p int, c conf, o Ev) {
	given := conf{}
	for k, v := range c {
		given[k] = v
	}
	st, err := newStore(r.kind, r.mo, c)
	e := Ev{"op": "open", "o": o, "ok": err == nil, "conf": fmt.Sprint(given)}
	if err != nil {
		e["err"] = err.Error()
	}
	r.tr.add(e)
	if err != nil {
		return
	}
	r.open, r.st, r.cfg, r.made[p] = true, st, c, true
	r.ro = o["ro"] == true && (r.kind == "bolt" || r.kind == "goleveldb")
	r.ba = map[int]*kvBatch{}
	r.w, err = st.Writer()
	mustReal(err)
	r.seeAll()
}

// seeAll reads what is there; there may be no bucket to read.
func (r *lifeRun) seeAll() {
	id := r.id()
	rd, err := r.st.Reader()
	r.tr.add(Ev{"op": "reader", "r": id, "ok": err == nil})
	if err != nil {
		if r.ro && r.kind == "bolt" {
			return
		}
		panic("no reader: " + err.Error())
	}
	r.rd[id] = rd
	r.scan(id)
	r.closeReader(id)
}

func (r *lifeRun) close() {
	r.closeAll()
	if r.rnd.Intn(2) == 0 {
		mustReal(r.w.Close())
	}
	err := r.st.Close()
	r.tr.add(Ev{"op": "close", "ok": err == nil})
	r.open = false
	r.old, r.oldW = r.st, r.w
}

// stale uses a store after it was closed.
func (r *lifeRun) stale(batch bool) {
	if r.old == nil || r.kind != "bolt" && r.kind != "goleveldb" {
		return
	}
	if r.rnd.Intn(4) == 0 {
		err := r.old.(compacter).CompactWithBatchSize(1 + r.rnd.Intn(5))
		r.tr.add(Ev{"op": "compact", "ok": err == nil})
		return
	}
	if !batch {
		rd, err := r.old.Reader()
		id := r.id()
		r.tr.add(Ev{"op": "reader", "r": id, "ok": err == nil && rd != nil})
		return
	}
	if len(r.ba) > 0 {
		ids := sortedKeys(r.ba)
		id := ids[r.rnd.Intn(len(ids))]
		if r.ba[id].n == 0 {
			return
		}
		err := r.oldW.ExecuteBatch(r.ba[id].b)
		r.tr.add(Ev{"op": "exec", "b": id, "ok": err == nil})
	}
}

func (r *lifeRun) block(p int) {
	if r.kind == "gtreap" {
		return
	}
	if r.made[p] {
		return
	}
	if how, ok := r.blocked[p]; ok {
		must(os.RemoveAll(how))
		must(os.MkdirAll(filepath.Dir(r.path(p)), 0755))
		delete(r.blocked, p)
		r.tr.add(Ev{"op": "unblock", "p": p})
		return
	}
	how := filepath.Dir(r.path(p)) // its directory is a file
	if r.rnd.Intn(2) == 0 {
		how = r.path(p)
	}
	must(os.RemoveAll(how))
	if how == r.path(p) && r.kind == "bolt" {
		must(os.Mkdir(how, 0755))
	} else {
		must(ioutil.WriteFile(how, []byte("in the way"), 0644))
	}
	r.blocked[p] = how
	r.tr.add(Ev{"op": "block", "p": p})
}

func lifeHistory(kind string, t *Trace, seed int64, steps int) {
	rnd := rand.New(rand.NewSource(seed))
	t.Mode = kind
	prof := profile{set: 8, del: 3, merge: 4, reset: 1, exec: 6, look: 2, get: 3, mget: 1, scan: 1, piter: 1, riter: 1,
		iterOp: 4, reader: 2, creader: 1, poison: 1, maxReaders: 1, maxIters: 2, keys: 8, dvals: rnd.Intn(2) == 0}
	if rnd.Intn(2) == 0 {
		prof.keys, prof.set, prof.exec = 60, 20, 3
	}
	if kind == "bolt" {
		// growing the file waits for the readers
		prof.reader, prof.get, prof.mget, prof.scan, prof.piter, prof.riter, prof.iterOp = 0, 0, 0, 0, 0, 0, 0
	}
	if kind == "goleveldb" || kind == "bolt" {
		prof.compact = 1
	}
	r := &lifeRun{kind: kind, root: tmpDir(), made: map[int]bool{}, blocked: map[int]string{}}
	kr := &kvRun{be: &Backend{kind, kind, conf{}}, tr: t, rnd: rnd, mo: &mergeOp{partial: rnd.Intn(4)},
		rd: map[int]store.KVReader{}, it: map[int]*kvIter{}, ba: map[int]*kvBatch{}, held: map[int][]byte{}}
	r.kvGen = &kvGen{kvRun: kr, p: prof, pool: keyPool(rnd, prof.keys, prof.dvals)}
	for p := 1; p <= 3; p++ {
		must(os.MkdirAll(filepath.Dir(r.path(p)), 0755))
	}
	for i := 0; i < steps; i++ {
		if r.open {
			q := r.p
			if r.ro {
				r.p.compact = 0
			}
			for n := rnd.Intn(25); n > 0; n-- {
				if r.ro && rnd.Intn(10) == 0 {
					r.compact(rnd.Intn(4))
				} else if r.ro && r.kind == "bolt" {
					// there may be no bucket
					r.roStep()
				} else {
					r.step()
				}
			}
			r.p = q
			r.close()
			continue
		}
		switch rnd.Intn(8) {
		case 0:
			r.block(1 + rnd.Intn(3))
		case 1, 2:
			r.stale(rnd.Intn(2) == 0)
		default:
			r.tryOpen()
		}
	}
	if r.open {
		r.close()
	}
	rmDir(r.root)
}

// lifeScripts makes behaviours of MCLife, each on paths of its own.
func lifeScripts(kind string, t *Trace, seed int64, lines []string) {
	rnd := rand.New(rand.NewSource(seed))
	t.Mode = kind
	r := &lifeRun{kind: kind, root: tmpDir(), made: map[int]bool{}, blocked: map[int]string{}}
	kr := &kvRun{be: &Backend{kind, kind, conf{}}, tr: t, rnd: rnd, mo: &mergeOp{partial: rnd.Intn(4)},
		rd: map[int]store.KVReader{}, it: map[int]*kvIter{}, ba: map[int]*kvBatch{}, held: map[int][]byte{}}
	r.kvGen = &kvGen{kvRun: kr}
	for n, l := range lines {
		var cs []struct {
			Op string `json:"op"`
			O  struct {
				Path   int    `json:"path"`
				Bucket string `json:"bucket"`
				RO     bool   `json:"ro"`
				CIM    string `json:"cim"`
				EIE    string `json:"eie"`
			} `json:"o"`
			V string `json:"v"`
			W string `json:"w"`
			P int    `json:"p"`
		}
		must(json.Unmarshal([]byte(l), &cs))
		for p := 1; p <= 2; p++ {
			must(os.MkdirAll(filepath.Dir(r.path(2*n+p)), 0755))
		}
		for _, c := range cs {
			switch c.Op {
			case "open":
				o := Ev{"path": 0, "bucket": c.O.Bucket, "ro": c.O.RO, "cim": c.O.CIM, "eie": c.O.EIE}
				cf := conf{}
				p := c.O.Path
				if p > 0 {
					p += 2 * n
					cf["path"], o["path"] = r.path(p), p
				}
				if c.O.RO || rnd.Intn(2) == 0 {
					cf["read_only"] = c.O.RO
				}
				switch kind {
				case "bolt":
					if c.O.Bucket != "bleve" || rnd.Intn(2) == 0 {
						cf["bucket"] = c.O.Bucket
					}
				case "goleveldb":
					if c.O.CIM != "unset" {
						cf["create_if_missing"] = c.O.CIM == "true"
					}
					if c.O.EIE != "unset" {
						cf["error_if_exists"] = c.O.EIE == "true"
					}
				}
				r.openWith(p, cf, o)
			case "close":
				if r.open {
					r.close()
				}
			case "put":
				if !r.open {
					continue
				}
				b := r.newBatch(false)
				r.set(b, []byte{1}, unhex(c.V))
				r.exec(b)
				if rnd.Intn(2) == 0 {
					r.closeBatch(b)
				}
				r.seeAll()
			case "stale":
				if !r.open {
					r.stale(c.W == "batch")
				}
			case "block", "unblock":
				if _, ok := r.blocked[2*n+c.P]; !r.open && ok == (c.Op == "unblock") {
					r.block(2*n + c.P)
				}
			default:
				panic(harnessError("unknown call " + c.Op))
			}
		}
		if r.open {
			r.close()
		}
	}
	rmDir(r.root)
}

// roStep tries to change a store opened read only.
func (r *lifeRun) roStep() {
	switch r.rnd.Intn(4) {
	case 0:
		b := r.anyBatch()
		r.set(b, r.key(), r.val())
		r.exec(b)
		r.closeBatch(b)
	case 1:
		b := r.anyBatch()
		r.del(b, r.key())
		r.exec(b)
		r.closeBatch(b)
	case 2:
		id := r.id()
		rd, err := r.st.Reader()
		r.tr.add(Ev{"op": "reader", "r": id, "ok": err == nil})
		if err == nil {
			r.rd[id] = rd
			r.scan(id)
			r.closeReader(id)
		}
	}
}

func init() {
	drivers["C11"] = func(seed int64, thorough bool) []scenario {
		var sc []scenario
		n, ns := 100, 1000
		if thorough {
			n, ns = 1500, 20000
		}
		for _, km := range [][2]string{{"bolt", "MCLifeBolt"}, {"goleveldb", "MCLifeLevel"}} {
			k, m := km[0], km[1]
			lines := scriptLines(m, seed, ns)
			for i := 0; i < len(lines); i += 20 {
				part := lines[i:]
				if len(part) > 20 {
					part = part[:20]
				}
				s := seed*1000003 + int64(i)
				sc = append(sc, scenario{fmt.Sprintf("C11/%s/%d", m, i), func(t *Trace) { lifeScripts(k, t, s, part) }})
			}
		}
		for i := 0; i < n; i++ {
			for j, k := range []string{"bolt", "goleveldb", "badger", "gtreap"} {
				k := k
				if (k == "badger" || k == "gtreap") && i%3 > 0 {
					continue
				}
				s := seed*1000003 + int64(i)*101 + int64(j)
				sc = append(sc, scenario{fmt.Sprintf("C11/%s/%d", k, s), func(t *Trace) { lifeHistory(k, t, s, 40) }})
			}
		}
		return sc
	}
}
