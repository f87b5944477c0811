package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

// Scripts are behaviours of the specification, as sequences of calls, which
// TLC wrote (MCKV!Emit and its like): one per line, a JSON string holding a
// JSON list of calls. They are made on the real code, several in a row on one
// store, and what it answers is recorded.

type call struct {
	Op string  `json:"op"`
	B  int     `json:"b"`
	R  int     `json:"r"`
	I  int     `json:"i"`
	K  []int   `json:"k"`
	V  string  `json:"v"`
	Ks [][]int `json:"ks"`
	W  struct {
		T  string `json:"t"`
		P  []int  `json:"p"`
		S  []int  `json:"s"`
		SN bool   `json:"sn"`
		E  []int  `json:"e"`
		EN bool   `json:"en"`
	} `json:"w"`
}

// scriptLines returns n lines of the named file of $SCRIPTS, chosen by seed,
// or all of them if there are fewer.
func scriptLines(name string, seed int64, n int) []string {
	var all []string
	for _, p := range strings.Split(os.Getenv("SCRIPTS"), ",") {
		if !strings.HasSuffix(p, "/"+name) {
			continue
		}
		f, err := os.Open(p)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var s string
			must(json.Unmarshal(sc.Bytes(), &s))
			all = append(all, s)
		}
		must(sc.Err())
		f.Close()
		rnd := rand.New(rand.NewSource(seed))
		// TLC writes them in any order
		rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		if len(all) > n {
			all = all[:n]
		}
	}
	return all
}

func byteSeq(k []int) []byte {
	b := make([]byte, len(k))
	for i, x := range k {
		b[i] = byte(x)
	}
	return b
}

// script makes the calls of one script, looks at everything, and leaves the
// store empty.
func (r *kvRun) script(cs []call) {
	ba, rd, it := map[int]int{}, map[int]int{}, map[int]int{}
	for _, c := range cs {
		switch c.Op {
		case "batch":
			ba[c.B] = r.newBatch(false)
		case "set":
			r.set(ba[c.B], byteSeq(c.K), unhex(c.V))
		case "del":
			r.del(ba[c.B], byteSeq(c.K))
		case "merge":
			r.merge(ba[c.B], byteSeq(c.K), unhex(c.V))
		case "reset":
			r.reset(ba[c.B])
		case "exec":
			r.exec(ba[c.B])
			r.look()
			if r.owned {
				r.keepAll(cs)
			}
		case "mget":
			var ks [][]byte
			for _, k := range c.Ks {
				ks = append(ks, byteSeq(k))
			}
			r.mget(rd[c.R], ks)
		case "cbatch":
			r.closeBatch(ba[c.B])
			delete(ba, c.B)
		case "reader":
			rd[c.R] = r.reader()
		case "creader":
			r.closeReader(rd[c.R])
			delete(rd, c.R)
		case "iter":
			if c.W.T == "prefix" {
				it[c.I] = r.piter(rd[c.R], byteSeq(c.W.P))
				break
			}
			s, e := byteSeq(c.W.S), byteSeq(c.W.E)
			if c.W.SN {
				s = nil
			}
			if c.W.EN {
				e = nil
			}
			it[c.I] = r.riter(rd[c.R], s, e)
		case "seek":
			r.seek(it[c.I], byteSeq(c.K))
		case "next":
			r.nextIt(it[c.I])
		case "citer":
			r.closeIter(it[c.I])
		case "compact":
			r.compact(r.rnd.Intn(4))
			r.look()
		case "reopen":
			r.reopen()
			ba = map[int]int{}
			r.look()
		default:
			panic(harnessError("unknown call " + c.Op))
		}
	}
	for _, id := range sortedKeys(r.rd) {
		r.scan(id)
	}
	for _, i := range sortedKeys(r.it) {
		r.cur(i)
	}
	r.closeAll()
	for _, id := range sortedKeys(r.ba) {
		r.closeBatch(id)
	}
	r.wipe()
	for _, h := range sortedKeys(r.held) {
		r.lookHeld(h)
	}
	if len(r.held) > 40 {
		r.held = map[int][]byte{}
	}
}

// keepAll gets every key of the script, to keep and to overwrite.
func (r *kvRun) keepAll(cs []call) {
	seen := map[string]bool{}
	var ks [][]byte
	rd := r.reader()
	for _, c := range cs {
		k := byteSeq(c.K)
		if len(k) > 0 && !seen[string(k)] {
			seen[string(k)] = true
			ks = append(ks, k)
			r.get(rd, k, true)
			r.get(rd, k, false)
			r.get(rd, k, false)
		}
	}
	r.mget(rd, ks)
	r.mget(rd, ks)
	r.closeReader(rd)
}

// wipe deletes everything.
func (r *kvRun) wipe() {
	rd, err := r.st.Reader()
	mustReal(err)
	kv := scanned(rd, func(k, v []byte) []byte { return v })
	mustReal(rd.Close())
	if len(kv) == 0 {
		return
	}
	b := r.newBatch(false)
	for _, e := range kv {
		r.del(b, bytesOf(e[0]))
	}
	r.exec(b)
	r.closeBatch(b)
}

// kvScripts are the scenarios making n scripts of a model on each backend.
func kvScripts(id, name string, seed int64, n int) []scenario {
	var sc []scenario
	const row = 25
	for j, be := range backends {
		be := be
		if id == "C10" && be.Kind != "bolt" && be.Kind != "goleveldb" {
			continue
		}
		m := n
		if be.Kind == "bolt" || be.Kind == "badger" {
			m = n / 2 // slower, and those which reopen much slower
		}
		lines := scriptLines(name, seed*31+int64(j), m)
		for i := 0; i < len(lines); i += row {
			part := lines[i:]
			if len(part) > row {
				part = part[:row]
			}
			s := seed*1000003 + int64(i)*101 + int64(j)
			sc = append(sc, scenario{fmt.Sprintf("%s/%s/%s/%d", id, name, be.Name, i), func(t *Trace) {
				rnd := rand.New(rand.NewSource(s))
				r := newKVRun(be, t, rnd, rnd.Intn(4))
				r.owned = kvProfiles[id].owned
				r.wipe()
				for _, l := range part {
					var cs []call
					must(json.Unmarshal([]byte(l), &cs))
					r.script(cs)
				}
				r.finish()
			}})
		}
	}
	return sc
}
