package main

import (
	"fmt"
	"math/rand"
	"sort"
)

// profile weights the operations of a random history.
type profile struct {
	len                                                          int
	set, del, merge, reset, exec, look, foreign, poison, odd     int
	reader, creader, get, mget, held, scan, piter, riter, iterOp int
	compact, reopen                                              int
	owned                                                        bool
	maxReaders, maxIters, keys                                   int
	bulk                                                         int // 1: a huge batch at the end, 2: with a last operation to refuse
	wide, tall                                                   int
	dvals                                                        bool // mostly dictionary keys and zero values
}

type kvGen struct {
	*kvRun
	p    profile
	pool [][]byte
	vals [][]byte
	cnt  int
	// how many keys the wide operations of this history have
	nwide int
	// how many more large things (operations at once, lists of keys) there may be
	large int
}

var nasty = []byte{0, 1, 'c', 'd', 'd', 'e', 0x7f, 0xfe, 0xff, 0xff}

func randKey(rnd *rand.Rand) []byte {
	n := 1 + rnd.Intn(4)
	k := make([]byte, n)
	for i := range k {
		k[i] = nasty[rnd.Intn(len(nasty))]
	}
	return k
}

func keyPool(rnd *rand.Rand, n int, dict bool) [][]byte {
	m := map[string]bool{}
	var pool [][]byte
	for len(pool) < n {
		var k []byte
		if len(pool) > 0 && rnd.Intn(3) == 0 {
			// an extension or a neighbour of an earlier key
			k = append([]byte{}, pool[rnd.Intn(len(pool))]...)
			if rnd.Intn(3) == 0 {
				k[len(k)-1]++
			} else {
				k = append(k, nasty[rnd.Intn(len(nasty))])
			}
		} else {
			k = randKey(rnd)
		}
		if dict && rnd.Intn(3) > 0 {
			k = append([]byte{'d'}, k...)
		}
		if rnd.Intn(40) == 0 {
			k = append(k, make([]byte, 100+rnd.Intn(400))...)
		}
		if !m[string(k)] {
			m[string(k)] = true
			pool = append(pool, k)
		}
	}
	return pool
}

func (g *kvGen) key() []byte { return g.pool[g.rnd.Intn(len(g.pool))] }

// probe is a key to look for: mostly one of the pool, or near one.
func (g *kvGen) probe() []byte {
	k := append([]byte{}, g.key()...)
	switch g.rnd.Intn(6) {
	case 0:
		return k[:g.rnd.Intn(len(k)+1)]
	case 1:
		return append(k, nasty[g.rnd.Intn(len(nasty))])
	case 2:
		return randKey(g.rnd)
	case 3:
		k[len(k)-1]++
		return k
	}
	return k
}

func (g *kvGen) val() []byte {
	g.cnt++
	if g.p.dvals && g.rnd.Intn(2) == 0 {
		return []byte{0}
	}
	if g.rnd.Intn(25) == 0 {
		return long(fmt.Sprint("v", g.cnt), g.rnd.Intn(1<<uint(4+g.rnd.Intn(15))))
	}
	switch g.rnd.Intn(9) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		// above badger's value threshold
		return []byte(fmt.Sprintf("%063d", g.cnt))
	case 4:
		b := make([]byte, g.rnd.Intn(5))
		g.rnd.Read(b)
		return b
	}
	return []byte(fmt.Sprint("v", g.cnt))
}

func pick(rnd *rand.Rand, ids []int) int {
	sort.Ints(ids)
	return ids[rnd.Intn(len(ids))]
}

func (g *kvGen) anyBatch() int {
	var ids []int
	for id := range g.ba {
		ids = append(ids, id)
	}
	if len(ids) == 0 || (len(ids) < 3 && g.rnd.Intn(8) == 0) {
		return g.newBatch(g.rnd.Intn(2) == 0)
	}
	return pick(g.rnd, ids)
}

func (g *kvGen) anyReader() int {
	var ids []int
	for id := range g.rd {
		ids = append(ids, id)
	}
	if len(ids) == 0 {
		return g.reader()
	}
	return pick(g.rnd, ids)
}

func (g *kvGen) step() {
	p := g.p
	w := []int{p.set, p.del, p.merge, p.reset, p.exec, p.look, p.foreign, p.poison, p.odd,
		p.reader, p.creader, p.get, p.mget, p.held, p.scan, p.piter, p.riter, p.iterOp, p.compact, p.reopen, p.wide, p.tall}
	tot := 0
	for _, x := range w {
		tot += x
	}
	n := g.rnd.Intn(tot)
	op := 0
	for n >= w[op] {
		n -= w[op]
		op++
	}
	switch op {
	case 0:
		b, k := g.anyBatch(), g.key()
		if !g.ba[b].merge[string(k)] {
			g.set(b, k, g.val())
		}
	case 1:
		b, k := g.anyBatch(), g.key()
		if !g.ba[b].merge[string(k)] {
			g.del(b, k)
		}
	case 2:
		b, k := g.anyBatch(), g.key()
		if !g.ba[b].plain[string(k)] {
			g.cnt++
			o := []byte(fmt.Sprint("m", g.cnt))
			if g.rnd.Intn(8) == 0 {
				o = []byte{}
			} else if g.rnd.Intn(30) == 0 {
				o = long(string(o), g.rnd.Intn(1<<uint(4+g.rnd.Intn(12))))
			} else if g.rnd.Intn(4) == 0 {
				o = append([]byte{'!'}, o...)
			}
			g.merge(b, k, o)
		}
	case 3:
		g.reset(g.anyBatch())
	case 4:
		b := g.anyBatch()
		g.room()
		g.exec(b)
		switch g.rnd.Intn(4) {
		case 0:
			g.reset(b)
		case 1, 2:
			g.closeBatch(b)
		}
		if g.rnd.Intn(3) == 0 {
			g.look()
		}
	case 5:
		g.look()
	case 6:
		g.foreign()
		g.look()
	case 7:
		b, k := g.anyBatch(), g.key()
		if !g.ba[b].plain[string(k)] {
			g.merge(b, k, poison)
		}
	case 8:
		b := g.anyBatch()
		t := []string{"set", "del", "merge"}[g.rnd.Intn(3)]
		k := []byte{}
		switch g.rnd.Intn(4) {
		case 0:
			k = []byte("!badger!x")
		case 1:
			k = append([]byte{0xfe}, make([]byte, 33000)...)
		}
		if len(k) > 1000 && (g.p.poison == 0 || t == "merge" || g.rnd.Intn(4) > 0) {
			k = k[:0]
		}
		if t == "merge" && g.ba[b].plain[string(k)] || t != "merge" && g.ba[b].merge[string(k)] {
			return
		}
		g.odd(b, t, k, []byte(fmt.Sprint("o", g.cnt)))
	case 9:
		if len(g.rd) < p.maxReaders {
			g.reader()
		}
	case 10:
		if len(g.rd) > 0 {
			g.closeReader(g.anyReader())
		}
	case 11:
		k := g.probe()
		g.get(g.anyReader(), k, g.rnd.Intn(3) == 0 && len(g.held) < 6)
	case 12:
		var ks [][]byte
		n := g.rnd.Intn(6)
		if g.large > 0 && g.rnd.Intn(12) == 0 {
			g.large--
			n = g.rnd.Intn(1 << uint(3+g.rnd.Intn(9)))
		}
		for i := n; i > 0; i-- {
			k := g.probe()
			if g.rnd.Intn(8) == 0 {
				k = k[:0]
			}
			ks = append(ks, k)
			if g.rnd.Intn(4) == 0 {
				ks = append(ks, k)
			}
		}
		g.mget(g.anyReader(), ks)
	case 13:
		var ids []int
		for h := range g.held {
			ids = append(ids, h)
		}
		if len(ids) > 0 {
			g.lookHeld(pick(g.rnd, ids))
		}
	case 14:
		g.scan(g.anyReader())
	case 15:
		if len(g.it) < p.maxIters {
			pr := g.probe()
			if len(pr) > 0 && g.rnd.Intn(2) == 0 {
				pr = pr[:1+g.rnd.Intn(len(pr))]
			}
			g.piter(g.anyReader(), pr)
		}
	case 16:
		if len(g.it) < p.maxIters {
			var s, e []byte
			if g.rnd.Intn(4) > 0 {
				s = g.probe()
			}
			if g.rnd.Intn(4) > 0 {
				e = g.probe()
				if len(e) == 0 {
					e = nil
				}
			}
			g.riter(g.anyReader(), s, e)
		}
	case 17:
		var ids []int
		for i := range g.it {
			ids = append(ids, i)
		}
		if len(ids) == 0 {
			return
		}
		i := pick(g.rnd, ids)
		switch x := g.rnd.Intn(10); {
		case x < 5:
			g.nextIt(i)
		case x < 9:
			g.seek(i, g.probe())
		default:
			g.closeIter(i)
		}
	case 18:
		n := g.rnd.Intn(5)
		g.compact(n)
		g.look()
	case 19:
		g.reopen()
	case 20:
		b := g.anyBatch()
		g.cnt++
		g.wide(b, g.nwide, g.cnt, g.rnd.Intn(3) == 0)
	case 21:
		if g.large > 0 {
			g.large--
			g.tall()
		}
	}
}

// room: a bolt store waits for its readers before it grows.
func (g *kvGen) room() {
	if g.nwide > 2048 && g.be.Kind == "bolt" {
		g.closeAll()
	}
}

// tall adds many operations at once: merges on one or many keys, or sets and
// deletes of many.
func (g *kvGen) tall() {
	b := g.anyBatch()
	n := g.rnd.Intn(1 << uint(3+g.rnd.Intn(9)))
	keys := [][]byte{g.key()}
	switch g.rnd.Intn(3) {
	case 0:
		keys = append(keys, g.key(), g.key())
	case 1:
		n = g.rnd.Intn(1 << uint(3+g.rnd.Intn(6)))
		for i := 0; i < n; i++ {
			keys = append(keys, append([]byte("t"), byte(i>>8), byte(i)))
		}
	}
	merges := g.p.merge > 0 && g.rnd.Intn(4) > 0
	var os []op3
	for i := 0; i < n; i++ {
		k := keys[g.rnd.Intn(len(keys))]
		if merges && g.ba[b].plain[string(k)] || !merges && g.ba[b].merge[string(k)] {
			continue
		}
		v := []byte(fmt.Sprint(i))
		if i > 0 && g.rnd.Intn(100) == 0 {
			v = append([]byte{'!'}, v...)
		}
		switch {
		case merges:
			os = append(os, op3{"merge", k, v})
		case g.rnd.Intn(4) == 0:
			os = append(os, op3{"del", k, nil})
		default:
			os = append(os, op3{"set", k, v})
		}
	}
	g.ops(b, os)
	if g.rnd.Intn(2) == 0 {
		g.room()
		g.exec(b)
		g.closeBatch(b)
		if g.rnd.Intn(2) == 0 {
			g.look()
		}
	}
}

func kvHistory(be *Backend, t *Trace, seed int64, p profile) {
	rnd := rand.New(rand.NewSource(seed))
	r := newKVRun(be, t, rnd, rnd.Intn(4))
	r.owned = p.owned
	n := p.keys
	if n == 0 {
		n = 12
	}
	g := &kvGen{kvRun: r, p: p, pool: keyPool(rnd, n, p.dvals), nwide: 1 + rnd.Intn(1<<uint(3+rnd.Intn(9))), large: 2}
	if rnd.Intn(10) == 0 {
		g.nwide = 1 + rnd.Intn(1<<uint(11+rnd.Intn(4)))
	}
	if p.maxReaders > 4 && rnd.Intn(6) == 0 {
		// many at a time
		g.p.maxReaders, g.p.maxIters, g.p.creader = 200, 100, 0
		g.p.reader *= 3
	}
	for len(t.Ev) < p.len {
		before := len(t.Ev)
		for i := 0; i < 50 && len(t.Ev) == before; i++ {
			g.step()
		}
	}
	if p.bulk > 0 {
		g.bulk(p.bulk == 2)
	}
	g.finish()
}

// bulk executes a batch near or above what one engine transaction can hold.
func (g *kvGen) bulk(refused bool) {
	g.closeAll()
	b := g.newBatch(false)
	g.set(b, g.pool[0], []byte("before"))
	n := 20000 + g.rnd.Intn(200000)
	g.bulkOps(b, n, "bulk", false)
	g.tr.add(Ev{"op": "odd", "b": b, "t": "set", "k": ints([]byte(bulkPrefix)), "v": hx(bulkValue(n, 0, "bulk"))})
	g.set(b, g.pool[1], []byte("after"))
	if refused {
		// nothing of all that may remain
		g.odd(b, "set", []byte{}, []byte("odd"))
	}
	g.exec(b)
	g.look()
	b = g.newBatch(false)
	g.set(b, g.pool[2], []byte("later"))
	g.exec(b)
	g.look()
}
