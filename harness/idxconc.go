package main

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

// obj is an object some goroutine is going to index.
type obj struct {
	n        int
	x        *ix
	id       []byte
	gd       *geodata.GeoData
	lat, lng float64
	ns       int64
	cover    []s2.CellID
}

// idxConc indexes and queries from several goroutines, through index values
// they share or have of their own, and records calls and returns.
func idxConc(be *Backend, t *Trace, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	r := &ixRun{p: idxProfile{kinds: []string{"flat", "point", "time"}, many: true}, be: be, tr: &Trace{}, rnd: rnd, side: rand.New(rand.NewSource(rnd.Int63())), held: map[int][]index.GeoID{}}
	r.dir = tmpDir()
	r.openStore()
	r.setup()
	if rnd.Intn(3) == 0 {
		r.st = &slowStore{r.st}
	}
	r.adv = newAdv(r.st)
	for _, x := range r.xs {
		r.direct(x)
		t.add(Ev{"op": "open", "x": x.name, "kind": x.kind})
	}
	n := 0
	var stop int32
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					if s, ok := x.(harnessError); ok {
						panic(s)
					}
					if atomic.SwapInt32(&stop, 1) == 0 {
						t.add(Ev{"op": "panic", "msg": fmt.Sprint(x), "stack": string(debug.Stack())})
					}
				}
			}()
			f()
		}()
	}
	cells := map[*ix][]s2.CellID{}
	times := []int64{}
	for round := 0; round < 4 && stop == 0; round++ {
		writers := 2 + rnd.Intn(3)
		var todo [][]*obj
		var big []*obj
		for i := 0; i < writers; i++ {
			var os []*obj
			for k := 1 + rnd.Intn(3); k > 0; k-- {
				n++
				o := r.obj(n)
				os = append(os, o)
				if rnd.Intn(5) == 0 && i > 0 && len(todo[0]) > 0 {
					// a geometry another goroutine indexes too
					p := todo[0][rnd.Intn(len(todo[0]))]
					if (p.x.kind == "point") == (o.x.kind == "point") && p.x.level == o.x.level {
						o.gd, o.lat, o.lng, o.cover = p.gd, p.lat, p.lng, p.cover
					}
				}
				if len(o.cover) > 40 {
					big = append(big, o)
				}
				cells[o.x] = append(cells[o.x], o.cover...)
				times = append(times, o.ns)
			}
			todo = append(todo, os)
		}
		left := int32(writers)
		for i := 0; i < writers; i++ {
			i, rnd, os := i, rand.New(rand.NewSource(seed*31+int64(i*10+round))), todo[i]
			run(func() {
				defer atomic.AddInt32(&left, -1)
				q := r.asker(t, i+1, rnd, cells, times, big)
				for _, o := range os {
					if atomic.LoadInt32(&stop) != 0 {
						return
					}
					x := o.x
					if rnd.Intn(3) == 0 {
						x = r.direct(&ix{name: x.name, kind: x.kind, level: x.level, prefix: x.prefix})
					}
					e := Ev{"op": "call", "t": i + 1, "n": o.n, "x": x.name, "id": hx(o.id), "time": limbs(o.ns), "cover": paths(o.cover)}
					id := append([]byte{}, o.id...)
					tm := time.Unix(0, o.ns)
					t.add(e)
					var err error
					switch {
					case x.kind == "flat":
						err = x.flat.GeoIndex(o.gd, id)
					case x.kind == "time":
						err = x.tm.GeoTimeIndex(o.gd, tm, id)
					case o.gd != nil && rnd.Intn(2) == 0:
						_, err = x.pt.GeoPointIndex(o.gd, id)
					default:
						_, err = x.pt.PointIndex(o.lat, o.lng, id)
					}
					t.add(Ev{"op": "ret", "t": i + 1, "ok": err == nil, "err": fmt.Sprint(err)})
					for k := range id {
						id[k] = 0xEE
					}
					if rnd.Intn(3) == 0 {
						q(r.xs)
					}
					pause(rnd)
				}
			})
		}
		for i := 0; i < 1+rnd.Intn(3); i++ {
			th, rnd := 6+i, rand.New(rand.NewSource(seed*37+int64(i*10+round)))
			run(func() {
				q := r.asker(t, th, rnd, cells, times, big)
				for n := 0; n < 14 && atomic.LoadInt32(&left) > 0 && atomic.LoadInt32(&stop) == 0; n++ {
					q(r.xs)
					if rnd.Intn(3) == 0 {
						pause(rnd)
					}
				}
			})
		}
		wg.Wait()
	}
	if stop == 0 {
		// everything, while nothing runs
		for _, x := range r.xs {
			seen := map[s2.CellID]bool{}
			for _, c := range cells[x] {
				if !seen[c] && len(seen) < 25 {
					seen[c] = true
					r.ask(t, 1, x, "one", []s2.CellID{c}, maxTime, minTime)
				}
			}
			r.ask(t, 1, x, "all", nil, maxTime, minTime)
		}
	}
	// calls come with their answers
	call := map[int]Ev{}
	for _, e := range t.Ev {
		th, _ := e["t"].(int)
		switch e["op"] {
		case "qcall":
			call[th] = e
			e["ids"] = []string{}
		case "qret":
			c := call[th]
			c["ids"] = e["ids"]
			for _, k := range []string{"x", "what", "cs", "from", "to"} {
				e[k] = c[k]
			}
		}
	}
	err := r.st.Close()
	t.add(Ev{"op": "close", "ok": err == nil})
	rmDir(r.dir)
}

const (
	maxTime = 1<<63 - 1
	minTime = -1 << 63
)

// direct attaches an index to the store itself.
func (r *ixRun) direct(x *ix) *ix {
	p := append([]byte{}, x.prefix...)
	switch x.kind {
	case "flat":
		x.flat = index.NewS2FlatIdx(r.st, p, x.level)
	case "point":
		x.pt = index.NewS2PointIdx(r.st, p)
	case "time":
		x.tm = index.NewS2FlatTimeIdx(r.st, p, x.level)
	}
	return x
}

// obj makes an object of a few cells near the centre.
func (r *ixRun) obj(n int) *obj {
	rnd := r.rnd
	f := newFrame(r.centre, 0)
	spread := 0.7 * r.edge
	if spread > 0.2 {
		spread = 0.2
	}
	o := &obj{n: n, x: r.xs[rnd.Intn(len(r.xs))], id: []byte(fmt.Sprint("o", n)), ns: r.when(&ix{})}
	at := f.unproj(xy{(rnd.Float64()*2 - 1) * spread, (rnd.Float64()*2 - 1) * spread})
	if o.x.kind == "point" {
		o.lat, o.lng = at.latlng()
		o.gd = &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{o.lng, o.lat}}}
		o.cover = []s2.CellID{leaf(o.lat, o.lng)}
		return o
	}
	types := []geodata.Geometry_Type{geodata.Geometry_POINT, geodata.Geometry_POLYGON, geodata.Geometry_POLYGON, geodata.Geometry_LINESTRING}
	size, most := spread*(0.05+rnd.Float64()), 40
	if rnd.Intn(12) == 0 && spread < 0.05 {
		size, most = size*10, 600
	}
	k := newObject(rnd, types[rnd.Intn(len(types))], at, size)
	o.gd = k.gd
	cu, err := (&coverOf{o.x}).Covering(cloneGD(o.gd))
	if err != nil || len(cu) == 0 || len(cu) > most {
		lat, lng := at.latlng()
		o.gd = &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{lng, lat}}}
		cu = s2.CellUnion{leaf(lat, lng).Parent(o.x.level)}
	}
	r.far = r.far || most > 40
	o.cover = cu
	return o
}

// asker makes the function with which a goroutine asks something.
func (r *ixRun) asker(t *Trace, th int, rnd *rand.Rand, cells map[*ix][]s2.CellID, times []int64, big []*obj) func([]*ix) {
	// the cells are those of the time the goroutine starts
	known := map[*ix][]s2.CellID{}
	for x, cs := range cells {
		known[x] = append([]s2.CellID{}, cs...)
	}
	when := append([]int64{}, times...)
	return func(xs []*ix) {
		if len(big) > 0 && rnd.Intn(2) == 0 {
			// an entry of an object, then another of the same
			o := big[rnd.Intn(len(big))]
			for _, x := range xs {
				if x.name == o.x.name {
					for _, i := range []int{rnd.Intn(3), len(o.cover) - 1 - rnd.Intn(3)} {
						r.ask(t, th, x, "one", o.cover[i:i+1:i+1], maxTime, minTime)
					}
					return
				}
			}
		}
		x := xs[rnd.Intn(len(xs))]
		from, to := int64(maxTime), int64(minTime)
		if x.kind == "time" && rnd.Intn(2) == 0 {
			from = when[rnd.Intn(len(when))]
			if rnd.Intn(2) == 0 {
				to = when[rnd.Intn(len(when))]
			}
		}
		some := func() s2.CellID {
			if len(known[x]) == 0 {
				if x.kind == "point" {
					return leafOf(r.centre)
				}
				return leafOf(r.centre).Parent(x.level)
			}
			c := known[x][rnd.Intn(len(known[x]))]
			if x.kind == "point" && rnd.Intn(4) > 0 {
				c = c.Parent(rnd.Intn(31))
			}
			return c
		}
		switch rnd.Intn(6) {
		case 0:
			if r.edge < 0.2 {
				r.ask(t, th, x, "all", nil, from, to)
			}
		case 1:
			var cs []s2.CellID
			for i := rnd.Intn(4); i >= 0; i-- {
				cs = append(cs, some())
			}
			r.ask(t, th, x, "many", cs, from, to)
		default:
			r.ask(t, th, x, "one", []s2.CellID{some()}, from, to)
		}
	}
}

func (r *ixRun) ask(t *Trace, th int, x *ix, what string, cs []s2.CellID, from, to int64) {
	if what == "all" && (r.edge >= 0.2 || r.far) {
		return
	}
	lat, lng := r.centre.latlng()
	// all objects are within
	radius := 3 * r.edge * earth
	tf, tt := time.Unix(0, from), time.Unix(0, to)
	t.add(Ev{"op": "qcall", "t": th, "x": x.name, "what": what, "cs": paths(cs), "from": limbs(from), "to": limbs(to)})
	var ids []index.GeoID
	var err error
	switch x.kind + what {
	case "flatone":
		ids, err = x.flat.GeoIdsAtCell(cs[0])
	case "flatmany":
		ids, err = x.flat.GeoIdsAtCells(cs)
	case "flatall":
		ids, err = x.flat.GeoIdsRadiusQuery(lat, lng, radius)
	case "pointone":
		ids, err = x.pt.GeoIdsAtCell(cs[0])
	case "pointmany":
		ids, err = x.pt.GeoIdsAtCells(cs)
	case "pointall":
		ids, err = x.pt.GeoIdsRadiusQuery(lat, lng, radius)
	case "timeone":
		ids, err = x.tm.GeoTimeIdsAtCell(cs[0], tf, tt)
	case "timemany":
		ids, err = x.tm.GeoTimeIdsAtCells(cs, tf, tt)
	case "timeall":
		ids, err = x.tm.GeoTimeIdsRadiusQuery(tf, tt, lat, lng, radius)
	}
	t.add(Ev{"op": "qret", "t": th, "ids": hexIDs(ids), "ok": err == nil, "err": fmt.Sprint(err)})
}

// slowStore takes a while before and after a batch is executed.
type slowStore struct{ store.KVStore }

type slowWriter struct{ store.KVWriter }

func (s *slowStore) Writer() (store.KVWriter, error) {
	w, err := s.KVStore.Writer()
	if err != nil {
		return nil, err
	}
	return &slowWriter{w}, nil
}

func (w *slowWriter) ExecuteBatch(b store.KVBatch) error {
	time.Sleep(200 * time.Microsecond)
	err := w.KVWriter.ExecuteBatch(b)
	time.Sleep(400 * time.Microsecond)
	return err
}

func init() {
	drivers["C29"] = func(seed int64, thorough bool) []scenario {
		var sc []scenario
		n := 40
		if thorough {
			n = 800
		}
		for i := 0; i < n; i++ {
			for j, be := range idxBackends {
				be := be
				s := seed*1000003 + int64(i)*101 + int64(j)
				sc = append(sc, scenario{fmt.Sprintf("C29/%s/%d", be.Name, s), func(t *Trace) { idxConc(be, t, s) }})
			}
		}
		return sc
	}
}
