package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
)

// idxProfile weights the calls of a random history of indexes.
type idxProfile struct {
	kinds                                       []string
	many                                        bool // several indexes and data in one store
	len                                         int
	index, atcell, atcells, region, held, close int
	put, data, junk                             int
	large                                       int // percentage of objects of hundreds of cells
	qfault, ifault, bad                         int // percentages
	back                                        []string
	far                                         int  // one in this many beyond 180 degrees
	vast                                        bool // some queries of thousands of cells
	twin                                        int  // percentage of steps before which another value of an index is taken
}

type ix struct {
	name, kind string
	level      int
	prefix     []byte
	flat       *index.S2FlatIdx
	pt         *index.S2PointIdx
	tm         *index.S2FlatTimeIdx
	twins      []handle // other values of the same index
	cells      []s2.CellID
	labels     []int
	times      []int64
	pts        [][2]float64 // lat, lng of indexed points
	leaves     []s2.CellID
}

type handle struct {
	flat *index.S2FlatIdx
	pt   *index.S2PointIdx
	tm   *index.S2FlatTimeIdx
}

type ixRun struct {
	p      idxProfile
	be     *Backend
	dir    string
	st     store.KVStore
	adv    *advStore
	tr     *Trace
	rnd    *rand.Rand
	side   *rand.Rand // decides what must not disturb the rest
	xs     []*ix
	smp    []vec
	held   map[int][]index.GeoID
	next   int
	global bool
	vast   bool
	centre vec
	edge   float64
	far    bool // some objects are not near the centre as a whole
	ids    [][]byte
	data   [][]byte
	crowds int
	over   bool // the rest of the history is of no use
}

func (r *ixRun) id() int { r.next++; return r.next }

func limbs(t int64) []int {
	u := uint64(t) + 1<<63
	return []int{int(u >> 48), int(u >> 32 & 0xffff), int(u >> 16 & 0xffff), int(u & 0xffff)}
}

func hexIDs(ids []index.GeoID) []string {
	r := []string{}
	for _, id := range ids {
		r = append(r, hexv(id))
	}
	return r
}

// spare is a copy of b with guarded spare capacity behind it.
func spare(b []byte) []byte {
	c := make([]byte, len(b)+16)
	copy(c, b)
	for i := len(b); i < len(c); i++ {
		c[i] = 0x5A
	}
	return c[:len(b)]
}

func intact(c, b []byte) bool {
	if !bytes.Equal(c, b) {
		return false
	}
	for _, x := range c[len(c):cap(c)] {
		if x != 0x5A {
			return false
		}
	}
	return true
}

func idxHistory(be *Backend, t *Trace, seed int64, p idxProfile) {
	rnd := rand.New(rand.NewSource(seed))
	r := &ixRun{p: p, be: be, tr: t, rnd: rnd, side: rand.New(rand.NewSource(seed ^ 0x5eed)), held: map[int][]index.GeoID{}}
	r.dir = tmpDir()
	r.openStore()
	r.setup()
	if p.len == 0 {
		p.len = 70
	}
	for i := 0; i < p.len && !r.over; i++ {
		r.step()
	}
	if r.over {
		r.closeStore()
		rmDir(r.dir)
		return
	}
	for _, h := range sortedKeys(r.held) {
		r.look(h)
	}
	r.queryAll()
	for _, k := range r.data {
		r.getData(k)
	}
	r.closeStore()
	for _, h := range sortedKeys(r.held) {
		r.look(h)
	}
	rmDir(r.dir)
}

func (r *ixRun) openStore() {
	st, err := r.be.open(r.dir, &mergeOp{})
	mustReal(err)
	r.st = st
	r.adv = newAdv(st)
	for _, x := range r.xs {
		x.twins = nil
		r.attach(x)
	}
}

// twin uses another value of the index than before, an old or a new one: all an
// index knows is in its store.
func (r *ixRun) twin(x *ix) {
	old := handle{x.flat, x.pt, x.tm}
	if len(x.twins) < 3 && r.side.Intn(5) == 0 {
		x.twins = append(x.twins, old)
		r.attach(x)
		r.tr.add(Ev{"op": "twin", "x": x.name})
	} else if len(x.twins) > 0 {
		i := r.side.Intn(len(x.twins))
		x.flat, x.pt, x.tm = x.twins[i].flat, x.twins[i].pt, x.twins[i].tm
		x.twins[i] = old
	}
}

// compact compacts the store under the indexes, now and then.
func (r *ixRun) compact() bool {
	c, ok := r.st.(compacter)
	if !ok || r.rnd.Intn(2) == 0 {
		return false
	}
	var err error
	if n := r.rnd.Intn(4); n == 0 {
		err = c.Compact()
	} else {
		err = c.CompactWithBatchSize(n)
	}
	r.tr.add(Ev{"op": "compact", "ok": err == nil})
	return true
}

func (r *ixRun) closeStore() {
	err := r.st.Close()
	r.tr.add(Ev{"op": "close", "ok": err == nil})
}

func (r *ixRun) attach(x *ix) {
	p := spare(x.prefix)
	switch x.kind {
	case "flat":
		x.flat = index.NewS2FlatIdx(r.adv, p, x.level)
	case "point":
		x.pt = index.NewS2PointIdx(r.adv, p)
	case "time":
		x.tm = index.NewS2FlatTimeIdx(r.adv, p, x.level)
	}
	// the prefix is the caller's again
	for i := range p {
		p[i] = 0xEE
	}
}

func hasPrefix(a, b []byte) bool { return bytes.HasPrefix(a, b) || bytes.HasPrefix(b, a) }

func (r *ixRun) setup() {
	rnd := r.rnd
	r.global = rnd.Intn(4) == 0
	level := 4 + rnd.Intn(13)
	if r.global {
		level = rnd.Intn(5)
	} else if rnd.Intn(4) == 0 {
		// down to cells of a few centimetres
		level = 17 + rnd.Intn(14)
		if rnd.Intn(3) == 0 {
			level = 30
		}
		if r.p.region > 0 {
			level = 17 + rnd.Intn(6)
		}
	}
	if r.p.vast && rnd.Intn(14) == 0 && (r.be.Kind == "gtreap" || r.be.Kind == "bolt") {
		// queries of thousands of cells
		r.global, r.vast = false, true
		level = 9 + rnd.Intn(10)
	}
	r.edge = math.Pi / 2 / float64(int(1)<<uint(level))
	r.centre = place(rnd)
	n := 1
	if r.p.many {
		n = 2 + rnd.Intn(3)
	}
	for i := 0; i < n; i++ {
		x := &ix{name: fmt.Sprint("x", i), kind: r.p.kinds[rnd.Intn(len(r.p.kinds))], level: level}
		if r.p.many && rnd.Intn(3) == 0 {
			x.level = level + rnd.Intn(3) - 1
			if x.level < 0 {
				x.level = 0
			}
			if x.level > 30 {
				x.level = 30
			}
		}
	again:
		x.prefix = make([]byte, rnd.Intn(4))
		if rnd.Intn(3) == 0 {
			x.prefix = make([]byte, 4+rnd.Intn(rnd.Intn(90)+1))
		}
		for j := range x.prefix {
			x.prefix[j] = nasty[rnd.Intn(len(nasty))]
		}
		if len(x.prefix) == 0 && n > 1 {
			goto again
		}
		if i > 0 && rnd.Intn(2) == 0 {
			// a neighbour of another prefix
			x.prefix = append([]byte{}, r.xs[i-1].prefix...)
			x.prefix[len(x.prefix)-1] += byte(1 + 254*rnd.Intn(2))
		}
		for _, y := range r.xs {
			if hasPrefix(x.prefix, y.prefix) {
				goto again
			}
		}
		r.xs = append(r.xs, x)
		r.attach(x)
		lv := x.level
		if x.kind == "point" {
			lv = 30
		}
		r.tr.add(Ev{"op": "open", "x": x.name, "kind": x.kind, "level": lv, "prefix": ints(x.prefix)})
	}
	r.ids = [][]byte{[]byte("a"), []byte("ab"), {0}, {0xff, 0xff}, []byte("user/1"), make([]byte, 40), {0, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}}
	for i := 0; i < 12; i++ {
		r.ids = append(r.ids, []byte(fmt.Sprint("id", i)))
	}
	if r.side.Intn(4) == 0 {
		l := make([]byte, r.side.Intn(1<<uint(6+r.side.Intn(8))))
		r.side.Read(l)
		r.ids = append(r.ids, append([]byte("l"), l...), append([]byte("l"), append(l, 0)...))
	}
	if r.side.Intn(4) == 0 {
		r.crowds = 1
	}
}

func (r *ixRun) somewhere() vec {
	if r.global {
		return place(r.rnd)
	}
	f := newFrame(r.centre, 0)
	spread := 2 * r.edge
	if r.vast {
		spread = 40 * r.edge
	}
	v := f.unproj(xy{r.rnd.NormFloat64() * spread, r.rnd.NormFloat64() * spread})
	if r.rnd.Intn(6) == 0 {
		// the first or the last leaf of a cell: ids full of zeros and ones
		if l := leafOf(v); l.IsValid() {
			c := l.Parent(30 - r.rnd.Intn(12))
			if r.rnd.Intn(2) == 0 {
				return vecOfPoint(c.RangeMax().Point())
			}
			return vecOfPoint(c.RangeMin().Point())
		}
	}
	return v
}

var bases = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1500000000000000000, -1500000000000000000, 1 << 40, 255, 256, -256}

func (r *ixRun) when(x *ix) int64 {
	switch r.rnd.Intn(4) {
	case 0:
		return bases[r.rnd.Intn(len(bases))]
	case 1:
		if len(x.times) > 0 {
			return x.times[r.rnd.Intn(len(x.times))] + int64(r.rnd.Intn(3)-1)
		}
	case 2:
		if len(x.times) > 0 {
			return x.times[r.rnd.Intn(len(x.times))]
		}
	}
	return 1500000000000000000 + int64(r.rnd.Intn(7))*int64(time.Second)
}

var zones = []*time.Location{time.UTC, time.FixedZone("e", 5*3600), time.FixedZone("w", -9*3600)}

func (r *ixRun) timeOf(ns int64) time.Time {
	t := time.Unix(0, ns)
	if ns != math.MinInt64 && ns != math.MaxInt64 {
		t = t.In(zones[r.rnd.Intn(3)])
	}
	return t
}

var badGeoms = []func() *geodata.GeoData{
	func() *geodata.GeoData { return &geodata.GeoData{} },
	func() *geodata.GeoData { return nil },
	func() *geodata.GeoData { return &geodata.GeoData{Geometry: &geodata.Geometry{}} },
	func() *geodata.GeoData {
		return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: []float64{1, 2, 3, 4}}}
	},
	func() *geodata.GeoData {
		return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_LINESTRING, Coordinates: []float64{1, 2, 3}}}
	},
	func() *geodata.GeoData {
		return &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_Type(9), Coordinates: []float64{1, 2}}}
	},
}

func cloneGD(gd *geodata.GeoData) *geodata.GeoData {
	if gd == nil {
		return nil
	}
	return proto.Clone(gd).(*geodata.GeoData)
}

func (r *ixRun) doIndex() {
	rnd := r.rnd
	x := r.xs[rnd.Intn(len(r.xs))]
	id := r.ids[rnd.Intn(len(r.ids))]
	bad := rnd.Intn(100) < r.p.bad
	if bad && rnd.Intn(3) == 0 {
		bad = false
		id = nil
	}
	var fault string
	if rnd.Intn(100) < r.p.ifault {
		fault = []string{"writer", "exec", "exec", "batch.close", "newbatchex"}[rnd.Intn(5)]
	}
	nth := 1
	if fault == "exec" && rnd.Intn(2) == 0 {
		// the later executions of code that splits a cover
		nth += 1 + rnd.Intn(3)
	}
	e := Ev{"op": "index", "x": x.name, "id": hexv(id), "t": []int{}, "bad": bad, "fault": "no"}
	idb := spare(id)
	far := false
	var err error
	if x.kind == "point" {
		lat, lng := r.position(x).latlng()
		if far = r.p.far > 0 && !bad && rnd.Intn(r.p.far) == 0; far {
			lng += 360 * float64(1-2*rnd.Intn(2))
		}
		if rnd.Intn(12) == 0 {
			lng = 180 * float64(1-2*rnd.Intn(2))
		}
		c := leaf(lat, lng)
		viaGD := bad || rnd.Intn(2) == 0
		var gd *geodata.GeoData
		if viaGD {
			gd = &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{lng, lat}}}
			if bad {
				gd = badGeoms[rnd.Intn(len(badGeoms))]()
				e["cover"] = [][]int{}
			}
		}
		roomy(gd)
		before := cloneGD(gd)
		r.adv.arm(fault, nth)
		if viaGD {
			_, err = x.pt.GeoPointIndex(gd, idb)
		} else {
			_, err = x.pt.PointIndex(lat, lng, idb)
		}
		e["same"] = intact(idb, id) && proto.Equal(gd, before) && (gd == nil || unspent(gd))
		e["cover"], e["must"], e["pts"] = [][]int{path(c)}, [][]int{}, []int{}
		if err == nil {
			x.pts = append(x.pts, [2]float64{lat, lng})
			x.leaves = append(x.leaves, c)
		}
	} else {
		types := []geodata.Geometry_Type{geodata.Geometry_POINT, geodata.Geometry_POLYGON, geodata.Geometry_POLYGON, geodata.Geometry_LINESTRING, geodata.Geometry_MULTIPOLYGON}
		size := r.edge * math.Exp(rnd.Float64()*5-3.8)
		if r.p.large > 0 && rnd.Intn(100) < r.p.large {
			size = r.edge * (3 + rnd.Float64()*9)
			if rnd.Intn(4) == 0 {
				// a thousand cells
				size *= 3
			}
		}
		if r.global && size > 0.6 {
			size = 0.6
		}
		o := newObject(rnd, types[rnd.Intn(len(types))], r.somewhere(), size)
		o.samplePoints(rnd, 2)
		if bad {
			o = &object{gd: badGeoms[rnd.Intn(len(badGeoms))]()}
		}
		far = r.p.far > 0 && !bad && rnd.Intn(r.p.far) == 0
		if far {
			turn(o.gd.Geometry, rnd)
		}
		var cu s2.CellUnion
		if !bad {
			cu, _ = (&coverOf{x}).Covering(cloneGD(o.gd))
		}
		for _, c := range cu {
			// the specification ends here: cells of another level may be very many
			if c.Level() != x.level {
				cu, r.over = s2.CellUnion{c}, true
				break
			}
		}
		if len(cu) > 100 && r.p.ifault > 0 && rnd.Intn(2) == 0 {
			// the first, second, ... part of what may be written in parts
			fault, nth = "exec", 1+rnd.Intn(2+len(cu)/100)
		}
		roomy(o.gd)
		before := cloneGD(o.gd)
		ns := r.when(x)
		r.adv.arm(fault, nth)
		if x.kind == "flat" {
			err = x.flat.GeoIndex(o.gd, idb)
		} else {
			err = x.tm.GeoTimeIndex(o.gd, r.timeOf(ns), idb)
			e["t"] = limbs(ns)
		}
		e["same"] = intact(idb, id) && (o.gd == nil || proto.Equal(o.gd, before) && unspent(o.gd))
		must, lab := [][]int{}, []int{}
		for _, v := range o.samples {
			m := map[s2.CellID]bool{}
			var c s2.CellID
			for _, l := range nudged(v) {
				c = l.Parent(x.level)
				m[c] = true
			}
			if len(m) == 1 {
				must = append(must, path(c))
			}
			r.smp = append(r.smp, v)
			lab = append(lab, len(r.smp)-1)
		}
		e["cover"], e["must"], e["pts"] = paths(cu), must, lab
		if err == nil {
			x.cells = append(x.cells, cu...)
			x.labels = append(x.labels, lab...)
			x.times = append(x.times, ns)
		}
		// the geometry is the caller's again
		if o.gd != nil && o.gd.Geometry != nil {
			for i := range o.gd.Geometry.Coordinates {
				o.gd.Geometry.Coordinates[i] = 0
			}
		}
	}
	for i := range idb {
		idb[i] = 0xEE
	}
	e["fault"] = r.adv.fault()
	if e["fault"] == "may" {
		e["fault"] = "no"
	}
	r.adv.arm("", 0)
	e["ok"] = err == nil
	if far && err != nil && e["fault"] == "no" {
		// longitudes beyond 180 degrees may be refused
		e = Ev{"op": "refused", "x": x.name, "same": e["same"]}
	}
	r.tr.add(e)
	if err != nil && x.kind != "point" && rnd.Intn(2) == 0 {
		// what failed left nothing behind
		if c, _ := e["cover"].([][]int); len(c) > 0 {
			r.everAt(x, cellOf(c[0]))
			r.everAt(x, cellOf(c[len(c)-1]))
			r.everAt(x, cellOf(c[rnd.Intn(len(c))]))
		}
	}
}

// crowd indexes many points at one place.
func (r *ixRun) crowd() {
	rnd := r.rnd
	x := r.xs[rnd.Intn(len(r.xs))]
	lat, lng := r.position(x).latlng()
	n := 1 + rnd.Intn(1<<uint(4+rnd.Intn(7)))
	if rnd.Intn(4) == 0 {
		n = 500 + rnd.Intn(900)
	}
	c := leaf(lat, lng)
	if x.kind != "point" {
		c = c.Parent(x.level)
	}
	e := Ev{"op": "crowd", "x": x.name, "cover": [][]int{path(c)}, "pts": []int{}}
	var times []int64
	for i := 0; i < 4; i++ {
		times = append(times, r.when(x))
	}
	pre := fmt.Sprint("c", rnd.Intn(100), "/")
	ids, ts, ok, same := []string{}, [][]int{}, true, true
	for i := 0; i < n; i++ {
		id := []byte(fmt.Sprint(pre, i))
		idb := append([]byte{}, id...)
		gd := &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{lng, lat}}}
		t := []int{}
		var err error
		switch x.kind {
		case "flat":
			err = x.flat.GeoIndex(gd, idb)
		case "point":
			if i%2 == 0 {
				_, err = x.pt.PointIndex(lat, lng, idb)
			} else {
				_, err = x.pt.GeoPointIndex(gd, idb)
			}
		case "time":
			ns := times[rnd.Intn(4)]
			err = x.tm.GeoTimeIndex(gd, r.timeOf(ns), idb)
			t = limbs(ns)
		}
		ok = ok && err == nil
		same = same && bytes.Equal(id, idb) && len(gd.Geometry.Coordinates) == 2 && gd.Geometry.Coordinates[0] == lng && gd.Geometry.Coordinates[1] == lat
		ids, ts = append(ids, hexv(id)), append(ts, t)
		if i%100 == 0 {
			r.tr.alive()
		}
	}
	if x.kind == "point" {
		x.pts = append(x.pts, [2]float64{lat, lng})
		x.leaves = append(x.leaves, c)
	} else {
		r.smp = append(r.smp, vecOf(lat, lng))
		lab := len(r.smp) - 1
		e["pts"] = []int{lab}
		x.cells, x.labels, x.times = append(x.cells, c), append(x.labels, lab), append(x.times, times...)
	}
	e["ids"], e["ts"], e["ok"], e["same"] = ids, ts, ok, same
	r.tr.add(e)
	if r.p.atcell > 0 {
		r.atCell(x, c, false)
	}
}

// turn gives the longitudes of a geometry beyond 180 degrees: a turn more or less.
func turn(g *geodata.Geometry, rnd *rand.Rand) {
	by := 360 * float64(1-2*rnd.Intn(2))
	for _, h := range append([]*geodata.Geometry{g}, g.Geometries...) {
		for i := 0; i < len(h.Coordinates); i += 2 {
			h.Coordinates[i] += by
		}
	}
}

// roomy lets the coordinates of a geometry have spare capacity, with numbers of the caller behind them.
func roomy(gd *geodata.GeoData) {
	if gd == nil || gd.Geometry == nil {
		return
	}
	for _, h := range append([]*geodata.Geometry{gd.Geometry}, gd.Geometry.Geometries...) {
		if h == nil || h.Coordinates == nil {
			continue
		}
		c := append(append([]float64{}, h.Coordinates...), 7, 7, 7, 7, 7, 7)
		h.Coordinates = c[:len(h.Coordinates):len(c)]
	}
}

// unspent tells whether what is behind the coordinates is as it was.
func unspent(gd *geodata.GeoData) bool {
	if gd.Geometry == nil {
		return true
	}
	for _, h := range append([]*geodata.Geometry{gd.Geometry}, gd.Geometry.Geometries...) {
		if h == nil || h.Coordinates == nil {
			continue
		}
		for _, v := range h.Coordinates[len(h.Coordinates):cap(h.Coordinates)] {
			if v != 7 {
				return false
			}
		}
	}
	return true
}

type coverOf struct{ x *ix }

func (c *coverOf) Covering(gd *geodata.GeoData) (s2.CellUnion, error) {
	if c.x.kind == "flat" {
		return c.x.flat.Covering(gd)
	}
	return c.x.tm.Covering(gd)
}

// position is where to put a point: near the others, or at the first or last
// leaf of a cell around them.
func (r *ixRun) position(x *ix) vec {
	switch r.rnd.Intn(6) {
	case 5:
		// near the middle of a side of a cell
		v := r.somewhere()
		if c := leafOf(v); c.IsValid() {
			k, cell := r.rnd.Intn(4), s2.CellFromCellID(c.Parent(r.rnd.Intn(16)))
			t := 0.2 + 0.6*r.rnd.Float64()
			v = vecOfPoint(cell.Vertex(k)).mul(t).add(vecOfPoint(cell.Vertex((k + 1) % 4)).mul(1 - t)).norm()
			m := vecOfPoint(cell.Center())
			return v.add(m.add(v.mul(-1)).mul(math.Exp(-r.rnd.Float64() * 9))).norm()
		}
	case 0:
		if len(x.pts) > 0 {
			p := x.pts[r.rnd.Intn(len(x.pts))]
			return vecOf(p[0], p[1])
		}
	case 1, 2:
		c := leafOf(r.somewhere())
		if len(x.leaves) > 0 && r.rnd.Intn(2) == 0 {
			c = x.leaves[r.rnd.Intn(len(x.leaves))]
		}
		c = c.Parent(r.rnd.Intn(31))
		switch r.rnd.Intn(4) {
		case 0:
			c = c.RangeMin()
		case 1:
			c = c.RangeMax()
		case 2:
			c = c.RangeMin().Prev()
		case 3:
			c = c.RangeMax().Next()
		}
		if c.IsValid() {
			return vecOfPoint(c.Point())
		}
	}
	return r.somewhere()
}

func (r *ixRun) someCell(x *ix) s2.CellID {
	rnd := r.rnd
	if x.kind == "point" {
		c := leafOf(r.somewhere())
		if len(x.leaves) > 0 && rnd.Intn(8) > 0 {
			c = x.leaves[rnd.Intn(len(x.leaves))]
		}
		lv := rnd.Intn(31)
		if rnd.Intn(4) == 0 {
			lv = []int{30, 29, 0, 1}[rnd.Intn(4)]
		}
		c = c.Parent(lv)
		switch rnd.Intn(6) {
		case 0:
			if n := c.Next(); n.IsValid() {
				return n
			}
		case 1:
			if n := c.Prev(); n.IsValid() {
				return n
			}
		}
		return c
	}
	if len(x.cells) == 0 {
		return leafOf(r.somewhere()).Parent(x.level)
	}
	c := x.cells[rnd.Intn(len(x.cells))]
	switch rnd.Intn(12) {
	case 0:
		return c.EdgeNeighbors()[rnd.Intn(4)]
	case 1:
		// a cell of another level
		if x.level == 30 || x.level > 0 && rnd.Intn(2) == 0 {
			return c.Parent(rnd.Intn(x.level))
		}
		return c.Children()[rnd.Intn(4)]
	case 2:
		return leafOf(r.somewhere()).Parent(x.level)
	}
	return c
}

func (r *ixRun) window(x *ix) (int64, int64) {
	a, b := r.when(x), r.when(x)
	if a < b && r.rnd.Intn(5) > 0 {
		a, b = b, a
	}
	switch r.rnd.Intn(8) {
	case 0:
		a, b = math.MaxInt64, math.MinInt64
	case 1:
		a, b = index.MaxGeoTime.UnixNano(), index.MinGeoTime.UnixNano()
	}
	return a, b
}

// answer completes the event of a query.
func (r *ixRun) answer(e Ev, x *ix, ids []index.GeoID, err error) {
	e["x"] = x.name
	e["ok"] = err == nil
	e["ids"] = hexIDs(ids)
	e["rel"] = r.adv.released()
	e["fault"] = r.adv.fault()
	e["h"] = 0
	if _, ok := e["from"]; !ok {
		e["from"], e["to"] = []int{}, []int{}
	}
	if err == nil && len(r.held) < 12 && r.rnd.Intn(3) == 0 {
		h := r.id()
		r.held[h] = ids
		e["h"] = h
	}
	r.adv.arm("", 0)
	r.tr.add(e)
}

func (r *ixRun) look(h int) { r.tr.add(Ev{"op": "held", "h": h, "ids": hexIDs(r.held[h])}) }

func (r *ixRun) armQuery(faulty bool) {
	if faulty && r.rnd.Intn(100) < r.p.qfault {
		r.adv.arm([]string{"reader", "reader", "iter.close", "reader.close"}[r.rnd.Intn(4)], 1+r.rnd.Intn(3))
	} else {
		r.adv.arm("", 0)
	}
}

func (r *ixRun) atCell(x *ix, c s2.CellID, faulty bool) {
	r.armQuery(faulty)
	var ids []index.GeoID
	var err error
	e := Ev{"op": "atcell", "c": path(c)}
	switch x.kind {
	case "flat":
		ids, err = x.flat.GeoIdsAtCell(c)
	case "point":
		ids, err = x.pt.GeoIdsAtCell(c)
	case "time":
		from, to := r.window(x)
		e["op"], e["from"], e["to"] = "attime", limbs(from), limbs(to)
		ids, err = x.tm.GeoTimeIdsAtCell(c, r.timeOf(from), r.timeOf(to))
	}
	r.answer(e, x, ids, err)
}

// everAt asks for all the entries of a cell.
func (r *ixRun) everAt(x *ix, c s2.CellID) {
	if x.kind != "time" {
		r.atCell(x, c, false)
		return
	}
	r.armQuery(false)
	ids, err := x.tm.GeoTimeIdsAtCell(c, time.Unix(0, math.MaxInt64), time.Unix(0, math.MinInt64))
	r.answer(Ev{"op": "attime", "c": path(c), "from": limbs(math.MaxInt64), "to": limbs(math.MinInt64)}, x, ids, err)
}

func (r *ixRun) atCells(x *ix) {
	var cs []s2.CellID
	for i := r.rnd.Intn(5); i > 0; i-- {
		c := r.someCell(x)
		cs = append(cs, c)
		if r.rnd.Intn(4) == 0 {
			cs = append(cs, c)
		}
	}
	if r.side.Intn(3) == 0 {
		cs = r.around(x, cs)
	}
	r.armQuery(true)
	var ids []index.GeoID
	var err error
	e := Ev{"op": "atcells", "cs": paths(cs)}
	switch x.kind {
	case "flat":
		ids, err = x.flat.GeoIdsAtCells(cs)
	case "point":
		ids, err = x.pt.GeoIdsAtCells(cs)
	case "time":
		from, to := r.window(x)
		e["from"], e["to"] = limbs(from), limbs(to)
		ids, err = x.tm.GeoTimeIdsAtCells(cs, r.timeOf(from), r.timeOf(to))
	}
	r.answer(e, x, ids, err)
}

// around is the list of these cells and some along the curve, or inside or
// around them, in any order.
func (r *ixRun) around(x *ix, cs []s2.CellID) []s2.CellID {
	rnd := r.side
	var res []s2.CellID
	long := 0
	if rnd.Intn(8) == 0 {
		long = rnd.Intn(1 << uint(4+rnd.Intn(6)))
	}
	add := func(c s2.CellID) {
		if c.IsValid() {
			res = append(res, c)
		}
	}
	for _, c := range cs {
		for n := rnd.Intn(12); n > 0; n-- {
			switch rnd.Intn(6) {
			case 0:
				add(c.Next())
			case 1:
				add(c.Prev())
			case 2:
				add(c.Advance(int64(rnd.Intn(9) - 4)))
			case 3:
				for _, d := range c.EdgeNeighbors() {
					add(d)
				}
				if long > 0 {
					// a stretch of the curve
					for d := c; long > 0 && d.IsValid(); long-- {
						add(d)
						d = d.Next()
					}
				}
			case 4:
				if x.kind == "point" && c.Level() > 0 && c.Level() < 30 {
					add(c.Parent(rnd.Intn(c.Level())))
					add(c.Children()[rnd.Intn(4)])
				} else if len(x.cells) > 0 {
					add(x.cells[rnd.Intn(len(x.cells))])
				}
			}
		}
		res = append(res, c)
	}
	switch rnd.Intn(3) {
	case 0:
		sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	case 1:
		rnd.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	}
	return res
}

// wider is the angle a radius query may reach: 0.2% up to 1000 km.
func wider(radius float64) float64 {
	a := radius / earth
	if radius > 1e6 {
		return math.Pi
	}
	return (radius*math.Max(1+a*a/24*1.1, 1)*1.0000001 + 0.02) / earth
}

func (r *ixRun) region(x *ix) {
	rnd := r.rnd
	isRect := rnd.Intn(2) == 0 && x.kind != "flat"
	at := r.somewhere()
	if x.kind == "point" {
		if len(x.pts) > 0 && rnd.Intn(3) > 0 {
			p := x.pts[rnd.Intn(len(x.pts))]
			at = newFrame(vecOf(p[0], p[1]), 0).unproj(xy{rnd.NormFloat64() * r.edge * 0.3, rnd.NormFloat64() * r.edge * 0.3})
		}
	} else if len(x.labels) > 0 && rnd.Intn(4) > 0 {
		at = newFrame(r.smp[x.labels[rnd.Intn(len(x.labels))]], 0).unproj(xy{rnd.NormFloat64() * r.edge, rnd.NormFloat64() * r.edge})
	}
	lat, lng := at.latlng()
	at = vecOf(lat, lng)
	e := Ev{}
	from, to := r.window(x)
	if x.kind == "time" {
		e["from"], e["to"] = limbs(from), limbs(to)
	}
	var ids []index.GeoID
	var err error
	var inside, maybe func(v vec) bool
	var touches func(c s2.CellID) bool
	if !isRect {
		radius := r.edge * earth * math.Exp(rnd.Float64()*6-4.5)
		if r.vast {
			radius *= 20
		}
		if rnd.Intn(3) == 0 {
			// up to about an indexed position
			var d float64
			if x.kind == "point" && len(x.pts) > 0 {
				p := x.pts[rnd.Intn(len(x.pts))]
				d = at.angle(vecOf(p[0], p[1])) * earth
			} else if len(x.labels) > 0 {
				d = at.angle(r.smp[x.labels[rnd.Intn(len(x.labels))]]) * earth
			}
			d += []float64{0.05, -0.05, d * 0.001, -d * 0.001, d * 0.003}[rnd.Intn(5)]
			if d > 0.1 && (x.kind == "point" || d < 6*r.edge*earth) {
				radius = d
			}
		}
		max := 2.5e6
		if x.kind == "point" {
			max = 5e6
		}
		if radius > max {
			radius = max * rnd.Float64()
		}
		inside = func(v vec) bool { return at.angle(v)*earth <= radius-0.02 }
		maybe = func(v vec) bool { return at.angle(v) <= wider(radius) }
		touches = func(c s2.CellID) bool { return distCell(at, c) <= wider(radius) }
		e["lat"], e["lng"], e["radius"] = fmt.Sprint(lat), fmt.Sprint(lng), fmt.Sprint(radius)
		r.armQuery(true)
		switch x.kind {
		case "flat":
			ids, err = x.flat.GeoIdsRadiusQuery(lat, lng, radius)
		case "point":
			ids, err = x.pt.GeoIdsRadiusQuery(lat, lng, radius)
		case "time":
			ids, err = x.tm.GeoTimeIdsRadiusQuery(r.timeOf(from), r.timeOf(to), lat, lng, radius)
		}
	} else {
		b := r.rect(x, lat, lng)
		inside = func(v vec) bool { la, ln := v.latlng(); return b.has(la, ln, -2e-7) }
		maybe = func(v vec) bool { la, ln := v.latlng(); return b.has(la, ln, 2e-7) }
		touches = b.touches
		e["rect"] = fmt.Sprint(b)
		r.armQuery(true)
		if x.kind == "point" {
			ids, err = x.pt.GeoIdsRectQuery(b.urlat, b.urlng, b.bllat, b.bllng)
		} else {
			ids, err = x.tm.GeoTimeIdsRectQuery(r.timeOf(from), r.timeOf(to), b.urlat, b.urlng, b.bllat, b.bllng)
		}
	}
	if x.kind == "point" {
		e["op"] = "points"
		in, may := [][]int{}, [][]int{}
		seen := map[s2.CellID]bool{}
		for i, p := range x.pts {
			if seen[x.leaves[i]] {
				continue
			}
			seen[x.leaves[i]] = true
			v := vecOf(p[0], p[1])
			if inside(v) {
				in = append(in, path(x.leaves[i]))
			}
			if maybe(v) {
				may = append(may, path(x.leaves[i]))
			}
		}
		e["in"], e["may"] = in, may
	} else {
		e["op"] = "region"
		in, touch := []int{}, []s2.CellID{}
		for _, l := range x.labels {
			if inside(r.smp[l]) {
				in = append(in, l)
			}
		}
		seen := map[s2.CellID]bool{}
		for _, c := range x.cells {
			if !seen[c] && touches(c) {
				touch = append(touch, c)
			}
			seen[c] = true
		}
		e["in"], e["touch"] = in, paths(touch)
	}
	r.answer(e, x, ids, err)
}

// box is a rectangle running east from its bottom left corner.
type box struct{ urlat, urlng, bllat, bllng float64 }

func mod360(x float64) float64 {
	x = math.Mod(x, 360)
	if x < 0 {
		x += 360
	}
	return x
}

// has: the position is in the rectangle grown by m degrees.
func (b box) has(lat, lng, m float64) bool {
	if lat < b.bllat-m && !(m < 0 && b.bllat <= -90) || lat > b.urlat+m && !(m < 0 && b.urlat >= 90) {
		return false
	}
	w := b.urlng - b.bllng
	if w < 360 {
		w = mod360(w)
	}
	if w >= 360 {
		return true
	}
	c := math.Cos(lat * deg)
	mm := math.Abs(m) / math.Max(c, 1e-12)
	if mm > 90 {
		return m > 0
	}
	off := mod360(lng - b.bllng)
	if m < 0 {
		return off >= mm && off <= w-mm
	}
	return off <= w+mm || off >= 360-mm
}

// touches: some point of the cell may be in the rectangle.
func (b box) touches(c s2.CellID) bool {
	cell := s2.CellFromCellID(c)
	var q [4]vec
	for i := range q {
		q[i] = vecOfPoint(cell.Vertex(i))
	}
	const n = 24
	side := math.Max(math.Max(q[0].angle(q[1]), q[1].angle(q[2])), math.Max(q[2].angle(q[3]), q[3].angle(q[0])))
	m := side/deg/n*2 + 1e-7
	for i := 0; i <= n; i++ {
		for j := 0; j <= n; j++ {
			u, v := float64(i)/n, float64(j)/n
			p := q[0].mul((1 - u) * (1 - v)).add(q[1].mul(u * (1 - v))).add(q[2].mul(u * v)).add(q[3].mul((1 - u) * v)).norm()
			if la, ln := p.latlng(); b.has(la, ln, m) {
				return true
			}
		}
	}
	return false
}

func wrap(lng float64) float64 {
	lng = mod360(lng)
	if lng > 180 {
		lng -= 360
	}
	return lng
}

// aroundCell is a rectangle whose sides are at the corners of a cell with an
// indexed point, or beyond.
func (r *ixRun) aroundCell(x *ix) (box, bool) {
	rnd := r.rnd
	cell := s2.CellFromCellID(x.leaves[rnd.Intn(len(x.leaves))].Parent(rnd.Intn(16)))
	_, mid := vecOfPoint(cell.Center()).latlng()
	s, n, w, e := 90.0, -90.0, 180.0, -180.0
	for i := 0; i < 4; i++ {
		la, ln := vecOfPoint(cell.Vertex(i)).latlng()
		d := math.Remainder(ln-mid, 360)
		s, n, w, e = math.Min(s, la), math.Max(n, la), math.Min(w, d), math.Max(e, d)
	}
	beyond := func(size float64) float64 {
		if rnd.Intn(2) == 0 {
			return size * math.Exp(-rnd.Float64()*12)
		}
		return size * rnd.Float64()
	}
	b := box{urlat: math.Min(90, n+beyond(n-s)), bllat: math.Max(-90, s-beyond(n-s))}
	b.bllng, b.urlng = w-beyond(e-w), e+beyond(e-w)
	if b.urlng-b.bllng > 350 {
		return b, false
	}
	b.bllng, b.urlng = wrap(mid+b.bllng), wrap(mid+b.urlng)
	return b, true
}

func (r *ixRun) rect(x *ix, lat, lng float64) box {
	rnd := r.rnd
	if x.kind == "point" && len(x.leaves) > 0 && rnd.Intn(5) == 0 {
		if b, ok := r.aroundCell(x); ok {
			return b
		}
	}
	h := r.edge / deg * math.Exp(rnd.Float64()*4-2.5)
	w := r.edge / deg * math.Exp(rnd.Float64()*4-2.5) / math.Max(math.Cos(lat*deg), 0.02)
	if r.vast {
		h, w = h*30, w*30
	}
	wide := x.kind == "point" || r.global
	if wide {
		switch rnd.Intn(5) {
		case 0:
			w = rnd.Float64() * 360
		case 1:
			w = 300 + rnd.Float64()*60
		case 2:
			h = rnd.Float64() * 180
		}
	}
	b := box{urlat: math.Min(90, lat+h/2), bllat: math.Max(-90, lat-h/2)}
	if w >= 359.99 {
		b.bllng, b.urlng = -180, 180
	} else {
		b.bllng, b.urlng = wrap(lng-w*rnd.Float64()), 0
		b.urlng = wrap(b.bllng + w)
	}
	if wide && rnd.Intn(6) == 0 {
		b.urlat = 90
	}
	if wide && rnd.Intn(8) == 0 {
		b.bllat = -90
	}
	if rnd.Intn(10) == 0 {
		// a corner exactly on the antimeridian
		if rnd.Intn(2) == 0 && b.bllng < 0 {
			b.urlng = 180
			if b.bllng == 180 {
				b.bllng = 170
			}
		} else if b.urlng < 179 && wide {
			b.bllng = -180
		}
		if !wide && mod360(b.urlng-b.bllng) > w+1e-9 {
			b.bllng, b.urlng = wrap(lng), wrap(lng+w)
		}
	}
	return b
}

func (r *ixRun) raw(k, v []byte) {
	w, err := r.st.Writer()
	mustReal(err)
	b := w.NewBatch()
	b.Set(k, v)
	mustReal(w.ExecuteBatch(b))
	b.Close()
	mustReal(w.Close())
}

func (r *ixRun) putData() {
	k := randKey(r.rnd)
	if r.rnd.Intn(2) == 0 {
		// next to the entries of an index
		x := r.xs[r.rnd.Intn(len(r.xs))]
		if len(x.prefix) == 0 {
			return
		}
		k = append([]byte{}, x.prefix...)
		k[len(k)-1] += byte(1 + 254*r.rnd.Intn(2))
		k = append(k, randKey(r.rnd)...)
	}
	for _, x := range r.xs {
		if hasPrefix(k, x.prefix) {
			return
		}
	}
	v := []byte(fmt.Sprint("data", r.id()))
	if k[0] == 'd' && r.rnd.Intn(2) == 0 {
		v = []byte{0}
	}
	r.raw(k, v)
	r.data = append(r.data, k)
	r.tr.add(Ev{"op": "put", "k": ints(k), "v": hx(v)})
}

func (r *ixRun) getData(k []byte) {
	rd, err := r.st.Reader()
	mustReal(err)
	v, err := rd.Get(k)
	mustReal(err)
	mustReal(rd.Close())
	r.tr.add(Ev{"op": "data", "k": ints(k), "v": hx(v)})
}

// junk stores an entry without an id at a cell.
func (r *ixRun) junk(x *ix) {
	c := r.someCell(x)
	if x.kind != "point" && levelOf(c) != x.level {
		return
	}
	if x.kind == "point" {
		c = c.RangeMin()
	}
	k := append([]byte{}, x.prefix...)
	u := uint64(c)
	for i := 56; i >= 0; i -= 8 {
		k = append(k, byte(u>>uint(i)))
	}
	if x.kind == "time" && r.rnd.Intn(2) == 0 {
		k = append(k, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
	}
	r.raw(k, nil)
	r.tr.add(Ev{"op": "junk", "x": x.name, "c": path(c)})
}

func (r *ixRun) queryAll() {
	for _, x := range r.xs {
		seen := map[s2.CellID]bool{}
		cs := x.cells
		if x.kind == "point" {
			cs = x.leaves
		}
		n := 0
		for _, i := range r.rnd.Perm(len(cs)) {
			if n < 12 && !seen[cs[i]] {
				seen[cs[i]] = true
				r.atCell(x, cs[i], false)
				n++
			}
		}
	}
}

func (r *ixRun) step() {
	p := r.p
	x := r.xs[r.rnd.Intn(len(r.xs))]
	if y := r.xs[r.side.Intn(len(r.xs))]; r.side.Intn(100) < r.p.twin {
		r.twin(y)
	}
	w := []int{p.index, p.atcell, p.atcells, p.region, p.held, p.close, p.put, p.data, p.junk}
	if r.crowds > 0 && r.side.Intn(15) == 0 {
		r.crowds--
		r.crowd()
		return
	}
	tot := 0
	for _, v := range w {
		tot += v
	}
	n, op := r.rnd.Intn(tot), 0
	for n >= w[op] {
		n -= w[op]
		op++
	}
	switch op {
	case 0:
		r.doIndex()
	case 1:
		r.atCell(x, r.someCell(x), true)
	case 2:
		r.atCells(x)
	case 3:
		r.region(x)
	case 4:
		if ids := sortedKeys(r.held); len(ids) > 0 {
			r.look(ids[r.rnd.Intn(len(ids))])
		}
	case 5:
		if r.compact() {
			return
		}
		if r.be.persistent() {
			r.closeStore()
			r.openStore()
		}
	case 6:
		r.putData()
	case 7:
		if len(r.data) > 0 {
			r.getData(r.data[r.rnd.Intn(len(r.data))])
		}
	case 8:
		r.junk(x)
	}
}

var idxProfiles = map[string]idxProfile{
	"C12": {twin: 25, kinds: []string{"flat"}, len: 60, large: 3, index: 10, atcell: 16, atcells: 6, close: 1},
	"C13": {twin: 25, kinds: []string{"point"}, len: 110, index: 10, atcell: 20, atcells: 5, close: 1},
	"C14": {twin: 25, kinds: []string{"point"}, len: 100, index: 10, region: 20, close: 1},
	"C15": {twin: 25, kinds: []string{"flat"}, len: 60, index: 10, region: 18, vast: true},
	"C16": {twin: 25, kinds: []string{"time"}, len: 80, index: 12, atcell: 24, atcells: 6, close: 1},
	"C17": {twin: 25, kinds: []string{"time"}, len: 60, index: 10, region: 20, vast: true},
	"C18": {twin: 25, kinds: []string{"flat", "point", "time"}, many: true, len: 90, index: 10, atcell: 10, atcells: 4, region: 5, put: 5, data: 4, close: 4},
	"C19": {twin: 25, kinds: []string{"flat", "point", "time"}, many: true, len: 90, index: 8, atcell: 9, atcells: 6, region: 9, held: 4, close: 2, junk: 1, qfault: 35, bad: 5},
	"C20": {twin: 25, kinds: []string{"flat", "point", "time"}, many: true, len: 80, index: 20, atcell: 10, region: 2, close: 1, ifault: 35, bad: 20, large: 8, far: 12},
	"C30": {twin: 60, kinds: []string{"flat", "point", "time"}, many: true, len: 100, index: 12, atcell: 14, atcells: 8, region: 6, put: 1, data: 1, close: 5, large: 3},
}

var idxBackends = []*Backend{
	{"gtreap", "gtreap", conf{}},
	{"bolt", "bolt", conf{"nosync": true}},
	{"goleveldb", "goleveldb", conf{"create_if_missing": true}},
	{"badger", "badger", conf{}},
}

func init() {
	for id, p := range idxProfiles {
		id, p := id, p
		drivers[id] = func(seed int64, thorough bool) []scenario {
			sc := geoScenarios(id, seed, thorough)
			n := 200
			if thorough {
				n = 900
			}
			for i := 0; i < n; i++ {
				be := idxBackends[i%4]
				if i%3 > 0 && id != "C30" {
					be = idxBackends[0]
				}
				s := seed*1000003 + int64(i)
				sc = append(sc, scenario{fmt.Sprintf("%s/%s/%d", id, be.Name, s), func(t *Trace) { idxHistory(be, t, s, p) }})
			}
			return sc
		}
	}
}
