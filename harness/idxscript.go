package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
	"github.com/golang/protobuf/proto"
)

// The behaviours of MCGeo, made on real indexes: the first line of a file says
// which indexes there are and what to ask in the end, the others are calls.

type geoCall struct {
	Op     string  `json:"op"`
	X      string  `json:"x"`
	Kind   string  `json:"kind"`
	Level  int     `json:"level"`
	Prefix []int   `json:"prefix"`
	ID     string  `json:"id"`
	T      []int   `json:"t"`
	Cover  [][]int `json:"cover"`
	Fault  bool    `json:"fault"`
	K      []int   `json:"k"`
	V      string  `json:"v"`
	C      []int   `json:"c"`
	Cs     [][]int `json:"cs"`
	From   []int   `json:"from"`
	To     []int   `json:"to"`
}

type geoHead struct {
	Opens []geoCall `json:"opens"`
	Asks  []geoCall `json:"asks"`
}

func unlimbs(l []int) int64 {
	if len(l) != 4 {
		return 0
	}
	u := uint64(l[0])<<48 | uint64(l[1])<<32 | uint64(l[2])<<16 | uint64(l[3])
	return int64(u - 1<<63)
}

// spotsIn is an object whose cover, at the level of the cells, is these cells:
// a point, a line or a triangle around the middle of one, triangles in several.
func spotsIn(rnd *rand.Rand, cells [][]int) *geodata.GeoData {
	tri := func(c []int) []float64 {
		at := vecOfPoint(cellOf(c).Point())
		f := newFrame(at, rnd.Float64())
		size := 0.5 / float64(int(1)<<uint(len(c)-1)) * 0.2
		n := 3
		if len(cells) == 1 && rnd.Intn(2) == 0 {
			n = 1 + rnd.Intn(2)
		}
		var co []float64
		for _, q := range []xy{{0, 0}, {size, 0}, {0, size}}[:n] {
			lat, lng := f.unproj(q).latlng()
			co = append(co, lng, lat)
		}
		return co
	}
	g := &geodata.Geometry{}
	if len(cells) == 1 {
		g.Coordinates = tri(cells[0])
		g.Type = []geodata.Geometry_Type{geodata.Geometry_POINT, geodata.Geometry_LINESTRING, geodata.Geometry_POLYGON}[len(g.Coordinates)/2-1]
	} else {
		g.Type = geodata.Geometry_MULTIPOLYGON
		for _, c := range cells {
			g.Geometries = append(g.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: tri(c)})
		}
	}
	return &geodata.GeoData{Geometry: g}
}

func (r *ixRun) byName(n string) *ix {
	for _, x := range r.xs {
		if x.name == n {
			return x
		}
	}
	panic(harnessError("no index " + n))
}

func (r *ixRun) geoCall(c geoCall) {
	switch c.Op {
	case "open":
		x := &ix{name: c.X, kind: c.Kind, level: c.Level, prefix: byteSeq(c.Prefix)}
		r.xs = append(r.xs, x)
		r.attach(x)
		r.tr.add(Ev{"op": "open", "x": c.X, "kind": c.Kind, "level": c.Level, "prefix": c.Prefix})
	case "index":
		x := r.byName(c.X)
		id := unhex(c.ID)
		idb := spare(id)
		nth := 0
		if c.Fault {
			nth = 1
		}
		r.adv.arm([]string{"", "exec"}[nth], nth)
		var err error
		same := true
		if x.kind == "point" {
			l := cellOf(c.Cover[0])
			ll := l.LatLng()
			if leaf(ll.Lat.Degrees(), ll.Lng.Degrees()) != l {
				panic(harnessError("not the leaf"))
			}
			if r.rnd.Intn(2) == 0 {
				_, err = x.pt.PointIndex(ll.Lat.Degrees(), ll.Lng.Degrees(), idb)
			} else {
				gd := &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{ll.Lng.Degrees(), ll.Lat.Degrees()}}}
				_, err = x.pt.GeoPointIndex(gd, idb)
			}
		} else {
			gd := spotsIn(r.rnd, c.Cover)
			roomy(gd)
			before := cloneGD(gd)
			if x.kind == "flat" {
				err = x.flat.GeoIndex(gd, idb)
			} else {
				err = x.tm.GeoTimeIndex(gd, r.timeOf(unlimbs(c.T)), idb)
			}
			same = proto.Equal(gd, before) && unspent(gd)
		}
		same = same && intact(idb, id)
		for i := range idb {
			idb[i] = 0xEE
		}
		fault := r.adv.fault()
		r.adv.arm("", 0)
		r.tr.add(Ev{"op": "index", "x": c.X, "id": c.ID, "t": c.T, "cover": c.Cover, "must": [][]int{}, "pts": []int{},
			"fault": fault, "bad": false, "same": same, "ok": err == nil})
	case "put":
		r.raw(byteSeq(c.K), unhex(c.V))
		r.tr.add(Ev{"op": "put", "k": c.K, "v": c.V})
	default:
		panic(harnessError("unknown call " + c.Op))
	}
}

// geoAsk makes a query while the named call of the store fails at the n-th time.
func (r *ixRun) geoAsk(c geoCall, call string, n int) (hit bool) {
	if c.Op == "data" {
		r.getData(byteSeq(c.K))
		return false
	}
	x := r.byName(c.X)
	from, to := r.timeOf(unlimbs(c.From)), r.timeOf(unlimbs(c.To))
	var ids []index.GeoID
	var err error
	e := Ev{"op": c.Op}
	r.adv.arm(call, n)
	if c.Op == "atcells" {
		e["cs"] = c.Cs
		var cs []s2.CellID
		for _, p := range c.Cs {
			cs = append(cs, cellOf(p))
		}
		switch x.kind {
		case "flat":
			ids, err = x.flat.GeoIdsAtCells(cs)
		case "point":
			ids, err = x.pt.GeoIdsAtCells(cs)
		case "time":
			e["from"], e["to"] = c.From, c.To
			ids, err = x.tm.GeoTimeIdsAtCells(cs, from, to)
		}
	} else {
		e["c"] = c.C
		switch x.kind {
		case "flat":
			ids, err = x.flat.GeoIdsAtCell(cellOf(c.C))
		case "point":
			ids, err = x.pt.GeoIdsAtCell(cellOf(c.C))
		case "time":
			e["from"], e["to"] = c.From, c.To
			ids, err = x.tm.GeoTimeIdsAtCell(cellOf(c.C), from, to)
		}
	}
	hit = r.adv.fault() != "no"
	r.answer(e, x, ids, err)
	return hit
}

// geoScripts reads the file of a model: its head and n of its scripts.
func geoScripts(model string, seed int64, n int) (h geoHead, ss [][]geoCall) {
	for _, l := range scriptLines(model, seed, 1<<30) {
		if strings.HasPrefix(l, "{") {
			must(json.Unmarshal([]byte(l), &h))
			continue
		}
		if len(ss) < n {
			var s []geoCall
			must(json.Unmarshal([]byte(l), &s))
			ss = append(ss, s)
		}
	}
	return h, ss
}

// degScenarios asks for rectangles and circles around points at whole degrees
// (MCRegion).
func degScenarios(id string, seed int64, thorough bool) []scenario {
	kind := map[string]string{"C14": "point", "C15": "flat", "C17": "time"}[id]
	if kind == "" || os.Getenv("SCRIPTS") == "" {
		return nil
	}
	n := 900
	if thorough {
		n = 1 << 30
	}
	type ask struct {
		Op  string         `json:"op"`
		Box map[string]int `json:"box"`
		C   struct {
			At []int `json:"at"`
			R  int   `json:"r"`
		} `json:"circle"`
	}
	var head map[string][][]int
	asks := map[string][]ask{}
	for _, l := range scriptLines("MCRegion", seed, 1<<30) {
		if !strings.Contains(l, `"op"`) {
			must(json.Unmarshal([]byte(l), &head))
			continue
		}
		var a ask
		must(json.Unmarshal([]byte(l), &a))
		if a.Op == "box" && kind == "flat" || len(asks[a.Op]) >= n {
			continue
		}
		asks[a.Op] = append(asks[a.Op], a)
	}
	var sc []scenario
	add := func(op string, part []ask, i int) {
		be := idxBackends[0]
		if i%3 == 0 {
			be = idxBackends[i/3%4]
		}
		sc = append(sc, scenario{fmt.Sprintf("%s/MCRegion/%s/%s/%d", id, op, be.Name, i), func(t *Trace) {
			rnd := rand.New(rand.NewSource(seed*7907 + int64(i)))
			r := &ixRun{p: idxProfiles[id], be: be, tr: t, rnd: rnd, side: rand.New(rand.NewSource(7)), held: map[int][]index.GeoID{}}
			r.dir = tmpDir()
			r.openStore()
			level := 3 + rnd.Intn(2)
			if op == "circle" {
				level = 4 + rnd.Intn(3)
			}
			x := &ix{name: "p", kind: kind, level: level, prefix: []byte{112}}
			if kind == "point" {
				x.level = 30
			}
			r.xs = append(r.xs, x)
			r.attach(x)
			r.tr.add(Ev{"op": "open", "x": "p", "kind": kind, "level": x.level, "prefix": []int{112}})
			for j, p := range head[op] {
				id := []byte(fmt.Sprint("i", j-j%7%2)) // some share an id
				lat, lng := float64(p[0]), float64(p[1])
				gd := &geodata.GeoData{Geometry: &geodata.Geometry{Coordinates: []float64{lng, lat}}}
				e := Ev{"op": "index", "x": "p", "id": hexv(id), "t": []int{}, "cover": [][]int{path(leaf(lat, lng))},
					"must": [][]int{}, "pts": [][]int{p}, "fault": "no", "bad": false, "same": true}
				var err error
				switch kind {
				case "point":
					_, err = x.pt.PointIndex(lat, lng, id)
				case "flat":
					err = x.flat.GeoIndex(gd, id)
				case "time":
					err = x.tm.GeoTimeIndex(gd, time.Unix(0, 0), id)
					e["t"] = limbs(0)
				}
				if kind != "point" {
					cu, _ := (&coverOf{x}).Covering(gd)
					e["cover"] = paths(cu)
				}
				e["ok"] = err == nil
				r.tr.add(e)
			}
			for _, a := range part {
				var ids []index.GeoID
				var err error
				e := Ev{"op": op}
				if op == "box" {
					b := a.Box
					e["box"] = b
					f := func(k string) float64 { return float64(b[k]) }
					if kind == "point" {
						ids, err = x.pt.GeoIdsRectQuery(f("n"), f("e"), f("s"), f("w"))
					} else {
						ids, err = x.tm.GeoTimeIdsRectQuery(time.Unix(0, 0), time.Unix(0, -1), f("n"), f("e"), f("s"), f("w"))
					}
				} else {
					e["circle"] = Ev{"at": a.C.At, "r": a.C.R}
					lat, lng, m := float64(a.C.At[0]), float64(a.C.At[1]), float64(a.C.R)/10*deg*earth
					switch kind {
					case "point":
						ids, err = x.pt.GeoIdsRadiusQuery(lat, lng, m)
					case "flat":
						ids, err = x.flat.GeoIdsRadiusQuery(lat, lng, m)
					case "time":
						ids, err = x.tm.GeoTimeIdsRadiusQuery(time.Unix(0, 0), time.Unix(0, -1), lat, lng, m)
					}
				}
				r.answer(e, x, ids, err)
			}
			r.closeStore()
			rmDir(r.dir)
		}})
	}
	i := 0
	for _, op := range []string{"box", "circle"} {
		for l := asks[op]; len(l) > 0; i++ {
			m := 50
			if m > len(l) {
				m = len(l)
			}
			add(op, l[:m], i)
			l = l[m:]
		}
	}
	return sc
}

var geoModels = map[string]string{"C12": "MCGeoFlat", "C13": "MCGeoPoint", "C16": "MCGeoTime", "C18": "MCGeoMix", "C19": "MCGeoMix", "C20": "MCGeoMix", "C30": "MCGeoMix"}

func geoScenarios(id string, seed int64, thorough bool) []scenario {
	if sc := degScenarios(id, seed, thorough); sc != nil {
		return sc
	}
	model, ok := geoModels[id]
	if !ok || os.Getenv("SCRIPTS") == "" {
		return nil
	}
	n := 240
	if thorough {
		n = 3000
	}
	var sc []scenario
	h, ss := geoScripts(model, seed, n)
	for i, s := range ss {
		i, s := i, s
		be := idxBackends[0]
		if i%4 == 0 {
			be = idxBackends[i/4%4]
		}
		sc = append(sc, scenario{fmt.Sprintf("%s/%s/%s/%d", id, model, be.Name, i), func(t *Trace) {
			rnd := rand.New(rand.NewSource(seed*7919 + int64(i)))
			r := &ixRun{p: idxProfiles[id], be: be, tr: t, rnd: rnd, side: rand.New(rand.NewSource(int64(i))), held: map[int][]index.GeoID{}}
			r.dir = tmpDir()
			r.openStore()
			for _, c := range h.Opens {
				r.geoCall(c)
			}
			for _, c := range s {
				if id == "C30" {
					// some of the questions between the calls, each asked of,
					// and each call made on, any value of the index
					for _, x := range r.xs {
						r.twin(x)
						r.twin(x)
					}
					for _, k := range rnd.Perm(len(h.Asks))[:6] {
						r.geoAsk(h.Asks[k], "", 0)
						for _, x := range r.xs {
							r.twin(x)
						}
					}
				}
				r.geoCall(c)
			}
			if be.persistent() && rnd.Intn(2) == 0 {
				r.closeStore()
				r.openStore()
			}
			asks := h.Asks
			if id == "C19" {
				// every failure of some of the questions
				for _, k := range rnd.Perm(len(asks))[:5] {
					for _, call := range []string{"reader", "reader.close", "iter.close"} {
						for n := 1; n < 6 && r.geoAsk(asks[k], call, n); n++ {
						}
					}
				}
			}
			for _, k := range rnd.Perm(len(asks)) {
				r.geoAsk(asks[k], "", 0)
			}
			for _, k := range sortedKeys(r.held) {
				r.look(k)
			}
			r.closeStore()
			for _, k := range sortedKeys(r.held) {
				r.look(k)
			}
			rmDir(r.dir)
		}})
	}
	return sc
}
