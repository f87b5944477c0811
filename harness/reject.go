package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/akhenakh/oureadb/store"
	"github.com/golang/geo/s2"
)

type gpart struct {
	Nil    bool `json:"nil"`
	N      int  `json:"n"`
	Closed bool `json:"closed"`
}

type gcase struct {
	Nil    string  `json:"nil"`
	Type   string  `json:"type"`
	N      int     `json:"n"`
	Closed bool    `json:"closed"`
	Parts  []gpart `json:"parts"`
}

func rejectCases() []gcase {
	cs := []gcase{{Nil: "data", Type: "point", Parts: []gpart{}}, {Nil: "geometry", Type: "point", Parts: []gpart{}}}
	for _, t := range []string{"point", "line", "polygon", "multipolygon", "unknown"} {
		for n := 0; n <= 11; n++ {
			cs = append(cs, gcase{Nil: "no", Type: t, N: n, Parts: []gpart{}})
		}
	}
	for _, n := range []int{4, 6, 8, 10} {
		cs = append(cs, gcase{Nil: "no", Type: "polygon", N: n, Closed: true, Parts: []gpart{}})
	}
	ps := []gpart{{Nil: true}}
	for _, n := range []int{0, 2, 4, 5, 6, 7, 8} {
		ps = append(ps, gpart{N: n})
	}
	for _, n := range []int{4, 6, 8} {
		ps = append(ps, gpart{N: n, Closed: true})
	}
	for _, p := range ps {
		cs = append(cs, gcase{Nil: "no", Type: "multipolygon", Parts: []gpart{p}})
		for _, q := range ps {
			cs = append(cs, gcase{Nil: "no", Type: "multipolygon", Parts: []gpart{p, q}})
		}
	}
	return cs
}

// numbers are n coordinates: a counter clockwise convex ring, cut short.
func numbers(rnd *rand.Rand, f frame, size float64, n int, closed bool) []float64 {
	k := (n + 1) / 2
	if closed {
		k--
	}
	var pts []xy
	for i := 0; i < k; i++ {
		a := 2 * 3.14159 * (float64(i) + 0.5*rnd.Float64()) / float64(k)
		pts = append(pts, scaled(circle(a), size)...)
	}
	c := flat(f, pts)
	if closed {
		c = append(c, c[0], c[1])
	}
	return c[:n:n]
}

func (c gcase) build(rnd *rand.Rand) *geodata.GeoData {
	if c.Nil == "data" {
		return nil
	}
	if c.Nil == "geometry" {
		return &geodata.GeoData{}
	}
	f := newFrame(place(rnd), rnd.Float64()*6)
	size := 1e-4 + 1e-2*rnd.Float64()
	g := &geodata.Geometry{}
	for t, n := range typeNames {
		if n == c.Type {
			g.Type = t
		}
	}
	if c.Type == "unknown" {
		g.Type = geodata.Geometry_Type(4 + rnd.Intn(3))
	}
	g.Coordinates = numbers(rnd, f, size, c.N, c.Closed)
	for _, p := range c.Parts {
		if p.Nil {
			g.Geometries = append(g.Geometries, nil)
			continue
		}
		g.Geometries = append(g.Geometries, &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: numbers(rnd, f, size, p.N, p.Closed)})
	}
	return &geodata.GeoData{Geometry: g}
}

func countAll(s store.KVStore) int {
	r, err := s.Reader()
	mustReal(err)
	defer r.Close()
	it := r.RangeIterator(nil, nil)
	defer it.Close()
	n := 0
	for ; it.Valid(); it.Next() {
		n++
	}
	return n
}

func rejectHistory(t *Trace, seed int64, call string, be *Backend) {
	rnd := rand.New(rand.NewSource(seed))
	dir := tmpDir()
	defer rmDir(dir)
	s, err := be.open(dir, nil)
	mustReal(err)
	defer s.Close()
	flatIdx := index.NewS2FlatIdx(s, []byte("f"), 6)
	timeIdx := index.NewS2FlatTimeIdx(s, []byte("t"), 6)
	ptIdx := index.NewS2PointIdx(s, []byte("p"))
	cov := &s2.RegionCoverer{MinLevel: 4, MaxLevel: 4 + rnd.Intn(3), MaxCells: 8}
	cs := rejectCases()
	rnd.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	for i, c := range cs {
		gd := c.build(rnd)
		id := index.GeoID(fmt.Sprintf("id%d", i))
		var err error
		switch call {
		case "cover":
			_, err = gd.Cover(cov)
		case "deprecated":
			_, err = geodata.GeoDataToCoverCellUnion(gd, cov)
		case "interior":
			_, err = gd.InteriorCover(cov)
		case "rect":
			_, err = geodata.GeoDataToRect(gd)
		case "flat":
			err = flatIdx.GeoIndex(gd, id)
		case "time":
			err = timeIdx.GeoTimeIndex(gd, time.Unix(int64(i), 0), id)
		case "point":
			_, err = ptIdx.GeoPointIndex(gd, id)
		case "pointkey":
			_, err = ptIdx.GeoPointKey(gd, id)
		}
		t.add(Ev{"op": "try", "call": call, "g": c, "ok": err == nil, "err": fmt.Sprint(err), "n": countAll(s)})
	}
	t.add(Ev{"op": "complete", "call": call})
}

func init() {
	drivers["C24"] = func(seed int64, thorough bool) []scenario {
		n := 12
		if thorough {
			n = 200
		}
		var sc []scenario
		for i := 0; i < n; i++ {
			for j, call := range []string{"cover", "deprecated", "interior", "rect", "flat", "time", "point", "pointkey"} {
				be := idxBackends[0]
				if i%4 == 3 {
					be = idxBackends[i/4%4]
				}
				s := seed*1000003 + int64(i)*17 + int64(j)
				call := call
				sc = append(sc, scenario{fmt.Sprintf("C24/%s/%s/%d", call, be.Name, s), func(t *Trace) { rejectHistory(t, s, call, be) }})
			}
		}
		return sc
	}
}
