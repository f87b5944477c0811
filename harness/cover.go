package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/akhenakh/oureadb/index"
	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
)

var typeNames = map[geodata.Geometry_Type]string{
	geodata.Geometry_POINT: "point", geodata.Geometry_LINESTRING: "line",
	geodata.Geometry_POLYGON: "polygon", geodata.Geometry_MULTIPOLYGON: "multipolygon"}

func copyGeometry(g *geodata.Geometry) *geodata.Geometry {
	if g == nil {
		return nil
	}
	c := &geodata.Geometry{Type: g.Type, Coordinates: append([]float64(nil), g.Coordinates...)}
	for _, k := range g.Geometries {
		c.Geometries = append(c.Geometries, copyGeometry(k))
	}
	return c
}

func sameGeometry(a, b *geodata.Geometry) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if a.Type != b.Type || len(a.Coordinates) != len(b.Coordinates) || len(a.Geometries) != len(b.Geometries) {
		return false
	}
	for i := range a.Coordinates {
		if math.Float64bits(a.Coordinates[i]) != math.Float64bits(b.Coordinates[i]) {
			return false
		}
	}
	for i := range a.Geometries {
		if !sameGeometry(a.Geometries[i], b.Geometries[i]) {
			return false
		}
	}
	return true
}

// cellAngle is about the size of a cell of the level.
func cellAngle(level int) float64 { return math.Pi / 2 / math.Exp2(float64(level)) }

type coverRun struct {
	t   *Trace
	rnd *rand.Rand
	n   int
}

func (r *coverRun) define(o *object) int {
	r.n++
	alts := [][][]int{}
	for _, v := range o.samples {
		if o.pt != nil {
			// the leaf cell of a point is exact
			alts = append(alts, [][]int{path(leafOf(v))})
			continue
		}
		alts = append(alts, paths(nudged(v)))
	}
	k := 1
	if o.gd.Geometry.Type == geodata.Geometry_MULTIPOLYGON {
		k = len(o.gd.Geometry.Geometries)
	}
	e := Ev{"op": "geom", "g": r.n, "type": typeNames[o.gd.Geometry.Type], "polygons": k, "samples": alts,
		"coords": fmt.Sprint(o.gd.Geometry)}
	e["ext"] = Ev{}
	if o.ext != nil {
		e["ext"] = o.ext
	}
	r.t.add(e)
	return r.n
}

// variant writes the same geometry with rings wound, started and closed otherwise.
func (r *coverRun) variant(o *object) *object {
	v := *o
	g := copyGeometry(o.gd.Geometry)
	redo := func(c []float64) []float64 {
		c = open(c)
		n := len(c) / 2
		k := r.rnd.Intn(n)
		back := r.rnd.Intn(2) == 0
		var d []float64
		for i := 0; i < n; i++ {
			j := (k + i) % n
			if back {
				j = (k + n - i) % n
			}
			d = append(d, c[2*j], c[2*j+1])
		}
		if r.rnd.Intn(2) == 0 {
			d = append(d, d[0], d[1])
		}
		return d
	}
	switch g.Type {
	case geodata.Geometry_POLYGON:
		g.Coordinates = redo(g.Coordinates)
	case geodata.Geometry_MULTIPOLYGON:
		for _, k := range g.Geometries {
			k.Coordinates = redo(k.Coordinates)
		}
	}
	v.gd = &geodata.GeoData{Geometry: g}
	return &v
}

func (r *coverRun) coverer(size float64, equal bool) *s2.RegionCoverer {
	rnd := r.rnd
	base := int(math.Round(math.Log2(math.Pi / 2 / size)))
	max := base + rnd.Intn(4)
	if rnd.Intn(6) == 0 {
		max = base - rnd.Intn(4)
	}
	min := max
	if !equal {
		min = max - rnd.Intn(5)
	}
	fit := func(l int) int {
		if l < 0 {
			return 0
		}
		if l > 30 {
			return 30
		}
		return l
	}
	return &s2.RegionCoverer{MinLevel: fit(min), MaxLevel: fit(max), MaxCells: []int{1, 2, 3, 4, 8, 16, 30}[rnd.Intn(7)], LevelMod: rnd.Intn(3)}
}

// maxCover is how many cells of a cover are recorded: twice as many as the
// covers the drivers ask for have.
const maxCover = 4000

func (r *coverRun) cover(o *object, g int, size float64) {
	roomy(o.gd)
	c := r.coverer(size, r.rnd.Intn(2) == 0)
	if o.pt != nil {
		c.MinLevel = r.rnd.Intn(31)
		c.MaxLevel = c.MinLevel
	} else if c.LevelMod > 1 {
		// a level modulus moves levels between the two bounds only
		c.MinLevel = c.MaxLevel
	}
	asked := *c
	r.coverWith(o, g, c, asked)
	if r.rnd.Intn(4) == 0 {
		// a coverer is used again
		r.coverWith(o, g, c, asked)
	}
}

// coverWith covers an object with a coverer that was made as asked.
func (r *coverRun) coverWith(o *object, g int, c *s2.RegionCoverer, asked s2.RegionCoverer) {
	var cu s2.CellUnion
	var err error
	var api string
	before := copyGeometry(o.gd.Geometry)
	switch k := r.rnd.Intn(5); {
	case k == 0 && asked.MinLevel == asked.MaxLevel:
		api = "flat"
		cu, err = index.NewS2FlatIdx(nil, nil, asked.MinLevel).Covering(o.gd)
	case k == 1 && asked.MinLevel == asked.MaxLevel:
		api = "time"
		cu, err = index.NewS2FlatTimeIdx(nil, nil, asked.MinLevel).Covering(o.gd)
	case k == 2:
		api = "deprecated"
		cu, err = geodata.GeoDataToCoverCellUnion(o.gd, c)
	default:
		api = "cover"
		cu, err = o.gd.Cover(c)
	}
	total := len(cu)
	if total > maxCover {
		cu = cu[:maxCover]
	}
	apart := []int{}
	for i, id := range cu {
		if o.apart(id) {
			apart = append(apart, i)
		}
	}
	r.t.add(Ev{"op": "cover", "api": api, "g": g, "min": asked.MinLevel, "max": asked.MaxLevel, "maxcells": asked.MaxCells, "mod": asked.LevelMod,
		"n": total, "cells": paths(cu), "apart": apart, "same": sameGeometry(before, o.gd.Geometry) && unspent(o.gd), "ok": err == nil, "err": fmt.Sprint(err)})
}

// roomOf is the largest angle such that a disc of that radius surely fits.
func roomOf(s shape, rnd *rand.Rand) float64 {
	lo, hi := s.pts[0], s.pts[0]
	far := 0.0
	for _, p := range s.pts {
		lo = xy{math.Min(lo.x, p.x), math.Min(lo.y, p.y)}
		hi = xy{math.Max(hi.x, p.x), math.Max(hi.y, p.y)}
		far = math.Max(far, math.Hypot(p.x, p.y))
	}
	best := 0.0
	for i := 0; i < 200; i++ {
		p := xy{lo.x + rnd.Float64()*(hi.x-lo.x), lo.y + rnd.Float64()*(hi.y-lo.y)}
		if inRing(p, s.pts) {
			best = math.Max(best, s.distEdges(p))
		}
	}
	return best / (1 + far*far)
}

func (r *coverRun) interior(o *object, g int, size float64) {
	roomy(o.gd)
	c := r.coverer(size, r.rnd.Intn(2) == 0)
	if r.rnd.Intn(3) > 0 {
		c.MaxLevel += 2 + r.rnd.Intn(3)
		if c.MaxLevel > 30 {
			c.MaxLevel = 30
		}
		if c.LevelMod > 1 {
			c.MinLevel = c.MaxLevel
		}
	}
	if c.LevelMod > 1 {
		c.MinLevel = c.MaxLevel
	}
	// the diagonal of a cell of the deepest level, with a margin
	diag := cellAngle(c.MaxLevel) * 2.5
	roomy := false
	for _, s := range o.shapes {
		if roomOf(s, r.rnd) > 1.2*diag {
			roomy = true
		}
	}
	asked := *c
	// a coverer may be used again
	for n := 1 + r.rnd.Intn(8)/7; n > 0; n-- {
		before := copyGeometry(o.gd.Geometry)
		cu, err := o.gd.InteriorCover(c)
		// far more cells than MaxCells allows: the count alone tells
		if len(cu) > 1000 {
			cu = cu[:1000]
		}
		pokes := []int{}
		for i, id := range cu {
			in := false
			for _, s := range o.shapes {
				if !s.pokesOut(id) {
					in = true
				}
			}
			if !in {
				pokes = append(pokes, i)
			}
		}
		r.t.add(Ev{"op": "interior", "g": g, "min": asked.MinLevel, "max": asked.MaxLevel, "maxcells": asked.MaxCells, "mod": asked.LevelMod, "roomy": roomy,
			"cells": paths(cu), "pokes": pokes, "same": sameGeometry(before, o.gd.Geometry) && unspent(o.gd), "ok": err == nil, "err": fmt.Sprint(err)})
	}
}

func micro(x float64) int { return int(math.Round(x * 1e6)) }

// extent is the exact latitude and longitude extent of a line or of a counter
// clockwise ring; nil where it is ill conditioned (next to a pole).
func extent(coords []float64, s shape) Ev {
	lo, hi := 90.0, -90.0
	see := func(lat float64) { lo, hi = math.Min(lo, lat), math.Max(hi, lat) }
	n := len(coords) / 2
	at := func(i int) vec { return vecOf(coords[2*i+1], coords[2*i]) }
	west, east, lng := coords[0], coords[0], coords[0]
	last := n - 1
	if s.ring {
		last = n
	}
	for i := 0; i < last; i++ {
		a, b := at(i), at((i+1)%n)
		la, _ := a.latlng()
		lb, _ := b.latlng()
		see(la)
		see(lb)
		m := a.cross(b)
		if m.dot(m) > 0 {
			m = m.norm()
			// the northernmost and southernmost points of the great circle
			top := vec{0, 0, 1}.add(m.mul(-m[2]))
			if top.dot(top) > 0 {
				top = top.norm()
				for _, q := range []vec{top, top.mul(-1)} {
					if a.cross(q).dot(m) > 0 && q.cross(b).dot(m) > 0 {
						l, _ := q.latlng()
						see(l)
					}
				}
			}
		}
		d := math.Remainder(coords[2*((i+1)%n)]-coords[2*i], 360)
		if math.Abs(math.Abs(d)-180) < 1e-3 {
			return nil
		}
		lng += d
		west, east = math.Min(west, lng), math.Max(east, lng)
	}
	if hi > 89.9 || lo < -89.9 {
		return nil
	}
	w := east - west
	if s.ring {
		for _, pole := range []vec{{0, 0, 1}, {0, 0, -1}} {
			p, ok := s.f.proj(pole)
			if !ok {
				continue
			}
			if s.distEdges(p) < 1e-4 {
				return nil
			}
			if inRing(p, s.pts) {
				w = 360
				if pole[2] > 0 {
					hi = 90
				} else {
					lo = -90
				}
			}
		}
	}
	if w > 359.9 {
		w = 360
	}
	return Ev{"s": micro(lo), "n": micro(hi), "w": micro(math.Remainder(west, 360)), "width": micro(w), "tol": 3}
}

func (r *coverRun) rect(o *object, g int) {
	roomy(o.gd)
	before := copyGeometry(o.gd.Geometry)
	b, err := geodata.GeoDataToRect(o.gd)
	w := b.Lng.Length() / deg
	if b.Lng.IsFull() {
		w = 360
	}
	r.t.add(Ev{"op": "rect", "g": g, "r": Ev{"s": micro(b.Lat.Lo / deg), "n": micro(b.Lat.Hi / deg), "w": micro(b.Lng.Lo / deg), "width": micro(w)},
		"same": sameGeometry(before, o.gd.Geometry) && unspent(o.gd), "ok": err == nil, "err": fmt.Sprint(err)})
}

func (r *coverRun) size() float64 { return math.Exp(-15 + r.rnd.Float64()*16) }

func coverHistory(t *Trace, seed int64, what string) {
	r := &coverRun{t: t, rnd: rand.New(rand.NewSource(seed))}
	for k := 0; k < 4 && !late(); k++ {
		size := r.size()
		var typ geodata.Geometry_Type
		switch what {
		case "C21":
			typ = []geodata.Geometry_Type{geodata.Geometry_POINT, geodata.Geometry_LINESTRING, geodata.Geometry_LINESTRING,
				geodata.Geometry_POLYGON, geodata.Geometry_POLYGON, geodata.Geometry_POLYGON, geodata.Geometry_MULTIPOLYGON}[r.rnd.Intn(7)]
		case "C22":
			typ = []geodata.Geometry_Type{geodata.Geometry_POLYGON, geodata.Geometry_POLYGON, geodata.Geometry_MULTIPOLYGON}[r.rnd.Intn(3)]
		case "C25":
			typ = []geodata.Geometry_Type{geodata.Geometry_POLYGON, geodata.Geometry_LINESTRING}[r.rnd.Intn(2)]
		}
		if typ == geodata.Geometry_LINESTRING && size > 0.5 {
			size = 0.5
		}
		if typ == geodata.Geometry_MULTIPOLYGON && size > 0.3 {
			size = 0.3
		}
		o := newObject(r.rnd, typ, place(r.rnd), size)
		o.samplePoints(r.rnd, 6)
		if what == "C25" {
			ring := typ == geodata.Geometry_POLYGON
			if ring {
				// counter clockwise: as the oracle sees it, not the library
				area := 0.0
				pts := o.shapes[0].pts
				for i := range pts {
					j := (i + 1) % len(pts)
					area += pts[i].x*pts[j].y - pts[j].x*pts[i].y
				}
				if area < 0 {
					c := o.gd.Geometry.Coordinates
					d := make([]float64, 0, len(c))
					for i := len(c) - 2; i >= 0; i -= 2 {
						d = append(d, c[i], c[i+1])
					}
					o.gd.Geometry.Coordinates = d
				}
			}
			c := o.gd.Geometry.Coordinates
			if ring {
				c = open(c)
			}
			o.ext = extent(c, o.shapes[0])
			if o.ext == nil {
				k--
				continue
			}
			if len(o.samples) > 4 {
				o.samples = o.samples[:4]
			}
			g := r.define(o)
			r.rect(o, g)
			r.rect(o, g)
			continue
		}
		g := r.define(o)
		for i := 0; i < 4 && !late(); i++ {
			if i > 0 {
				o = r.variant(o)
			}
			if what == "C22" {
				r.interior(o, g, size)
			} else {
				r.cover(o, g, size)
				r.cover(o, g, size)
			}
		}
	}
}

func init() {
	for _, id := range []string{"C21", "C22", "C25"} {
		id := id
		drivers[id] = func(seed int64, thorough bool) []scenario {
			n := 400
			if id == "C25" {
				n = 1500
			}
			if thorough {
				n *= 20
			}
			var sc []scenario
			for i := 0; i < n; i++ {
				s := seed*1000003 + int64(i)
				sc = append(sc, scenario{fmt.Sprintf("%s/%d", id, s), func(t *Trace) { coverHistory(t, s, id) }})
			}
			return sc
		}
	}
}
