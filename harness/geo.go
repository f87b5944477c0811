package main

import (
	"math"
	"math/rand"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/geo/s2"
)

// The geometric oracle. It knows what a cell is (from the s2 library) and
// judges containment and distance itself: geodesics are straight lines in the
// gnomonic projection around the centre of a geometry.

type vec [3]float64

func (a vec) dot(b vec) float64   { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a vec) mul(f float64) vec   { return vec{a[0] * f, a[1] * f, a[2] * f} }
func (a vec) add(b vec) vec       { return vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a vec) norm() vec           { return a.mul(1 / math.Sqrt(a.dot(a))) }
func (a vec) angle(b vec) float64 { c := a.cross(b); return math.Atan2(math.Sqrt(c.dot(c)), a.dot(b)) }
func (a vec) cross(b vec) vec {
	return vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

const deg = math.Pi / 180

func vecOf(lat, lng float64) vec {
	c := math.Cos(lat * deg)
	return vec{c * math.Cos(lng*deg), c * math.Sin(lng*deg), math.Sin(lat * deg)}
}

func (a vec) latlng() (lat, lng float64) {
	return math.Atan2(a[2], math.Hypot(a[0], a[1])) / deg, math.Atan2(a[1], a[0]) / deg
}

func vecOfPoint(p s2.Point) vec { return vec{p.X, p.Y, p.Z} }

// leaf is the leaf cell of a position.
func leaf(lat, lng float64) s2.CellID { return s2.CellIDFromLatLng(s2.LatLngFromDegrees(lat, lng)) }

func leafOf(v vec) s2.CellID { lat, lng := v.latlng(); return leaf(lat, lng) }

// path is a cell as a sequence: its face, then the digit of each level.
func path(c s2.CellID) []int {
	n := uint64(c)
	tz := 0
	for n>>uint(tz)&1 == 0 && tz < 60 {
		tz++
	}
	level := 30 - tz/2
	p := []int{int(n >> 61)}
	for i := 0; i < level; i++ {
		p = append(p, int(n>>uint(59-2*i))&3)
	}
	return p
}

func paths(cs []s2.CellID) [][]int {
	r := [][]int{}
	for _, c := range cs {
		r = append(r, path(c))
	}
	return r
}

func levelOf(c s2.CellID) int { return len(path(c)) - 1 }

// cellOf is the inverse of path.
func cellOf(p []int) s2.CellID {
	n := uint64(p[0])<<61 | 1<<60>>uint(2*(len(p)-1))
	for i, d := range p[1:] {
		n |= uint64(d) << uint(59-2*i)
	}
	return s2.CellID(n)
}

type xy struct{ x, y float64 }

type frame struct{ c, e1, e2 vec }

func newFrame(c vec, rot float64) frame {
	a := vec{0, 0, 1}
	if math.Abs(c[2]) > 0.9 {
		a = vec{1, 0, 0}
	}
	u := a.cross(c).norm()
	w := c.cross(u)
	return frame{c, u.mul(math.Cos(rot)).add(w.mul(math.Sin(rot))), w.mul(math.Cos(rot)).add(u.mul(-math.Sin(rot)))}
}

// proj is the gnomonic projection; false outside 86 degrees of the centre.
func (f frame) proj(p vec) (xy, bool) {
	d := p.dot(f.c)
	if d < 0.07 {
		return xy{}, false
	}
	return xy{p.dot(f.e1) / d, p.dot(f.e2) / d}, true
}

func (f frame) unproj(q xy) vec { return f.c.add(f.e1.mul(q.x)).add(f.e2.mul(q.y)).norm() }

func cross2(a, b, c xy) float64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }

func distSeg(p, a, b xy) float64 {
	dx, dy := b.x-a.x, b.y-a.y
	l := dx*dx + dy*dy
	t := 0.0
	if l > 0 {
		t = math.Max(0, math.Min(1, ((p.x-a.x)*dx+(p.y-a.y)*dy)/l))
	}
	return math.Hypot(p.x-a.x-t*dx, p.y-a.y-t*dy)
}

func segsCross(a, b, c, d xy) bool {
	return cross2(a, b, c)*cross2(a, b, d) <= 0 && cross2(c, d, a)*cross2(c, d, b) <= 0
}

func distSegs(a, b, c, d xy) float64 {
	if segsCross(a, b, c, d) {
		return 0
	}
	return math.Min(math.Min(distSeg(a, c, d), distSeg(b, c, d)), math.Min(distSeg(c, a, b), distSeg(d, a, b)))
}

func inRing(p xy, r []xy) bool {
	in := false
	for i, j := 0, len(r)-1; i < len(r); j, i = i, i+1 {
		if (r[i].y > p.y) != (r[j].y > p.y) && p.x < (r[j].x-r[i].x)*(p.y-r[i].y)/(r[j].y-r[i].y)+r[i].x {
			in = !in
		}
	}
	return in
}

// shape is a geometry as the oracle sees it: a ring or a line in a frame.
type shape struct {
	f    frame
	pts  []xy
	ring bool
}

const tol = 1e-12

func shapeOf(coords []float64, f frame, ring bool) shape {
	s := shape{f: f, ring: ring}
	for i := 0; i+1 < len(coords); i += 2 {
		q, ok := f.proj(vecOf(coords[i+1], coords[i]))
		if !ok {
			panic(harnessError("geometry too large for the oracle"))
		}
		s.pts = append(s.pts, q)
	}
	return s
}

func (s shape) edges() [][2]xy {
	var es [][2]xy
	for i := range s.pts {
		if i+1 < len(s.pts) {
			es = append(es, [2]xy{s.pts[i], s.pts[i+1]})
		} else if s.ring {
			es = append(es, [2]xy{s.pts[i], s.pts[0]})
		}
	}
	return es
}

func (s shape) distEdges(p xy) float64 {
	d := math.Inf(1)
	for _, e := range s.edges() {
		d = math.Min(d, distSeg(p, e[0], e[1]))
	}
	return d
}

// quad is a cell in the frame of the shape; false if it is not all visible.
func (s shape) quad(c s2.CellID) ([]xy, bool) {
	cell := s2.CellFromCellID(c)
	var q []xy
	for i := 0; i < 4; i++ {
		p, ok := s.f.proj(vecOfPoint(cell.Vertex(i)))
		if !ok {
			return nil, false
		}
		q = append(q, p)
	}
	return q, true
}

// apart says that the cell certainly does not touch the shape.
func (s shape) apart(c s2.CellID) bool {
	q, ok := s.quad(c)
	if !ok {
		return false
	}
	for _, e := range s.edges() {
		for i := range q {
			if distSegs(e[0], e[1], q[i], q[(i+1)%4]) < 10*tol {
				return false
			}
		}
	}
	if inRing(s.pts[0], q) {
		return false
	}
	return !s.ring || !inRing(q[0], s.pts)
}

// pokesOut says that some point of the cell is certainly outside the ring.
func (s shape) pokesOut(c s2.CellID) bool {
	q, ok := s.quad(c)
	if !ok {
		return true // the shapes are smaller than what a frame shows
	}
	const n = 6
	for i := 0; i <= n; i++ {
		for j := 0; j <= n; j++ {
			u, v := float64(i)/n, float64(j)/n
			p := xy{
				(1-u)*(1-v)*q[0].x + u*(1-v)*q[1].x + u*v*q[2].x + (1-u)*v*q[3].x,
				(1-u)*(1-v)*q[0].y + u*(1-v)*q[1].y + u*v*q[2].y + (1-u)*v*q[3].y}
			if !inRing(p, s.pts) && s.distEdges(p) > 1e3*tol {
				return true
			}
		}
	}
	// an edge running through the cell, not only along its border
	c0 := xy{(q[0].x + q[1].x + q[2].x + q[3].x) / 4, (q[0].y + q[1].y + q[2].y + q[3].y) / 4}
	k := make([]xy, 4)
	for i := range q {
		k[i] = xy{c0.x + (q[i].x-c0.x)*(1-1e-6), c0.y + (q[i].y-c0.y)*(1-1e-6)}
	}
	for _, e := range s.edges() {
		if inRing(e[0], k) {
			return true
		}
		for i := range k {
			if segsCross(e[0], e[1], k[i], k[(i+1)%4]) && math.Hypot(k[0].x-k[2].x, k[0].y-k[2].y) > 1e-8 {
				return true
			}
		}
	}
	return false
}

// nudged lists the leaf cells of a point and of points a little around it: a
// point of a border may be in any of them.
func nudged(v vec) []s2.CellID {
	f := newFrame(v, 0.3)
	const e = 2e-11
	m := map[s2.CellID]bool{}
	r := []s2.CellID{}
	for _, d := range []xy{{0, 0}, {e, 0}, {-e, 0}, {0, e}, {0, -e}, {e, e}, {-e, e}, {e, -e}, {-e, -e}} {
		c := leafOf(f.unproj(d))
		if !m[c] {
			m[c] = true
			r = append(r, c)
		}
	}
	return r
}

// sample is a point of a geometry.
type sample struct {
	v     vec
	label int
}

// object is a geometry with what the oracle knows about it.
type object struct {
	gd      *geodata.GeoData
	shapes  []shape
	pt      *vec
	samples []vec
	ext     Ev
}

// samplePoints picks points of the shapes: vertices, points of edges, and
// points of the inside away from the border.
func (o *object) samplePoints(rnd *rand.Rand, n int) {
	if o.pt != nil {
		o.samples = append(o.samples, *o.pt)
		return
	}
	n0 := n
	for _, s := range o.shapes {
		es := s.edges()
		n := n0
		if len(o.shapes) > 6 && n > 2 {
			n = 2
		} else if len(es) > 30 {
			n *= 2
		}
		for i := 0; i < n; i++ {
			e := es[rnd.Intn(len(es))]
			t := rnd.Float64()
			o.samples = append(o.samples, s.f.unproj(e[0]), s.f.unproj(xy{e[0].x + t*(e[1].x-e[0].x), e[0].y + t*(e[1].y-e[0].y)}))
		}
		if !s.ring {
			continue
		}
		lo, hi := s.pts[0], s.pts[0]
		for _, p := range s.pts {
			lo = xy{math.Min(lo.x, p.x), math.Min(lo.y, p.y)}
			hi = xy{math.Max(hi.x, p.x), math.Max(hi.y, p.y)}
		}
		for i := 0; i < 4*n; i++ {
			p := xy{lo.x + rnd.Float64()*(hi.x-lo.x), lo.y + rnd.Float64()*(hi.y-lo.y)}
			if inRing(p, s.pts) && s.distEdges(p) > 1e-9 {
				o.samples = append(o.samples, s.f.unproj(p))
			}
		}
	}
}

// apart: the cell touches no part of the object.
func (o *object) apart(c s2.CellID) bool {
	if o.pt != nil {
		for _, l := range nudged(*o.pt) {
			if inPath(l, c) {
				return false
			}
		}
		return true
	}
	for _, s := range o.shapes {
		if !s.apart(c) {
			return false
		}
	}
	return true
}

// inPath: cell a lies in cell b.
func inPath(a, b s2.CellID) bool {
	p, q := path(a), path(b)
	if len(p) < len(q) {
		return false
	}
	for i := range q {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func flat(f frame, pts []xy) []float64 {
	var r []float64
	for _, p := range pts {
		lat, lng := f.unproj(p).latlng()
		r = append(r, lng, lat)
	}
	return r
}

// simpleRing is a random simple polygon of about the unit size, counter
// clockwise: star shaped, a comb, a spiral-like U, a rectangle or a triangle.
func simpleRing(rnd *rand.Rand) []xy {
	var r []xy
	switch rnd.Intn(6) {
	case 0: // convex
		n := 3 + rnd.Intn(8)
		a := rnd.Float64() * 6
		for i := 0; i < n; i++ {
			t := a + 2*math.Pi*(float64(i)+0.8*rnd.Float64())/float64(n)
			r = append(r, xy{math.Cos(t), math.Sin(t)})
		}
	case 1, 2: // star
		n := 5 + rnd.Intn(12)
		if rnd.Intn(12) == 0 {
			n *= 2 + rnd.Intn(15)
		}
		for i := 0; i < n; i++ {
			t := 2 * math.Pi * (float64(i) + 0.5*rnd.Float64()) / float64(n)
			d := 0.1 + 0.9*rnd.Float64()
			r = append(r, xy{d * math.Cos(t), d * math.Sin(t)})
		}
	case 3: // comb
		n := 2 + rnd.Intn(4)
		r = append(r, xy{-1, -1}, xy{1, -1})
		for i := n; i >= 0; i-- {
			x := -1 + 2*float64(i)/float64(n)
			r = append(r, xy{x, 0.5 + 0.5*rnd.Float64()})
			if i > 0 {
				r = append(r, xy{x - 1/float64(n), -0.9 + 0.5*rnd.Float64()})
			}
		}
	case 4: // U
		w := 0.1 + 0.3*rnd.Float64()
		r = []xy{{-1, -1}, {1, -1}, {1, 1}, {1 - w, 1}, {1 - w, -1 + w}, {-1 + w, -1 + w}, {-1 + w, 1}, {-1, 1}}
	case 5:
		h := 0.05 + rnd.Float64()
		r = []xy{{-1, -h}, {1, -h}, {1, h}, {-1, h}}
	}
	return r
}

func scaled(r []xy, f float64) []xy {
	s := make([]xy, len(r))
	for i, p := range r {
		s[i] = xy{p.x * f, p.y * f}
	}
	return s
}

func rotated(r []xy, n int) []xy { return append(append([]xy{}, r[n:]...), r[:n]...) }

func reversed(r []xy) []xy {
	s := make([]xy, len(r))
	for i, p := range r {
		s[len(r)-1-i] = p
	}
	return s
}

// place is a random position: anywhere, or where the globe has its seams.
func place(rnd *rand.Rand) vec {
	switch rnd.Intn(8) {
	case 0:
		return vecOf(89.9999-rnd.Float64()*3*float64(rnd.Intn(2)), rnd.Float64()*360-180)
	case 1:
		return vecOf(-89.9999+rnd.Float64()*3*float64(rnd.Intn(2)), rnd.Float64()*360-180)
	case 2:
		return vecOf(rnd.Float64()*160-80, 180-rnd.Float64()*1e-3)
	case 3:
		return vecOf(rnd.Float64()*160-80, -180+rnd.Float64()*1e-3)
	case 4: // a corner of the cube
		return vecOf(35.264389682754654*float64(1-2*rnd.Intn(2)), 45+90*float64(rnd.Intn(4)))
	case 5: // an edge of the cube, the equator
		return vecOf(0, 45*float64(rnd.Intn(8)))
	}
	v := vec{rnd.NormFloat64(), rnd.NormFloat64(), rnd.NormFloat64()}
	return v.norm()
}

// ringCoords returns coordinates of a ring: closed or not, any winding and any
// starting vertex.
func ringCoords(rnd *rand.Rand, f frame, r []xy) []float64 {
	r = rotated(r, rnd.Intn(len(r)))
	if rnd.Intn(2) == 0 {
		r = reversed(r)
	}
	c := flat(f, r)
	if rnd.Intn(2) == 0 {
		c = append(c, c[0], c[1])
	}
	return c
}

// newObject makes a geometry of the type and size (radians) around at.
func newObject(rnd *rand.Rand, typ geodata.Geometry_Type, at vec, size float64) *object {
	o := &object{}
	f := newFrame(at, rnd.Float64()*6)
	g := &geodata.Geometry{Type: typ}
	switch typ {
	case geodata.Geometry_POINT:
		lat, lng := at.latlng()
		g.Coordinates = []float64{lng, lat}
		v := vecOf(lat, lng)
		o.pt = &v
	case geodata.Geometry_LINESTRING:
		var pts []xy
		p := xy{(rnd.Float64() - 0.5) * size, (rnd.Float64() - 0.5) * size}
		n, step := 2+rnd.Intn(5), size*0.4
		if rnd.Intn(8) == 0 {
			// many, mostly close to each other
			n = 8 + rnd.Intn(1<<uint(3+rnd.Intn(6)))
			step *= 2 / math.Sqrt(float64(n))
		}
		for i := n; i > 0; i-- {
			pts = append(pts, p)
			d := step
			if n > 7 && rnd.Intn(n) < 2 {
				d = size * 0.5
			}
			p = xy{p.x + rnd.NormFloat64()*d, p.y + rnd.NormFloat64()*d}
		}
		switch rnd.Intn(5) {
		case 0: // ends where it starts
			pts = append(pts, pts[0])
		case 1: // a vertex twice in a row
			k := rnd.Intn(len(pts))
			pts = append(pts[:k+1], pts[k:]...)
		case 2: // there and back
			for k := len(pts) - 2; k >= rnd.Intn(2); k-- {
				pts = append(pts, pts[k])
			}
		}
		g.Coordinates = flat(f, pts)
		o.shapes = []shape{shapeOf(g.Coordinates, f, false)}
	case geodata.Geometry_POLYGON:
		g.Coordinates = ringCoords(rnd, f, scaled(simpleRing(rnd), size))
		o.shapes = []shape{shapeOf(open(g.Coordinates), f, true)}
	case geodata.Geometry_MULTIPOLYGON:
		if rnd.Intn(3) == 0 {
			// polygons that touch at the vertex all of them start at
			p := xy{rnd.NormFloat64() * size, rnd.NormFloat64() * size}
			turn := rnd.Float64() * 2 * math.Pi
			for i := 2 + rnd.Intn(2); i > 0; i-- {
				var pts []xy
				for j := 0; j < 3; j++ {
					a := turn + 2*math.Pi*(float64(i)/3+float64(j)/9+0.02)
					d := size * (0.3 + 0.6*rnd.Float64())
					pts = append(pts, xy{p.x + d*math.Cos(a), p.y + d*math.Sin(a)})
				}
				if rnd.Intn(2) == 0 {
					pts = reversed(pts)
				}
				k := &geodata.Geometry{Type: geodata.Geometry_POLYGON, Coordinates: flat(f, append([]xy{p}, pts...))}
				if rnd.Intn(2) == 0 {
					k.Coordinates = append(k.Coordinates, k.Coordinates[:2]...)
				}
				g.Geometries = append(g.Geometries, k)
				o.shapes = append(o.shapes, shapeOf(open(k.Coordinates), f, true))
			}
			break
		}
		n := 1 + rnd.Intn(3)
		if rnd.Intn(12) == 0 {
			n *= 1 + rnd.Intn(10)
		}
		for i := n; i > 0; i-- {
			at2 := f.unproj(xy{rnd.NormFloat64() * size * 3, rnd.NormFloat64() * size * 3})
			k := newObject(rnd, geodata.Geometry_POLYGON, at2, size)
			g.Geometries = append(g.Geometries, k.gd.Geometry)
			o.shapes = append(o.shapes, k.shapes...)
		}
	}
	o.gd = &geodata.GeoData{Geometry: g}
	return o
}

// open drops the repeated first point of a ring.
func open(c []float64) []float64 {
	n := len(c)
	if n >= 4 && c[0] == c[n-2] && c[1] == c[n-1] {
		return c[:n-2]
	}
	return c
}

const earth = 40075017 / (2 * math.Pi) // radius in meters of the documented circumference

// distCell is the angle from a point to a cell.
func distCell(p vec, c s2.CellID) float64 {
	cell := s2.CellFromCellID(c)
	if cell.ContainsPoint(s2.PointFromCoords(p[0], p[1], p[2])) {
		return 0
	}
	d := math.Inf(1)
	for i := 0; i < 4; i++ {
		d = math.Min(d, distGeodesic(p, vecOfPoint(cell.Vertex(i)), vecOfPoint(cell.Vertex((i+1)%4))))
	}
	return d
}

func distGeodesic(p, a, b vec) float64 {
	d := math.Min(p.angle(a), p.angle(b))
	n := a.cross(b)
	if n.dot(n) == 0 {
		return d
	}
	n = n.norm()
	// the closest point of the great circle, if it is between a and b
	q := p.add(n.mul(-p.dot(n)))
	if q.dot(q) == 0 {
		return math.Abs(math.Asin(p.dot(n)))
	}
	q = q.norm()
	if a.cross(q).dot(n) >= 0 && q.cross(b).dot(n) >= 0 {
		d = math.Min(d, p.angle(q))
	}
	return d
}

func circle(a float64) []xy { return []xy{{math.Cos(a), math.Sin(a)}} }
