package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"github.com/akhenakh/oureadb/index/geodata"
	"github.com/golang/protobuf/proto"
	spb "github.com/golang/protobuf/ptypes/struct"
	"github.com/twpayne/go-geom"
	"github.com/twpayne/go-geom/encoding/geojson"
)

func bits(x float64) string { return strconv.FormatUint(math.Float64bits(x), 16) }

type feature struct {
	typ   string
	rings [][][]float64
	props map[string]interface{}
}

func ringsOf(rs [][][]float64) [][][]string {
	out := [][][]string{}
	for _, r := range rs {
		o := [][]string{}
		for _, p := range r {
			q := []string{}
			for _, x := range p {
				q = append(q, bits(x))
			}
			o = append(o, q)
		}
		out = append(out, o)
	}
	return out
}

// propsOf lists properties; names are coded so that they can be record fields.
func propsOf(m map[string]interface{}) Ev {
	e := Ev{}
	for k, v := range m {
		n := "p" + hx([]byte(k))
		switch v := v.(type) {
		case nil:
			e[n] = Ev{"k": "null", "v": ""}
		case bool:
			e[n] = Ev{"k": "bool", "v": strconv.FormatBool(v)}
		case int:
			e[n] = Ev{"k": "number", "v": bits(float64(v))}
		case float64:
			e[n] = Ev{"k": "number", "v": bits(v)}
		case string:
			e[n] = Ev{"k": "string", "v": "s" + hx([]byte(v))}
		default:
			e[n] = Ev{"k": "other", "v": ""}
		}
	}
	return e
}

func storedOf(gd *geodata.GeoData) Ev {
	t := map[geodata.Geometry_Type]string{geodata.Geometry_POINT: "Point", geodata.Geometry_LINESTRING: "LineString",
		geodata.Geometry_POLYGON: "Polygon", geodata.Geometry_MULTIPOLYGON: "MultiPolygon"}[gd.Geometry.Type]
	m := map[string]interface{}{}
	for k, v := range gd.Properties {
		switch x := v.GetKind().(type) {
		case *spb.Value_BoolValue:
			m[k] = x.BoolValue
		case *spb.Value_NumberValue:
			m[k] = x.NumberValue
		case *spb.Value_StringValue:
			m[k] = x.StringValue
		default:
			m[k] = []int{}
		}
	}
	rings := [][][]string{}
	parts := []*geodata.Geometry{gd.Geometry}
	if gd.Geometry.Type == geodata.Geometry_MULTIPOLYGON && len(gd.Geometry.Coordinates) == 0 {
		parts = gd.Geometry.Geometries
	} else if len(gd.Geometry.Geometries) > 0 {
		t = "several " + t
	}
	for _, g := range parts {
		c := g.Coordinates
		pos := [][]string{}
		for i := 0; i+1 < len(c); i += 2 {
			pos = append(pos, []string{bits(c[i]), bits(c[i+1])})
		}
		if len(c)%2 != 0 || g != gd.Geometry && g.Type != geodata.Geometry_POLYGON {
			t = "odd " + t
		}
		rings = append(rings, pos)
	}
	return Ev{"type": t, "rings": rings, "props": propsOf(m)}
}

// multi makes a stored multipolygon of the coordinates of features.
func (r *jsonRun) multi() *geodata.GeoData {
	gd := &geodata.GeoData{Geometry: &geodata.Geometry{Type: geodata.Geometry_MULTIPOLYGON}}
	for n := 1 + r.rnd.Intn(4); n > 0; n-- {
		g := &geodata.Geometry{Type: geodata.Geometry_POLYGON}
		for k := 3 + r.rnd.Intn(4); k > 0; k-- {
			g.Coordinates = append(g.Coordinates, float64(r.rnd.Intn(3601))/10-180, r.rnd.Float64()*180-90)
		}
		if r.rnd.Intn(2) == 0 {
			g.Coordinates = append(g.Coordinates, g.Coordinates[:2]...)
		}
		gd.Geometry.Geometries = append(gd.Geometry.Geometries, g)
	}
	f := r.feature()
	for k, v := range f.props {
		if gd.Properties == nil {
			gd.Properties = map[string]*spb.Value{}
		}
		switch x := v.(type) {
		case bool:
			gd.Properties[k] = &spb.Value{Kind: &spb.Value_BoolValue{BoolValue: x}}
		case float64:
			gd.Properties[k] = &spb.Value{Kind: &spb.Value_NumberValue{NumberValue: x}}
		case string:
			gd.Properties[k] = &spb.Value{Kind: &spb.Value_StringValue{StringValue: x}}
		}
	}
	return gd
}

type jsonRun struct {
	t   *Trace
	rnd *rand.Rand
	n   int
}

func (r *jsonRun) num() float64 {
	switch r.rnd.Intn(8) {
	case 0:
		return float64(r.rnd.Intn(361) - 180)
	case 1:
		return []float64{0, math.Copysign(0, -1), 1e-300, 5e-324, 1e17, 123456789012345680, -1e21, 1e21, 0.1, 1.0 / 3, 180, -180, 90}[r.rnd.Intn(13)]
	case 2:
		return math.Float64frombits(r.rnd.Uint64()&^(0x7ff<<52) | uint64(1000+r.rnd.Intn(40))<<52)
	}
	return r.rnd.Float64()*360 - 180
}

var words = []string{"", "a", "name", "été", "<b>&amp;", "\x00", "\u2028", "quote\"s\\", "日本語", "0", "null", " ", "a.b", "𝄞", "line\nfeed\ttab"}

func (r *jsonRun) feature() feature {
	rnd := r.rnd
	f := feature{props: map[string]interface{}{}}
	dims := []int{2, 2, 2, 3, 3}[rnd.Intn(5)]
	pos := func() []float64 {
		p := make([]float64, dims)
		for i := range p {
			p[i] = r.num()
		}
		return p
	}
	ring := func(n int) [][]float64 {
		c := [][]float64{}
		for i := 0; i < n; i++ {
			c = append(c, pos())
		}
		return c
	}
	switch rnd.Intn(9) {
	case 0, 1, 2:
		f.typ, f.rings = "Point", [][][]float64{ring(1)}
	case 3, 4:
		f.typ, f.rings = "LineString", [][][]float64{ring(2 + rnd.Intn(8))}
	case 5, 6, 7:
		f.typ = "Polygon"
		for i := rnd.Intn(3) + 1; i > 0; i-- {
			c := ring(3 + rnd.Intn(6))
			if rnd.Intn(4) > 0 {
				c = append(c, append([]float64{}, c[0]...))
			}
			f.rings = append(f.rings, c)
		}
	case 8:
		f.typ = []string{"MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "none"}[rnd.Intn(5)]
		f.rings = [][][]float64{ring(3)}
	}
	for i := rnd.Intn(5); i > 0; i-- {
		k := words[rnd.Intn(len(words))]
		switch rnd.Intn(5) {
		case 0:
			f.props[k] = rnd.Intn(2) == 0
		case 1:
			f.props[k] = r.num()
		case 2, 3:
			f.props[k] = words[rnd.Intn(len(words))]
		case 4:
			f.props[k] = nil
		}
	}
	if rnd.Intn(12) == 0 {
		f.props[words[rnd.Intn(len(words))]] = []interface{}{[]interface{}{}, map[string]interface{}{}, []interface{}{1.0}, map[string]interface{}{"a": "b"}}[rnd.Intn(4)]
	}
	return f
}

// asText parses the feature from GeoJSON text.
func (r *jsonRun) asText(f feature) *geojson.Feature {
	var g interface{}
	switch f.typ {
	case "Point":
		g = map[string]interface{}{"type": f.typ, "coordinates": f.rings[0][0]}
	case "LineString", "MultiPoint":
		g = map[string]interface{}{"type": f.typ, "coordinates": f.rings[0]}
	case "Polygon", "MultiLineString":
		g = map[string]interface{}{"type": f.typ, "coordinates": f.rings}
	case "MultiPolygon":
		g = map[string]interface{}{"type": f.typ, "coordinates": [][][][]float64{f.rings}}
	case "GeometryCollection":
		g = map[string]interface{}{"type": f.typ, "geometries": []interface{}{}}
	}
	b, err := json.Marshal(map[string]interface{}{"type": "Feature", "properties": f.props, "geometry": g})
	must(err)
	if r.rnd.Intn(2) == 0 {
		var x geojson.Feature
		must(x.UnmarshalJSON(b))
		return &x
	}
	b, err = json.Marshal(map[string]interface{}{"type": "FeatureCollection", "features": []json.RawMessage{b}})
	must(err)
	var fc geojson.FeatureCollection
	must(fc.UnmarshalJSON(b))
	return fc.Features[0]
}

// asGeom builds the feature from go-geom values, with a measure at times.
func (r *jsonRun) asGeom(f feature) *geojson.Feature {
	layout := map[int]geom.Layout{2: geom.XY, 3: geom.XYZ}[len(f.rings[0][0])]
	if layout == geom.XYZ && r.rnd.Intn(2) == 0 {
		layout = geom.XYM
	}
	flat := []float64{}
	ends := []int{}
	for _, rg := range f.rings {
		for _, p := range rg {
			flat = append(flat, p...)
		}
		ends = append(ends, len(flat))
	}
	x := &geojson.Feature{Properties: map[string]interface{}{}}
	switch f.typ {
	case "Point":
		x.Geometry = geom.NewPointFlat(layout, flat)
	case "LineString":
		x.Geometry = geom.NewLineStringFlat(layout, flat)
	case "Polygon":
		x.Geometry = geom.NewPolygonFlat(layout, flat, ends)
	case "MultiPoint":
		x.Geometry = geom.NewMultiPointFlat(layout, flat)
	case "MultiLineString":
		x.Geometry = geom.NewMultiLineStringFlat(layout, flat, ends)
	case "MultiPolygon":
		x.Geometry = geom.NewMultiPolygonFlat(layout, flat, [][]int{ends})
	case "GeometryCollection":
		x.Geometry = geom.NewGeometryCollection()
	}
	for k, v := range f.props {
		x.Properties[k] = v
	}
	return x
}

// parsed reads a GeoJSON feature without the library.
func parsed(raw map[string]interface{}) Ev {
	g, _ := raw["geometry"].(map[string]interface{})
	typ, _ := g["type"].(string)
	var rings [][][]float64
	floats := func(v interface{}) (p []float64) {
		for _, x := range v.([]interface{}) {
			p = append(p, x.(float64))
		}
		return
	}
	ring := func(v interface{}) (c [][]float64) {
		for _, p := range v.([]interface{}) {
			c = append(c, floats(p))
		}
		return
	}
	switch typ {
	case "Point":
		rings = [][][]float64{{floats(g["coordinates"])}}
	case "LineString":
		rings = [][][]float64{ring(g["coordinates"])}
	case "Polygon":
		for _, c := range g["coordinates"].([]interface{}) {
			rings = append(rings, ring(c))
		}
	case "MultiPolygon":
		for _, p := range g["coordinates"].([]interface{}) {
			cs := p.([]interface{})
			if len(cs) != 1 {
				typ = "MultiPolygon with holes"
				continue
			}
			rings = append(rings, ring(cs[0]))
		}
	}
	props, _ := raw["properties"].(map[string]interface{})
	return Ev{"type": typ, "rings": ringsOf(rings), "props": propsOf(props)}
}

func jsonHistory(t *Trace, seed int64) {
	r := &jsonRun{t: t, rnd: rand.New(rand.NewSource(seed))}
	stored := map[int]*geodata.GeoData{}
	pick := func(points bool) (ss []int, gs []*geodata.GeoData) {
		ids := sortedKeys(stored)
		for i := r.rnd.Intn(6); i > 0 && len(ids) > 0; i-- {
			k := ids[r.rnd.Intn(len(ids))]
			if points && stored[k].Geometry.Type != geodata.Geometry_POINT && r.rnd.Intn(12) > 0 {
				continue
			}
			ss = append(ss, k)
			gs = append(gs, stored[k])
		}
		return
	}
	for i := 0; i < 12; i++ {
		f := r.feature()
		n := i + 1
		t.add(Ev{"op": "feature", "n": n, "f": Ev{"type": f.typ, "rings": ringsOf(f.rings), "props": propsOf(f.props)}})
		var x *geojson.Feature
		if r.rnd.Intn(2) == 0 {
			x = r.asText(f)
		} else {
			for k, v := range f.props {
				if _, ok := v.(float64); ok && r.rnd.Intn(2) == 0 {
					// a whole number given as an int
					j := r.rnd.Intn(2000000) - 1000000
					f.props[k] = j
				}
			}
			t.Ev[len(t.Ev)-1]["f"] = Ev{"type": f.typ, "rings": ringsOf(f.rings), "props": propsOf(f.props)}
			x = r.asGeom(f)
		}
		gd := &geodata.GeoData{}
		if ids := sortedKeys(stored); len(ids) > 0 && r.rnd.Intn(3) == 0 {
			// one that held another object before
			gd.Geometry = cloneGD(stored[ids[r.rnd.Intn(len(ids))]]).Geometry
		}
		err := geodata.GeoJSONFeatureToGeoData(x, gd)
		got := Ev{}
		if err == nil {
			got = storedOf(gd)
			stored[n] = gd
		}
		t.add(Ev{"op": "convert", "n": n, "s": n, "ok": err == nil, "err": fmt.Sprint(err), "got": got})
		if err == nil {
			b, err := proto.Marshal(gd)
			mustReal(err)
			back := &geodata.GeoData{}
			mustReal(proto.Unmarshal(b, back))
			t.add(Ev{"op": "wire", "s": n, "got": storedOf(back)})
			if r.rnd.Intn(2) == 0 {
				stored[n] = back
			}
			g, err := geodata.GeoDataToGeom(stored[n])
			mustReal(err)
			t.add(Ev{"op": "geom", "s": n, "ok": true, "got": ofGeom(g)})
		}
		if r.rnd.Intn(5) == 0 {
			n := 100 + i
			gd := r.multi()
			stored[n] = gd
			t.add(Ev{"op": "make", "s": n, "got": storedOf(gd)})
			b, err := proto.Marshal(gd)
			mustReal(err)
			back := &geodata.GeoData{}
			mustReal(proto.Unmarshal(b, back))
			t.add(Ev{"op": "wire", "s": n, "got": storedOf(back)})
			_, err = geodata.GeoDataToGeom(back)
			t.add(Ev{"op": "geom", "s": n, "ok": err == nil, "got": Ev{"type": "", "rings": []int{}}})
		}
		if r.rnd.Intn(2) == 0 {
			ss, gs := pick(false)
			b, err := geodata.ToGeoJSONFeatureCollection(gs)
			mustReal(err)
			var fc struct {
				Type     string
				Features []map[string]interface{}
			}
			mustReal(json.Unmarshal(b, &fc))
			got := []Ev{}
			for _, f := range fc.Features {
				got = append(got, parsed(f))
			}
			if ss == nil {
				ss = []int{}
			}
			t.add(Ev{"op": "collection", "ss": ss, "got": got})
		}
		if ss, gs := pick(true); len(ss) > 1 {
			b, err := geodata.PointsToGeoJSONPolyLines(gs)
			got := Ev{"type": "", "rings": []int{}}
			if err == nil {
				var m map[string]interface{}
				mustReal(json.Unmarshal(b, &m))
				got = parsed(m)
			}
			t.add(Ev{"op": "polyline", "ss": ss, "ok": err == nil, "got": got})
		}
	}
}

func ofGeom(g geom.T) Ev {
	var typ string
	ends := []int{len(g.FlatCoords())}
	switch x := g.(type) {
	case *geom.Point:
		typ = "Point"
	case *geom.LineString:
		typ = "LineString"
	case *geom.Polygon:
		typ = "Polygon"
		ends = x.Ends()
	}
	rings := [][][]float64{}
	k := 0
	for _, e := range ends {
		c := [][]float64{}
		for ; k+g.Stride() <= e; k += g.Stride() {
			c = append(c, g.FlatCoords()[k:k+g.Stride()])
		}
		rings = append(rings, c)
	}
	return Ev{"type": typ, "rings": ringsOf(rings)}
}

func init() {
	drivers["C23"] = func(seed int64, thorough bool) []scenario {
		n := 300
		if thorough {
			n = 6000
		}
		var sc []scenario
		for i := 0; i < n; i++ {
			s := seed*1000003 + int64(i)
			sc = append(sc, scenario{fmt.Sprintf("C23/%d", s), func(t *Trace) { jsonHistory(t, s) }})
		}
		return sc
	}
}
