package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
	"github.com/gorilla/mux"
)

type httpRun struct {
	class int // sizes of the geometries, -1 for all
	t     *Trace
	rnd   *rand.Rand
	// do answers a request: status (0 for none) and body
	do   func(method, path string, body []byte) (int, []byte)
	real bool
}

// corners are the corners of a cell, worked out from its place on its face.
func corners(c s2.CellID) [4]vec {
	p := path(c)
	cell := s2.CellFromCellID(c)
	var q [4]vec
	for i := range q {
		q[i] = vecOfPoint(cell.Vertex(i))
	}
	_ = p
	return q
}

// shown reads the features of an answer without the code under test.
func shown(body []byte) []Ev {
	out := []Ev{}
	var fc struct {
		Features []struct {
			Properties map[string]interface{}
			Geometry   struct {
				Type        string
				Coordinates [][][]float64
			}
		}
	}
	if err := json.Unmarshal(body, &fc); err != nil {
		return []Ev{{"id": []int{}, "uid": []int{}, "level": -1, "ring": []int{}, "closed": false, "dev": 0, "err": err.Error()}}
	}
	// far more than any answer expected here: the count alone tells
	if len(fc.Features) > 1600 {
		fc.Features = fc.Features[:1600]
	}
	for _, f := range fc.Features {
		id, _ := f.Properties["id"].(string)
		uid, _ := f.Properties["uid"].(string)
		level, _ := f.Properties["level"].(float64)
		e := Ev{"id": ints([]byte(id)), "uid": ints([]byte(uid)), "level": int(level), "closed": false, "dev": 1 << 30}
		ring := []int{}
		if n, err := strconv.ParseUint((id + "0000000000000000")[:16], 16, 64); err == nil && len(id) <= 16 && f.Geometry.Type == "Polygon" &&
			len(f.Geometry.Coordinates) == 1 && s2.CellID(n).IsValid() {
			q := corners(s2.CellID(n))
			dev := 0.0
			r := f.Geometry.Coordinates[0]
			for _, p := range r {
				if len(p) < 2 {
					dev = math.Inf(1)
					continue
				}
				best, at := math.Inf(1), 0
				for i := range q {
					if d := q[i].angle(vecOf(p[1], p[0])) / deg; d < best {
						best, at = d, i
					}
				}
				dev = math.Max(dev, best)
				ring = append(ring, at)
			}
			e["dev"] = int(math.Min(dev*1e12, 1<<30))
			e["closed"] = len(r) > 1 && fmt.Sprint(r[0]) == fmt.Sprint(r[len(r)-1])
		}
		e["ring"] = ring
		out = append(out, e)
	}
	return out
}

func (r *httpRun) cells() {
	rnd := r.rnd
	var toks []string
	for n := 1 + rnd.Intn(6); n > 0; n-- {
		toks = append(toks, token(anyCell(rnd)))
	}
	if rnd.Intn(6) == 0 && len(toks) > 1 {
		toks[1] = toks[0]
	}
	bad := rnd.Intn(5) == 0
	if bad {
		toks[rnd.Intn(len(toks))] = []string{"", "X", "zz", "0", "ffffffffffffffffff", "1/23", "é", "-1", "f", "ffffffffffffffff", " "}[rnd.Intn(11)]
	}
	q := "?cells=" + url.QueryEscape(strings.Join(toks, ","))
	if bad && rnd.Intn(4) == 0 {
		q, toks = []string{"", "?", "?cells", "?cells=", "?cells=,,", "?other=1", "?cells=%zz"}[rnd.Intn(7)], nil
	}
	st, body := r.do("GET", "/api/s2cells"+q, nil)
	list := [][]int{}
	for _, s := range toks {
		list = append(list, ints([]byte(s)))
	}
	fs := []Ev{}
	if st == 200 && !bad {
		fs = shown(body)
	}
	r.t.add(Ev{"op": "cells", "query": q, "tokens": list, "status": st, "features": fs})
}

type postedFeature struct {
	Nil    string `json:"nil"`
	Plain  bool   `json:"plain"`
	Type   string `json:"type"`
	N      int    `json:"n"`
	Closed bool   `json:"closed"`
}

func (r *httpRun) geojson() {
	rnd := r.rnd
	size := math.Exp(-13 + rnd.Float64()*12)
	if r.class >= 0 {
		size = math.Exp(-13 + float64(r.class) + rnd.Float64())
	}
	typ := []string{"Point", "LineString", "Polygon", "Polygon"}[rnd.Intn(4)]
	f := newFrame(place(rnd), rnd.Float64()*6)
	var pos [][]float64
	add := func(pts []xy) {
		c := flat(f, pts)
		for i := 0; i < len(c); i += 2 {
			pos = append(pos, c[i:i+2])
		}
	}
	ringy := scaled(simpleRing(rnd), size)
	closed := false
	switch typ {
	case "Point":
		add([]xy{{0, 0}})
	case "LineString":
		add(ringy)
		if size > 0.3 {
			pos = pos[:2]
		}
	case "Polygon":
		if rnd.Intn(2) == 0 {
			ringy = reversed(ringy)
		}
		add(rotated(ringy, rnd.Intn(len(ringy))))
		if closed = rnd.Intn(3) > 0; closed {
			pos = append(pos, pos[0])
		}
	}
	base := int(math.Round(math.Log2(math.Pi / 2 / size)))
	max := base + rnd.Intn(5) - 1
	min := max - rnd.Intn(4)
	fit := func(l int) int { return int(math.Max(0, math.Min(30, float64(l)))) }
	min, max = fit(min), fit(max)
	maxCells := []int{0, 1, 4, 8, 20, 50}[rnd.Intn(6)]
	limit := 150
	if rnd.Intn(12) == 0 {
		limit, maxCells = 1500, 200+rnd.Intn(1300)
		if max < 30 && rnd.Intn(2) == 0 {
			max = fit(base + 6)
		}
	}
	params := []string{strconv.Itoa(min), strconv.Itoa(max), strconv.Itoa(maxCells)}
	pf := postedFeature{"no", true, typ, len(pos), closed}
	var geometry interface{}
	alt := rnd.Intn(5) == 0
	coords := func() interface{} {
		p := pos
		if alt {
			p = nil
			for _, x := range pos {
				p = append(p, []float64{x[0], x[1], 12.5})
			}
		}
		switch pf.Type {
		case "Point":
			if len(p) == 0 {
				return []float64{}
			}
			return p[0]
		case "Polygon":
			rings := [][][]float64{p}
			if rnd.Intn(5) == 0 && len(p) > 3 {
				rings = append(rings, p[:3])
			}
			return rings
		}
		return p
	}
	props := map[string]interface{}{"a": 1.5, "b": "x", "c": nil, "d": true}
	if rnd.Intn(12) == 0 {
		props["pad"] = strings.Repeat("x", 1<<uint(8+rnd.Intn(15))-rnd.Intn(200))
	}
	body := "json"
	var text []byte
	nf := 1
	how := rnd.Intn(30)
	switch how {
	case 0: // too few positions
		pf.Type = []string{"LineString", "Polygon"}[rnd.Intn(2)]
		k := rnd.Intn(3)
		if pf.Type == "LineString" {
			k = 0
		}
		for len(pos) < 4 {
			pos = append(pos, pos[0])
		}
		pos = pos[:k]
		if pf.Type == "Polygon" && k == 2 && rnd.Intn(2) == 0 {
			pos = append(pos, pos[0])
			pf.Closed = true
		} else {
			pf.Closed = false
		}
		pf.N = len(pos)
	case 1, 2:
		pf.Type = []string{"MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "Blob", "", "point"}[rnd.Intn(7)]
	case 3:
		pf.Nil = "geometry"
	case 4:
		pf.Nil = "feature"
	case 5:
		pf.Plain = false
		props["z"] = []interface{}{[]int{1}, map[string]int{"q": 1}}[rnd.Intn(2)]
	case 6:
		nf = []int{0, 2, 3}[rnd.Intn(3)]
	case 7, 8:
		k := rnd.Intn(2)
		params[k] = []string{"31", "32", "100", "4294967296", "18446744073709551616", "99999999999999999999999"}[rnd.Intn(6)]
	case 9:
		params[2] = []string{"18446744073709551616", "9223372036854775808", "99999999999999999999999"}[rnd.Intn(3)]
	case 10:
		if !r.real {
			params[rnd.Intn(3)] = []string{"a", "-1", "1.5", "0x1", "1e1", "%20", "é"}[rnd.Intn(7)]
		}
	case 11, 12, 13:
		body = "other"
	}
	geom := map[string]interface{}{"type": pf.Type, "coordinates": coords()}
	switch pf.Type {
	case "MultiPolygon", "MultiLineString":
		geom["coordinates"] = [][][]float64{pos}
		if pf.Type == "MultiPolygon" {
			geom["coordinates"] = [][][][]float64{{pos}}
		}
	case "GeometryCollection":
		geom = map[string]interface{}{"type": pf.Type, "geometries": []interface{}{}}
	}
	geometry = geom
	feat := map[string]interface{}{"type": "Feature", "properties": props, "geometry": geometry}
	var one interface{} = feat
	if pf.Nil == "geometry" {
		feat["geometry"] = nil
		if rnd.Intn(2) == 0 {
			delete(feat, "geometry")
		}
	}
	if pf.Nil == "feature" {
		one = nil
	}
	features := []interface{}{}
	pfs := []postedFeature{}
	for i := 0; i < nf; i++ {
		features = append(features, one)
		pfs = append(pfs, pf)
	}
	text, err := json.Marshal(map[string]interface{}{"type": "FeatureCollection", "features": features})
	must(err)
	if body == "other" {
		switch rnd.Intn(7) {
		case 0:
			text = nil
		case 1:
			text = text[:rnd.Intn(len(text)-1)]
		case 2:
			text = []byte([]string{"null", "[]", "1", "\"x\"", "true", "{", "{}", "}", "<xml/>", "{\"features\":{}}", "{\"type\":\"FeatureCollection\"}", "{\"type\":\"FeatureCollection\",\"features\":null}",
				"{\"type\":\"FeatureCollection\",\"features\":[]}"}[rnd.Intn(13)])
		case 3:
			// positions that are none
			b, _ := json.Marshal(map[string]interface{}{"type": "FeatureCollection", "features": []interface{}{map[string]interface{}{
				"type": "Feature", "properties": nil, "geometry": map[string]interface{}{"type": []string{"Point", "LineString", "Polygon"}[rnd.Intn(3)],
					"coordinates": []interface{}{"x", nil, []string{"a", "b"}, map[string]int{}, true}[rnd.Intn(5)]}}}})
			text = b
		case 4:
			text = []byte(strings.Replace(string(text), "\"coordinates\":", "\"coordinates\":[{}],\"x\":", 1))
			if !bytes.Contains(text, []byte("[{}]")) {
				text = []byte("x")
			}
		case 5:
			text, _ = json.Marshal(one)
			text = append([]byte("?"), text...)
		case 6:
			text = bytes.Repeat([]byte{0}, rnd.Intn(100))
		}
	}
	// the cover, by the library, of the geometry as written above
	cover := [][]int{}
	if pf.Nil == "no" && body == "json" && nf == 1 && (how > 10 || (how == 10 && r.real)) {
		rc := &s2.RegionCoverer{MinLevel: min, MaxLevel: max, MaxCells: maxCells}
		var ps []s2.Point
		for _, p := range pos {
			ps = append(ps, s2.PointFromLatLng(s2.LatLngFromDegrees(p[1], p[0])))
		}
		var cu s2.CellUnion
		switch pf.Type {
		case "Point":
			cu = s2.CellUnion{leafOf(vecOf(pos[0][1], pos[0][0])).Parent(min)}
			cu = s2.CellUnion{leaf(pos[0][1], pos[0][0]).Parent(min)}
		case "LineString":
			pl := s2.Polyline(ps)
			cu = rc.Covering(&pl)
		case "Polygon":
			if closed {
				ps = ps[:len(ps)-1]
			}
			l := s2.LoopFromPoints(ps)
			l.Normalize()
			cu = rc.Covering(l)
		}
		cover = nibbless(cu)
		if len(cover) > limit {
			return
		}
	}
	st, ans := r.do("POST", "/api/geojson/"+strings.Join(params, "/"), text)
	fs := []Ev{}
	if st == 200 {
		fs = shown(ans)
	}
	par := func(i int) []int {
		s, err := url.PathUnescape(params[i])
		must(err)
		return ints([]byte(s))
	}
	if len(text) > 4000 {
		text = append(text[:4000:4000], "..."...)
	}
	r.t.add(Ev{"op": "geojson", "text": string(text), "params": strings.Join(params, "/"), "status": st, "features": fs, "cover": cover,
		"req": Ev{"min": par(0), "max": par(1), "cells": par(2), "body": body, "features": pfs}})
}

func handlersDo() func(method, path string, body []byte) (int, []byte) {
	m := mux.NewRouter()
	m.HandleFunc("/api/s2cells", s2tools.S2CellQueryHandler)
	m.HandleFunc("/api/geojson/{min_level}/{max_level}/{max_cells}", s2tools.GeoJSONToCellHandler).Methods("POST")
	return func(method, path string, body []byte) (int, []byte) {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest(method, path, bytes.NewReader(body)))
		return w.Code, w.Body.Bytes()
	}
}

// daemon starts the real program on a free port.
func daemon(exe string) (func(), func(method, path string, body []byte) (int, []byte)) {
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		port := l.Addr().(*net.TCPAddr).Port
		must(l.Close())
		c := exec.Command(exe, "-httpPort", strconv.Itoa(port))
		must(c.Start())
		dead := make(chan struct{})
		go func() { c.Wait(); close(dead) }()
		base := fmt.Sprintf("http://127.0.0.1:%d", port)
		for i := 0; i < 200; i++ {
			select {
			case <-dead:
				i = 200
			default:
			}
			if k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
				k.Close()
				return func() { c.Process.Kill(); <-dead }, func(method, path string, body []byte) (int, []byte) {
					rq, err := http.NewRequest(method, base+path, bytes.NewReader(body))
					must(err)
					rs, err := (&http.Client{Timeout: 30 * time.Second}).Do(rq)
					if err != nil {
						return 0, []byte(err.Error())
					}
					defer rs.Body.Close()
					b, err := ioutil.ReadAll(rs.Body)
					if err != nil {
						return 0, b
					}
					return rs.StatusCode, b
				}
			}
			time.Sleep(50 * time.Millisecond)
		}
		c.Process.Kill()
	}
	panic(harnessError("mapdebugger does not answer"))
}

// Requests made at the same time have geometries of about the same size (a
// class): should the code mix up their parameters, the answers are wrong, not
// astronomically large.
type classGate struct {
	sync.Mutex
	class, n int
}

func (g *classGate) enter(class int, t *Trace) {
	for {
		g.Lock()
		if g.n == 0 || g.class == class {
			g.class = class
			g.n++
			g.Unlock()
			return
		}
		g.Unlock()
		t.alive()
		time.Sleep(5 * time.Millisecond)
	}
}

func (g *classGate) leave() { g.Lock(); g.n--; g.Unlock() }

var httpGate classGate

func httpHistory(t *Trace, seed int64, exe string, class int) {
	r := &httpRun{t: t, rnd: rand.New(rand.NewSource(seed)), do: handlersDo(), class: class}
	n := 40
	if exe != "" {
		stop, do := daemon(exe)
		defer stop()
		r.do, r.real, n = do, true, 400
	}
	for i := 0; i < n; i++ {
		if r.rnd.Intn(3) == 0 {
			r.cells()
		} else {
			r.geojson()
		}
	}
}

func init() {
	drivers["C28"] = func(seed int64, thorough bool) []scenario {
		n := 120
		if thorough {
			n = 2500
		}
		var sc []scenario
		if exe := os.Getenv("MAPDEBUGGER"); exe != "" {
			sc = append(sc, scenario{fmt.Sprintf("C28/mapdebugger/%d", seed), func(t *Trace) { httpHistory(t, seed, exe, -1) }})
		}
		for i := 0; i < n; i++ {
			s := seed*1000003 + int64(i)
			class := i * 12 / n
			sc = append(sc, scenario{fmt.Sprintf("C28/%d", s), func(t *Trace) {
				httpGate.enter(class, t)
				defer httpGate.leave()
				httpHistory(t, s, "", class)
			}})
		}
		return sc
	}
}
