package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/golang/geo/s2"
)

func nibbles(c s2.CellID) []int {
	r := make([]int, 16)
	for i := range r {
		r[i] = int(uint64(c) >> uint(60-4*i) & 15)
	}
	return r
}

func nibbless(cu []s2.CellID) [][]int {
	r := [][]int{}
	for _, c := range cu {
		r = append(r, nibbles(c))
	}
	return r
}

// anyCell is a random valid cell, often at an extreme.
func anyCell(rnd *rand.Rand) s2.CellID {
	p := []int{rnd.Intn(6)}
	n := rnd.Intn(31)
	switch rnd.Intn(5) {
	case 0:
		n = 30
	case 1:
		n = rnd.Intn(4)
	}
	k := rnd.Intn(6)
	for i := 0; i < n; i++ {
		switch {
		case k == 0:
			p = append(p, 0)
		case k == 1:
			p = append(p, 3)
		case k == 2 && i < n-2:
			p = append(p, 0)
		default:
			p = append(p, rnd.Intn(4))
		}
	}
	return cellOf(p)
}

func faceDigits(p []int) string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(p[0]))
	b.WriteByte('/')
	for _, d := range p[1:] {
		b.WriteByte(byte('0' + d))
	}
	return b.String()
}

// token and decimal are written here, not by the library.
func token(c s2.CellID) string {
	return strings.TrimRight(fmt.Sprintf("%016x", uint64(c)), "0")
}

func decimal(c s2.CellID) string { return strconv.FormatUint(uint64(c), 10) }

func parseCell(s string) [][]int {
	got := [][]int{}
	if c := s2tools.ParseCellID(s); c != nil {
		got = append(got, nibbles(*c))
	}
	return got
}

func parseHistory(t *Trace, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	try := func(s string) {
		t.add(Ev{"op": "parse", "text": s, "s": ints([]byte(s)), "got": parseCell(s)})
	}
	chars := "0123456789abcdefABCDEFxX/+-_. gz\x00é"
	for i := 0; i < 40; i++ {
		c := anyCell(rnd)
		p := path(c)
		forms := []string{faceDigits(p), token(c), decimal(c)}
		for k, s := range forms {
			if k < 2 || len(s) >= 17 {
				t.add(Ev{"op": "forms", "id": nibbles(c), "path": path(c), "s": ints([]byte(s))})
			}
			try(s)
		}
		s := forms[rnd.Intn(3)]
		switch rnd.Intn(14) {
		case 0: // another character somewhere
			k := rnd.Intn(len(s))
			s = s[:k] + string(chars[rnd.Intn(len(chars))]) + s[k+1:]
		case 1:
			k := rnd.Intn(len(s) + 1)
			s = s[:k] + string(chars[rnd.Intn(len(chars))]) + s[k:]
		case 2:
			k := rnd.Intn(len(s))
			s = s[:k] + s[k+1:]
		case 3: // too long, or just not
			s = faceDigits(p)
			for len(s) < 30+rnd.Intn(8) {
				s += string('0' + byte(rnd.Intn(4)))
			}
		case 4:
			p[0] = 6 + rnd.Intn(6)
			s = faceDigits(p)
		case 5:
			s = strings.ToUpper(s)
		case 6:
			s = "0" + s
		case 7:
			s = s + "0"
		case 8: // any 64 bits
			x := rnd.Uint64() << uint(rnd.Intn(40))
			s = []string{strconv.FormatUint(x, 10), strconv.FormatUint(x, 16), fmt.Sprintf("%016x", x)}[rnd.Intn(3)]
		case 9: // more than 64 bits
			s = strconv.FormatUint(uint64(c), 10) + strconv.Itoa(rnd.Intn(10))
		case 10:
			s = "1844674407370955" + strconv.Itoa(1610+rnd.Intn(20))
		case 11:
			s = []string{"", "/", "0/", "5/", "6/", "X", "x", "0", "1", "00", "-1", "+1", "0x1", "1e3", " 2", "2 ", "2/ 1", "/2/1", "2//1", "12/1", "2/1/", "٣/1", "2/٣", "2/4", "2/-1", "3", "ffffffffffffffff", "10000000000000000"}[rnd.Intn(28)]
		case 12:
			s = ""
			for k := rnd.Intn(36); k >= 0; k-- {
				s += string(chars[rnd.Intn(len(chars))])
			}
		case 13:
			s = ""
			for k := rnd.Intn(24); k >= 0; k-- {
				s += string("0123456789abcdef"[rnd.Intn(16)])
			}
		}
		try(s)
	}
}

func cellsHistory(t *Trace, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	for i := 0; i < 25; i++ {
		var pool []s2.CellID
		c := anyCell(rnd)
		for k := 1 + rnd.Intn(6); k > 0; k-- {
			if rnd.Intn(2) == 0 {
				c = anyCell(rnd)
			}
			pool = append(pool, c)
			if p := path(c); len(p) < 31 && rnd.Intn(3) == 0 {
				for d := 0; d < 4; d++ {
					pool = append(pool, cellOf(append(append([]int{}, p...), d)))
				}
			}
		}
		most := 10
		if i%12 == 0 {
			// long lists, with all descendants of a cell in a level
			most = 400
			c := cellOf(path(c)[:1+rnd.Intn(len(path(c)))])
			if l := c.Level(); l < 30 {
				down := l + 1 + rnd.Intn(4)
				if down > 30 {
					down = 30
				}
				for k := c.ChildBeginAtLevel(down); k != c.ChildEndAtLevel(down); k = k.Next() {
					pool = append(pool, k)
				}
			}
		}
		list := func() s2.CellUnion {
			if most > 10 && rnd.Intn(3) == 0 {
				return append(s2.CellUnion{}, pool...)
			}
			n := rnd.Intn(most)
			if n == 0 && rnd.Intn(2) == 0 {
				return nil
			}
			l := make(s2.CellUnion, 0, n+3)
			for ; n > 0; n-- {
				l = append(l, pool[rnd.Intn(len(pool))])
			}
			return l
		}
		var lists []s2.CellUnion
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			lists = append(lists, list())
		}
		before := setOps(t, lists)
		toks := [][]int{}
		for _, s := range s2tools.CellUnionToTokens(lists[0]) {
			toks = append(toks, ints([]byte(s)))
		}
		if i%6 == 1 {
			longLists(t, rnd, pool)
		}
		t.add(Ev{"op": "tokens", "cu": before[0], "out": toks})
	}
}

// longLists makes the operations on lists of up to many thousands of cells,
// a few of them very often.
func longLists(t *Trace, rnd *rand.Rand, pool []s2.CellID) {
	near := []int{0, 1, 2, 100, 127, 128, 255, 256, 257, 1000}
	if rnd.Intn(3) == 0 {
		near = append(near, 32768, 65535, 65536, 65537)
	}
	list := func() (s2.CellUnion, []Ev) {
		var cu s2.CellUnion
		for k := rnd.Intn(5); k >= 0; k-- {
			c := pool[rnd.Intn(len(pool))]
			for n := near[rnd.Intn(len(near))] + rnd.Intn(2); n > 0; n-- {
				cu = append(cu, c)
			}
		}
		return cu, runs(cu)
	}
	from, fr := list()
	to, tr := list()
	missing := s2tools.CellUnionMissing(from, to)
	union := s2tools.CellUnionUnion(from, to)
	t.add(Ev{"op": "runs", "from": fr, "to": tr, "missing": runs(missing), "union": nibbless(union),
		"same": fmt.Sprint(runs(from), runs(to)) == fmt.Sprint(fr, tr)})
}

func runs(cu s2.CellUnion) []Ev {
	r := []Ev{}
	for i, c := range cu {
		if i > 0 && cu[i-1] == c {
			r[len(r)-1]["n"] = r[len(r)-1]["n"].(int) + 1
		} else {
			r = append(r, Ev{"id": nibbles(c), "n": 1})
		}
	}
	return r
}

// setOps makes the operations on these lists.
func setOps(t *Trace, lists []s2.CellUnion) [][][]int {
	before := [][][]int{}
	for _, l := range lists {
		before = append(before, nibbless(l))
	}
	same := func() bool {
		now := [][][]int{}
		for _, l := range lists {
			now = append(now, nibbless(l))
		}
		return fmt.Sprint(now) == fmt.Sprint(before)
	}
	// the spare capacity of an input is the caller's too
	spare := make([][]s2.CellID, len(lists))
	for k := range lists {
		spare[k] = lists[k][len(lists[k]):cap(lists[k])]
		for j := range spare[k] {
			spare[k][j] = 1
		}
	}
	clean := func() bool {
		for k := range spare {
			for _, c := range spare[k] {
				if c != 1 {
					return false
				}
			}
		}
		return true
	}
	out := s2tools.CellUnionUnion(lists[0], lists[1:]...)
	t.add(Ev{"op": "union", "lists": before, "out": nibbless(out), "same": same() && clean()})
	if len(lists) > 1 {
		out := s2tools.CellUnionMissing(lists[0], lists[1])
		t.add(Ev{"op": "missing", "from": before[0], "to": before[1], "out": nibbless(out), "same": same() && clean()})
		out = s2tools.CellUnionMissing(lists[1], lists[1])
		t.add(Ev{"op": "missing", "from": before[1], "to": before[1], "out": nibbless(out), "same": same() && clean()})
	}
	return before
}

// cellScripts makes what MCCellSets and MCCellText enumerate.
func cellScripts(id string, seed int64) []scenario {
	type script struct {
		Lists [][][]int `json:"lists"`
		S     []int     `json:"s"`
	}
	all := scriptLines(map[string]string{"C26": "MCCellSets", "C27": "MCCellText"}[id], seed, 1<<30)
	var sc []scenario
	for n := 0; len(all) > 0; n++ {
		m := 250
		if m > len(all) {
			m = len(all)
		}
		part := all[:m]
		all = all[m:]
		sc = append(sc, scenario{fmt.Sprintf("%s/model/%d", id, n), func(t *Trace) {
			for _, l := range part {
				var c script
				must(json.Unmarshal([]byte(l), &c))
				if (c.Lists == nil) != (id == "C27") {
					continue
				}
				if id == "C27" {
					text := string(byteSeq(c.S))
					t.add(Ev{"op": "parse", "text": text, "s": c.S, "got": parseCell(text)})
					continue
				}
				var lists []s2.CellUnion
				for _, l := range c.Lists {
					cu := make(s2.CellUnion, 0, len(l)+2)
					for _, p := range l {
						cu = append(cu, cellOf(p))
					}
					lists = append(lists, cu)
				}
				setOps(t, lists)
			}
		}})
	}
	return sc
}

func init() {
	for id, f := range map[string]func(*Trace, int64){"C26": cellsHistory, "C27": parseHistory} {
		id, f := id, f
		drivers[id] = func(seed int64, thorough bool) []scenario {
			n := 100
			if thorough {
				n = 2000
			}
			sc := cellScripts(id, seed)
			for i := 0; i < n; i++ {
				s := seed*1000003 + int64(i)
				sc = append(sc, scenario{fmt.Sprintf("%s/%d", id, s), func(t *Trace) { f(t, s) }})
			}
			return sc
		}
	}
}
