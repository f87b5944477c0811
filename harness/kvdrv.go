package main

import "fmt"

var kvProfiles = map[string]profile{
	"C01": {len: 260, tall: 1, odd: 1, set: 10, del: 4, merge: 1, reset: 2, exec: 6, look: 2, get: 3, reader: 1, creader: 2, reopen: 0, wide: 1, maxReaders: 2, keys: 9},
	"C02": {len: 220, tall: 1, set: 8, del: 3, merge: 5, reset: 2, exec: 8, look: 2, foreign: 1, poison: 3, odd: 2, get: 1, reader: 1, creader: 1, reopen: 1, wide: 1, maxReaders: 2, keys: 8},
	"C03": {len: 260, tall: 1, set: 4, del: 2, merge: 14, reset: 2, exec: 6, look: 2, poison: 0, maxReaders: 2, keys: 6},
	"C04": {len: 320, tall: 1, odd: 1, set: 8, del: 3, merge: 3, reset: 1, exec: 6, reader: 3, creader: 1, get: 3, scan: 6, piter: 2, riter: 2, iterOp: 6, compact: 1, maxReaders: 5, maxIters: 5, keys: 9, dvals: true},
	"C05": {len: 420, odd: 1, set: 10, del: 2, reset: 0, exec: 4, reader: 2, creader: 1, scan: 1, piter: 4, riter: 4, iterOp: 22, maxReaders: 3, maxIters: 4, keys: 16},
	"C06": {len: 300, tall: 1, set: 8, del: 3, merge: 8, reset: 1, exec: 6, look: 2, reader: 1, creader: 1, get: 8, mget: 2, held: 4, scan: 2, maxReaders: 3, keys: 8, owned: true},
	"C07": {len: 220, odd: 2, set: 8, del: 3, merge: 1, reset: 1, exec: 4, reader: 2, creader: 1, get: 3, mget: 10, maxReaders: 3, keys: 10},
	"C10": {len: 260, tall: 1, set: 14, del: 2, merge: 1, exec: 5, look: 1, reader: 1, creader: 1, scan: 3, iterOp: 2, piter: 1, compact: 3, maxReaders: 3, maxIters: 2, keys: 18, dvals: true},
}

// kvModels are the models whose behaviours are made on the real stores.
var kvModels = map[string][]string{
	"C01": {"MCKVbatch"}, "C02": {"MCKVfail"}, "C03": {"MCKVbatch"},
	"C04": {"MCKVsnap"}, "C05": {"MCKViter"}, "C06": {"MCKVbatch"}, "C07": {"MCKVmulti"}, "C10": {"MCKVcompact"},
}

func init() {
	for id, p := range kvProfiles {
		id, p := id, p
		drivers[id] = func(seed int64, thorough bool) []scenario {
			var sc []scenario
			n, ns := 40, 200
			if thorough {
				n, ns = 600, 4000
			}
			if id == "C07" {
				ns *= 4 // short ones
			}
			for _, m := range kvModels[id] {
				sc = append(sc, kvScripts(id, m, seed, ns)...)
			}
			if id == "C01" {
				for i := 0; i < n/4; i++ {
					s := seed*1000003 + int64(i)
					sc = append(sc, scenario{fmt.Sprintf("%s/null/%d", id, s), func(t *Trace) {
						t.Mode = "null"
						kvHistory(&Backend{"null", "null", conf{}}, t, s, p)
					}})
				}
			}
			for i := 0; i < n; i++ {
				for j, be := range backends {
					be := be
					if id == "C10" && be.Kind != "bolt" && be.Kind != "goleveldb" {
						continue
					}
					q := p
					if id == "C02" && i < 2 {
						q.bulk = i + 1
					}
					s := seed*1000003 + int64(i)*101 + int64(j)
					sc = append(sc, scenario{fmt.Sprintf("%s/%s/%d", id, be.Name, s), func(t *Trace) { kvHistory(be, t, s, q) }})
				}
			}
			return sc
		}
	}
}
