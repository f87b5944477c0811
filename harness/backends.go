package main

import (
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/akhenakh/oureadb/store"
	"github.com/akhenakh/oureadb/store/badger"
	"github.com/akhenakh/oureadb/store/boltdb"
	"github.com/akhenakh/oureadb/store/goleveldb"
	"github.com/akhenakh/oureadb/store/gtreap"
	"github.com/akhenakh/oureadb/store/null"
)

// Backend is one store implementation under one configuration.
type Backend struct {
	Name string
	Kind string
	Conf map[string]interface{}
}

type conf = map[string]interface{}

func (b *Backend) persistent() bool { return b.Kind != "gtreap" && b.Kind != "null" }

// open opens (or creates) the store of this configuration in dir.
func (b *Backend) open(dir string, mo store.MergeOperator) (store.KVStore, error) {
	return b.openWith(dir, mo, nil)
}

func (b *Backend) openWith(dir string, mo store.MergeOperator, extra conf) (store.KVStore, error) {
	c := conf{}
	for k, v := range b.Conf {
		c[k] = v
	}
	for k, v := range extra {
		c[k] = v
	}
	p := filepath.Join(dir, "db")
	if b.Kind == "gtreap" || b.Kind == "null" {
		p = ""
	}
	if _, ok := c["path"]; !ok {
		c["path"] = p
	}
	return newStore(b.Kind, mo, c)
}

func newStore(kind string, mo store.MergeOperator, c conf) (store.KVStore, error) {
	switch kind {
	case "bolt":
		return boltdb.New(mo, c)
	case "goleveldb":
		return goleveldb.New(mo, c)
	case "badger":
		return badger.New(mo, c)
	case "gtreap":
		return gtreap.New(mo, c)
	case "null":
		return null.New(mo, c)
	}
	panic(harnessError("unknown kind " + kind))
}

var backends = []*Backend{
	{"bolt", "bolt", conf{}},
	{"bolt-tuned", "bolt", conf{"bucket": "other", "nosync": true, "fillPercent": 0.1}},
	{"goleveldb", "goleveldb", conf{"create_if_missing": true}},
	{"goleveldb-tuned", "goleveldb", conf{"create_if_missing": true,
		"write_buffer_size": float64(600), "block_size": float64(64), "block_restart_interval": float64(2),
		"lru_cache_capacity": float64(1), "bloom_filter_bits_per_key": float64(10)}},
	{"badger", "badger", conf{}},
	{"gtreap", "gtreap", conf{}},
}

func backend(name string) *Backend {
	for _, b := range backends {
		if b.Name == name {
			return b
		}
	}
	panic(harnessError("no backend " + name))
}

// scratch is the directory every store of this run lives in.
var scratch string

func tmpDir() string {
	d, err := ioutil.TempDir(scratch, "s")
	must(err)
	return d
}

// prefill grows the file of a bolt store and frees the pages again: a batch
// that has to grow the memory map waits for all open readers, which the
// single threaded drivers keep open.
func prefill(b *Backend, s store.KVStore) {
	if b.Kind != "bolt" {
		return
	}
	w, err := s.Writer()
	mustReal(err)
	val := make([]byte, 512<<10)
	ba := w.NewBatch()
	for i := 0; i < 16; i++ {
		ba.Set([]byte{'p', byte(i)}, val)
	}
	mustReal(w.ExecuteBatch(ba))
	ba = w.NewBatch()
	for i := 0; i < 16; i++ {
		ba.Delete([]byte{'p', byte(i)})
	}
	mustReal(w.ExecuteBatch(ba))
	mustReal(w.Close())
}

func rmDir(d string) {
	if d != "" {
		os.RemoveAll(d)
	}
}
