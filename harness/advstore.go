package main

import (
	"errors"
	"sync"

	"github.com/akhenakh/oureadb/store"
)

// advStore is a KVStore around a real one that holds its user to the contract
// of the interface: the buffers of an iterator are overwritten by its next
// move, open readers and iterators are counted, and calls fail when told to.
type advStore struct {
	store.KVStore
	mu      sync.Mutex
	readers int
	iters   int
	plan    map[string]int // call -> fails at the n-th one from now
	hit     string         // the call that failed
	poison  bool
}

var errInjected = errors.New("injected fault")

func newAdv(s store.KVStore) *advStore {
	return &advStore{KVStore: s, plan: map[string]int{}, poison: true}
}

func (s *advStore) fails(call string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	n, ok := s.plan[call]
	if !ok {
		return false
	}
	n--
	s.plan[call] = n
	if n != 0 {
		return false
	}
	delete(s.plan, call)
	s.hit = call
	return true
}

// arm plans a failure and forgets earlier ones.
func (s *advStore) arm(call string, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.plan = map[string]int{}
	s.hit = ""
	if call != "" {
		s.plan[call] = n
	}
}

// fault says what the failure that happened obliges the caller to.
func (s *advStore) fault() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch s.hit {
	case "":
		return "no"
	case "reader.close", "iter.close", "batch.close":
		return "may"
	}
	return "must"
}

func (s *advStore) released() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.readers == 0 && s.iters == 0
}

func (s *advStore) Reader() (store.KVReader, error) {
	if s.fails("reader") {
		return nil, errInjected
	}
	r, err := s.KVStore.Reader()
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	s.readers++
	s.mu.Unlock()
	return &advReader{KVReader: r, s: s}, nil
}

func (s *advStore) Writer() (store.KVWriter, error) {
	if s.fails("writer") {
		return nil, errInjected
	}
	w, err := s.KVStore.Writer()
	if err != nil {
		return nil, err
	}
	return &advWriter{w, s}, nil
}

type advWriter struct {
	store.KVWriter
	s *advStore
}

func (w *advWriter) NewBatchEx(o store.KVBatchOptions) ([]byte, store.KVBatch, error) {
	if w.s.fails("newbatchex") {
		return nil, nil, errInjected
	}
	return w.KVWriter.NewBatchEx(o)
}

func (w *advWriter) ExecuteBatch(b store.KVBatch) error {
	if w.s.fails("exec") {
		return errInjected
	}
	return w.KVWriter.ExecuteBatch(b)
}

type advReader struct {
	store.KVReader
	s      *advStore
	closed bool
}

func (r *advReader) Close() error {
	if r.closed {
		return errors.New("closed twice")
	}
	r.closed = true
	err := r.KVReader.Close()
	r.s.mu.Lock()
	r.s.readers--
	r.s.mu.Unlock()
	if r.s.fails("reader.close") {
		return errInjected
	}
	return err
}

func (r *advReader) iter(it store.KVIterator) store.KVIterator {
	r.s.mu.Lock()
	r.s.iters++
	r.s.mu.Unlock()
	return &advIter{it: it, s: r.s}
}

func (r *advReader) PrefixIterator(p []byte) store.KVIterator {
	return r.iter(r.KVReader.PrefixIterator(p))
}

func (r *advReader) RangeIterator(a, b []byte) store.KVIterator {
	return r.iter(r.KVReader.RangeIterator(a, b))
}

// advIter hands out buffers it overwrites at its next move.
type advIter struct {
	it     store.KVIterator
	s      *advStore
	bufs   [][]byte
	closed bool
}

func (i *advIter) lend(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := make([]byte, len(b), len(b)+8)
	copy(c, b)
	i.bufs = append(i.bufs, c)
	return c
}

func (i *advIter) reclaim() {
	for _, b := range i.bufs {
		b = b[:cap(b)]
		for j := range b {
			b[j] = 0xAA
		}
	}
	i.bufs = nil
}

func (i *advIter) Seek(k []byte) { i.reclaim(); i.it.Seek(k) }
func (i *advIter) Next()         { i.reclaim(); i.it.Next() }
func (i *advIter) Key() []byte   { return i.lend(i.it.Key()) }
func (i *advIter) Value() []byte { return i.lend(i.it.Value()) }
func (i *advIter) Valid() bool   { return i.it.Valid() }

func (i *advIter) Current() ([]byte, []byte, bool) {
	k, v, ok := i.it.Current()
	return i.lend(k), i.lend(v), ok
}

func (i *advIter) Close() error {
	i.reclaim()
	if i.closed {
		return errors.New("closed twice")
	}
	i.closed = true
	err := i.it.Close()
	i.s.mu.Lock()
	i.s.iters--
	i.s.mu.Unlock()
	if i.s.fails("iter.close") {
		return errInjected
	}
	return err
}
