// Shows the finding: what a crash leaves of the first write to the value log
// since the store was reopened (nothing, rubbish, zeros, half of it) decides
// whether the long values of all earlier batches are read afterwards.
// Prints the lengths of B1, B2 and another key after each reopening.
// Run it in a module that requires github.com/akhenakh/oureadb (harness/).
package main

import (
	"bytes"
	"fmt"
	"github.com/akhenakh/oureadb/store/badger"
	"os"
	"path/filepath"
)

type mo struct{}

func (mo) FullMerge(k, e []byte, o [][]byte) ([]byte, bool) { return nil, false }
func (mo) PartialMerge(k, l, r []byte) ([]byte, bool)       { return nil, false }
func (mo) Name() string                                     { return "x" }
func main() {
	for _, mode := range []string{"none", "garbage", "zeros", "half"} {
		d, _ := os.MkdirTemp("", "finding")
		defer os.RemoveAll(d)
		open := func() (func(string) int, func(string, int), func()) {
			s, err := badger.New(mo{}, map[string]interface{}{"path": d})
			if err != nil {
				panic(err)
			}
			w, _ := s.Writer()
			return func(k string) int {
					r, _ := s.Reader()
					defer r.Close()
					v, err := r.Get([]byte(k))
					if err != nil {
						fmt.Println(err)
					}
					it := r.RangeIterator(nil, nil)
					for it.Valid() {
						if string(it.Key()) == k && len(it.Value()) != len(v) {
							fmt.Println("iter", len(it.Value()))
						}
						it.Next()
					}
					it.Close()
					return len(v)
				},
				func(k string, n int) {
					b := w.NewBatch()
					b.Set([]byte(k), bytes.Repeat([]byte{7}, n))
					if err := w.ExecuteBatch(b); err != nil {
						panic(err)
					}
				}, func() { s.Close() }
		}
		g, s, c := open()
		s("B1", 300000)
		s("B2", 301000)
		s("a", 10)
		c()
		m, _ := filepath.Glob(d + "/*.vlog")
		f := m[len(m)-1]
		st, _ := os.Stat(f)
		fmt.Println(mode, m, st.Size())
		b, _ := os.ReadFile(f)
		switch mode {
		case "garbage":
			b = append(b, bytes.Repeat([]byte{0x55}, 400000)...)
		case "zeros":
			b = append(b, make([]byte, 400000)...)
		case "half":
			x := append([]byte{}, b...)
			b = append(x, b[:200000]...)
		}
		os.WriteFile(f, b, 0600)
		g, s, c = open()
		fmt.Println(g("B1"), g("B2"), g("a"))
		s("c", 200000)
		fmt.Println(g("B1"), g("B2"), g("c"))
		c()
		g, s, c = open()
		fmt.Println(g("B1"), g("B2"), g("c"))
		c()
	}
}
