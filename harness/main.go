package main

import (
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var started, budget = time.Now(), 200 * time.Second

// late tells whether the driver used up its time: what is recorded is enough.
func late() bool { return time.Since(started) > budget }

// scenario is one recorded history of a property's driver.
type scenario struct {
	name string
	run  func(t *Trace)
}

type driver func(seed int64, thorough bool) []scenario

var drivers = map[string]driver{}

func main() {
	log.SetOutput(ioutil.Discard)
	prop := flag.String("p", "", "driver")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "output directory")
	only := flag.String("only", "", "comma separated scenario numbers")
	par := flag.Int("j", 6, "parallel scenarios")
	list := flag.Bool("n", false, "print the number of scenarios")
	child := flag.String("child", "", "internal: crash child")
	flag.Parse()

	if *child != "" {
		crashChild(*child, flag.Args())
		return
	}
	d := drivers[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no driver", *prop)
		os.Exit(3)
	}
	scratch = filepath.Join(*out, "scratch")
	os.MkdirAll(scratch, 0755)
	if *tier == "thorough" {
		budget = 3000 * time.Second
	}
	sc := d(*seed, *tier == "thorough")
	if *list {
		fmt.Println(len(sc))
		return
	}
	idx := []int{}
	if *only != "" {
		for _, s := range strings.Split(*only, ",") {
			i, err := strconv.Atoi(s)
			must(err)
			idx = append(idx, i)
		}
	} else {
		for i := range sc {
			idx = append(idx, i)
		}
	}
	res := make([]*Trace, len(idx))
	var wg sync.WaitGroup
	var next int32 = -1
	// the scenarios in progress, for the post mortem of a crash of the process
	var pm sync.Mutex
	running := map[int]bool{}
	note := func(i int, on bool) {
		pm.Lock()
		defer pm.Unlock()
		if on {
			running[i] = true
		} else {
			delete(running, i)
		}
		s := []string{}
		for i := range running {
			s = append(s, strconv.Itoa(i))
		}
		ioutil.WriteFile(filepath.Join(*out, "running"), []byte(strings.Join(s, ",")), 0644)
	}
	for j := 0; j < *par; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				n := int(atomic.AddInt32(&next, 1))
				if n >= len(idx) || atomic.LoadInt32(&hangs) > 3 || late() {
					return
				}
				i := idx[n]
				note(i, true)
				t := newTrace(fmt.Sprintf("%d:%s", i, sc[i].name))
				res[n] = guarded(t, sc[i].run)
				note(i, false)
			}
		}()
	}
	wg.Wait()
	f, err := os.Create(filepath.Join(*out, "traces.json"))
	must(err)
	_, err = f.WriteString("[\n")
	must(err)
	n := 0
	for _, t := range res {
		if t == nil {
			continue
		}
		if n > 0 {
			f.WriteString(",\n")
		}
		b, err := jsonOf(t)
		must(err)
		_, err = f.Write(b)
		must(err)
		n++
	}
	f.WriteString("\n]\n")
	must(f.Close())
	os.RemoveAll(scratch)
	fmt.Println("traces", n)
}
