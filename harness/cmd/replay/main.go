// Command replay runs behaviours of the specification against the library.
//
//	replay [-seed N] [-suite N] [-scribble] FILE...
//
// Each input line is a JSON trace. One JSON report is written to stdout.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	"verif/harness/engine"
)

func main() {
	seed := flag.Int64("seed", 1, "seed")
	suite := flag.Int("suite", 0, "cipher suite override")
	scrib := flag.Bool("scribble", false, "overwrite buffers after use")
	alloc := flag.Bool("alloc", false, "watch allocations; one trace at a time")
	limit := flag.Duration("limit", 120*time.Second, "time limit per trace")
	max := flag.Int("max", 8, "keep so many mismatches of a kind and description")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel traces")
	flag.Parse()
	if *alloc {
		*workers = 1
	}
	debug.SetGCPercent(200)
	st := &engine.Stats{N: map[string]int{}}
	type job struct {
		tr *engine.Trace
	}
	jobs := make(chan job, 64)
	var mu sync.Mutex
	var out []engine.Mismatch
	var bad []string // traces with mismatches
	kept := map[string]int{}
	var wg sync.WaitGroup
	n, errs := 0, []string{}
	hangs := 0 // traces without an answer; their calls keep running
	start := make(chan struct{})
	if !*alloc {
		close(start)
	}
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := range jobs {
				mu.Lock()
				wait := *limit
				if hangs > 0 {
					wait /= 4
				}
				enough := hangs >= 3
				mu.Unlock()
				if enough {
					continue
				}
				done := make(chan []engine.Mismatch, 1)
				fail := make(chan string, 1)
				go func() {
					defer func() {
						if r := recover(); r != nil {
							fail <- fmt.Sprintf("trace %s: harness failure: %v\n%s", j.tr.ID, r, debug.Stack())
						}
					}()
					w := engine.NewWorld(j.tr, *seed, st)
					w.Scribble, w.Alloc = *scrib, *alloc
					done <- w.Run()
				}()
				var ms []engine.Mismatch
				select {
				case ms = <-done:
				case f := <-fail:
					mu.Lock()
					errs = append(errs, f)
					mu.Unlock()
				case <-time.After(wait):
					mu.Lock()
					hangs++
					mu.Unlock()
					ms = []engine.Mismatch{{Trace: j.tr.ID, Kind: "hang", Msg: "no answer within " + wait.String()}}
				}
				mu.Lock()
				if len(ms) > 0 {
					bad = append(bad, j.tr.ID)
				}
				for _, m := range ms {
					if k := m.Kind + " " + m.Tags; kept[k] < *max {
						kept[k]++
						out = append(out, m)
					}
				}
				mu.Unlock()
			}
		}()
	}
	var all []*engine.Trace
	for _, name := range flag.Args() {
		f, err := os.Open(name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			tr := new(engine.Trace)
			if err := json.Unmarshal(sc.Bytes(), tr); err != nil {
				fmt.Fprintf(os.Stderr, "%s: %v\n", name, err)
				os.Exit(3)
			}
			if *suite != 0 {
				tr.Suite = *suite
			}
			n++
			if *alloc { // nothing else may allocate while a trace runs
				all = append(all, tr)
				continue
			}
			jobs <- job{tr}
		}
		f.Close()
	}
	if *alloc {
		close(start)
		for _, tr := range all {
			jobs <- job{tr}
		}
	}
	close(jobs)
	wg.Wait()
	if out == nil {
		out = []engine.Mismatch{}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"traces": n, "stats": st.N, "mismatches": out, "bad": bad, "errors": errs, "facts": st.Facts})
	if len(errs) > 0 {
		os.Exit(3)
	}
}
