package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

var (
	propF   = flag.String("prop", "", "property")
	seedF   = flag.Int64("seed", 1, "seed")
	secsF   = flag.Float64("secs", 5, "how long to look")
	maxF    = flag.Int("n", 1<<30, "how many cases")
	outF    = flag.String("out", "", "file for a violation")
	replayF = flag.String("replay", "", "run the case of a violation again")
	procsF  = flag.Int("procs", 8, "processes")
	caseF   = flag.Int("case", -1, "run only this case")
	stateF  = flag.String("state", "", "file for the cases being run")
)

func caseSeed(prop string, seed int64, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, i)
	return int64(h.Sum64() >> 1)
}

// runCase runs a case, and returns a violation if there is one
func runCase(prop string, seed int64, i int) (f *Failure, skipped bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(skip); ok {
			skipped = true
			return
		}
		x, ok := r.(failure)
		if !ok {
			x = failure{Failure{What: "panic", Got: fmt.Sprintf("%v\n%s", r, debug.Stack()), Want: "no panic"}}
		}
		x.f.Property, x.f.Seed, x.f.Case = prop, seed, i
		f = &x.f
	}()
	g := newG(rand.New(rand.NewSource(caseSeed(prop, seed, i))))
	props[prop](g)
	return nil, false
}

func main() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	if *replayF != "" {
		b, err := os.ReadFile(*replayF)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var x struct{ Failure *Failure }
		if err := json.Unmarshal(b, &x); err != nil || x.Failure == nil {
			fmt.Println("no failing input in", *replayF, err)
			os.Exit(2)
		}
		if f, _ := runCase(x.Failure.Property, x.Failure.Seed, x.Failure.Case); f != nil {
			b, _ := json.MarshalIndent(f, "", " ")
			fmt.Println(string(b))
			os.Exit(1)
		}
		fmt.Println("no violation")
		return
	}
	if props[*propF] == nil {
		fmt.Println("no property", *propF)
		os.Exit(2)
	}
	if *caseF >= 0 {
		*procsF, *maxF = 1, *caseF+1
	}
	var state *os.File
	if *stateF != "" {
		var err error
		if state, err = os.Create(*stateF); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	deadline := time.Now().Add(time.Duration(*secsF * float64(time.Second)))
	var next, ran, skipped int64
	if *caseF >= 0 {
		next = int64(*caseF)
	}
	var mu sync.Mutex
	var found *Failure
	started := make([]struct {
		sync.Mutex
		i int
		t time.Time
	}, *procsF)
	report := func(f *Failure) {
		mu.Lock()
		defer mu.Unlock()
		if found == nil || f.Case < found.Case {
			found = f
		}
	}
	finish := func() {
		mu.Lock()
		defer mu.Unlock()
		out := struct {
			Failure      *Failure
			Cases, Skips int64
			Paths        int
			Samples      []string
		}{found, atomic.LoadInt64(&ran), atomic.LoadInt64(&skipped), len(tried.seen), tried.samples}
		b, _ := json.MarshalIndent(out, "", " ")
		if *outF != "" {
			os.WriteFile(*outF, b, 0o644)
		}
		fmt.Println(string(b))
		if found != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
	var wg sync.WaitGroup
	for w := 0; w < *procsF; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				stop := found != nil
				mu.Unlock()
				i := int(atomic.AddInt64(&next, 1)) - 1
				if stop || i >= *maxF || time.Now().After(deadline) {
					return
				}
				started[w].Lock()
				started[w].i, started[w].t = i, time.Now()
				started[w].Unlock()
				if state != nil {
					state.WriteAt([]byte(fmt.Sprintf("%-15d\n", i)), int64(w)*16)
				}
				f, s := runCase(*propF, *seedF, i)
				atomic.AddInt64(&ran, 1)
				if s {
					atomic.AddInt64(&skipped, 1)
				}
				started[w].Lock()
				started[w].t = time.Time{}
				started[w].Unlock()
				if f != nil {
					report(f)
				}
			}
		}()
	}
	// a case which does not end
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			limit := 30 * time.Second
			if *propF == "C25" {
				limit = 15 * time.Second
			}
			metrics.Read(mem)
			if mem[0].Value.Uint64() > 8<<30 {
				limit = time.Second
			}
			for w := range started {
				started[w].Lock()
				i, t := started[w].i, started[w].t
				started[w].Unlock()
				if !t.IsZero() && time.Since(t) > limit {
					report(&Failure{Property: *propF, What: "does not end", Seed: *seedF, Case: i, Got: fmt.Sprintf("running for %v, %d MB of memory used", limit, mem[0].Value.Uint64()>>20), Want: "an end"})
					finish()
				}
			}
		}
	}()
	wg.Wait()
	finish()
}
