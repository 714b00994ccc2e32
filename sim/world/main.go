package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// binDir is where the simulated programs are.
func binDir() string {
	if d := os.Getenv("CRLSIM_BIN"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Join(filepath.Dir(exe), "bin")
}

var devScratch = "/dev/shm/crlsim.0000001/w0" + devW()

func devW() string {
	if w := os.Getenv("CRLSIM_W"); w != "" {
		return w
	}
	return "0"
}

func main() {
	switch os.Args[1] {
	case "one":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		pl := genPlan(seed, os.Args[2])
		t0 := time.Now()
		res := runPlan(pl, devScratch, binDir(), os.Getenv("CRLSIM_TRACE"), nil)
		fmt.Printf("seed %d digest %x events %d sim %.0fs wall %.3fs err %v budget %v probes %v fired %d yields %d\n", seed, res.Digest, res.Events, float64(res.SimTime)/1e9, time.Since(t0).Seconds(), res.Err, res.Budget, res.Probes, len(res.Fired), res.Yields)
		for _, v := range res.Viol {
			fmt.Printf("  VIOL %s %s at %.1f: %s\n", v.Property, v.Class, float64(v.At)/1e9, v.Detail)
		}
	case "check": // check <property> <tier>
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay": // replay <file> [<trace file>]
		tr := ""
		if len(os.Args) > 3 {
			tr = os.Args[3]
		}
		os.Exit(replay(os.Args[2], tr))
	case "pin": // pin <property> <class> <flavor> <seed> <out>
		os.Exit(pin(os.Args[2], os.Args[3], os.Args[4], os.Args[5], os.Args[6]))
	case "plan": // plan <flavor> <seed>
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(genPlan(seed, os.Args[2]), "", " ")
		fmt.Println(string(b))
	case "list":
		for _, p := range sortedKeys(specs) {
			fmt.Println(p)
		}
	case "dev": // dev <flavor> <from> <to>
		dev(os.Args[2], os.Args[3], os.Args[4])
	}
}

func genPlan(seed uint64, flavor string) *Plan {
	if strings.HasPrefix(flavor, "crl") {
		return GenCRL(seed, flavor)
	}
	return GenPipe(seed, flavor)
}

// dev runs a range of seeds and summarises what they showed.
func dev(flavor, from, to string) {
	a, _ := strconv.ParseUint(from, 10, 64)
	b, _ := strconv.ParseUint(to, 10, 64)
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := a
	type hit struct {
		n     int
		seeds []uint64
		d     string
	}
	hits := map[string]*hit{}
	probes := map[string]int{}
	fired := map[string]int{}
	var events, runs, budget int
	var simT int64
	t0 := time.Now()
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				seed := next
				next++
				mu.Unlock()
				if seed >= b {
					return
				}
				res := runPlan(genPlan(seed, flavor), fmt.Sprintf("/dev/shm/crlsim.0000002/w%02d", w), binDir(), "", nil)
				mu.Lock()
				runs++
				events += res.Events
				simT += res.SimTime
				if res.Budget {
					budget++
				}
				for k, v := range res.Probes {
					probes[k] += v
				}
				for _, k := range res.Fired {
					for i := range k {
						if k[i] == '#' {
							fired[k[:i]]++
							break
						}
					}
				}
				if res.Err != nil {
					res.Viol = append(res.Viol, Violation{"ERR", "harness", res.Err.Error(), 0})
				}
				for _, v := range res.Viol {
					k := v.Property + " " + v.Class
					h := hits[k]
					if h == nil {
						h = &hit{d: v.Detail}
						hits[k] = h
					}
					h.n++
					if len(h.seeds) < 6 {
						h.seeds = append(h.seeds, seed)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	os.RemoveAll("/dev/shm/crlsim.0000002")
	fmt.Printf("%s: %d runs %.1fs events %d sim %.0f h budget %d\n probes %v\n fired %v\n", flavor, runs, time.Since(t0).Seconds(), events, float64(simT)/3.6e12, budget, probes, fired)
	var ks []string
	for k := range hits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h := hits[k]
		fmt.Printf("  %s x%d seeds %v: %.300s\n", k, h.n, h.seeds, h.d)
	}
}
