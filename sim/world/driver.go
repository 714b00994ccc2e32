package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// propSpec says how a property is explored.
type propSpec struct {
	ID       string
	Mix      []mixPart
	Quick    int      // runs of the quick tier
	Thorough int      // runs of the thorough tier
	Probes   []string // a run is non-trivial for the property if one of these was hit
	Rule     string
}

type mixPart struct {
	flavor string
	weight int
}

// pick says which run the i-th of a check is.
func (p *propSpec) pick(seed uint64, i int) (string, uint64) {
	r := NewRng(seed, "mix", p.ID, i)
	tot := 0
	for _, m := range p.Mix {
		tot += m.weight
	}
	k := r.N(tot)
	for _, m := range p.Mix {
		if k < m.weight {
			return m.flavor, seed*1000000 + uint64(i)
		}
		k -= m.weight
	}
	panic("unreachable")
}

// finding is one line of known-findings.txt.
type finding struct {
	Property, Class, Plan, What string
}

// verifDir is /verif: the directory above the build directory's program, or
// $CRLSIM_VERIF.
func verifDir() string {
	if d := os.Getenv("CRLSIM_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Dir(filepath.Dir(exe))
}

func loadFindings() []finding {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var x finding
		rest := strings.Fields(l[9:])
		for i, w := range rest {
			switch {
			case strings.HasPrefix(w, "property="):
				x.Property = w[9:]
			case strings.HasPrefix(w, "class="):
				x.Class = w[6:]
			case strings.HasPrefix(w, "plan="):
				x.Plan = w[5:]
			default:
				x.What = strings.Join(rest[i:], " ")
			}
			if x.What != "" {
				break
			}
		}
		out = append(out, x)
	}
	return out
}

// target is the violation a run is watched for: it ends at the first match.
type target struct {
	prop   string
	class  string          // "" any
	ignore map[string]bool // classes that do not count
}

func (t *target) match(v *Violation) bool {
	return t != nil && v.Property == t.prop && (t.class == "" || v.Class == t.class) && !t.ignore[v.Class]
}

func (t *target) hit(r *Result) *Violation {
	for i := range r.Viol {
		if t.match(&r.Viol[i]) {
			return &r.Viol[i]
		}
	}
	return nil
}

type replayFile struct {
	Format    string   `json:"format"`
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Violation string   `json:"violation"`
	AtNs      int64    `json:"at_ns"`
	Seed      uint64   `json:"seed"`
	Flavor    string   `json:"flavor"`
	Digest    string   `json:"digest"`
	Faults    []string `json:"faults_fired"`
	Minimised string   `json:"minimised"`
	Plan      *Plan    `json:"plan"`
	Trace     []string `json:"trace_tail"`
}

const replayFormat = "crlsim-replay-1"

func scratchBase() string {
	return fmt.Sprintf("/dev/shm/crlsim.%07d", os.Getpid())
}

// pool runs plans on several scratch directories at once.
type pool struct {
	base string
	n    int
	sem  chan int
}

func newPool() *pool {
	n := 8
	if x, err := strconv.Atoi(os.Getenv("CRLSIM_JOBS")); err == nil && x > 0 {
		n = x
	}
	p := &pool{base: scratchBase(), n: n, sem: make(chan int, n)}
	for i := 0; i < n; i++ {
		p.sem <- i
	}
	return p
}

func (p *pool) run(pl *Plan, t *target) *Result {
	w := <-p.sem
	defer func() { p.sem <- w }()
	return runPlan(pl, fmt.Sprintf("%s/w%02d", p.base, w), binDir(), "", t)
}

func (p *pool) close() { os.RemoveAll(p.base) }

// check explores one property and writes its evidence. It returns the exit code.
func check(prop, tier string) int {
	spec := specs[prop]
	if spec == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", prop)
		return 2
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	fmt.Printf("check %s tier=%s seed=%d\n", prop, tier, seed)
	nrun, limit := spec.Quick, 280*time.Second
	if tier == "thorough" {
		nrun, limit = spec.Thorough, 3000*time.Second
		if nrun == 0 {
			nrun = 20 * spec.Quick
		}
	}
	if x, err := strconv.Atoi(os.Getenv("CRLSIM_RUNS")); err == nil {
		nrun = x
	}
	if x, err := strconv.Atoi(os.Getenv("CRLSIM_LIMIT")); err == nil {
		limit = time.Duration(x) * time.Second
	}
	t0 := time.Now()
	pool := newPool()
	defer pool.close()

	known := map[string]finding{}
	tgt := &target{prop: prop, ignore: map[string]bool{}}
	for _, f := range loadFindings() {
		if f.Property == prop {
			known[f.Class] = f
			tgt.ignore[f.Class] = true
		}
	}
	seen := map[string]bool{}
	for _, c := range sortedKeys(known) {
		f := known[c]
		rf, err := readReplay(filepath.Join(verifDir(), f.Plan))
		if err != nil {
			fmt.Fprintf(os.Stderr, "known finding %s: %v\n", c, err)
			return 2
		}
		res := pool.run(rf.Plan, &target{prop: prop, class: c})
		if (&target{prop: prop, class: c}).hit(res) != nil {
			seen[c] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.What, c)
		} else {
			fmt.Printf("note: the listed finding %s is not reproduced by its pinned run\n", c)
		}
	}

	st := newStats(spec)
	var mu sync.Mutex
	var wg sync.WaitGroup
	next, stop := 0, false
	var firstPlan *Plan
	var firstV *Violation
	var firstI int
	var herr error
	nerr := 0
	pairs, mismatch := 0, 0
	for w := 0; w < pool.n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= nrun || time.Since(t0) > limit {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				flavor, sd := spec.pick(seed, i)
				pl := genPlan(sd, flavor)
				if tier != "thorough" {
					pl.MaxEv = 150000
				}
				res := pool.run(pl, tgt)
				mm := -1
				if i%97 == 5 && res.Err == nil { // the same seed must give the same execution
					r2 := pool.run(genPlanMax(sd, flavor, pl.MaxEv), tgt)
					mm = 0
					if r2.Digest != res.Digest || r2.Events != res.Events {
						mm = 1
					}
				}
				mu.Lock()
				if mm >= 0 {
					pairs++
					mismatch += mm
				}
				if res.Err != nil {
					nerr++
					if herr == nil {
						herr = fmt.Errorf("seed %d flavour %s: %w", sd, flavor, res.Err)
					}
					if nerr > 2 {
						stop = true
					}
					mu.Unlock()
					continue
				}
				st.add(pl, res)
				for j := range res.Viol {
					v := &res.Viol[j]
					if v.Property != prop {
						st.others[v.Property+" "+v.Class]++
						continue
					}
					if tgt.ignore[v.Class] {
						st.knownHits[v.Class]++
						if !seen[v.Class] {
							seen[v.Class] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, known[v.Class].What, v.Class)
						}
						continue
					}
					stop = true
					if firstV == nil || i < firstI {
						firstV, firstPlan, firstI = v, pl, i
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wallSearch := time.Since(t0).Seconds()
	rc := 0
	viol := 0
	if firstV != nil {
		viol = 1
		fmt.Printf("violation found in run %d (flavour %s, seed %d) after %.1f s: %s: %s\n", firstI, firstPlan.Flavor, firstPlan.Seed, wallSearch, firstV.Class, firstV.Detail)
		budget := 60 * time.Second
		if tier == "thorough" {
			budget = 300 * time.Second
		}
		rf, err := minimise(pool, firstPlan, firstV, budget)
		if err != nil {
			fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
			rc = 2
		} else {
			os.MkdirAll(filepath.Join(verifDir(), "replays"), 0755)
			path := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s-%d.json", prop, strings.Map(safeName, rf.Class), rf.Seed))
			b, _ := json.MarshalIndent(rf, "", " ")
			if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
				fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
				rc = 2
			} else {
				fmt.Printf("  %s\n  minimised: %s\n  faults: %v\n  replay with: /verif/check replay %s\n", rf.Violation, rf.Minimised, rf.Faults, path)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				rc = 1
			}
		}
	} else if herr != nil && (nerr > 2 || nerr*50 > st.runs) {
		fmt.Fprintf(os.Stderr, "ERROR: the simulator failed: %v\n", herr)
		rc = 2
	} else if herr != nil {
		fmt.Printf("note: %d run(s) gave no verdict: %.300v\n", nerr, herr)
	}
	if mismatch > 0 {
		fmt.Printf("note: %d of %d repeated runs differed from the first execution\n", mismatch, pairs)
	}
	ev := st.evidence(prop, tier, seed, time.Since(t0).Seconds(), wallSearch, viol, nerr, pairs, mismatch, sortedKeys(seen))
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
		return 2
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d events, %.0f simulated hours, %.1f s wall, exit %d\n", prop, st.runs, len(st.distinct), st.events, float64(st.simT)/3.6e12, time.Since(t0).Seconds(), rc)
	return rc
}

func safeName(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
		return r
	}
	return '_'
}

func genPlanMax(seed uint64, flavor string, maxEv int) *Plan {
	pl := genPlan(seed, flavor)
	pl.MaxEv = maxEv
	return pl
}

type stats struct {
	spec      *propSpec
	runs      int
	events    int
	simT      int64
	yields    uint64
	budget    int
	distinct  map[uint64]bool
	scheds    map[uint64]bool
	fired     map[string]int
	evs       map[string]int
	probes    map[string]int
	flavors   map[string]int
	others    map[string]int
	knownHits map[string]int
	samples   []any
}

func newStats(spec *propSpec) *stats {
	return &stats{spec: spec, distinct: map[uint64]bool{}, scheds: map[uint64]bool{}, fired: map[string]int{}, evs: map[string]int{}, probes: map[string]int{}, flavors: map[string]int{}, others: map[string]int{}, knownHits: map[string]int{}}
}

func faultKind(k string) string {
	if i := strings.IndexByte(k, '#'); i >= 0 {
		k = k[:i]
	}
	return k
}

func (st *stats) add(pl *Plan, res *Result) {
	st.runs++
	st.events += res.Events
	st.simT += res.SimTime
	st.yields += res.Yields
	if res.Budget {
		st.budget++
	}
	st.flavors[pl.Flavor]++
	st.scheds[res.Sched] = true
	for k, v := range res.Probes {
		st.probes[k] += v
	}
	for _, k := range res.Fired {
		st.fired[faultKind(k)]++
	}
	for _, e := range pl.Events {
		switch e.Kind {
		case "agg", "commit", "health", "gen", "publish":
		default:
			st.evs[strings.TrimSuffix(e.Kind+"."+e.Who, ".")]++
		}
	}
	nontrivial := len(st.spec.Probes) == 0
	for _, p := range st.spec.Probes {
		if res.Probes[p] > 0 {
			nontrivial = true
		}
	}
	if nontrivial {
		st.distinct[res.Digest] = true
		if len(st.samples) < 4 && (st.runs%7 == 1 || len(st.samples) == 0) {
			f := res.Fired
			if len(f) > 12 {
				f = append(append([]string(nil), f[:12]...), fmt.Sprintf("... %d more", len(res.Fired)-12))
			}
			var evs []string
			for _, e := range pl.Events {
				if len(evs) < 12 {
					evs = append(evs, fmt.Sprintf("%.1fs %s %s", float64(e.At)/1e9, e.Kind, e.Who))
				}
			}
			st.samples = append(st.samples, map[string]any{
				"flavour": pl.Flavor, "seed": pl.Seed, "logs": len(pl.Logs), "certificates": len(pl.Certs),
				"environment_events": evs, "faults_fired": f, "simulator_events": res.Events,
				"simulated_seconds": res.SimTime / sec, "preemptions": res.Yields, "digest": fmt.Sprintf("%016x", res.Digest), "probes": res.Probes,
			})
		}
	}
}

func (st *stats) evidence(prop, tier string, seed uint64, wall, wallSearch float64, viol, nerr, pairs, mismatch int, known []string) map[string]any {
	zero := []string{}
	for _, p := range st.spec.Probes {
		if st.probes[p] == 0 {
			zero = append(zero, p)
		}
	}
	h := wallSearch / 3600
	cov := map[string]any{
		"evaluations":                         st.runs,
		"distinct_nontrivial":                 len(st.distinct),
		"rule":                                "one evaluation is one simulated execution of the real programs, drawn from VERIF_SEED and the run's number (" + st.spec.Rule + "); it is non-trivial if it reached at least one of the probes " + strings.Join(st.spec.Probes, ", ") + "; two are distinct if the digests over all their events (every system call, message, timer and fault, in order) differ",
		"samples":                             st.samples,
		"distinct_interleavings":              len(st.scheds),
		"interleavings_measure":               "hash over the sequence of goroutine choices and preemptions inside all processes of a run",
		"preemptions":                         st.yields,
		"simulator_events":                    st.events,
		"simulated_hours":                     float64(st.simT) / 3.6e12,
		"runs_per_hour":                       float64(st.runs) / h,
		"seeds_per_hour":                      float64(st.runs) / h,
		"runs_by_flavour":                     st.flavors,
		"faults_fired":                        st.fired,
		"environment_events_planned":          st.evs,
		"probes":                              st.probes,
		"probes_never_hit":                    zero,
		"runs_out_of_event_budget":            st.budget,
		"runs_without_verdict":                nerr,
		"determinism_pairs":                   pairs,
		"determinism_mismatches":              mismatch,
		"violations_of_other_properties_seen": st.others,
		"known_findings_seen":                 known,
		"components":                          components(st.spec),
	}
	return map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"each program runs on one core of its own with a virtual clock; interleavings are those at synchronisation operations, system calls and timers, not data races between arbitrary instructions",
			"a crash kills processes; what the operating system accepted stays on disk (power loss is not modelled)",
		}}
}

func components(sp *propSpec) map[string]any {
	return map[string]any{
		"real": []string{"the binaries built from /repo/go/cmd (ct-fetch, aggregate-known, commit, aggregate-crls) and everything they link: certificate-transparency-go, sunlight, go-redis, renameio, glog, net/http, encoding/json"},
		"stub": []string{"CT logs, Redis, remote settings, CCADB and CRL servers (reimplemented in the simulator)", "kernel: clock, scheduler, sockets, file operation outcomes (files themselves are on tmpfs)", "TLS is plain text inside the simulator"},
	}
}

func readReplay(path string) (*replayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		return nil, err
	}
	if rf.Format != replayFormat || rf.Plan == nil {
		return nil, fmt.Errorf("%s is no replay file", path)
	}
	return rf, nil
}

// replay executes a replay file once more.
func replay(path, trace string) int {
	rf, err := readReplay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	base := scratchBase()
	defer os.RemoveAll(base)
	t := &target{prop: rf.Property, class: rf.Class}
	res := runPlan(rf.Plan, base+"/w00", binDir(), trace, t)
	if res.Err != nil {
		fmt.Fprintln(os.Stderr, res.Err)
		return 2
	}
	v := t.hit(res)
	d := fmt.Sprintf("%016x", res.Digest)
	fmt.Printf("digest %s (recorded %s), %d events, %.0f simulated seconds\n", d, rf.Digest, res.Events, float64(res.SimTime)/1e9)
	if v == nil {
		fmt.Println("the violation does not occur")
		return 0
	}
	fmt.Printf("%s %s at %.3f s: %s\n", v.Property, v.Class, float64(v.At)/1e9, v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// ---- minimisation ----

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func size(p *Plan) string {
	n := 0
	if p.Allow != nil {
		n = len(*p.Allow)
	}
	return fmt.Sprintf("%d faults, %d events, %d certificates, %d logs", n, len(p.Events), len(p.Certs), len(p.Logs)) + p.CRL.size()
}

// minimise shrinks a failing plan while the same class of violation persists.
func minimise(pool *pool, pl *Plan, v *Violation, budget time.Duration) (*replayFile, error) {
	t0 := time.Now()
	t := &target{prop: v.Property, class: v.Class}
	var best *Result
	var ref *Result
	for i := 0; i < 2; i++ {
		r := pool.run(pl, t)
		if r.Err != nil {
			return nil, fmt.Errorf("re-running seed %d: %w", pl.Seed, r.Err)
		}
		if t.hit(r) == nil {
			return nil, fmt.Errorf("the violation of seed %d (%s %s) is not reproduced by running it again", pl.Seed, v.Property, v.Class)
		}
		if ref != nil && ref.Digest != r.Digest {
			fmt.Printf("note: two executions of seed %d differ\n", pl.Seed)
		}
		ref = r
	}
	best = ref
	cur := clonePlan(pl)
	fired := append([]string{}, ref.Fired...)
	cur.Allow = &fired
	from := size(cur)
	tries := 0
	// attempt runs candidates side by side and takes the first that still fails
	attempt := func(cands []*Plan) bool {
		for a := 0; a < len(cands); a += pool.n {
			if time.Since(t0) > budget {
				return false
			}
			b := min(a+pool.n, len(cands))
			res := make([]*Result, b-a)
			var wg sync.WaitGroup
			for i := a; i < b; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					res[i-a] = pool.run(cands[i], t)
				}()
			}
			wg.Wait()
			tries += b - a
			for i := range res {
				if res[i].Err == nil && t.hit(res[i]) != nil {
					cur, best = cands[a+i], res[i]
					return true
				}
			}
		}
		return false
	}
	if !attempt([]*Plan{cur}) {
		cur = clonePlan(pl)
		cur.Allow = nil
	}
	// shrink removes parts of a list of n elements
	shrink := func(n func(*Plan) int, keep func(*Plan, []int)) bool {
		any := false
		chunk := n(cur)
		for chunk >= 1 && n(cur) > 0 && time.Since(t0) < budget {
			var cands []*Plan
			tot := n(cur)
			for lo := 0; lo < tot; lo += chunk {
				var ix []int
				for i := 0; i < tot; i++ {
					if i < lo || i >= lo+chunk {
						ix = append(ix, i)
					}
				}
				c := clonePlan(cur)
				keep(c, ix)
				cands = append(cands, c)
			}
			if attempt(cands) {
				any = true
				if chunk > n(cur) {
					chunk = n(cur)
				}
				continue
			}
			chunk /= 2
		}
		return any
	}
	simple := func(f func(*Plan)) bool {
		c := clonePlan(cur)
		f(c)
		a, _ := json.Marshal(c)
		b, _ := json.Marshal(cur)
		if string(a) == string(b) {
			return false
		}
		return attempt([]*Plan{c})
	}
	if hv := t.hit(best); hv.At < cur.End {
		simple(func(p *Plan) { p.StopAt = min(hv.At+5*min_, p.End) })
	}
	simple(func(p *Plan) { p.PickRnd, p.YieldPr = 0, 0 })
	if cur.Allow != nil && !simple(func(p *Plan) { p.Allow = &[]string{} }) {
		kinds := map[string]bool{}
		for _, k := range *cur.Allow {
			kinds[faultKind(k)] = true
		}
		for _, k := range sortedKeys(kinds) {
			simple(func(p *Plan) {
				x := []string{}
				for _, a := range *p.Allow {
					if faultKind(a) != k {
						x = append(x, a)
					}
				}
				p.Allow = &x
			})
		}
	}
	for round := 0; round < 3 && time.Since(t0) < budget; round++ {
		changed := false
		changed = shrink(func(p *Plan) int { return len(p.Events) }, func(p *Plan, ix []int) { p.Events = sub(p.Events, ix) }) || changed
		changed = simple(func(p *Plan) { p.Preset = nil }) || changed
		for i := len(cur.Logs) - 1; i > 0; i-- {
			changed = simple(func(p *Plan) { dropLog(p, i) }) || changed
		}
		changed = shrink(func(p *Plan) int { return len(p.Certs) }, func(p *Plan, ix []int) { p.Certs = sub(p.Certs, ix) }) || changed
		if cur.Allow != nil {
			changed = shrink(func(p *Plan) int { return len(*p.Allow) }, func(p *Plan, ix []int) {
				x := []string{}
				for _, i := range ix {
					x = append(x, (*p.Allow)[i])
				}
				p.Allow = &x
			}) || changed
		}
		if cur.CRL != nil {
			for _, l := range cur.CRL.lists() {
				changed = shrink(l.n, l.keep) || changed
			}
		}
		for _, f := range []func(*Plan){
			func(p *Plan) { p.PickRnd, p.YieldPr = 0, 0 },
			func(p *Plan) { p.YieldPr = 0 },
			func(p *Plan) { p.PickRnd = 0 },
			func(p *Plan) { p.Cfg.LogFiles = false },
			func(p *Plan) { p.Cfg.NumThreads = 1 },
			func(p *Plan) { p.Issuers, p.Cfg.Enrolled = 1, 1 },
			func(p *Plan) { p.End /= 2; p.FaultEnd = min(p.FaultEnd, p.End) },
		} {
			changed = simple(f) || changed
		}
		if !changed {
			break
		}
	}
	// the kinds that do not occur need no rates
	if cur.Allow != nil {
		simple(func(p *Plan) {
			used := map[string]bool{}
			for _, k := range *p.Allow {
				used[faultKind(k)] = true
			}
			for k := range p.Rates {
				if !used[k] {
					delete(p.Rates, k)
				}
			}
		})
	}
	hv := t.hit(best)
	if hv == nil {
		return nil, fmt.Errorf("minimiser lost the violation")
	}
	rf := &replayFile{Format: replayFormat, Property: hv.Property, Class: hv.Class, Violation: hv.Detail, AtNs: hv.At, Seed: pl.Seed, Flavor: pl.Flavor, Digest: fmt.Sprintf("%016x", best.Digest), Faults: best.Fired, Plan: cur,
		Minimised: fmt.Sprintf("from %s to %s in %d runs, %.0f s", from, size(cur), tries, time.Since(t0).Seconds())}
	tail := best.Tail
	if len(tail) > 120 {
		tail = tail[len(tail)-120:]
	}
	rf.Trace = tail
	return rf, nil
}

func sub[T any](xs []T, ix []int) []T {
	out := []T{}
	for _, i := range ix {
		out = append(out, xs[i])
	}
	return out
}

func dropLog(p *Plan, k int) {
	if k >= len(p.Logs) {
		return
	}
	p.Logs = append(p.Logs[:k:k], p.Logs[k+1:]...)
	var cs []CertPlan
	for _, c := range p.Certs {
		if c.Log == k {
			continue
		}
		if c.Log > k {
			c.Log--
		}
		cs = append(cs, c)
	}
	p.Certs = cs
}

// pin makes a replay file out of a seed that shows a violation.
func pin(prop, class, flavor, seed, out string) int {
	sd, _ := strconv.ParseUint(seed, 10, 64)
	pool := newPool()
	defer pool.close()
	rf, err := minimise(pool, genPlan(sd, flavor), &Violation{Property: prop, Class: class}, 300*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(out, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println(rf.Minimised, rf.Violation)
	return 0
}

var _ = sort.Strings
