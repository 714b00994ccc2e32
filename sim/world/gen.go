package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
)

// GenPipe draws a plan for the certificate pipeline. The flavour says which
// kinds of trouble the run may contain; how much of each is drawn per run.
func GenPipe(seed uint64, flavor string) *Plan {
	r := NewRng(seed, "plan", flavor)
	p := &Plan{Version: 1, Scenario: "pipeline", Flavor: flavor, Seed: seed, Rates: map[string]int{}}
	// some moment in 2026-2027, at any place within its hour
	p.Start = 1767225600*sec + r.Range(0, 600*24*3600)*sec + r.Range(0, 999)*msec
	p.PickRnd = pick(r, 0, 200, 1024)
	p.YieldPr = pick(r, 0, 4, 60, 300)
	c := &p.Cfg
	c.BatchSize = pick(r, 4, 8, 16, 32, 64)
	c.PollingDelay = pick(r, 60, 120, 300, 600)
	c.RunForever = true
	c.NumThreads = 1 + r.N(4)
	c.RedisTimeout = pick(r, 2, 5, 10)
	c.RestartDelay = pick(r, 1, 10, 60)
	c.LogFiles = r.P(400)
	c.TmpOnDisk = r.P(250)
	p.Issuers = 1 + r.N(4)
	c.Enrolled = 1 + r.N(1<<p.Issuers-1)
	nlogs := 1 + r.N(3)
	if flavor == "early" {
		nlogs = 2 + r.N(2)
	}
	span := pick(r, 2*hour, 6*hour, 12*hour, 30*hour)
	p.End = span
	p.FaultEnd = span * 3 / 4
	mmds := []int64{60, 600, 3600, 3600, 21600, 86400}
	for i := 0; i < nlogs; i++ {
		l := LogPlan{Tiled: r.P(400), MMD: mmds[r.N(len(mmds))], Enrolled: true, MaxGet: pick(r, 1, 3, 7, 16, 32, 64), STHEvery: r.Range(5, 600)}
		p.Logs = append(p.Logs, l)
	}
	if r.P(300) {
		c.RSInterval = pick(r, 300, 1800, 7200)
		for i := range p.Logs {
			p.Logs[i].Remote = r.P(600)
		}
	}
	old, new := 10+r.N(120), r.N(60)
	if r.P(150) {
		old = r.N(10)
	}
	if r.P(200) {
		old += r.N(500)
	}
	if flavor == "tiny" {
		old, new = r.N(c.BatchSize+8), r.N(10)
		c.BatchSize = pick(r, 4, 8, 16)
	}
	genCerts(p, r, span, old, new)
	if r.P(300) || flavor == "expiry" {
		ps := &PresetPlan{Epoch: r.Range(0, 30), CacheNew: r.P(300)}
		for i, n := 0, r.N(12); i < n; i++ {
			b := PresetBin{Issuer: r.N(p.Issuers), Day: r.P(400), At: pick(r, r.Range(-48, 0), r.Range(0, span/hour+4), r.Range(24, 2000)) * 3600}
			for j, m := 0, 1+r.N(30); j < m; j++ {
				b.Serials = append(b.Serials, hex.EncodeToString(r.Bytes(8+r.N(9))))
			}
			ps.Bins = append(ps.Bins, b)
		}
		p.Preset = ps
	}
	genRuns(p, r)
	switch flavor {
	case "base":
	case "net":
		genNet(p, r)
	case "cache":
		genRedis(p, r, true)
	case "wipe":
		genWipe(p, r)
		if r.P(500) {
			genRedis(p, r, false)
		}
		if r.P(500) {
			genCrash(p, r)
		}
	case "crash":
		genCrash(p, r)
	case "disk":
		genDisk(p, r)
	case "tamper":
		genTamper(p, r)
	case "stop":
		if r.P(400) {
			c.RunForever = false
			c.RestartDelay = pick(r, 60, 600)
		} else {
			for i, n := 0, 1+r.N(8); i < n; i++ {
				p.add(r.Range(0, p.End*3/4), "stop", "", 0)
			}
		}
		if r.P(400) {
			genNet(p, r)
		}
	case "stopcache":
		// stopped while the cache refuses commands now and then
		for _, k := range []string{"redis.oom", "redis.reset.before", "redis.reset.after"} {
			if r.P(500) || k == "redis.oom" {
				p.Rates[k] = pick(r, 2000, 10000, 30000)
			}
			if k != "redis.oom" {
				p.Rates[k] = min(p.Rates[k], pick(r, 0, 300, 3000))
			}
		}
		if p.Rates["redis.oom"] >= 10000 {
			p.FaultEnd = min(p.FaultEnd, r.Range(20*60*sec, 2*hour))
		}
		for i, n := 0, 2+r.N(8); i < n; i++ {
			at := r.Range(0, p.End*3/4)
			if i < 2 {
				at = r.Range(0, 3*60*sec)
			}
			p.add(at, "stop", "", 0)
		}
		for j, n := 0, r.N(3); j < n; j++ {
			p.add(r.Range(0, p.FaultEnd), pick(r, "oom", "redisdown"), "redis", r.Range(1*sec, pick(r, 20*sec, 300*sec)))
		}
	case "enroll":
		genEnroll(p, r)
	case "expiry":
		if r.P(300) {
			genCrash(p, r)
		}
	case "health":
		genHealth(p, r)
	case "tiny":
		if r.P(500) {
			genNet(p, r)
		}
	case "early":
		genEarly(p, r)
	case "lock":
		genLock(p, r)
	case "mix":
		for i, n := 0, 1+r.N(3); i < n; i++ {
			switch r.N(6) {
			case 0:
				genNet(p, r)
			case 1:
				genRedis(p, r, true)
			case 2:
				genCrash(p, r)
			case 3:
				genDisk(p, r)
			case 4:
				genWipe(p, r)
			case 5:
				genEnroll(p, r)
			}
		}
	default:
		harness("unknown flavour %q", flavor)
	}
	if r.P(300) && flavor != "health" {
		for i, n := 0, 1+r.N(6); i < n; i++ {
			p.add(r.Range(0, p.End), "health", "", 0)
		}
	}
	sort.SliceStable(p.Events, func(i, j int) bool { return p.Events[i].At < p.Events[j].At })
	return p
}

func (p *Plan) add(at int64, kind, who string, arg int64) {
	p.Events = append(p.Events, EventPlan{At: at, Kind: kind, Who: who, Arg: arg})
}

// genRuns schedules the runs of aggregate-known and commit.
func genRuns(p *Plan, r *Rng) {
	every := pick(r, p.End/3, p.End/6, p.End/10)
	t := r.Range(0, every)
	for t < p.End {
		p.add(t, pick(r, "agg", "agg", "commit"), "", 0)
		if r.P(250) { // two runs at (nearly) the same time
			p.add(t+pick(r, 0, r.Range(0, 50*msec), r.Range(0, 5*sec)), pick(r, "agg", "commit"), "", 0)
		}
		t += r.Range(every/2, every*3/2)
	}
}

func rate(r *Rng) int { return pick(r, 30, 300, 2000, 10000, 30000) }

func genNet(p *Plan, r *Rng) {
	for i := range p.Logs {
		h := fmt.Sprintf("log.log%d", i)
		for _, k := range []string{"net.hole", "net.refuse", "net.dns", "http.reset", "http.hole", "http.5xx", "http.429", "http.4xx", "http.slow", "http.truncclose", "http.trunc", "http.drip"} {
			if r.P(250) {
				p.Rates[k+"."+h] = rate(r)
			}
		}
		for j, n := 0, r.N(4); j < n; j++ {
			p.add(r.Range(0, p.FaultEnd), pick(r, "hostdown", "partition"), h, r.Range(1*sec, pick(r, 60*sec, 1*hour)))
		}
	}
	for _, k := range []string{"log.stale", "log.short"} {
		if r.P(300) {
			p.Rates[k] = rate(r)
		}
	}
	for _, k := range []string{"http.5xx.rs", "http.reset.rs", "net.refuse.rs", "http.trunc.rs", "http.4xx.rs", "http.slow.rs"} {
		if p.Cfg.RSInterval > 0 && r.P(250) {
			p.Rates[k] = rate(r)
		}
	}
}

func genRedis(p *Plan, r *Rng, events bool) {
	for _, k := range []string{"redis.reset.before", "redis.reset.after", "redis.slow", "redis.oom", "redis.scandup"} {
		if r.P(400) {
			p.Rates[k] = pick(r, 30, 300, 2000, 10000)
		}
	}
	if p.Rates["redis.slow"] > 300 {
		p.Rates["redis.slow"] = 300
	}
	if !events {
		return
	}
	for j, n := 0, r.N(6); j < n; j++ {
		at := r.Range(0, p.FaultEnd)
		if q := p.nearRun(r); q >= 0 && r.P(600) {
			at = q
		}
		p.add(at, pick(r, "redisdown", "redisload", "oom", "partition"), "redis", r.Range(1*sec, pick(r, 20*sec, 300*sec, 1*hour)))
	}
}

// nearRun picks a moment shortly after the start of one of the commit runs.
func (p *Plan) nearRun(r *Rng) int64 {
	var ts []int64
	for _, e := range p.Events {
		if (e.Kind == "agg" || e.Kind == "commit") && e.At < p.FaultEnd {
			ts = append(ts, e.At)
		}
	}
	if len(ts) == 0 {
		return -1
	}
	return ts[r.N(len(ts))] + pick(r, r.Range(0, 20*msec), r.Range(0, 300*msec), r.Range(0, 3*sec), r.Range(0, 60*sec))
}

// genEarly commits while the first contact with some logs is still going on:
// the queue that the logs share is stored for one log while another one has
// not got far enough to save its first state.
func genEarly(p *Plan, r *Rng) {
	c := &p.Cfg
	c.BatchSize = pick(r, 8, 16, 32, 64)
	for i := range p.Logs {
		if i > 0 && r.P(700) {
			p.Logs[i].Tiled, p.Logs[i].MaxGet = false, 1+r.N(4)
			p.Rates[pick(r, "http.429", "http.429", "http.slow")+fmt.Sprintf(".log.log%d", i)] = pick(r, 10000, 30000, 50000)
		}
	}
	for i, n := 0, 2+r.N(8); i < n; i++ {
		p.add(r.Range(0, pick(r, 60*sec, 5*60*sec, 20*60*sec)), pick(r, "agg", "agg", "commit"), "", 0)
	}
	if r.P(300) {
		genWipe(p, r)
	}
}

// genLock lets commits overlap: a holder of the lock is stalled until the
// lock is gone (it expired, or the cache lost its data) and another run, which
// is slow, has taken it, and only then goes on.
func genLock(p *Plan, r *Rng) {
	p.Rates["redis.slow"] = pick(r, 300, 1000, 2000)
	if r.P(500) {
		p.Rates["disk.slow"] = pick(r, 1000, 5000, 20000)
	}
	var ts []int64
	for _, e := range p.Events {
		if (e.Kind == "agg" || e.Kind == "commit") && e.At < p.FaultEnd {
			ts = append(ts, e.At)
		}
	}
	for i, t := range ts {
		if r.P(300) {
			continue
		}
		name := "aggregate-known"
		for _, e := range p.Events {
			if e.At == t && e.Kind == "commit" {
				name = "commit"
			}
		}
		at := t + pick(r, r.Range(0, 20*msec), r.Range(0, 300*msec), r.Range(0, 10*sec))
		d := r.Range(1*sec, 60*sec)
		if r.P(400) || i > 3 {
			d = 4*hour + pick(r, int64(0), r.Range(0, 60*sec), r.Range(0, hour))
		} else {
			p.add(at+r.Range(0, d/2), "wipe", "", 0)
		}
		p.add(at, "stall", name, d)
		for j, n := 0, 1+r.N(2); j < n; j++ {
			p.add(at+d-pick(r, r.Range(0, 100*msec), r.Range(0, 3*sec), r.Range(0, 10*sec)), pick(r, "agg", "commit"), "", 0)
		}
	}
}

func genWipe(p *Plan, r *Rng) {
	for j, n := 0, 1+r.N(3); j < n; j++ {
		at := r.Range(0, p.FaultEnd)
		if q := p.nearRun(r); q >= 0 && r.P(400) {
			at = q
		}
		p.add(at, "wipe", "", 0)
	}
}

func genCrash(p *Plan, r *Rng) {
	for _, n := range []string{"ct-fetch", "aggregate-known", "commit"} {
		if r.P(500) {
			p.Rates["crash.redis."+n] = pick(r, 50, 500, 3000, 10000)
		}
		if n != "ct-fetch" && r.P(700) {
			p.Rates["crash.fs."+n] = pick(r, 100, 1000, 5000, 15000)
		}
	}
	if p.Rates["crash.redis.ct-fetch"] > 500 {
		p.Rates["crash.redis.ct-fetch"] = 500
	}
	for j, n := 0, r.N(5); j < n; j++ {
		at := r.Range(0, p.FaultEnd)
		who := "ct-fetch"
		if q := p.nearRun(r); q >= 0 && r.P(700) {
			at = q
			who = pick(r, "ct-fetch", "aggregate-known", "commit")
		}
		k := pick(r, "kill", "kill", "stall")
		arg := int64(0)
		if k == "stall" {
			arg = r.Range(1*sec, pick(r, 30*sec, 1*hour, 5*hour))
		}
		p.add(at, k, who, arg)
	}
}

func genDisk(p *Plan, r *Rng) {
	for _, k := range []string{"disk.slow", "disk.enospc", "disk.eio.write", "disk.enospc.create", "disk.eopen", "disk.eio.read", "disk.shortread", "disk.eio.sync", "disk.eio.rename", "disk.eio.remove", "disk.eio.chtimes"} {
		if r.P(300) {
			p.Rates[k] = pick(r, 100, 1000, 5000, 20000)
		}
	}
	if p.Rates["disk.slow"] > 5000 {
		p.Rates["disk.slow"] = 5000
	}
}

func genTamper(p *Plan, r *Rng) {
	for _, k := range []string{"tamper.proof", "tamper.entries", "tamper.tile", "tamper.sth", "tamper.issuer"} {
		if r.P(600) {
			p.Rates[k] = pick(r, 300, 3000, 20000)
			if k == "tamper.issuer" {
				p.Rates[k] = pick(r, 3000, 20000, 50000) // asked for once per process
			}
		}
	}
	for j, n := 0, r.N(6); j < n; j++ {
		p.add(r.Range(0, p.FaultEnd), pick(r, "kill", "stop"), "ct-fetch", 0)
	}
}

func genEnroll(p *Plan, r *Rng) {
	if p.Cfg.RSInterval == 0 {
		p.Cfg.RSInterval = pick(r, 60, 300, 1800)
	}
	for i := range p.Logs {
		p.Logs[i].Remote = i == 0 || r.P(700)
		if p.Logs[i].Remote {
			p.Logs[i].Enrolled = r.P(600)
			if r.P(500) {
				// back and forth, slowly enough to be noticed
				on := p.Logs[i].Enrolled
				for t := r.Range(0, p.End/4); t < p.End*3/4; t += r.Range(int64(p.Cfg.RSInterval)*sec, p.End/2) {
					on = !on
					p.add(t, map[bool]string{true: "enroll", false: "unenroll"}[on], strconv.Itoa(i), 0)
				}
			} else {
				for j, n := 0, r.N(4); j < n; j++ {
					p.add(r.Range(0, p.End*3/4), pick(r, "enroll", "unenroll"), strconv.Itoa(i), 0)
				}
			}
		} else {
			p.Logs[i].Enrolled = r.P(700)
		}
	}
	for _, k := range []string{"http.5xx.rs", "http.reset.rs", "net.refuse.rs", "http.trunc.rs", "http.4xx.rs", "http.truncclose.rs", "http.hole.rs", "http.slow.rs"} {
		if r.P(200) {
			p.Rates[k] = pick(r, 1000, 10000, 40000)
		}
	}
	for j, n := 0, r.N(3); j < n; j++ {
		p.add(r.Range(0, p.FaultEnd), "rsbad", "rs", r.Range(60*sec, 2*hour))
	}
}

func genHealth(p *Plan, r *Rng) {
	n := 10 + r.N(60)
	for i := 0; i < n; i++ {
		p.add(r.Range(0, p.End), "health", "", 0)
	}
	for i := 0; i < 5; i++ {
		p.add(r.Range(0, 20*sec), "health", "", 0)
	}
	for i := range p.Logs {
		h := fmt.Sprintf("log.log%d", i)
		if r.P(400) {
			p.add(r.Range(0, p.FaultEnd/2), pick(r, "hostdown", "partition"), h, r.Range(60*sec, p.FaultEnd/2))
		}
		if r.P(300) {
			p.Rates["http.429."+h] = pick(r, 30000, 90000)
		}
		if r.P(300) {
			p.Rates["http.slow."+h] = pick(r, 3000, 30000)
		}
		if r.P(200) {
			p.Rates["tamper.entries"] = 30000
		}
	}
	if r.P(200) {
		p.add(r.Range(0, p.FaultEnd/2), pick(r, "oom", "redisdown"), "redis", r.Range(60*sec, p.FaultEnd/2))
	}
}

// genCerts fills the logs: `old` certificates before the start, `new` ones
// during the run.
func genCerts(p *Plan, r *Rng, span int64, old, new int) {
	// few expiry hours, so that bins are filled by several batches
	nb := 1 + r.N(6)
	bins := make([]int64, nb)
	for i := range bins {
		bins[i] = pick(r, r.Range(0, span/hour+2), r.Range(6, 72), r.Range(72, 2400), r.Range(72, 2400)) * 3600
	}
	var last []CertPlan
	for i := 0; i < old+new; i++ {
		var c CertPlan
		c.Log = r.N(len(p.Logs))
		mmd := p.Logs[c.Log].MMD * sec
		c.Merge = r.Range(0, mmd*9/10)
		if r.P(500) {
			c.Merge = r.Range(0, mmd/20)
		}
		if i < old {
			c.At = -r.Range(1*sec, pick(r, int64(2*hour), int64(3*day), int64(30*day)))
		} else {
			c.At = r.Range(0, span*3/4)
		}
		if c.At+c.Merge > span-10*sec {
			c.Merge = span - 10*sec - c.At
		}
		c.Issuer = r.N(p.Issuers)
		if len(last) > 0 && r.P(250) {
			// the same certificate again: in another log, or its final form
			o := last[r.N(len(last))]
			c.Serial, c.Issuer, c.NotAfter = o.Serial, o.Issuer, o.NotAfter
			c.Kind = pick(r, "", "cert", "preissuer")
		} else {
			n := pick(r, 1, 2, 8, 16, 16, 19, 20)
			b := r.Bytes(n)
			b[0] &= 0x7f
			if n > 1 && b[0] == 0 {
				b[1] |= 0x80
			}
			if n == 1 && r.P(500) && b[0] > 0 {
				b = []byte{0, b[0] | 0x80}
			}
			c.Serial = hex.EncodeToString(b)
			c.NotAfter = bins[r.N(nb)] + r.Range(0, 3599)
			c.Kind = pick(r, "", "", "", "", "cert", "preissuer", "root")
		}
		last = append(last, c)
		p.Certs = append(p.Certs, c)
	}
}
