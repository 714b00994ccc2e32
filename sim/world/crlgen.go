package main

import (
	"fmt"
	"sort"
)

// GenCRL draws a plan for the world of aggregate-crls.
func GenCRL(seed uint64, flavor string) *Plan {
	r := NewRng(seed, "plan", flavor)
	p := &Plan{Version: 1, Scenario: "crl", Flavor: flavor, Seed: seed, Rates: map[string]int{}}
	p.Start = 1767225600*sec + r.Range(0, 600*24*3600)*sec + r.Range(0, 999)*msec
	p.PickRnd = pick(r, 0, 200, 1024)
	p.YieldPr = pick(r, 0, 4, 60, 300)
	p.Cfg.NumThreads = 1 + r.N(5)
	p.Cfg.LogFiles = r.P(300)
	c := &CRLPlan{LastMod: r.P(500)}
	p.CRL = c

	for i, n := 0, 1+r.N(6); i < n; i++ {
		is := CRLIssuer{Root: pick(r, 0, 0, 0, 0, 1, 1, 2, 3)}
		if r.P(200) {
			is.Kind = pick(r, "email", "expired", "sub", "sub")
		}
		if r.P(250) {
			is.Dup = 1 + r.N(2)
		}
		c.Issuers = append(c.Issuers, is)
	}
	nruns := 1 + r.N(6)
	every := pick(r, 6*hour, 6*hour, 13*hour, 2*hour, 3*day)
	t := r.Range(0, hour)
	for i := 0; i < nruns; i++ {
		c.Runs = append(c.Runs, CRLRun{At: t})
		t += every + r.Range(-every/8, every/8)
	}
	p.End = t
	p.FaultEnd = t

	genCRLVers := func(u *CRLUrl, valid bool) {
		n := 1 + r.N(4)
		for k := 0; k < n; k++ {
			v := CRLVer{N: pick(r, r.N(4), r.N(20), r.N(20), r.N(200)), Next: pick(r, int64(3600), 86400, 7*86400, 30*86400)}
			if k > 0 {
				v.At = r.Range(0, p.End)
			}
			if r.P(150) {
				v.Kind = pick(r, "empty", "pem", "expired")
			} else if !valid && r.P(300) {
				v.Kind = pick(r, "badsig", "otherkey", "otherissuer", "trailing", "tampered", "garbage", "html", "zero", "badentry", "badentry")
				if v.Kind == "badentry" && v.N == 0 {
					v.N = 1
				}
			}
			u.Vers = append(u.Vers, v)
		}
		sort.SliceStable(u.Vers, func(i, j int) bool { return u.Vers[i].At < u.Vers[j].At })
	}
	allValid := r.P(250)
	lm := r.P(600)
	for i := range c.Issuers {
		parts, full := 0, false
		switch r.N(8) {
		case 0: // no CRL at all
		case 1, 2, 3:
			full = true
		case 4, 5, 6:
			parts = 1 + r.N(5)
		case 7:
			full, parts = true, 1+r.N(3)
		}
		idp := pick(r, "self", "self", "self", "extra", "other", "both", "")
		for k := 0; k < parts+1; k++ {
			if k == 0 && !full {
				continue
			}
			u := CRLUrl{Issuer: i, Part: k > 0, LastMod: lm, Ranges: r.P(400)}
			if u.Part {
				u.IDP = idp
				if r.P(100) {
					u.IDP = pick(r, "self", "other", "extra", "both", "")
				}
			}
			u.URL = fmt.Sprintf("http://crl%d.sim/%s", r.N(3), crlPath(r, i, k))
			genCRLVers(&u, allValid || r.P(500))
			c.URLs = append(c.URLs, u)
		}
	}
	mask := func(m int) int {
		x := 0
		for i := range c.Issuers {
			if r.P(m) {
				x |= 1 << i
			}
		}
		return x
	}
	for i, n := 0, 1+r.N(4); i < n; i++ {
		rp := CRLReport{}
		if i > 0 {
			rp.At = r.Range(0, p.End)
		}
		if r.P(400) {
			rp.Revoked, rp.Absent = mask(100), mask(100)
		}
		for u := range c.URLs {
			if r.P(60) {
				rp.NoURL = append(rp.NoURL, u)
			}
		}
		c.Reports = append(c.Reports, rp)
	}
	sort.SliceStable(c.Reports, func(i, j int) bool { return c.Reports[i].At < c.Reports[j].At })

	switch flavor {
	case "crl":
	case "crlnet":
		genCRLNet(p, r)
	case "crldisk":
		genCRLDisk(p, r)
	case "crlcrash":
		genCRLCrash(p, r)
	case "crlterm":
		genCRLTerm(p, r)
		if r.P(400) {
			genCRLNet(p, r)
		}
	case "crlmix":
		for i, n := 0, 1+r.N(3); i < n; i++ {
			switch r.N(5) {
			case 0, 1:
				genCRLNet(p, r)
			case 2:
				genCRLDisk(p, r)
			case 3:
				genCRLCrash(p, r)
			case 4:
				genCRLTerm(p, r)
			}
		}
	default:
		harness("unknown flavour %q", flavor)
	}
	if r.P(300) {
		for i, n := 0, 1+r.N(3); i < n; i++ {
			p.add(r.Range(0, p.End), pick(r, "rot", "droptmp"), "", r.Range(0, 20))
		}
	}
	sort.SliceStable(p.Events, func(i, j int) bool { return p.Events[i].At < p.Events[j].At })
	return p
}

// crlPath: names that differ, and names that look alike.
func crlPath(r *Rng, i, k int) string {
	return pick(r, fmt.Sprintf("ca%d/%d.crl", i, k), fmt.Sprintf("ca%d-%d/latest.crl", i, k), fmt.Sprintf("get?ca=%d&part=%d", i, k),
		fmt.Sprintf("CA%d/Part_%d.CRL", i, k), fmt.Sprintf("%d/%d", i, k), fmt.Sprintf("x%d/a%%20b%d.crl", i, k))
}

func genCRLNet(p *Plan, r *Rng) {
	for _, k := range []string{"net.hole", "net.refuse", "net.dns", "http.reset", "http.hole", "http.5xx", "http.429", "http.4xx", "http.slow", "http.truncclose", "http.trunc", "http.drip"} {
		if r.P(250) {
			p.Rates[k+".crl"] = rate(r)
			if r.P(300) {
				p.Rates[k+".crl"] = pick(r, 50000, 80000)
			}
		}
		if r.P(200) && k != "http.truncclose" {
			p.Rates[k+".ccadb"] = pick(r, 5000, 20000, 60000)
		}
	}
	for j, n := 0, r.N(5); j < n; j++ {
		p.add(p.nearCRL(r), pick(r, "hostdown", "partition"), pick(r, "crl", "ccadb"), r.Range(1*sec, pick(r, 60*sec, 2*hour)))
	}
}

func genCRLDisk(p *Plan, r *Rng) {
	genDisk(p, r)
	for _, k := range sortedKeys(p.Rates) {
		if r.P(300) {
			p.Rates[k] = pick(r, 300, 3000)
		}
	}
}

func genCRLCrash(p *Plan, r *Rng) {
	if r.P(700) {
		p.Rates["crash.fs.aggregate-crls"] = pick(r, 100, 1000, 5000, 15000)
	}
	for j, n := 0, r.N(4); j < n; j++ {
		k := pick(r, "kill", "kill", "stall")
		arg := int64(0)
		if k == "stall" {
			arg = r.Range(1*sec, pick(r, 30*sec, 1*hour))
		}
		p.add(p.nearCRL(r), k, "", arg)
	}
}

func genCRLTerm(p *Plan, r *Rng) {
	for j, n := 0, 1+r.N(4); j < n; j++ {
		p.add(p.nearCRL(r), "term", "", 0)
	}
}

// nearCRL is a moment during one of the runs.
func (p *Plan) nearCRL(r *Rng) int64 {
	return p.CRL.Runs[r.N(len(p.CRL.Runs))].At + pick(r, r.Range(0, 20*msec), r.Range(0, 300*msec), r.Range(0, 3*sec), r.Range(0, 60*sec))
}
