package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

type auditEntry struct {
	Url            string
	Path           string
	Issuer         string
	Kind           string
	NumRevocations int
	SHA256Sum      string
}

const (
	audFailDL   = "Failed Download"
	audFailProc = "Failed Process Local"
	audFailVer  = "Failed Verify"
	audEmpty    = "Empty Revocation List"
	audOld      = "Not Fresh, Warning"
	audValid    = "Valid, Processed"
	audWrongDP  = "Wrong distribution point"
)

// exit judges a run of aggregate-crls.
func (w *CRLWorld) exit(r *crlRun) {
	s := w.s
	r.done = true
	w.afterStep()
	p := r.p
	disk := s.TroubledSince(r.start, "disk")
	stall := s.TroubledSince(r.start, "stall")
	term := r.termAt != 0
	if p.ExitCode == 2 {
		err := p.Stderr()
		if strings.Contains(err, "panic:") || strings.Contains(err, "fatal error:") {
			s.Violate("C19", "crash", "aggregate-crls crashed: %s", firstLine(err, "panic:", "fatal error:"))
		}
	}
	if p.ExitCode != 0 {
		s.Probe("crl-failed")
		if r.final {
			s.Violate("C19", "final-run", "with nothing in its way, aggregate-crls ends with exit code %d: %s", p.ExitCode, lastLines(p.Stderr()))
		} else if !disk && !stall && !term && !p.Killed && !s.TroubledSince(r.start, "http", "net", "crash") {
			s.Violate("C19", "spurious-failure", "undisturbed, aggregate-crls ends with exit code %d: %s", p.ExitCode, lastLines(p.Stderr()))
		}
		return
	}
	s.Probe("crl-ok")
	rep := w.checkReport(r, disk)
	if rep == nil {
		return
	}
	w.checkStore(r, rep, disk, stall, term)
	w.checkRevoked(r, rep, disk, term)
	if !disk {
		w.checkAudit(r, rep, stall, term)
	}
}

func firstLine(txt string, pats ...string) string {
	for _, l := range strings.Split(txt, "\n") {
		for _, p := range pats {
			if strings.Contains(l, p) {
				return l
			}
		}
	}
	return ""
}

func lastLines(txt string) string {
	ls := strings.Split(strings.TrimSpace(txt), "\n")
	var keep []string
	for _, l := range ls {
		if len(l) > 0 && (l[0] == 'E' || l[0] == 'F') {
			keep = append(keep, l)
		}
	}
	if len(keep) > 2 {
		keep = keep[len(keep)-2:]
	}
	x := strings.Join(keep, " | ")
	if len(x) > 400 {
		x = x[:400]
	}
	return x
}

// checkReport finds out which edition of the CCADB report the run went by.
func (w *CRLWorld) checkReport(r *crlRun, disk bool) *crlReport {
	s := w.s
	csv, _ := os.ReadFile(w.fs + "/ccadb-intermediates.csv")
	var rep *crlReport
	for _, x := range w.reports {
		if bytes.Equal(x.bytes, csv) {
			rep = x
		}
	}
	if rep == nil {
		s.Violate("C17", "partial-report", "aggregate-crls succeeds with a CCADB report on disk that is no complete edition (%d bytes)", len(csv))
		return nil
	}
	b, err := os.ReadFile(r.dir + "/enrolled.json")
	if err != nil {
		s.Violate("C17", "no-enrolled", "aggregate-crls succeeds without enrolled.json: %v", err)
		return nil
	}
	var rows []enrolledRow
	if err := json.Unmarshal(b, &rows); err != nil {
		s.Violate("C17", "torn-enrolled", "aggregate-crls succeeds with an enrolled.json that cannot be read: %v", err)
		return nil
	}
	seen := map[string]bool{}
	for _, row := range rows {
		pm := strings.TrimSpace(row.Pem)
		x, ok := rep.enrolled[pm]
		if !ok {
			s.Violate("C17", "foreign-issuer", "enrolled.json lists a CA that the report (edition %d) does not make trusted: %s", rep.ix, row.Subject)
			return nil
		}
		if seen[pm] {
			s.Violate("C17", "issuer-twice", "enrolled.json lists %s twice", row.Subject)
		}
		seen[pm] = true
		if row.UniqueID != x.UniqueID || row.PubKeyHash != x.PubKeyHash || row.UsesPartitionedCrls != x.UsesPartitionedCrls || row.Subject == "" {
			s.Violate("C17", "wrong-row", "enrolled.json describes %s wrongly: %+v", row.Subject, x)
		}
	}
	if len(seen) != len(rep.enrolled) {
		s.Violate("C17", "missing-issuer", "enrolled.json lists %d of the %d trusted CA certificates of the report (edition %d)", len(seen), len(rep.enrolled), rep.ix)
		return nil
	}
	// fresh: an edition on disk older than 12 hours is replaced
	if len(r.csv) == 0 || r.csvAge > 12*hour+min_ {
		whole := -1
		for i, f := range r.fetched {
			if f.outcome == "whole" {
				whole = i
			}
		}
		if whole >= 0 && r.rep[whole] != rep {
			s.Violate("C17", "stale-report", "aggregate-crls was given edition %d of the report and uses edition %d", r.rep[whole].ix, rep.ix)
		}
		ever := false // a crash may leave what was fetched in the temporary file
		for _, o := range w.runs {
			for i, f := range o.fetched {
				ever = ever || f.outcome == "whole" && o.rep[i] == rep
			}
		}
		if len(r.csv) == 0 && !ever {
			s.Violate("C17", "no-report", "aggregate-crls succeeds although the CCADB report was never delivered whole")
		}
		if len(r.csv) > 0 && whole < 0 && len(r.fetched) == 0 && !s.TroubledSince(r.start, "http", "net") && w.curReport() != rep && !w.pl.LastMod {
			s.Violate("C17", "stale-report", "aggregate-crls uses an edition of the report that is %.0f h old without asking for a new one", float64(r.csvAge)/3.6e12)
		}
	}
	s.Probe("crl-report")
	return rep
}

// checkStore: did each CRL that was delivered reach the store?
func (w *CRLWorld) checkStore(r *crlRun, rep *crlReport, disk, stall, term bool) {
	s := w.s
	if disk || stall || term || s.TroubledSince(r.start, "outage") {
		return // what was sent may never have arrived
	}
	net := s.TroubledSince(r.start, "net")
	for _, id := range sortedKeys(rep.urls) {
		for _, u := range rep.urls[id] {
			n, bad, whole, cut := 0, 0, -1, false
			for i, f := range u.fetches {
				n++
				switch f.outcome {
				case "whole":
					whole = i
				case "cut", "part":
					cut = true
				default:
					bad++
				}
			}
			if whole >= 0 && !cut {
				s.Probe("crl-fetched")
				v := u.fetches[whole].v
				switch {
				case v.sigOK && !same(u.disk, v):
					s.Violate("C15", "not-updated", "aggregate-crls was given version %d of %s, but its store has %s", v.n, u.pl.URL, verName(u.disk))
				case !v.sigOK && !same(u.disk, r.before[u]) && !r.tmp[u]:
					s.Violate("C15", "not-kept", "a bad answer for %s changed the store from %s to %s", u.pl.URL, verName(r.before[u]), verName(u.disk))
				case !v.sigOK && u.disk != nil:
					s.Probe("crl-fallback")
				}
			}
			if whole < 0 && !cut && !r.tmp[u] {
				if n == 0 && !net {
					s.Violate("C19", "not-asked", "aggregate-crls succeeds without asking for %s", u.pl.URL)
				}
				if n > 0 && bad < 4 && !net {
					s.Violate("C19", "gave-up", "aggregate-crls gives up on %s after %d failed attempts", u.pl.URL, bad)
				}
				if u.disk != nil {
					s.Probe("crl-fallback")
				}
			}
		}
	}
}

func same(a, b *crlBody) bool {
	return a == b || a != nil && b != nil && a.url == b.url && a.n == b.n
}

func verName(v *crlBody) string {
	if v == nil {
		return "nothing"
	}
	return fmt.Sprintf("version %d", v.n)
}

// checkRevoked: the lists of revoked serials are complete and exact.
func (w *CRLWorld) checkRevoked(r *crlRun, rep *crlReport, disk, term bool) {
	s := w.s
	have := map[string]bool{}
	ents, err := os.ReadDir(r.dir + "/revoked")
	if err != nil && !os.IsNotExist(err) {
		harness("%v", err)
	}
	for _, e := range ents {
		have[e.Name()] = true
		if _, ok := rep.urls[e.Name()]; !ok {
			s.Violate("C14", "foreign-list", "aggregate-crls wrote a list for %q, which is no enrolled issuer", e.Name())
		}
	}
	for _, id := range sortedKeys(rep.urls) {
		urls := rep.urls[id]
		want := map[string]bool{}
		all := true
		why := ""
		for _, u := range urls {
			if u.disk == nil || !u.disk.listOK {
				all = false
				why = u.pl.URL
				continue
			}
			for e := range u.disk.entries {
				want[e] = true
			}
		}
		if !have[id] {
			if len(urls) > 0 && all && (!disk || term) {
				cls := "missing-list"
				if term {
					cls = "missing-list-term"
				}
				s.Violate("C14", cls, "aggregate-crls succeeds without a list for issuer %s, all %d CRLs of which it has", id, len(urls))
			}
			if !all {
				s.Probe("crl-withheld")
			}
			continue
		}
		if !all {
			s.Violate("C14", "partial-list", "aggregate-crls wrote a list for issuer %s although it has no usable CRL from %s", id, why)
			continue
		}
		b, err := os.ReadFile(r.dir + "/revoked/" + id)
		if err != nil {
			harness("%v", err)
		}
		got := map[string]bool{}
		ls := strings.Split(string(b), "\n")
		for _, l := range ls[:len(ls)-1] {
			got[l] = true
		}
		if ls[len(ls)-1] != "" {
			s.Violate("C14", "torn-list", "the list of revoked serials of issuer %s ends in the middle of a line", id)
			continue
		}
		var miss, extra []string
		for e := range want {
			if !got[e] {
				miss = append(miss, e)
			}
		}
		for e := range got {
			if !want[e] {
				extra = append(extra, e)
			}
		}
		sort.Strings(miss)
		sort.Strings(extra)
		if len(miss) > 0 {
			s.Violate("C14", "missing-serials", "the list of issuer %s lacks %d of %d revoked serials, e.g. %s", id, len(miss), len(want), miss[0])
		} else if len(extra) > 0 {
			s.Violate("C14", "extra-serials", "the list of issuer %s has %d lines that are in none of its CRLs, e.g. %q", id, len(extra), extra[0])
		}
		s.Probe("crl-list")
	}
}

// checkAudit: the report tells what became of every CRL.
func (w *CRLWorld) checkAudit(r *crlRun, rep *crlReport, stall, term bool) {
	s := w.s
	b, err := os.ReadFile(r.dir + "/crl-audit.json")
	if err != nil {
		s.Violate("C16", "no-audit", "aggregate-crls succeeds without an audit report: %v", err)
		return
	}
	var a struct{ Entries []auditEntry }
	if err := json.Unmarshal(b, &a); err != nil {
		s.Violate("C16", "torn-audit", "the audit report cannot be read: %v", err)
		return
	}
	type key struct{ id, url string }
	by := map[key]map[string][]auditEntry{}
	for _, e := range a.Entries {
		if _, ok := rep.urls[e.Issuer]; !ok {
			s.Violate("C16", "foreign-entry", "the audit report has an entry %q for %q, which is no enrolled issuer", e.Kind, e.Issuer)
			return
		}
		k := key{e.Issuer, e.Url}
		if by[k] == nil {
			by[k] = map[string][]auditEntry{}
		}
		by[k][e.Kind] = append(by[k][e.Kind], e)
	}
	if term {
		return
	}
	outage := s.TroubledSince(r.start, "outage")
	net := s.TroubledSince(r.start, "net")
	for _, id := range sortedKeys(rep.urls) {
		for _, u := range rep.urls[id] {
			k := by[key{id, u.pl.URL}]
			n := func(kind string) int { return len(k[kind]) }
			v := u.disk
			switch {
			case v != nil && v.listOK && len(v.entries) > 0:
				if n(audValid) != 1 || n(audEmpty)+n(audFailProc) > 0 {
					s.Violate("C16", "valid-missing", "the audit report has %d entries %q (and %d, %d others) for %s, which was used", n(audValid), audValid, n(audEmpty), n(audFailProc), u.pl.URL)
				} else {
					e := k[audValid][0]
					h := sha256.Sum256(v.bytes)
					if e.SHA256Sum != hex.EncodeToString(h[:]) || e.NumRevocations != w.numEntries(v) {
						s.Violate("C16", "valid-wrong", "the audit report describes %s wrongly: %d revocations, hash %s", u.pl.URL, e.NumRevocations, e.SHA256Sum)
					}
				}
			case v != nil && v.listOK:
				if n(audEmpty) != 1 || n(audValid) > 0 {
					s.Violate("C16", "empty-missing", "the audit report has %d entries %q for %s, which is empty", n(audEmpty), audEmpty, u.pl.URL)
				}
			case v != nil:
				if n(audFailProc) != 1 || n(audValid)+n(audEmpty) > 0 {
					s.Violate("C16", "failure-missing", "the audit report has %d entries %q for %s, whose entries cannot be decoded", n(audFailProc), audFailProc, u.pl.URL)
				}
			default:
				if n(audFailDL)+n(audFailVer) == 0 || n(audValid)+n(audEmpty) > 0 {
					s.Violate("C16", "failure-missing", "the audit report has no failure for %s, which could not be had", u.pl.URL)
				}
			}
			// a download that went wrong is told, one that did not is not
			whole, other, bad := 0, 0, false
			for _, f := range u.fetches {
				if f.outcome == "whole" {
					whole++
					bad = bad || !f.v.sigOK
				} else {
					other++
				}
			}
			if stall || outage || r.tmp[u] {
				continue
			}
			if whole == 0 && other >= 4 && n(audFailDL)+n(audFailVer) == 0 {
				s.Violate("C16", "failure-missing", "the audit report does not tell that %s could not be downloaded", u.pl.URL)
			}
			if whole > 0 && bad && n(audFailVer) == 0 {
				s.Violate("C16", "failure-missing", "the audit report does not tell that the answer for %s was bad", u.pl.URL)
			}
			if whole > 0 && other == 0 && !bad && !net && n(audFailDL)+n(audFailVer) > 0 {
				s.Violate("C16", "false-failure", "the audit report tells of a failure for %s, which was delivered whole", u.pl.URL)
			}
			// distribution points of partitioned CRLs
			if v != nil && !v.listOK {
				// what cannot be decoded may have no distribution point either
			} else if v != nil && rep.part[id] {
				ok := false // it names its own URL, and none of the issuer's others
				for _, n := range v.idpNames {
					ok = ok || n == u.pl.URL
				}
				for _, o := range rep.urls[id] {
					for _, n := range v.idpNames {
						ok = ok && (o == u || n != o.pl.URL)
					}
				}
				if ok == (n(audWrongDP) > 0) {
					s.Violate("C16", "wrong-dp", "the audit report has %d entries %q for %s, whose issuing distribution point is right: %v", n(audWrongDP), audWrongDP, u.pl.URL, ok)
				}
			} else if n(audWrongDP) > 0 {
				s.Violate("C16", "wrong-dp", "the audit report has an entry %q for %s, which is not partitioned", audWrongDP, u.pl.URL)
			}
			if v != nil && u.pl.LastMod && whole > 0 && !bad && other == 0 {
				age := r.start - v.lastMod
				if age > 14*day+hour && n(audOld) == 0 || age < 14*day-hour && n(audOld) > 0 {
					s.Violate("C16", "age", "the audit report has %d entries %q for %s, which was last modified %.1f days ago", n(audOld), audOld, u.pl.URL, float64(age)/float64(day))
				}
			}
		}
	}
	s.Probe("crl-audit")
}

// numEntries: how many entries the CRL has; repeated ones count.
func (w *CRLWorld) numEntries(v *crlBody) int {
	if v.kind == "empty" {
		return 0
	}
	return v.url.pl.Vers[v.n].N
}
