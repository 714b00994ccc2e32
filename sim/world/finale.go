package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// loadPreset fills storage (and the cache's epoch) as an earlier life of the
// deployment would have left them.
func (w *Pipe) loadPreset() {
	ps := w.pl.Preset
	if ps == nil {
		return
	}
	w.preset = map[binKey]map[string]bool{}
	for _, b := range ps.Bins {
		is := w.issuers[b.Issuer%len(w.issuers)]
		t := time.Unix(0, w.s.Start+b.At*sec).UTC()
		id := t.Truncate(time.Hour).Format("2006-01-02-15")
		if b.Day {
			id = t.Truncate(24 * time.Hour).Format("2006-01-02")
		}
		k := binKey{id, is.ID}
		if w.preset[k] == nil {
			w.preset[k] = map[string]bool{}
		}
		for _, x := range b.Serials {
			w.preset[k][x] = true
		}
	}
	for k, xs := range w.preset {
		dir := filepath.Join(w.certPath, "serials", "issuer::"+k.iss)
		os.MkdirAll(dir, 0755)
		bt, _ := parseBinTime(k.bin)
		body := fmt.Sprintf("@%016x\n", bt/sec) + strings.Join(sortedKeys(xs), "\n") + "\n"
		if err := os.WriteFile(filepath.Join(dir, "serials::"+k.bin+"::"+k.iss), []byte(body), 0644); err != nil {
			harness("%v", err)
		}
		f := &storedFile{serials: map[string]bool{}}
		for x := range xs {
			f.serials[x] = true
		}
		w.stored[k] = f
	}
	os.MkdirAll(filepath.Join(w.certPath, "serials"), 0755)
	os.WriteFile(w.certPath+"/epoch", []byte(fmt.Sprintf("%d\n", ps.Epoch)), 0644)
	os.WriteFile(w.certPath+"/ct-logs.json", []byte("[]\n"), 0644)
	w.epoch = ps.Epoch
	w.hasClaim = true
	if !ps.CacheNew {
		x := strconv.FormatInt(ps.Epoch+1, 10)
		w.redis.keys["epoch"] = &rval{str: &x}
	}
}

// ---- what ct-fetch does to the network ----

func (w *Pipe) onDial(p *Proc, h *Host) {
	if p.Name != "ct-fetch" || !strings.HasPrefix(h.Name, "log.") {
		return
	}
	for _, l := range w.logs {
		if l.h == h {
			w.contact(l, p)
		}
	}
}

func (w *Pipe) onSTH(l *Log, p *Proc) {
	w.contact(l, p)
	s := w.s
	if t, off := p.offAt[l.Name]; off && !l.Enrolled && s.Now > t+120*sec && !s.TroubledSince(t-600*sec, "redis", "stall") {
		s.Violate("C08", "still-synced", "ct-fetch starts another round with %s %.0f s after remote settings told it that the log is not enrolled", l.Name, float64(s.Now-t)/1e9)
	}
}

func (w *Pipe) contact(l *Log, p *Proc) {
	p.busyAt = w.s.Now
	if !l.everOn {
		w.s.Violate("C08", "contact-unenrolled", "ct-fetch contacts %s, which was never enrolled", l.Name)
	}
}

// fetchEnd judges how a ct-fetch process ended (C07).
func (w *Pipe) fetchEnd(p *Proc) {
	s := w.s
	if p.Killed || !w.fetchOn {
		return
	}
	calm := !s.TroubledSince(p.Started-1, "")
	if p.termAt > 0 {
		if w.quiet && p.ExitCode != 0 && calm {
			s.Violate("C07", "term-exit", "ct-fetch, asked to stop with nothing wrong, exited with code %d", p.ExitCode)
		}
		return
	}
	if p.ExitCode != 0 || !calm {
		return
	}
	if w.pl.Cfg.RunForever {
		for i, l := range w.logs {
			if w.localLog(i) || w.pl.Cfg.RSInterval > 0 {
				s.Violate("C07", "exit-early", "ct-fetch, to run forever, exited with code 0 after %.3f s although nothing failed and nobody asked it to (%s: %d rounds)", float64(p.Ended-p.Started)/1e9, l.Name, p.sthN[l.Name])
				return
			}
		}
		return
	}
	for i, l := range w.logs {
		if !w.localLog(i) {
			continue
		}
		if p.sthN[l.Name] == 0 {
			s.Violate("C07", "oneshot-skipped", "ct-fetch, to do one round, exited with code 0 without ever contacting %s", l.Name)
		} else if st, ok := w.state(l); len(l.Entries) > 8 && !ok && l.sths[0].size > 8 {
			s.Violate("C07", "oneshot-lost", "ct-fetch, to do one round, exited with code 0, but nothing of %s (%d entries) was saved", l.Name, len(l.Entries))
		} else if ok && !w.needRest {
			_ = st
			s.Probe("oneshot-done")
		}
	}
}

func (w *Pipe) localLog(i int) bool { return !w.pl.Logs[i].Remote && w.pl.Logs[i].Enrolled }

func (w *Pipe) state(l *Log) (st LogState, ok bool) {
	v, ok := w.redis.PeekStr("log::" + l.Short)
	if !ok {
		return st, false
	}
	return st, json.Unmarshal([]byte(v), &st) == nil
}

// askHealth queries ct-fetch's health endpoint (C18).
func (w *Pipe) askHealth() {
	p := w.fetch
	s := w.s
	if p == nil || !p.alive || p.stalled > s.Now {
		return
	}
	if _, ok := p.listen[healthAddr]; !ok {
		if s.Now-p.Started > 300*sec && !s.TroubledSince(p.Started-1, "") && p.termAt == 0 {
			s.Violate("C18", "health-absent", "ct-fetch has run for %.0f s without serving its health endpoint", float64(s.Now-p.Started)/1e9)
		}
		return
	}
	t0 := s.Now
	done := false
	lim := 2 * int64(w.pl.Cfg.PollingDelay) * sec
	n0 := p.stallN
	idle := lim + 5*sec
	if w.enrollChanges() {
		// the last round before a log is let go ends with a pause and nothing after it
		idle += 2 * int64(w.pl.Cfg.PollingDelay) * sec
	}
	p.Get(healthAddr, "/health", func(status int, body string) {
		done = true
		if status == 0 || p.termAt > 0 {
			return
		}
		s.Probe(fmt.Sprintf("health-%d", status))
		switch status {
		case 200:
			if !s.TroubledSince(t0-lim-600*sec, "redis", "stall") && (p.busyAt == 0 || s.Now-p.busyAt > idle) {
				s.Violate("C18", "healthy-but-idle", "ct-fetch reports itself healthy %.0f s after it last did anything (limit %.0f s)", float64(s.Now-p.busyAt)/1e9, float64(lim)/1e9)
			}
		case 500, 503:
			if p.roundAt > 0 && t0-p.roundAt < lim-1*sec {
				s.Violate("C18", "unhealthy-but-working", "ct-fetch answers %d although it completed a round %.0f s ago (limit %.0f s)", status, float64(t0-p.roundAt)/1e9, float64(lim)/1e9)
			}
			if status == 500 && p.roundAt == 0 && s.Now-p.Started < lim {
				s.Violate("C18", "unhealthy-early", "ct-fetch answers 500 %.0f s after its start", float64(s.Now-p.Started)/1e9)
			}
		default:
			s.Violate("C18", "health-status", "ct-fetch's health endpoint answers %d", status)
		}
	})
	s.After(20*sec, func() {
		if !done && p.alive && p.stallN == n0 && p.termAt == 0 && !s.TroubledSince(t0-60*sec, "stall", "disk") {
			s.Violate("C18", "health-mute", "ct-fetch's health endpoint does not answer within 20 s")
		}
	})
}

// ---- after the faults ----

// synced: the cache's state of l reaches from its first entry to the newest
// tree head of at least `since`.
func (w *Pipe) synced(l *Log, n int) (bool, string) {
	st, ok := w.state(l)
	if !ok {
		return false, "no state at all"
	}
	if st.MinEntry != 0 || int(st.MaxEntry) < n-1 {
		return false, fmt.Sprintf("state [%d,%d] of %d entries", st.MinEntry, st.MaxEntry, n)
	}
	return true, ""
}

func (w *Pipe) syncable() []*Log {
	var ls []*Log
	for i, l := range w.logs {
		if !l.Enrolled || !w.localLog(i) && (w.pl.Cfg.RSInterval == 0 || !w.pl.Logs[i].Remote) {
			continue
		}
		if len(l.Entries) < 4 && !l.Tiled || len(l.Entries) == 0 {
			continue // too small to be verified
		}
		ls = append(ls, l)
	}
	return ls
}

func (w *Pipe) awaitSync(limit int64, who string) (bool, error) {
	s := w.s
	deadline := s.Now + limit
	want := map[*Log]int{}
	ls := w.syncable()
	for _, l := range ls {
		want[l] = len(l.Entries)
	}
	// a log that remote settings enrolled must have been contacted since
	fresh := func(l *Log) bool {
		return w.fetch != nil && w.fetch.sthAt[l.Name] >= l.enrolledAt
	}
	all := func() bool {
		for _, l := range ls {
			if ok, _ := w.synced(l, want[l]); !ok || !fresh(l) {
				return false
			}
		}
		return true
	}
	if err := s.Run(deadline, all); err != nil {
		return false, err
	}
	if all() {
		return true, nil
	}
	for i, l := range w.logs {
		if want[l] == 0 {
			continue
		}
		if ok, why := w.synced(l, want[l]); !ok || !fresh(l) {
			prop, class := "C06", "stuck"
			if w.pl.Logs[i].Remote && w.fetch != nil && (w.fetch.sthN[l.Name] == 0 || !fresh(l)) {
				prop, class = "C08", "never-synced"
				if why == "" {
					why = "not contacted since remote settings enrolled it"
				}
			}
			s.Violate(prop, class+who, "%.1f h after the last fault %s is still not fully downloaded: %s", float64(limit)/3.6e12, l.Name, why)
		}
	}
	return false, nil
}

func (w *Pipe) finale() error {
	s := w.s
	c := &w.pl.Cfg
	s.faultsOn = false
	for _, a := range sortedKeys(s.hosts) {
		h := s.hosts[a]
		h.Hole = false
		h.SetDown(s, false)
	}
	w.redis.OOM, w.redis.Loading, w.rsBad = false, false, 0
	t0 := s.Now
	s.Log("quiet")
	w.quiet = true
	for _, p := range s.procs {
		p.Resume()
	}
	aggAlive := func() bool {
		for _, r := range w.runs {
			if r.p.alive {
				return true
			}
		}
		return false
	}
	if err := s.Run(t0+6*hour, func() bool { return !aggAlive() }); err != nil {
		return err
	}
	for _, r := range w.runs {
		if r.p.alive {
			s.Violate("C11", "commit-hangs", "%s#%d still runs 6 h after the last fault", r.kind, r.p.ID)
			r.p.Kill()
		}
	}
	limit := 2*hour + (6*int64(c.PollingDelay)+int64(c.RSInterval))*sec
	if w.lockHeldByDead() {
		// the commit lock of a dead process blocks a restore for 4 h
		limit += 4 * hour
	}
	w.fetchOn = true
	if w.fetch == nil || !w.fetch.alive {
		w.startFetch()
	}
	tampered := w.tampered()
	resync := false
	if c.RunForever && !tampered && !s.TroubledSince(w.fetch.Started-1, "redis") {
		// nothing but the network failed it: it must recover by itself
		ok, err := w.awaitSync(limit, "")
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
		s.Probe("recovered-by-itself")
		resync = true
	}
	if c.RunForever {
		w.askHealth()
		p := w.fetch
		p.Signal(int(syscall.SIGTERM))
		rd := c.RestartDelay
		c.RestartDelay = 0
		if err := s.Run(s.Now+10*min_, func() bool { return !p.alive }); err != nil {
			return err
		}
		if p.alive {
			s.Violate("C07", "term-hang", "ct-fetch still runs 10 min after it was asked to stop")
			p.Kill()
		} else {
			s.Probe("clean-stop")
		}
		c.RestartDelay = rd
		if c.RestartDelay == 0 {
			c.RestartDelay = 10
		}
		w.startFetch()
	} else {
		c.RestartDelay = 60
		limit *= 4
		if w.fetch == nil || !w.fetch.alive {
			w.startFetch()
		}
	}
	ok, err := w.awaitSync(limit, "-after-restart")
	if err != nil {
		return err
	}
	if !ok {
		return nil
	}
	_ = resync
	s.Probe("recovered")
	tsync := s.Now
	if err := s.Run(s.Now+3*int64(c.PollingDelay)*sec+25*min_, nil); err != nil {
		return err
	}
	if c.RunForever {
		w.askHealth()
	}
	// a final commit, as the operator would do it
	var r *aggRun
	for i := 0; ; i++ {
		r = w.commitRun("aggregate-known")
		if err := s.Run(s.Now+30*min_, func() bool { return !r.p.alive }); err != nil {
			return err
		}
		if r.p.alive {
			s.Violate("C11", "commit-hangs", "%s#%d does not end within 30 min with nothing failing", r.kind, r.p.ID)
			return nil
		}
		if r.p.ExitCode == 0 {
			break
		}
		if i == 2 {
			s.Violate("C11", "commit-fails", "after all faults ended, aggregate-known keeps failing with code %d: %s", r.p.ExitCode, lastFatal(r.p.Stderr()))
			return nil
		}
		// restart ct-fetch, as the error asks for, and let locks expire
		if w.fetch != nil && w.fetch.alive {
			w.fetch.Kill()
		}
		if err := s.Run(s.Now+4*hour+10*min_, nil); err != nil {
			return err
		}
	}
	s.Probe("final-commit")
	w.finalCoverage(tsync)
	return nil
}

func lastFatal(t string) string {
	for _, l := range strings.Split(t, "\n") {
		if strings.HasPrefix(l, "F") && len(l) > 20 {
			return l
		}
	}
	return ""
}

func (w *Pipe) lockHeldByDead() bool {
	v, ok := w.redis.PeekStr("lock::commit")
	if !ok {
		return false
	}
	for _, p := range w.s.procs {
		if p.alive && p.tokens[v] {
			return false
		}
	}
	return true
}

// finalCoverage: once everything works again, coverage reaches the present
// and every covered certificate has moved to storage (C03, C06).
func (w *Pipe) finalCoverage(tsync int64) {
	s := w.s
	claims := map[string]*LogState{}
	for i := range w.claims {
		claims[w.claims[i].LogID] = &w.claims[i]
	}
	for _, l := range w.syncable() {
		st := claims[l.IDb64]
		if st == nil {
			s.Violate("C06", "coverage-missing", "the final ct-logs.json does not mention %s", l.Name)
			continue
		}
		if !w.pl.Cfg.RunForever {
			continue
		}
		if int64(st.MaxTimestamp) < tsync/msec-11*60*1000 {
			s.Violate("C06", "coverage-stuck", "%s is fully downloaded since %.0f s, but its coverage stands at a tree head %.0f s older than that", l.Name, float64(s.Now-tsync)/1e9, float64(tsync/msec-int64(st.MaxTimestamp))/1e3)
		}
	}
	for _, r := range w.recs {
		st := claims[r.l.IDb64]
		if st == nil || !r.e.Counted() || r.binTime <= s.Now || r.lost {
			continue
		}
		if uint64(r.e.TS) <= st.cutoff() {
			if !w.inStorage(r) {
				if uint64(r.e.Index) <= st.MaxEntry && uint64(r.e.Index) >= st.MinEntry {
					s.Violate("C03", "not-moved", "entry %d of %s (serial %s) is covered, but the final commit did not move it to storage", r.e.Index, r.l.Name, r.e.Cert.Serial)
				}
			} else if w.inCache(r) && !s.TroubledSince(0, "redis", "crash") {
				s.Violate("C03", "not-removed", "entry %d of %s (serial %s) is in storage, but the commit left it in the cache", r.e.Index, r.l.Name, r.e.Cert.Serial)
			}
		} else if !w.inCache(r) && !w.serialStored(r) {
			if uint64(r.e.Index) <= st.MaxEntry && uint64(r.e.Index) >= st.MinEntry {
				s.Violate("C03", "heldback-lost", "entry %d of %s (serial %s) is not covered yet, but it is no longer in the cache either", r.e.Index, r.l.Name, r.e.Cert.Serial)
			}
		} else {
			s.Probe("heldback")
		}
	}
	if !s.TroubledSince(0, "redis", "crash", "stall") {
		for _, k := range w.redis.PeekKeys("serials::") {
			if w.redis.keys[k].expire == 0 {
				s.Violate("C12", "no-ttl", "cache key %s has no expiry", k)
			}
		}
	}
}

func (w *Pipe) serialStored(r *Rec) bool { return w.inStorage(r) }
