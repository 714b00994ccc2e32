package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- cache ----

func (w *Pipe) onRedisCmd(p *Proc, a []string) {
	s := w.s
	switch strings.ToUpper(a[0]) {
	case "SREM", "INCR", "DEL", "SET":
		w.checkStale(p)
	}
	switch strings.ToUpper(a[0]) {
	case "DEL":
		for _, k := range a[1:] {
			if k != "lock::commit" {
				continue
			}
			cur, ok := w.redis.PeekStr(k)
			if !ok {
				continue
			}
			if !p.tokens[cur] {
				s.Violate("C09", "foreign-release", "%s#%d removes the commit lock held with another token", p.Name, p.ID)
			}
		}
	case "SADD":
		if w.tampered() {
			return // what was not verified may reach the cache, but not storage
		}
		iss := strings.Split(a[1], "::")
		for _, m := range a[2:] {
			r := w.byMember[a[1]+"\x00"+m]
			if r == nil {
				s.Violate("C02", "cache-invented", "%s#%d puts into %s a member that is no entry of any log: %x (%d parts)", p.Name, p.ID, a[1], m, len(iss))
			} else if !r.e.Counted() {
				s.Violate("C02", "cache-root", "%s#%d stores a self-signed root's entry in %s", p.Name, p.ID, a[1])
			}
		}
	}
}

func (w *Pipe) onRedisDone(p *Proc, a []string, rep string) {
	s := w.s
	cmd := strings.ToUpper(a[0])
	isErr := strings.HasPrefix(rep, "-")
	switch cmd {
	case "SET":
		if isErr {
			return
		}
		if strings.HasPrefix(a[1], "log::") {
			w.onLogState(p, a[1], a[2])
		}
		if a[1] == "epoch" && p.Name == "ct-fetch" {
			w.needRest = false
			p.lockOpen = false
			w.restored[p.ID] = true
			w.s.Probe("restore")
			w.checkRestore(p)
		}
		if a[1] == "lock::commit" && rep == "+OK\r\n" {
			w.lockTaken(p, a[2])
		}
	case "SETNX":
		if a[1] == "lock::commit" && rep == ":1\r\n" {
			w.lockTaken(p, a[2])
		}
	case "SADD":
		if isErr {
			return
		}
		for _, m := range a[2:] {
			if r := w.byMember[a[1]+"\x00"+m]; r != nil {
				r.lost, r.resumed = false, false
			}
		}
	case "GET":
		if l := w.byShort[strings.TrimPrefix(a[1], "log::")]; l != nil && p.Name == "ct-fetch" {
			if at := p.getAt[l.Name]; at > 0 && (p.sthAt[l.Name] > at || p.dialAt[l.h.Name] > at) && !w.enrollChanges() {
				p.roundAt = s.Now // the round before has ended
			}
			p.getAt[l.Name] = s.Now
			p.busyAt = s.Now
		}
	case "DEL":
		for _, k := range a[1:] {
			if k == "lock::commit" && rep == ":1\r\n" {
				w.lock.holder = nil
				p.lockOpen = false
			}
			if strings.HasPrefix(k, "log::") {
				delete(w.lastOK, k[5:])
			}
		}
	case "INCR":
		if !isErr {
			s.Probe("epoch-incr")
			if r := w.agg[p]; r != nil {
				r.commitEnd = true
			}
		}
	}
}

func (w *Pipe) lockTaken(p *Proc, token string) {
	s := w.s
	if p.tokens == nil {
		p.tokens = map[string]bool{}
	}
	p.tokens[token] = true
	p.lockOpen, p.lockAt = true, p.stallN
	for _, q := range s.procs {
		if q != p && q.tokens[token] {
			s.Violate("C09", "token-reuse", "%s#%d takes the commit lock with a token %s#%d already used", p.Name, p.ID, q.Name, q.ID)
		}
	}
	v := w.redis.get("lock::commit")
	if v == nil || v.expire == 0 {
		s.Violate("C09", "lock-no-expiry", "%s#%d takes the commit lock without an expiry: a crash would block every later run", p.Name, p.ID)
	} else {
		w.lock.expire = v.expire * msec
	}
	w.lock.holder = p
	w.lock.token = token
	if r := w.agg[p]; r != nil {
		r.locked = true
		r.token = token
	}
}

// checkStale notes that a process that was stalled after it took the commit
// lock goes on with its commit although it no longer holds the lock.
func (w *Pipe) checkStale(p *Proc) {
	if p.lockOpen && p.stallN > p.lockAt && !w.holdsLock(p) && !w.s.stale {
		w.s.stale = true
		w.s.Log("%s#%d goes on without the commit lock", p.Name, p.ID)
	}
}

// holdsLock: p's own token is in the cache now.
func (w *Pipe) holdsLock(p *Proc) bool {
	v, ok := w.redis.PeekStr("lock::commit")
	return ok && p.tokens[v]
}

// onLogState checks a log state as it is made durable in the cache (C04).
func (w *Pipe) onLogState(p *Proc, key, val string) {
	s := w.s
	var st LogState
	if err := json.Unmarshal([]byte(val), &st); err != nil {
		s.Violate("C04", "state-garbled", "%s: %v", key, err)
		return
	}
	l := w.byShort[st.ShortURL]
	if l == nil || "log::"+st.ShortURL != key {
		s.Violate("C04", "state-unknown-log", "%s holds state of %q", key, st.ShortURL)
		return
	}
	s.Probe("state-saved")
	if st.LogID != l.IDb64 || st.MMD != uint64(l.MMD) {
		s.Violate("C04", "state-identity", "%s saved with LogID %s MMD %d", key, st.LogID, st.MMD)
	}
	if st.MaxTimestamp > w.maxTS[l.IDb64] {
		w.maxTS[l.IDb64] = st.MaxTimestamp
	}
	w.lastOK[st.ShortURL] = st
	p.savedN[l.Name]++
	p.busyAt = s.Now
	w.checkState(l, &st, key)
}

// enrollChanges: does the enrollment of logs change in this run? Then a log
// may have two downloaders for a while.
func (w *Pipe) enrollChanges() bool {
	for _, e := range w.pl.Events {
		if e.Kind == "enroll" || e.Kind == "unenroll" {
			return true
		}
	}
	return false
}

// tampered: did any log ever hand out data that is not its own?
func (w *Pipe) tampered() bool {
	for _, l := range w.logs {
		if l.Tampered {
			return true
		}
	}
	return false
}

// redisTrouble: did the cache ever misbehave in this run?
func (w *Pipe) redisTrouble() bool {
	for _, f := range w.s.Fired {
		if strings.HasPrefix(f, "redis.") {
			return true
		}
	}
	for _, e := range w.pl.Events {
		switch e.Kind {
		case "wipe", "redisdown", "redisload", "oom":
			return true
		case "partition", "hostdown":
			if e.Who == "redis" {
				return true
			}
		}
	}
	return false
}

func (w *Pipe) checkState(l *Log, st *LogState, where string) {
	s := w.s
	if len(l.Entries) == 0 || st.MaxEntry >= uint64(len(l.Entries)) || st.MinEntry > st.MaxEntry {
		s.Violate("C04", "state-range", "%s: range [%d,%d] of a log with %d entries", where, st.MinEntry, st.MaxEntry, len(l.Entries))
		return
	}
	var maxT, minT uint64
	for i := uint64(0); i <= st.MaxEntry; i++ {
		if t := uint64(l.Entries[i].TS); t > maxT {
			maxT = t
		}
	}
	for i := st.MinEntry; i <= st.MaxEntry; i++ {
		if t := uint64(l.Entries[i].TS); minT == 0 || t < minT {
			minT = t
		}
	}
	for i := range l.sths {
		// a head of a smaller tree covers no more than this state does
		if l.sths[i].size <= int(st.MaxEntry)+1 && uint64(l.sths[i].ts) > maxT {
			maxT = uint64(l.sths[i].ts)
		}
	}
	if st.MaxTimestamp > maxT {
		s.Violate("C04", "max-timestamp", "%s: MaxTimestamp %d, but entries up to %d and the tree heads of that size only reach %d", where, st.MaxTimestamp, st.MaxEntry, maxT)
	}
	if st.MinEntry > 0 && st.MinTimestamp < minT {
		s.Violate("C04", "min-timestamp", "%s: MinTimestamp %d, but entries %d-%d start at %d", where, st.MinTimestamp, st.MinEntry, st.MaxEntry, minT)
	}
	for i := st.MinEntry; i <= st.MaxEntry; i++ {
		r := l.Entries[i].rec
		if !r.e.Counted() || r.binTime <= s.Now {
			continue
		}
		if w.inCache(r) || w.inStorage(r) {
			continue
		}
		if r.lost {
			// its loss is the cache's; C01 and C10 judge whether coverage of it may be stated
			continue
		}
		s.Violate("C04", "state-missing-entry", "%s says entries %d-%d are stored, but entry %d (serial %s) is neither in the cache nor in storage", where, st.MinEntry, st.MaxEntry, i, r.e.Cert.Serial)
		return
	}
}

// checkRestore: after a restore the log states are those of storage.
func (w *Pipe) checkRestore(p *Proc) {
	s := w.s
	want := map[string]bool{}
	for i := range w.claims {
		st := &w.claims[i]
		want[st.ShortURL] = true
		if l := w.byShort[st.ShortURL]; l != nil {
			for _, r := range w.recs {
				if r.lost && r.l == l && uint64(r.e.Index) >= st.MinEntry && uint64(r.e.Index) <= st.MaxEntry {
					r.resumed = true
				}
			}
		}
		v, ok := w.redis.PeekStr("log::" + st.ShortURL)
		if !ok {
			s.Violate("C10", "restore-missing", "after the cache was reset, the state of %s is not restored", st.ShortURL)
			continue
		}
		var got LogState
		json.Unmarshal([]byte(v), &got)
		if got.MaxEntry != st.MaxEntry || got.MinEntry != st.MinEntry || got.MaxTimestamp != st.MaxTimestamp || got.MinTimestamp != st.MinTimestamp {
			s.Violate("C10", "restore-differs", "after the cache was reset, the state of %s is [%d,%d], but storage holds [%d,%d]", st.ShortURL, got.MinEntry, got.MaxEntry, st.MinEntry, st.MaxEntry)
		}
	}
	for _, k := range w.redis.PeekKeys("log::") {
		if !want[k[5:]] {
			s.Violate("C10", "restore-extra", "after the cache was reset, the state of %s is left over", k[5:])
		}
	}
	e, _ := w.redis.PeekStr("epoch")
	se := w.epoch
	if se < 0 {
		se = 0
	}
	if e != strconv.FormatInt(se+1, 10) {
		s.Violate("C10", "restore-epoch", "after the cache was reset its epoch is %s, storage's is %d", e, se)
	}
}

// ---- storage ----

func (w *Pipe) onFS(p *Proc, op *FileOp) {
	if !op.Mutates() {
		return
	}
	for _, x := range []string{op.Path, op.Path2} {
		if strings.HasPrefix(x, w.certPath) {
			w.dirty[x] = p
			if op.Op == FRename && x == op.Path2 || op.Op == FRemove {
				w.mutation(p, op, x)
			}
		}
	}
}

// mutation checks who may change persistent storage (C09, C10).
func (w *Pipe) mutation(p *Proc, op *FileOp, path string) {
	s := w.s
	rel := strings.TrimPrefix(path, w.certPath+"/")
	if !(rel == "epoch" || rel == "ct-logs.json" || strings.HasPrefix(filepath.Base(rel), "serials::")) {
		return
	}
	if p.Name == "ct-fetch" {
		s.Violate("C09", "fetch-writes", "ct-fetch changes persistent storage: %s", rel)
		return
	}
	w.checkStale(p)
	if s.Now < p.stalled { // takes effect when the process goes on
		s.At(p.stalled, func() {
			if p.alive {
				w.checkStale(p)
			}
		})
	}
	r := w.agg[p]
	if r == nil {
		return
	}
	if !r.locked {
		s.Violate("C09", "no-lock", "%s#%d changes %s without ever having taken the commit lock", p.Name, p.ID, rel)
	} else if v, ok := w.redis.PeekStr("lock::commit"); ok && !p.tokens[v] && s.Now < r.start+4*hour && r.wipeGen == w.redis.Gen {
		s.Violate("C09", "lock-stolen", "%s#%d changes %s while another process holds the commit lock", p.Name, p.ID, rel)
	}
	if !r.started {
		r.started = true
		if r.wipeGen == w.redis.Gen && op.Op == FRename {
			ce := int64(0)
			if v, ok := w.redis.PeekStr("epoch"); ok {
				ce, _ = strconv.ParseInt(v, 10, 64)
			}
			se := w.epoch
			if se < 0 {
				se = 0
			}
			if !(ce == se+1 || ce == 0 && se == 0) {
				s.Violate("C10", "commit-inconsistent-epochs", "%s#%d moves serials although the cache is at epoch %d and storage at %d", p.Name, p.ID, ce, se)
			}
		}
	}
}

func (w *Pipe) afterStep(p *Proc) {
	if len(w.dirty) == 0 {
		return
	}
	var paths []string
	for k, q := range w.dirty {
		if q == p {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	claims := false
	var bins []binKey
	for _, x := range paths {
		delete(w.dirty, x)
		rel := strings.TrimPrefix(x, w.certPath+"/")
		base := filepath.Base(rel)
		switch {
		case rel == "ct-logs.json":
			if w.readClaims(p) {
				claims = true
			}
		case rel == "epoch":
			w.readEpoch(p)
		case strings.HasPrefix(base, "serials::"):
			f := strings.Split(base, "::")
			if len(f) == 3 {
				b := binKey{f[1], f[2]}
				if w.readBin(p, x, b) {
					bins = append(bins, b)
				}
			}
		}
	}
	if claims {
		w.checkCoverage(p)
	} else if w.hasClaim {
		for _, b := range bins {
			w.checkBin(b, p)
		}
	}
}

func (w *Pipe) readEpoch(p *Proc) {
	s := w.s
	b, err := os.ReadFile(w.certPath + "/epoch")
	if err != nil {
		if w.epoch >= 0 {
			s.Violate("C10", "epoch-gone", "the storage epoch file vanished")
		}
		return
	}
	n, err := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
	if err != nil {
		s.Violate("C10", "epoch-torn", "the storage epoch file holds %q", b)
		return
	}
	if n < w.epoch {
		s.Violate("C10", "epoch-regress", "the storage epoch went from %d back to %d", w.epoch, n)
	}
	w.epoch = n
}

func (w *Pipe) readClaims(p *Proc) bool {
	s := w.s
	b, err := os.ReadFile(w.certPath + "/ct-logs.json")
	if err != nil {
		if w.hasClaim {
			s.Violate("C02", "claims-gone", "ct-logs.json vanished")
		}
		return false
	}
	var cl []LogState
	if err := json.Unmarshal(b, &cl); err != nil {
		s.Violate("C02", "claims-torn", "ct-logs.json is not valid JSON (%d bytes): %v", len(b), err)
		return false
	}
	seen := map[string]bool{}
	for i := range cl {
		if seen[cl[i].LogID] {
			// harmless for coverage, but a reader sees a log twice
			s.Probe("claims-dup")
		}
		seen[cl[i].LogID] = true
	}
	w.claims = cl
	w.hasClaim = true
	s.Probe("coverage-published")
	return true
}

// readBin re-reads one storage file and checks its contents (C02, C03, C12).
func (w *Pipe) readBin(p *Proc, path string, b binKey) bool {
	s := w.s
	data, err := os.ReadFile(path)
	if err != nil {
		if w.stored[b] != nil {
			delete(w.stored, b)
			bt, ok := parseBin(b.bin)
			end := bt + hour
			if len(b.bin) == 10 {
				end = bt + 24*hour
			}
			if !ok || end > s.Now+p.cfg.WallOff {
				s.Violate("C12", "removed-early", "storage file for %s removed %.0f s before its last certificate expires", b.bin, float64(end-s.Now)/1e9)
				return true
			}
			s.Probe("bin-expired")
		}
		return false
	}
	f := &storedFile{serials: map[string]bool{}}
	w.stored[b] = f
	bt, _ := parseBin(b.bin)
	want := fmt.Sprintf("@%016x", bt/sec)
	sc := bufio.NewScanner(bytes.NewReader(data))
	first := true
	if len(data) == 0 || data[len(data)-1] != '\n' {
		f.bad = "does not end with a newline"
	}
	for sc.Scan() {
		line := sc.Text()
		if first {
			first = false
			if line != want {
				f.bad = fmt.Sprintf("first line %q, want %q", line, want)
			}
			continue
		}
		if _, err := hex.DecodeString(line); err != nil || line == "" {
			f.bad = fmt.Sprintf("line %q", line)
			continue
		}
		if f.serials[line] {
			f.bad = "serial " + line + " twice"
		}
		f.serials[line] = true
	}
	if f.bad != "" {
		s.Violate("C02", "file-torn", "storage file for %s %s: %s", b.bin, b.iss, f.bad)
	}
	m := w.bySerial[b]
	for _, x := range sortedKeys(f.serials) {
		rs := m[x]
		if len(rs) == 0 {
			if !w.preset[b][x] {
				s.Violate("C02", "storage-invented", "storage file for %s lists serial %s, which no log holds for that issuer and hour", b.bin, x)
			}
			continue
		}
		ok := w.preset[b][x]
		for _, r := range rs {
			st := LogState{MMD: uint64(r.l.MMD), MaxTimestamp: w.maxTS[r.l.IDb64]}
			if r.e.Counted() && uint64(r.e.TS) <= st.cutoff() {
				ok = true
			}
		}
		if !ok {
			s.Violate("C03", "stored-uncovered", "serial %s is in storage although its log's coverage has not reached its timestamp", x)
		}
	}
	return true
}

func parseBin(b string) (int64, bool) {
	t, err := parseBinTime(b)
	return t, err == nil
}

// checkCoverage: everything storage claims to know is in storage (C01).
func (w *Pipe) checkCoverage(p *Proc) {
	for _, b := range sortedBins(w.bySerial) {
		w.checkBin(b, p)
		if len(w.s.Viol) > 8 {
			return
		}
	}
}

func sortedBins(m map[binKey]map[string][]*Rec) []binKey {
	ks := make([]binKey, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].bin != ks[j].bin {
			return ks[i].bin < ks[j].bin
		}
		return ks[i].iss < ks[j].iss
	})
	return ks
}

func (w *Pipe) checkBin(b binKey, p *Proc) {
	s := w.s
	f := w.stored[b]
	m := w.bySerial[b]
	for _, x := range sortedKeys(m) {
		if f != nil && f.serials[x] {
			continue
		}
		for _, r := range m[x] {
			if !r.e.Counted() || r.binTime <= s.Now || !w.claimed(r) {
				continue
			}
			class := "lost"
			switch {
			case r.lost && r.resumed:
				class = "heldback-lost-by-wipe"
			case r.lost && r.lostRun != nil && r.lostRun.p == p:
				class = "lost-by-wipe-midcommit"
			case r.lost && r.lost0, r.lost0 && w.serialInCache(r):
				// lost, perhaps fetched again since
				class = "lost-by-wipe-before-first-commit"
			case r.lost:
				class = "lost-by-wipe"
			case w.serialInCache(r):
				class = "still-in-cache"
			}
			s.Violate("C01", class, "coverage in ct-logs.json includes %s entry %d (timestamp %d, serial %s, expiry %s), but storage does not list the serial", r.l.Name, r.e.Index, r.e.TS, x, b.bin)
		}
	}
}

// ---- end of a commit run ----

func (w *Pipe) commitExit(r *aggRun) {
	s := w.s
	p := r.p
	w.crashCheck(p)
	s.Log("%s ended code=%d started=%v", r.kind, p.ExitCode, r.started)
	if p.ExitCode == 0 {
		r.endOK = true
		s.Probe("commit-ok")
		w.progress = s.Now
		w.afterCommit(r)
	} else {
		s.Probe("commit-failed")
		if strings.Contains(p.Stderr(), "Inconsistent cache and storage epochs") {
			s.Probe("commit-refused-epoch")
			s.After(30*sec, func() { // the operator does as told
				if w.fetch != nil && w.fetch.alive && w.fetchOn {
					w.fetch.Kill()
				}
			})
		}
	}
}

// afterCommit checks what a successful run promises.
func (w *Pipe) afterCommit(r *aggRun) {
	s := w.s
	if r.kind == "aggregate-known" {
		w.checkKnown(r)
	}
	// the lock is released on success
	if v, ok := w.redis.PeekStr("lock::commit"); ok && v == r.token && !w.redisTrouble() {
		s.Violate("C09", "lock-leaked", "%s#%d ended with success but left the commit lock behind", r.kind, r.p.ID)
	}
	if w.hasClaim {
		w.checkCoverage(r.p)
	}
	// nothing that had expired before the run remains
	for b := range w.stored {
		bt, ok := parseBin(b.bin)
		end := bt + hour
		if len(b.bin) == 10 {
			end = bt + 24*hour
		}
		if ok && end <= r.start+r.p.cfg.WallOff && !w.diskTrouble() {
			s.Violate("C12", "expired-kept", "after a successful commit storage still has the bin %s, expired %.0f s before it began", b.bin, float64(r.start-end)/1e9)
		}
	}
}

func (w *Pipe) diskTrouble() bool {
	for _, f := range w.s.Fired {
		if strings.HasPrefix(f, "disk.") {
			return true
		}
	}
	return false
}

// checkKnown compares aggregate-known's output with storage (C13).
func (w *Pipe) checkKnown(r *aggRun) {
	s := w.s
	for _, q := range w.runs {
		if q != r && q.p.alive && q.started {
			return // storage may have moved on (the lock expired)
		}
	}
	if s.Now-r.start > 4*hour {
		return
	}
	want := map[string]map[string][]string{} // issuer -> header -> serials
	maybe := map[string]bool{}
	for b, f := range w.stored {
		is := w.byIss[b.iss]
		if is == nil || !w.enrolledIssuer(is) {
			continue
		}
		bt, _ := parseBin(b.bin)
		end := bt + hour
		if len(b.bin) == 10 {
			end = bt + 24*hour
		}
		h := fmt.Sprintf("@%016x", bt/sec)
		if end <= r.start {
			continue
		}
		if end <= s.Now {
			maybe[b.iss+h] = true
			continue
		}
		if want[b.iss] == nil {
			want[b.iss] = map[string][]string{}
		}
		// a whole day's bin and that day's first hour share a header
		xs := append(want[b.iss][h], sortedKeys(f.serials)...)
		sort.Strings(xs)
		want[b.iss][h] = xs
	}
	ents, err := os.ReadDir(r.dir + "/known")
	if err != nil && len(want) > 0 {
		s.Violate("C13", "known-missing", "aggregate-known succeeded without an output directory: %v", err)
		return
	}
	have := map[string]bool{}
	for _, e := range ents {
		iss := e.Name()
		have[iss] = true
		is := w.byIss[iss]
		if is == nil || !w.enrolledIssuer(is) {
			s.Violate("C13", "known-foreign", "aggregate-known wrote %q, which is no enrolled issuer with stored serials", iss)
			continue
		}
		data, err := os.ReadFile(r.dir + "/known/" + iss)
		if err != nil {
			harness("%v", err)
		}
		got := map[string][]string{}
		cur := ""
		bad := ""
		if len(data) > 0 && data[len(data)-1] != '\n' {
			bad = "is cut off"
		}
		for _, line := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
			if line == "" {
				continue
			}
			if line[0] == '@' {
				cur = line
				if got[cur] == nil {
					got[cur] = []string{}
				}
			} else {
				got[cur] = append(got[cur], line)
			}
		}
		for h, xs := range want[iss] {
			if maybe[iss+h] {
				continue
			}
			g, ok := got[h]
			if !ok {
				bad = "lacks the group " + h
				continue
			}
			sort.Strings(g)
			if strings.Join(g, " ") != strings.Join(xs, " ") {
				bad = fmt.Sprintf("group %s: %d serials, storage has %d", h, len(g), len(xs))
			}
		}
		for h := range got {
			if _, ok := want[iss][h]; !ok && !maybe[iss+h] {
				bad = "has the group " + h + " that storage does not hold"
			}
		}
		if bad != "" {
			s.Violate("C13", "known-differs", "aggregate-known exited 0 but its file for %s %s", is.Name, bad)
		}
	}
	for iss := range want {
		if !have[iss] {
			all := true
			for h := range want[iss] {
				if !maybe[iss+h] {
					all = false
				}
			}
			if !all {
				s.Violate("C13", "known-missing", "aggregate-known exited 0 without a file for %s", w.byIss[iss].Name)
			}
		}
	}
	b, err := os.ReadFile(r.dir + "/ct-logs.json")
	var cl []LogState
	if err != nil || json.Unmarshal(b, &cl) != nil {
		s.Violate("C13", "ctlogs-torn", "aggregate-known exited 0 but its ct-logs.json is unusable (%d bytes)", len(b))
		return
	}
	x, _ := json.Marshal(cl)
	y, _ := json.Marshal(w.claims)
	if !bytes.Equal(x, y) {
		s.Violate("C13", "ctlogs-differ", "aggregate-known's ct-logs.json is not the coverage of storage")
	}
	s.Probe("known-checked")
}

func (w *Pipe) enrolledIssuer(is *Issuer) bool {
	for i, x := range w.issuers {
		if x == is {
			return w.pl.Cfg.Enrolled>>i&1 == 1
		}
	}
	return false
}
