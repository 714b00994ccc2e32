package main

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	redisAddr  = "redis.sim:6379"
	rsAddr     = "rs.sim:443"
	healthAddr = "127.0.0.1:8080"
)

// LogState mirrors the JSON the pipeline stores for a log.
type LogState struct {
	LogID          string
	MMD            uint64
	ShortURL       string
	MinEntry       uint64
	MaxEntry       uint64
	MinTimestamp   uint64
	MaxTimestamp   uint64
	LastUpdateTime time.Time
}

func (st *LogState) cutoff() uint64 {
	if m := st.MMD * 1000; st.MaxTimestamp >= m {
		return st.MaxTimestamp - m
	}
	return 0
}

// claims: does this coverage statement say that an entry with timestamp ts is known?
func (st *LogState) claims(ts uint64) bool {
	return ts < st.cutoff() && (st.MinEntry == 0 || ts > st.MinTimestamp+st.MMD*1000)
}

// binKey names a set of serials: expiry hour and issuer.
type binKey struct {
	bin string // YYYY-MM-DD-HH
	iss string
}

func (b binKey) redis() string { return "serials::" + b.bin + "::" + b.iss }

// Rec is one log entry as the model knows it.
type Rec struct {
	e       *Entry
	l       *Log
	bin     binKey
	binTime int64 // ns, start of the expiry hour
	member  string
	lost    bool // only in the cache when the cache lost its data, and not added again since
	lost0   bool // ... before anything was committed
	lostRun *aggRun
	resumed bool // lost, and a restore resumed the download beyond it
	tamper  bool // never a genuine entry
}

type storedFile struct {
	serials map[string]bool
	bad     string
}

// Pipe is the world of the certificate pipeline: logs, ct-fetch, Redis,
// persistent storage, the commit programs.
type Pipe struct {
	s                  *Sim
	pl                 *Plan
	redis              *Redis
	logs               []*Log
	byShort            map[string]*Log
	issuers            []*Issuer
	preIss             []*Issuer
	byIss              map[string]*Issuer
	fs                 string // the simulated disk
	certPath           string
	recs               []*Rec
	byMember           map[string]*Rec
	bySerial           map[binKey]map[string][]*Rec
	stored             map[binKey]*storedFile
	claims             []LogState // storage's ct-logs.json
	hasClaim           bool
	epoch              int64 // storage epoch, -1: no file
	maxTS              map[string]uint64
	dirty              map[string]*Proc
	fetch              *Proc
	fetchOn            bool
	fastFail, restartN int
	nfetch             int
	needRest           bool // the cache was wiped and not restored since
	restored           map[int]bool
	runs               []*aggRun
	nagg               int
	quiet              bool
	rsHost             *Host
	rsBad              int
	health             []string
	lastOK             map[string]LogState // last state saved per log
	lock               lockModel
	killed             int
	storeErr           bool
	agg                map[*Proc]*aggRun
	progress           int64
	preset             map[binKey]map[string]bool // serials storage held at the start
}

type aggRun struct {
	p         *Proc
	kind      string
	dir       string
	start     int64
	token     string
	locked    bool
	lockLost  bool
	faultsAt  int
	started   bool // mutated storage
	badEpoch  bool
	endOK     bool
	killed    bool
	sigterm   bool
	wipeGen   int
	fired     int
	preEpoch  int64
	covered   bool
	commitEnd bool
}

type lockModel struct {
	holder *Proc
	token  string
	expire int64
}

func binOf(notAfterNs int64) (string, int64) {
	t := time.Unix(0, notAfterNs).UTC().Truncate(time.Hour)
	return t.Format("2006-01-02-15"), t.UnixNano()
}

func parseBinTime(b string) (int64, error) {
	f := "2006-01-02-15"
	if len(b) == 10 {
		f = "2006-01-02"
	}
	t, err := time.Parse(f, b)
	return t.UnixNano(), err
}

func NewPipe(s *Sim) *Pipe {
	pl := s.Plan
	w := &Pipe{s: s, pl: pl, byShort: map[string]*Log{}, byIss: map[string]*Issuer{}, byMember: map[string]*Rec{},
		bySerial: map[binKey]map[string][]*Rec{}, stored: map[binKey]*storedFile{}, epoch: -1, maxTS: map[string]uint64{},
		dirty: map[string]*Proc{}, restored: map[int]bool{}, lastOK: map[string]LogState{}, agg: map[*Proc]*aggRun{}}
	w.fs = s.Root + "/fs"
	w.certPath = w.fs + "/cert"
	for _, d := range []string{w.fs, s.Root + "/tmp", s.Root + "/home", w.fs + "/proc"} {
		if err := os.MkdirAll(d, 0755); err != nil {
			harness("%v", err)
		}
	}
	w.redis = s.NewRedis(redisAddr)
	start := time.Unix(0, s.Start).UTC()
	nb, na := start.AddDate(-3, 0, 0), start.AddDate(5, 0, 0)
	for i := 0; i < pl.Issuers; i++ {
		is := cachedIssuer(fmt.Sprintf("CA %d", i), nil, nb, na, false, pl.Seed%64, "issuer", i)
		w.issuers = append(w.issuers, is)
		w.byIss[is.ID] = is
		w.preIss = append(w.preIss, cachedIssuer(fmt.Sprintf("CA %d precert signer", i), is, nb, na, true, pl.Seed%64, "pre", i))
	}
	for i, lp := range pl.Logs {
		l := s.NewLog(fmt.Sprintf("log%d", i), i, lp)
		w.logs = append(w.logs, l)
		w.byShort[l.Short] = l
	}
	w.loadCerts()
	w.rsHost = s.HTTPHost("rs", rsAddr, func(r *HTTPReq) *HTTPResp {
		if strings.HasSuffix(r.Path, "/buckets/security-state/collections/ct-logs/records") {
			switch w.rsBad {
			case 1:
				return &HTTPResp{Status: 200, Body: []byte("<html>maintenance</html>")}
			case 2:
				return jsonResp(map[string]any{"error": "x"})
			case 3:
				return &HTTPResp{Status: 200, Body: []byte("{\"data\": [{\"crlite_enrolled\": fal")}
			}
			data := []map[string]any{}
			var off []*Log
			for i, l := range w.logs {
				if pl.Logs[i].Remote {
					data = append(data, l.Meta())
					if !l.Enrolled {
						off = append(off, l)
					} else {
						l.everOn = true
						delete(r.c.p.offAt, l.Name)
					}
				}
			}
			resp := jsonResp(map[string]any{"data": data})
			by := r.c.p
			resp.Sent = func() {
				for _, l := range off {
					if by.offAt[l.Name] == 0 {
						by.offAt[l.Name] = s.Now
					}
				}
			}
			return resp
		}
		return &HTTPResp{Status: 404}
	})
	for _, l := range w.logs {
		l.OnSTH = func(p *Proc) { w.onSTH(l, p) }
	}
	s.OnDial = w.onDial
	w.loadPreset()
	s.fsHooks = append(s.fsHooks, w.onFS)
	s.kernel = append(s.kernel, w.afterStep)
	s.onViolate = w.alsoViolates
	w.redis.OnCmd = w.onRedisCmd
	w.redis.OnDone = w.onRedisDone
	return w
}

// alsoViolates attributes a breach to the further properties it breaks.
func (w *Pipe) alsoViolates(v Violation) {
	s := w.s
	data := v.Property == "C01" || v.Property == "C02" || v.Property == "C04" || v.Class == "stored-uncovered"
	if data && w.tampered() {
		s.Violate("C05", "tampered-"+v.Class, "%s", v.Detail)
	}
	if (v.Property == "C01" || v.Property == "C02" || v.Property == "C03") && !strings.Contains(v.Class, "wipe") {
		for _, r := range w.runs {
			if r.p.Ended > 0 && r.p.ExitCode != 0 && r.started {
				s.Violate("C11", "after-failed-commit-"+v.Class, "%s", v.Detail)
				break
			}
		}
	}
	if v.Property == "C01" && strings.Contains(v.Class, "wipe") {
		s.Violate("C10", v.Class, "%s", v.Detail)
	}
}

func (w *Pipe) loadCerts() {
	s := w.s
	type sub struct {
		at int64
		i  int
	}
	var pre, later []sub
	for i, c := range w.pl.Certs {
		if c.At+c.Merge <= 0 {
			pre = append(pre, sub{c.At + c.Merge, i})
		} else {
			later = append(later, sub{c.At, i})
		}
	}
	sort.SliceStable(pre, func(a, b int) bool { return pre[a].at < pre[b].at })
	sort.SliceStable(later, func(a, b int) bool { return later[a].at < later[b].at })
	for _, x := range pre {
		c := &w.pl.Certs[x.i]
		r := w.mkRec(c)
		r.e.TS = (s.Start + c.At) / msec
		w.merge(r)
	}
	for _, x := range later {
		c := &w.pl.Certs[x.i]
		s.At(s.Start+c.At+c.Merge, func() {
			r := w.mkRec(c)
			r.e.TS = (s.Start + c.At) / msec
			w.merge(r)
		})
	}
}

func (w *Pipe) mkRec(c *CertPlan) *Rec {
	s := w.s
	l := w.logs[c.Log]
	is := w.issuers[c.Issuer%len(w.issuers)]
	serial, err := hex.DecodeString(c.Serial)
	if err != nil {
		harness("serial %q", c.Serial)
	}
	na := s.Start + c.NotAfter*sec
	na -= na % sec
	leaf := mkLeaf(is, serial, "h"+c.Serial+".example", time.Unix(0, na-90*day), time.Unix(0, na), c.Kind == "" || c.Kind == "preissuer")
	e := &Entry{Cert: leaf, issuer: is}
	switch c.Kind {
	case "", "precert":
		e.Precert = true
		e.Chain = []*Issuer{is}
	case "preissuer":
		e.Precert = true
		e.Chain = []*Issuer{w.preIss[c.Issuer%len(w.issuers)], is}
	case "cert":
		e.Chain = []*Issuer{is}
	case "root":
		e.Chain = nil
	}
	bin, bt := binOf(na)
	return &Rec{e: e, l: l, bin: binKey{bin, is.ID}, binTime: bt}
}

func (w *Pipe) merge(r *Rec) {
	r.e.rec = r
	r.l.merge(r.e)
	var ts [8]byte
	binary.LittleEndian.PutUint64(ts[:], uint64(r.e.TS))
	sb, _ := hex.DecodeString(r.e.Cert.Serial)
	r.member = string(ts[:]) + string(r.l.ID[:]) + string(sb)
	w.recs = append(w.recs, r)
	w.byMember[r.bin.redis()+"\x00"+r.member] = r
	m := w.bySerial[r.bin]
	if m == nil {
		m = map[string][]*Rec{}
		w.bySerial[r.bin] = m
	}
	m[r.e.Cert.Serial] = append(m[r.e.Cert.Serial], r)
}

// ---- programs ----

func (w *Pipe) env() []string {
	c := &w.pl.Cfg
	e := []string{"certPath=" + w.certPath, "redisHost=" + redisAddr, "healthAddr=" + healthAddr,
		"redisTimeout=" + strconv.Itoa(c.RedisTimeout) + "s", "batchSize=" + strconv.Itoa(c.BatchSize),
		"pollingDelay=" + strconv.Itoa(c.PollingDelay), "runForever=" + strconv.FormatBool(c.RunForever),
		"numThreads=" + strconv.Itoa(c.NumThreads), "statsRefreshPeriod=24h", "logExpiredEntries=" + strconv.FormatBool(c.LogExpired)}
	return e
}

func (w *Pipe) startFetch() {
	if w.fetch != nil && w.fetch.alive {
		return
	}
	c := &w.pl.Cfg
	e := w.env()
	var local []map[string]any
	for i, l := range w.logs {
		if !w.pl.Logs[i].Remote {
			local = append(local, l.Meta())
		}
	}
	if local != nil {
		b, _ := json.Marshal(local)
		e = append(e, "ctLogMetadata="+string(b))
	}
	if c.RSInterval > 0 {
		e = append(e, "remoteSettingsURL=https://"+strings.TrimSuffix(rsAddr, ":443")+"/v1/", "remoteSettingsUpdateInterval="+strconv.Itoa(c.RSInterval))
	}
	w.nfetch++
	w.fetchOn = true
	w.s.Spawn("ct-fetch", ProcCfg{Bin: "ct-fetch", Args: w.logArgs(), Env: e, OnStart: func(p *Proc) { w.fetch = p }, OnExit: w.fetchExit})
}

func (w *Pipe) fetchExit(p *Proc) {
	w.s.Log("ct-fetch exited code=%d", p.ExitCode)
	w.crashCheck(p)
	w.fetchEnd(p)
	if w.fetchOn && w.pl.Cfg.RestartDelay > 0 {
		// a supervisor that backs off when the program keeps failing at once
		if w.s.Now-p.Started < min_ {
			w.fastFail++
		} else {
			w.fastFail = 0
		}
		d := int64(w.pl.Cfg.RestartDelay) * sec
		for i := 0; i < w.fastFail && d < 5*min_; i++ {
			d *= 2
		}
		w.restartN++
		n := w.restartN
		w.s.After(d, func() {
			if w.fetchOn && n == w.restartN {
				w.startFetch()
			}
		})
	}
}

// logArgs: programs log to stderr, or, as the production scripts have it,
// also to files.
func (w *Pipe) logArgs() []string {
	if w.pl.Cfg.LogFiles {
		d := w.fs + "/log"
		os.MkdirAll(d, 0755)
		return []string{"-alsologtostderr", "-log_dir", d}
	}
	return []string{"-logtostderr=true"}
}

// crashCheck reports a program that ended by a Go panic or a data race throw.
func (w *Pipe) crashCheck(p *Proc) {
	if p.Killed {
		return
	}
	if p.ExitCode == 2 {
		t := p.Stderr()
		if i := strings.Index(t, "panic: "); i >= 0 {
			l := t[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			w.s.Violate("C07", "panic:"+p.cfg.Bin, "%s panicked: %s", p.cfg.Bin, l)
		} else if i := strings.Index(t, "fatal error: "); i >= 0 {
			l := t[i:]
			if j := strings.IndexByte(l, '\n'); j > 0 {
				l = l[:j]
			}
			w.s.Violate("C07", "throw:"+p.cfg.Bin, "%s crashed: %s", p.cfg.Bin, l)
		}
	}
}

// commitRun starts `aggregate-known` or `commit`.
func (w *Pipe) commitRun(kind string) *aggRun {
	s := w.s
	w.nagg++
	r := &aggRun{kind: kind, start: s.Now, wipeGen: w.redis.Gen, fired: len(s.Fired), preEpoch: w.epoch}
	args := w.logArgs()
	if kind == "aggregate-known" {
		r.dir = filepath.Join(w.fs, "proc", fmt.Sprintf("run%03d", w.nagg))
		os.MkdirAll(r.dir, 0755)
		type ei struct {
			UniqueID   string `json:"uniqueID"`
			PubKeyHash string `json:"pubKeyHash"`
			Subject    string `json:"subject"`
			Pem        string `json:"pem"`
		}
		list := []ei{}
		for i, is := range w.issuers {
			if w.pl.Cfg.Enrolled>>i&1 == 1 {
				list = append(list, ei{is.ID, is.ID, is.Name, pemCert(is.DER)})
			}
		}
		b, _ := json.Marshal(list)
		if err := os.WriteFile(r.dir+"/enrolled.json", b, 0644); err != nil {
			harness("%v", err)
		}
		args = append(args, "-knownpath", r.dir+"/known", "-enrolledpath", r.dir+"/enrolled.json", "-ctlogspath", r.dir+"/ct-logs.json")
	}
	w.runs = append(w.runs, r)
	// the process is registered before it runs: Spawn already executes it
	r.p = &Proc{}
	p := s.Spawn(kind, ProcCfg{Bin: kind, Args: args, Env: w.env(), OnStart: func(p *Proc) { r.p = p; w.agg[p] = r }, OnExit: func(p *Proc) { w.commitExit(r) }})
	_ = p
	return r
}

// event performs an explicit event of the plan.
func (w *Pipe) event(e EventPlan) {
	s := w.s
	target := func() []*Proc {
		var ps []*Proc
		for _, p := range s.procs {
			if p.alive && (e.Who == "" || p.Name == e.Who) {
				ps = append(ps, p)
			}
		}
		return ps
	}
	s.Log("event %s %s %d", e.Kind, e.Who, e.Arg)
	switch e.Kind {
	case "agg":
		w.commitRun("aggregate-known")
	case "commit":
		w.commitRun("commit")
	case "kill":
		for _, p := range target() {
			p.Kill()
		}
	case "term":
		for _, p := range target() {
			if r := w.agg[p]; r != nil {
				r.sigterm = true
			}
			p.Signal(int(syscall.SIGTERM))
		}
	case "stall":
		for _, p := range target() {
			p.Stall(e.Arg)
		}
	case "wipe":
		s.Trouble("redis")
		w.wipe()
	case "redisdown":
		s.TroubleUntil("redis", s.Now+e.Arg)
		w.redis.h.SetDown(s, true)
		s.After(e.Arg, func() { w.redis.h.SetDown(s, false) })
	case "redisload": // restarts and loads its data set for a while
		s.TroubleUntil("redis", s.Now+e.Arg)
		w.redis.h.SetDown(s, true)
		w.redis.Loading = true
		s.After(e.Arg/4, func() { w.redis.h.SetDown(s, false) })
		s.After(e.Arg, func() { w.redis.Loading = false })
	case "oom":
		s.TroubleUntil("redis", s.Now+e.Arg)
		w.redis.OOM = true
		s.After(e.Arg, func() { w.redis.OOM = false })
	case "hostdown":
		if h := w.hostByName(e.Who); h != nil {
			s.TroubleUntil(group(e.Who), s.Now+e.Arg)
			h.SetDown(s, true)
			s.After(e.Arg, func() { h.SetDown(s, false) })
		}
	case "partition":
		if h := w.hostByName(e.Who); h != nil {
			s.TroubleUntil(group(e.Who), s.Now+e.Arg)
			h.Hole = true
			s.After(e.Arg, func() { h.Hole = false })
		}
	case "rsbad":
		s.TroubleUntil("rs", s.Now+e.Arg)
		n := int(e.Arg % 3)
		w.rsBad = 1 + n
		s.After(e.Arg, func() { w.rsBad = 0 })
	case "enroll", "unenroll":
		i, _ := strconv.Atoi(e.Who)
		if i < len(w.logs) {
			w.logs[i].Enrolled = e.Kind == "enroll"
			w.logs[i].enrolledAt = s.Now
		}
	case "fetch":
		w.fetchOn = true
		w.startFetch()
	case "stop": // a clean stop by the operator, and a start later
		if w.fetch != nil && w.fetch.alive {
			w.fetch.Signal(int(syscall.SIGTERM))
		}
	case "restart":
		if w.fetch != nil && w.fetch.alive {
			w.fetch.Kill()
		}
	case "health":
		w.askHealth()
	default:
		harness("unknown event %q", e.Kind)
	}
}

func group(host string) string {
	if host == "redis" {
		return "redis"
	}
	return "http"
}

func (w *Pipe) hostByName(n string) *Host {
	for _, a := range sortedKeys(w.s.hosts) {
		if w.s.hosts[a].Name == n {
			return w.s.hosts[a]
		}
	}
	return nil
}

func (w *Pipe) wipe() {
	var run *aggRun
	for _, q := range w.runs {
		if q.locked && q.p.alive {
			run = q
		}
	}
	for _, r := range w.recs {
		if w.inCache(r) && !w.inStorage(r) {
			r.lost, r.lost0, r.lostRun, r.resumed = true, !w.hasClaim, run, false
		}
	}
	w.redis.Wipe()
	w.needRest = true
	s := w.s
	s.Probe("wipe")
	w.lock.holder = nil
	w.lock.token = ""
	for _, h := range append([]*Conn(nil), w.redis.h.open...) {
		h.Reset(0)
	}
}

func (w *Pipe) inCache(r *Rec) bool {
	v := w.redis.get(r.bin.redis())
	return v != nil && v.set[r.member]
}

func (w *Pipe) serialInCache(r *Rec) bool {
	v := w.redis.get(r.bin.redis())
	if v == nil {
		return false
	}
	for _, o := range w.bySerial[r.bin][r.e.Cert.Serial] {
		if v.set[o.member] {
			return true
		}
	}
	return false
}

func (w *Pipe) inStorage(r *Rec) bool {
	f := w.stored[r.bin]
	return f != nil && f.serials[r.e.Cert.Serial]
}

// claimed: does storage's ct-logs.json state that r's certificate is known?
func (w *Pipe) claimed(r *Rec) bool {
	for i := range w.claims {
		st := &w.claims[i]
		if st.LogID == r.l.IDb64 && st.claims(uint64(r.e.TS)) {
			return true
		}
	}
	return false
}
