package main

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// CRLPlan describes the world of aggregate-crls.
type CRLPlan struct {
	Issuers []CRLIssuer `json:"issuers"`
	URLs    []CRLUrl    `json:"urls"`
	Reports []CRLReport `json:"reports"`
	Runs    []CRLRun    `json:"runs"`
	LastMod bool        `json:"ccadb_last_modified"`
}

type CRLIssuer struct {
	Root int    `json:"root"`           // root 0 or 1 are trusted, 2 is not, 3 is revoked
	Kind string `json:"kind,omitempty"` // "", email, expired, sub (signed by issuer 0)
	Dup  int    `json:"dup,omitempty"`  // 1: the same row twice, 2: a second certificate for the key
}

type CRLUrl struct {
	Issuer  int      `json:"issuer"`
	URL     string   `json:"url"`
	Part    bool     `json:"part,omitempty"` // listed as a partitioned CRL
	IDP     string   `json:"idp,omitempty"`  // self, other, extra (self and an unknown one), both (self and another of the issuer), "" (none)
	LastMod bool     `json:"last_modified,omitempty"`
	Ranges  bool     `json:"ranges,omitempty"`
	Vers    []CRLVer `json:"versions"`
}

type CRLVer struct {
	At   int64  `json:"at"` // ns after start; the first is always there
	N    int    `json:"n"`
	Kind string `json:"kind,omitempty"`
	Next int64  `json:"next"` // validity in seconds
}

// CRLReport is one edition of the CCADB report.
type CRLReport struct {
	At      int64 `json:"at"`
	Revoked int   `json:"revoked"` // bit mask of issuers
	Absent  int   `json:"absent"`  // bit mask of issuers not listed
	NoURL   []int `json:"no_url"`  // URLs not listed in it
}

type CRLRun struct {
	At int64 `json:"at"`
}

func (c *CRLPlan) size() string {
	if c == nil {
		return ""
	}
	return fmt.Sprintf(", %d issuers, %d CRLs, %d reports, %d runs", len(c.Issuers), len(c.URLs), len(c.Reports), len(c.Runs))
}

type planList struct {
	n    func(*Plan) int
	keep func(*Plan, []int)
}

func (c *CRLPlan) lists() []planList {
	return []planList{
		{func(p *Plan) int { return len(p.CRL.Runs) }, func(p *Plan, ix []int) { p.CRL.Runs = sub(p.CRL.Runs, ix) }},
		{func(p *Plan) int { return len(p.CRL.URLs) }, func(p *Plan, ix []int) {
			at := map[int]int{}
			for n, i := range ix {
				at[i] = n
			}
			p.CRL.URLs = sub(p.CRL.URLs, ix)
			for i := range p.CRL.Reports {
				var no []int
				for _, u := range p.CRL.Reports[i].NoURL {
					if n, ok := at[u]; ok {
						no = append(no, n)
					}
				}
				p.CRL.Reports[i].NoURL = no
			}
		}},
		{func(p *Plan) int { return len(p.CRL.Reports) - 1 }, func(p *Plan, ix []int) {
			x := []CRLReport{p.CRL.Reports[0]}
			for _, i := range ix {
				x = append(x, p.CRL.Reports[i+1])
			}
			p.CRL.Reports = x
		}},
	}
}

const ccadbAddr = "ccadb.my.salesforce-sites.com:443"

var crlCAMu sync.Mutex
var crlCACache = map[string]*Issuer{}

// crlCA makes a CA certificate; the same arguments always give the same one.
func crlCA(name string, parent *Issuer, kind string, serial int64) *Issuer {
	crlCAMu.Lock()
	defer crlCAMu.Unlock()
	pn := ""
	if parent != nil {
		pn = parent.Name
	}
	key := fmt.Sprint(name, "|", pn, "|", kind, "|", serial)
	if is := crlCACache[key]; is != nil {
		return is
	}
	is := &Issuer{Name: name, key: ecKey("crl", name)}
	is.sub = pkix.Name{CommonName: name, Organization: []string{"Sim, \"CRL\""}, Country: []string{"XX"}}
	ski := sha256.Sum256(elliptic.Marshal(is.key.Curve, is.key.X, is.key.Y))
	na := time.Date(2045, 1, 1, 0, 0, 0, 0, time.UTC)
	if kind == "expired" {
		na = time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: is.sub, NotBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: na,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, SubjectKeyId: ski[:20]}
	switch {
	case kind == "email":
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageEmailProtection}
	case parent != nil:
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	}
	p, pk := t, is.key
	if parent != nil {
		p, pk = parent.cert, parent.key
	}
	der, err := x509.CreateCertificate(zeroRand{}, t, p, &is.key.PublicKey, simSigner{pk})
	if err != nil {
		harness("cert: %v", err)
	}
	is.DER = der
	if is.cert, err = x509.ParseCertificate(der); err != nil {
		harness("cert: %v", err)
	}
	is.ID = issuerID(is.cert.RawSubjectPublicKeyInfo)
	crlCACache[key] = is
	return is
}

// crlBody is one version of one CRL as its server gives it.
type crlBody struct {
	url      *crlURL
	n        int // index of the version
	at       int64
	bytes    []byte
	kind     string
	sigOK    bool            // a complete CRL, correctly signed
	listOK   bool            // ... whose entries can be decoded
	entries  map[string]bool // reason byte and serial in hex
	idpNames []string
	lastMod  int64
	expired  int64
	this     int64
}

type crlURL struct {
	ix      int
	pl      *CRLUrl
	is      *crlIss
	vers    []*crlBody
	host    string
	path    string
	disk    *crlBody // what the store holds (nil: nothing acceptable)
	fetches []crlFetch
}

type crlFetch struct {
	at      int64
	outcome string
	v       *crlBody
	ended   bool
}

type crlIss struct {
	ix    int
	pl    *CRLIssuer
	certs []*Issuer
	urls  []*crlURL
	id    string
}

type crlReport struct {
	ix       int
	at       int64
	bytes    []byte
	cuts     []int
	enrolled map[string]enrolledRow // PEM -> row
	urls     map[string][]*crlURL   // issuer ID -> URLs
	part     map[string]bool
}

type enrolledRow struct {
	UniqueID            string `json:"uniqueID"`
	PubKeyHash          string `json:"pubKeyHash"`
	Subject             string `json:"subject"`
	Pem                 string `json:"pem"`
	UsesPartitionedCrls bool   `json:"usesPartitionedCrls"`
}

type crlRun struct {
	n       int
	dir     string
	p       *Proc
	start   int64
	termAt  int64
	csv     []byte // the report on disk when it began
	csvAge  int64
	before  map[*crlURL]*crlBody
	tmp     map[*crlURL]bool // a temporary file was left from an earlier run
	fetched []crlFetch       // of the report; v is not used
	rep     []*crlReport
	final   bool
	done    bool
}

// CRLWorld is the world of aggregate-crls: CCADB, CRL servers, its disk.
type CRLWorld struct {
	s       *Sim
	pl      *CRLPlan
	fs      string
	roots   []*Issuer
	iss     []*crlIss
	byID    map[string]*crlIss
	urls    []*crlURL
	byPath  map[string]*crlURL
	byBytes map[string]*crlBody
	reports []*crlReport
	runs    []*crlRun
	cur     *crlRun
	dirty   map[string]bool
	known   map[string][]byte // content of files in the store that is no CRL, from the start
}

func runCRL(s *Sim) error {
	w := NewCRLWorld(s)
	s.faultsOn = true
	pl := s.Plan
	s.At(s.Start+pl.FaultEnd, func() { s.faultsOn = false })
	for _, r := range w.pl.Runs {
		s.At(s.Start+r.At, func() { w.start(false) })
	}
	for _, e := range pl.Events {
		s.At(s.Start+e.At, func() { w.event(e) })
	}
	if pl.StopAt > 0 {
		return s.Run(s.Start+pl.StopAt, nil)
	}
	if err := s.Run(s.Start+pl.End, nil); err != nil {
		return err
	}
	// the final run: nothing goes wrong any more
	s.faultsOn = false
	if w.cur != nil && !w.cur.done {
		lim := s.Now + w.bound()
		if err := s.Run(lim, func() bool { return w.cur.done }); err != nil {
			return err
		}
		if !w.cur.done {
			s.Violate("C19", "hang", "aggregate-crls has not ended %.0f s after its start", float64(s.Now-w.cur.start)/1e9)
			return nil
		}
	}
	for _, a := range sortedKeys(s.hosts) {
		s.hosts[a].SetDown(s, false)
		s.hosts[a].Hole = false
	}
	w.start(true)
	r := w.cur
	if err := s.Run(s.Now+w.bound(), func() bool { return r.done }); err != nil {
		return err
	}
	if !r.done {
		s.Violate("C19", "hang", "with nothing in its way, aggregate-crls has not ended after %.0f s", float64(s.Now-r.start)/1e9)
	}
	return nil
}

// bound is how long a run may take: four attempts of at most 300 s for a HEAD
// and a GET each, for each download, one after the other.
func (w *CRLWorld) bound() int64 {
	return int64(len(w.urls)+2)*4*600*sec + 10*min_
}

func NewCRLWorld(s *Sim) *CRLWorld {
	w := &CRLWorld{s: s, pl: s.Plan.CRL, byID: map[string]*crlIss{}, byPath: map[string]*crlURL{}, byBytes: map[string]*crlBody{}, dirty: map[string]bool{}, known: map[string][]byte{}}
	w.fs = filepath.Join(s.Root, "fs")
	for _, d := range []string{"", "crls", "processing"} {
		if err := os.MkdirAll(filepath.Join(w.fs, d), 0755); err != nil {
			harness("%v", err)
		}
	}
	for i := 0; i < 4; i++ {
		w.roots = append(w.roots, crlCA(fmt.Sprintf("Sim Root %d", i), nil, "", int64(100+i)))
	}
	for i := range w.pl.Issuers {
		ip := &w.pl.Issuers[i]
		parent := w.roots[ip.Root&3]
		if ip.Kind == "sub" && i > 0 {
			parent = w.iss[0].certs[0]
		}
		is := &crlIss{ix: i, pl: ip}
		name := fmt.Sprintf("Sim CRL Issuer %d", i)
		is.certs = []*Issuer{crlCA(name, parent, ip.Kind, int64(1000+i))}
		if ip.Dup == 2 {
			is.certs = append(is.certs, crlCA(name, w.roots[1], "", int64(2000+i)))
		}
		is.id = is.certs[0].ID
		w.iss = append(w.iss, is)
		w.byID[is.id] = is
	}
	for i := range w.pl.URLs {
		up := &w.pl.URLs[i]
		u := &crlURL{ix: i, pl: up, is: w.iss[up.Issuer]}
		pu, err := url.Parse(up.URL)
		if err != nil {
			harness("url: %v", err)
		}
		u.host, u.path = pu.Hostname(), pu.RequestURI()
		u.is.urls = append(u.is.urls, u)
		w.urls = append(w.urls, u)
		w.byPath[u.host+u.path] = u
		if s.hosts[u.host+":80"] == nil {
			h := s.HTTPHost("crl", u.host+":80", func(r *HTTPReq) *HTTPResp { return w.serveCRL(u.host, r) })
			h.Note = func(r *HTTPReq, resp *HTTPResp, outcome string) { w.noteCRL(u.host, r, resp, outcome) }
		}
	}
	for _, u := range w.urls {
		for n := range u.pl.Vers {
			u.vers = append(u.vers, w.mkCRL(u, n))
		}
	}
	for i := range w.pl.Reports {
		w.reports = append(w.reports, w.mkReport(i))
	}
	h := s.HTTPHost("ccadb", ccadbAddr, w.serveReport)
	h.Note = w.noteReport
	s.fsHooks = append(s.fsHooks, func(p *Proc, op *FileOp) {
		if !op.Mutates() {
			return
		}
		for _, f := range []string{op.Path, op.Path2} {
			if strings.HasPrefix(f, w.fs+"/crls/") {
				w.dirty[f] = true
			}
		}
	})
	s.kernel = append(s.kernel, func(p *Proc) { w.afterStep() })
	return w
}

// ---- what the servers hold ----

type crlTBS struct {
	Version    int
	SigAlg     pkix.AlgorithmIdentifier
	Issuer     asn1.RawValue
	ThisUpdate time.Time
	NextUpdate time.Time        `asn1:"optional"`
	Revoked    []asn1.RawValue  `asn1:"optional,omitempty"`
	Ext        []pkix.Extension `asn1:"optional,explicit,tag:0,omitempty"`
}

type crlEntry struct {
	Serial asn1.RawValue
	At     time.Time
	Ext    []pkix.Extension `asn1:"optional,omitempty"`
}

func (w *CRLWorld) mkCRL(u *crlURL, n int) *crlBody {
	pl := w.s.Plan
	v := u.pl.Vers[n]
	at := w.s.Start + v.At
	if n == 0 {
		at = w.s.Start - day
	}
	b := &crlBody{url: u, n: n, at: at, kind: v.Kind, entries: map[string]bool{}, this: at - min_, lastMod: at / sec * sec}
	b.expired = b.this + v.Next*sec
	r := NewRng(pl.Seed, "crl", u.pl.URL, n)
	var ents []asn1.RawValue
	cnt := v.N
	if v.Kind == "empty" {
		cnt = 0
	}
	// most entries stay from version to version
	er := NewRng(pl.Seed, "crlserials", u.pl.URL)
	for i := 0; i < cnt; i++ {
		sr := er
		if i%7 == 6 {
			sr = r
		}
		serial := sr.Bytes(1 + sr.N(20))
		switch sr.N(10) {
		case 0:
			serial = append([]byte{0}, serial...)
			serial[1] |= 0x80
			if len(serial) > 20 {
				serial = serial[:20]
			}
		case 1:
			serial[0] |= 0x80 // negative
		default:
			serial[0] &= 0x7f
			if serial[0] == 0 {
				serial[0] = 1
			}
		}
		if len(serial) > 1 && serial[0] == 0xff {
			serial[0] = 0xfe // minimal DER
		}
		e := crlEntry{Serial: asn1.RawValue{Tag: 2, Bytes: serial}, At: time.Unix(0, at-day).UTC().Truncate(time.Second)}
		reason := []int{-1, -1, 0, 1, 2, 3, 4, 5, 6, 9, 10}[sr.N(11)]
		if reason >= 0 {
			rb, _ := asn1.Marshal(asn1.Enumerated(reason))
			if v.Kind == "badentry" && i == cnt/2 {
				rb, _ = asn1.Marshal(asn1.Enumerated(300))
			}
			e.Ext = append(e.Ext, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: rb})
		} else if v.Kind == "badentry" && i == cnt/2 {
			e.Ext = append(e.Ext, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: []byte{0x0a}})
		}
		if sr.P(100) {
			e.Ext = append(e.Ext, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 24}, Value: []byte("\x18\x0f20260101000000Z")})
		}
		eb, err := asn1.Marshal(e)
		if err != nil {
			harness("crl entry: %v", err)
		}
		ents = append(ents, asn1.RawValue{FullBytes: eb})
		b.entries[fmt.Sprintf("%02x%s", max(reason, 0), hex.EncodeToString(serial))] = true
	}
	signer := u.is.certs[0]
	name := signer.cert.RawSubject
	switch v.Kind {
	case "otherkey":
		signer = w.roots[2]
	case "otherissuer":
		signer = w.roots[0]
		name = signer.cert.RawSubject
	}
	alg := pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 2, 840, 10045, 4, 3, 2}}
	num, _ := asn1.Marshal(big.NewInt(int64(u.ix)*1000 + int64(n) + 1))
	t := crlTBS{Version: 1, SigAlg: alg, Issuer: asn1.RawValue{FullBytes: name}, ThisUpdate: time.Unix(0, b.this).UTC().Truncate(time.Second), Revoked: ents,
		Ext: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 20}, Value: num}}}
	t.NextUpdate = time.Unix(0, b.expired).UTC().Truncate(time.Second)
	if v.Kind == "expired" {
		b.expired = b.this + hour/2
		t.NextUpdate = time.Unix(0, b.expired).UTC().Truncate(time.Second)
	}
	// the issuing distribution point: the URL itself, another one, or several
	other := "http://elsewhere.sim/other.crl"
	for _, o := range u.is.urls {
		if o != u && o.pl.Part {
			other = o.pl.URL
		}
	}
	var names []string
	switch u.pl.IDP {
	case "self":
		names = []string{u.pl.URL}
	case "other":
		names = []string{other}
	case "extra":
		names = []string{"http://elsewhere.sim/extra.crl", u.pl.URL}
	case "both":
		names = []string{u.pl.URL, other}
	}
	if len(names) > 0 {
		var gns []byte
		for _, n := range names {
			gn, _ := asn1.Marshal(asn1.RawValue{Class: 2, Tag: 6, Bytes: []byte(n)})
			gns = append(gns, gn...)
		}
		fn, _ := asn1.Marshal(asn1.RawValue{Class: 2, Tag: 0, IsCompound: true, Bytes: gns})
		dp, _ := asn1.Marshal(asn1.RawValue{Class: 2, Tag: 0, IsCompound: true, Bytes: fn})
		ext, _ := asn1.Marshal(asn1.RawValue{Tag: 16, IsCompound: true, Bytes: dp})
		t.Ext = append(t.Ext, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 28}, Critical: true, Value: ext})
	}
	b.idpNames = names
	tbs, err := asn1.Marshal(t)
	if err != nil {
		harness("crl: %v", err)
	}
	h := sha256.Sum256(tbs)
	sig, err := simSigner{signer.key}.Sign(nil, h[:], crypto.SHA256)
	if err != nil {
		harness("crl: %v", err)
	}
	if v.Kind == "badsig" {
		sig[len(sig)-1-r.N(20)] ^= 1 << r.N(8)
	}
	der, err := asn1.Marshal(struct {
		TBS asn1.RawValue
		Alg pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}{asn1.RawValue{FullBytes: tbs}, alg, asn1.BitString{Bytes: sig, BitLength: len(sig) * 8}})
	if err != nil {
		harness("crl: %v", err)
	}
	b.sigOK = true
	b.listOK = v.Kind != "badentry" || cnt == 0
	switch v.Kind {
	case "badsig", "otherkey", "otherissuer":
		b.sigOK = false
	case "pem", "trailing":
		// the CRL itself, however it is wrapped
		c := *b
		c.bytes = der
		w.byBytes[string(der)] = &c
	}
	switch v.Kind {
	case "pem":
		der = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
	case "trailing":
		der = append(der, r.Bytes(1+r.N(9))...)
		b.sigOK = false
	case "tampered":
		der[len(tbs)/2] ^= 1 << r.N(8)
		b.sigOK = false
	case "garbage":
		der = r.Bytes(50 + r.N(500))
		b.sigOK = false
	case "html":
		der = []byte("<html><body>Service temporarily unavailable " + strconv.Itoa(u.ix*1000+n) + "</body></html>")
		b.sigOK = false
	case "zero":
		der = []byte{}
		b.sigOK = false
	}
	b.bytes = der
	if b.sigOK {
		w.byBytes[string(der)] = b
	}
	return b
}

func (u *crlURL) now(s *Sim) *crlBody {
	cur := u.vers[0]
	for _, v := range u.vers {
		if v.at <= s.Now {
			cur = v
		}
	}
	return cur
}

func httpTime(ns int64) string {
	return time.Unix(0, ns).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
}

func (w *CRLWorld) serveCRL(host string, r *HTTPReq) *HTTPResp {
	u := w.byPath[host+r.Path]
	if u == nil {
		return &HTTPResp{Status: 404, Body: []byte("no such CRL")}
	}
	v := u.now(w.s)
	resp := &HTTPResp{Status: 200, Body: v.bytes}
	if u.pl.LastMod {
		resp.Header = append(resp.Header, [2]string{"Last-Modified", httpTime(v.lastMod)}, [2]string{"Etag", fmt.Sprintf("\"%d-%d\"", u.ix, v.n)})
	}
	if u.pl.Ranges {
		resp.Header = append(resp.Header, [2]string{"Accept-Ranges", "bytes"})
		var from int
		if n, _ := fmt.Sscanf(r.Header["range"], "bytes=%d-", &from); n == 1 && r.Method == "GET" {
			if from >= len(v.bytes) {
				return &HTTPResp{Status: 416, Body: []byte("range")}
			}
			resp.Status = 206
			resp.Body = v.bytes[from:]
			resp.Header = append(resp.Header, [2]string{"Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, len(v.bytes)-1, len(v.bytes))})
		}
	}
	return resp
}

func (w *CRLWorld) noteCRL(host string, r *HTTPReq, resp *HTTPResp, outcome string) {
	u := w.byPath[host+r.Path]
	if u == nil {
		w.s.Violate("C17", "unknown-url", "aggregate-crls asks for http://%s%s, which no CCADB report lists", host, r.Path)
		return
	}
	if r.Method != "GET" || w.cur == nil {
		return
	}
	f := crlFetch{at: w.s.Now, outcome: outcome}
	if outcome == "whole" {
		f.v = u.now(w.s)
		if resp.Status != 200 {
			f.outcome = "part"
		}
	}
	u.fetches = append(u.fetches, f)
}

func (w *CRLWorld) mkReport(i int) *crlReport {
	rp := w.pl.Reports[i]
	r := NewRng(w.s.Plan.Seed, "report", i)
	rep := &crlReport{ix: i, at: w.s.Start + rp.At, enrolled: map[string]enrolledRow{}, urls: map[string][]*crlURL{}, part: map[string]bool{}}
	if i == 0 {
		rep.at = w.s.Start - 40*day
	}
	no := map[int]bool{}
	for _, u := range rp.NoURL {
		no[u] = true
	}
	type row struct{ typ, pem, revoked, full, json string }
	var rows []row
	for k, rt := range w.roots {
		if k == 2 {
			continue
		}
		rev := "Not Revoked"
		if k == 3 {
			rev = "Revoked"
		} else if r.P(300) {
			rev = ""
		}
		rows = append(rows, row{"Root Certificate", pemCert(rt.DER), rev, "", ""})
	}
	gone := func(is *crlIss) bool { return (rp.Revoked|rp.Absent)>>is.ix&1 == 1 }
	for _, is := range w.iss {
		if rp.Absent>>is.ix&1 == 1 {
			continue
		}
		rev := pick(r, "Not Revoked", "Not Revoked", "")
		if rp.Revoked>>is.ix&1 == 1 {
			rev = pick(r, "Revoked", "Parent Cert Revoked")
		}
		var fulls, parts []string
		var listed []*crlURL
		for _, u := range is.urls {
			if no[u.ix] {
				continue
			}
			if !u.pl.Part && len(fulls) > 0 {
				continue
			}
			listed = append(listed, u)
			if u.pl.Part {
				parts = append(parts, u.pl.URL)
			} else {
				fulls = append(fulls, u.pl.URL)
			}
		}
		full, js := "", ""
		if len(fulls) > 0 {
			full = fulls[0]
		}
		if len(parts) > 0 {
			b, _ := json.MarshalIndent(parts, "", " ")
			if r.P(500) {
				b, _ = json.Marshal(parts)
			}
			js = string(b)
			js = strings.ReplaceAll(js, "\\u0026", "&")
		} else if r.P(300) {
			js = "[]"
		}
		n := 1
		if is.pl.Dup == 1 {
			n = 2
		}
		for k := 0; k < n; k++ {
			for _, c := range is.certs {
				rows = append(rows, row{"Intermediate Certificate", pemCert(c.DER), rev, full, js})
			}
		}
		ok := !gone(is)
		trusted := func(k int) bool { return k == 0 || k == 1 }
		for ci, c := range is.certs {
			t := ok
			switch {
			case ci > 0: // certified by root 1
			case is.pl.Kind == "sub" && is.ix > 0:
				i0 := w.iss[0]
				plain := i0.pl.Kind == "" || i0.pl.Kind == "sub"
				t = t && !gone(i0) && (plain && trusted(i0.pl.Root) || i0.pl.Dup == 2)
			default:
				t = t && trusted(is.pl.Root) && is.pl.Kind != "email" && is.pl.Kind != "expired"
			}
			if t {
				spki := c.cert.RawSubjectPublicKeyInfo
				uh := sha256.Sum256(append(append([]byte{}, c.cert.RawSubject...), spki...))
				rep.enrolled[strings.TrimSpace(pemCert(c.DER))] = enrolledRow{UniqueID: base64.URLEncoding.EncodeToString(uh[:]), PubKeyHash: c.ID, UsesPartitionedCrls: len(parts) > 0}
				rep.urls[is.id] = listed
				rep.part[is.id] = len(parts) > 0
			}
		}
	}
	for a := len(rows) - 1; a > 0; a-- {
		b := r.N(a + 1)
		rows[a], rows[b] = rows[b], rows[a]
	}
	cols := []string{"CertificateName", "X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"}
	for a := len(cols) - 1; a > 0; a-- {
		b := r.N(a + 1)
		cols[a], cols[b] = cols[b], cols[a]
	}
	var buf bytes.Buffer
	line := func(f func(c string) string) {
		cw := csv.NewWriter(&buf)
		var x []string
		for _, c := range cols {
			x = append(x, f(c))
		}
		cw.Write(x)
		cw.Flush()
		rep.cuts = append(rep.cuts, buf.Len())
	}
	line(func(c string) string { return c })
	for k, rw := range rows {
		line(func(c string) string {
			switch c {
			case "X.509_Certificate_PEM":
				return rw.pem
			case "RecordType.Name":
				return rw.typ
			case "Revocation_Status__c":
				return rw.revoked
			case "Full_CRL_Issued_By_This_CA":
				return rw.full
			case "JSON_Array_of_Partitioned_CRLs":
				return rw.json
			}
			return fmt.Sprintf("report %d row %d", i, k)
		})
	}
	rep.cuts = rep.cuts[:len(rep.cuts)-1]
	rep.bytes = buf.Bytes()
	return rep
}

func (w *CRLWorld) curReport() *crlReport {
	cur := w.reports[0]
	for _, r := range w.reports {
		if r.at <= w.s.Now {
			cur = r
		}
	}
	return cur
}

func (w *CRLWorld) serveReport(r *HTTPReq) *HTTPResp {
	rep := w.curReport()
	resp := &HTTPResp{Status: 200, Body: rep.bytes, Cuts: rep.cuts, Header: [][2]string{{"Content-Type", "text/csv"}}}
	if w.pl.LastMod {
		resp.Header = append(resp.Header, [2]string{"Last-Modified", httpTime(rep.at)})
	}
	return resp
}

func (w *CRLWorld) noteReport(r *HTTPReq, resp *HTTPResp, outcome string) {
	if w.cur != nil && r.Method == "GET" {
		w.cur.fetched = append(w.cur.fetched, crlFetch{at: w.s.Now, outcome: outcome})
		w.cur.rep = append(w.cur.rep, w.curReport())
	}
}

func (w *CRLWorld) event(e EventPlan) {
	s := w.s
	s.Log("event %s %s %d", e.Kind, e.Who, e.Arg)
	var p *Proc
	if w.cur != nil && !w.cur.done {
		p = w.cur.p
	}
	switch e.Kind {
	case "kill":
		if p != nil && p.alive {
			p.Kill()
		}
	case "term":
		if p != nil && p.alive {
			w.cur.termAt = s.Now
			s.Probe("crl-term")
			p.Signal(int(syscall.SIGTERM))
			r := w.cur
			s.After(1500*sec, func() {
				if p.alive && !s.TroubledSince(r.start, "stall") {
					s.Violate("C19", "stop-hang", "aggregate-crls is still running 1500 s after SIGTERM")
				}
			})
		}
	case "stall":
		if p != nil && p.alive {
			p.Stall(e.Arg)
		}
	case "hostdown", "partition":
		for _, a := range sortedKeys(s.hosts) {
			h := s.hosts[a]
			if h.Name != e.Who {
				continue
			}
			s.TroubleUntil("net", s.Now+e.Arg)
			s.TroubleUntil("outage", s.Now+e.Arg)
			if e.Kind == "hostdown" {
				h.SetDown(s, true)
				s.After(e.Arg, func() { h.SetDown(s, false) })
			} else {
				h.Hole = true
				s.After(e.Arg, func() { h.Hole = false })
			}
		}
	case "rot": // a file of the store goes bad while nothing runs
		if p == nil {
			w.rot(int(e.Arg))
		}
	case "droptmp":
		if p == nil {
			w.dropTmp(int(e.Arg))
		}
	default:
		harness("event %s", e.Kind)
	}
}

// storeFiles lists the CRL files of the store.
func (w *CRLWorld) storeFiles() []string {
	m, _ := filepath.Glob(w.fs + "/crls/*/*.crl")
	sort.Strings(m)
	return m
}

func (w *CRLWorld) rot(k int) {
	fs := w.storeFiles()
	if len(fs) == 0 {
		return
	}
	f := fs[k%len(fs)]
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	r := NewRng(w.s.Plan.Seed, "rot", k, w.s.Now)
	switch r.N(3) {
	case 0:
		b = b[:r.N(len(b)+1)]
	case 1:
		if len(b) > 0 {
			b[r.N(len(b))] ^= 0x10
		}
	case 2:
		b = append(b, 'x')
	}
	w.writeFile(f, b)
	w.known[f] = b
	if v := w.diskOf(f); v != nil {
		v.url.disk = nil
	}
	w.s.Log("rot %s", w.s.rel(f))
	w.rescan()
}

func (w *CRLWorld) writeFile(f string, b []byte) {
	if err := os.WriteFile(f, b, 0644); err != nil {
		harness("%v", err)
	}
	t := time.Unix(0, w.s.Now)
	os.Chtimes(f, t, t)
}

// dropTmp leaves a temporary file as a crash would.
func (w *CRLWorld) dropTmp(k int) {
	fs := w.storeFiles()
	if len(fs) == 0 {
		return
	}
	f := fs[k%len(fs)]
	v := w.diskOf(f)
	if v == nil {
		return
	}
	r := NewRng(w.s.Plan.Seed, "tmp", k, w.s.Now)
	b := v.url.now(w.s).bytes
	b = b[:r.N(len(b)+1)]
	w.writeFile(f+".tmp", b)
	w.s.Log("left %s.tmp of %d bytes", w.s.rel(f), len(b))
}

// diskOf tells which CRL a file of the store holds.
func (w *CRLWorld) diskOf(f string) *crlBody {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	return w.lookup(b)
}

// lookup tells which CRL these bytes are; a PEM file may be framed otherwise
// than it was served.
func (w *CRLWorld) lookup(b []byte) *crlBody {
	if v := w.byBytes[string(b)]; v != nil {
		return v
	}
	if blk, _ := pem.Decode(b); blk != nil && blk.Type == "X509 CRL" {
		if v := w.byBytes[string(blk.Bytes)]; v != nil {
			c := *v
			c.bytes = b
			w.byBytes[string(b)] = &c
			return &c
		}
	}
	return nil
}

// rescan recomputes what the store holds for each URL.
func (w *CRLWorld) rescan() {
	for _, u := range w.urls {
		u.disk = nil
	}
	for _, f := range w.storeFiles() {
		if v := w.diskOf(f); v != nil {
			v.url.disk = v
		}
	}
}

// afterStep checks the files of the store that may have changed.
func (w *CRLWorld) afterStep() {
	s := w.s
	if len(w.dirty) == 0 {
		return
	}
	for _, f := range sortedKeys(w.dirty) {
		if !strings.HasSuffix(f, ".crl") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			if os.IsNotExist(err) {
				if _, had := w.known[f]; had {
					delete(w.known, f)
				}
			}
			continue
		}
		if k, ok := w.known[f]; ok && bytes.Equal(k, b) {
			continue
		}
		delete(w.known, f)
		v := w.lookup(b)
		if v == nil {
			s.Violate("C15", "bad-file", "the store's file %s (%d bytes) is no complete CRL with a good signature", s.rel(f), len(b))
			w.known[f] = b
			continue
		}
		dir := filepath.Base(filepath.Dir(f))
		if v.url.is.id != dir {
			s.Violate("C15", "foreign-file", "the store's file %s is a CRL of another issuer", s.rel(f))
		}
	}
	w.dirty = map[string]bool{}
	old := map[*crlURL]*crlBody{}
	for _, u := range w.urls {
		old[u] = u.disk
	}
	w.rescan()
	for _, u := range w.urls {
		if o := old[u]; o != nil {
			if u.disk == nil {
				s.Violate("C15", "lost-crl", "the store no longer holds a CRL for %s; it had version %d", u.pl.URL, o.n)
			} else if u.disk.n < o.n {
				s.Violate("C15", "older-crl", "the store went back from version %d to version %d of %s", o.n, u.disk.n, u.pl.URL)
			}
		}
	}
}

// ---- runs ----

func (w *CRLWorld) start(final bool) {
	s := w.s
	if w.cur != nil && !w.cur.done {
		s.Log("the previous run of aggregate-crls is still going")
		return
	}
	r := &crlRun{n: len(w.runs), start: s.Now, final: final, before: map[*crlURL]*crlBody{}, tmp: map[*crlURL]bool{}}
	r.dir = filepath.Join(w.fs, "processing", fmt.Sprintf("run%03d", r.n))
	if err := os.MkdirAll(r.dir+"/log", 0755); err != nil {
		harness("%v", err)
	}
	w.runs = append(w.runs, r)
	w.cur = r
	r.csv, _ = os.ReadFile(w.fs + "/ccadb-intermediates.csv")
	if fi, err := os.Stat(w.fs + "/ccadb-intermediates.csv"); err == nil {
		r.csvAge = s.Now - fi.ModTime().UnixNano()
	}
	tmps, _ := filepath.Glob(w.fs + "/crls/*/*.tmp")
	hasTmp := map[string]bool{}
	for _, t := range tmps {
		hasTmp[strings.TrimSuffix(t, ".tmp")] = true
	}
	for _, u := range w.urls {
		r.before[u] = u.disk
		u.fetches = nil
	}
	for f := range hasTmp {
		v := w.diskOf(f)
		for _, u := range w.urls {
			if v == nil && u.is.id == filepath.Base(filepath.Dir(f)) || v != nil && v.url == u {
				r.tmp[u] = true
			}
		}
	}
	args := []string{"-crlpath", w.fs + "/crls", "-revokedpath", r.dir + "/revoked", "-enrolledpath", r.dir + "/enrolled.json", "-auditpath", r.dir + "/crl-audit.json",
		"-ccadb", w.fs + "/ccadb-intermediates.csv"}
	if s.Plan.Cfg.LogFiles {
		args = append(args, "-stderrthreshold=INFO", "-alsologtostderr", "-log_dir", r.dir+"/log")
	} else {
		args = append(args, "-logtostderr")
	}
	r.p = &Proc{}
	s.Spawn("aggregate-crls", ProcCfg{Bin: "aggregate-crls", Args: args, Env: []string{"numThreads=" + strconv.Itoa(s.Plan.Cfg.NumThreads), "statsRefreshPeriod=24h"},
		OnStart: func(p *Proc) { r.p = p }, OnExit: func(p *Proc) { w.exit(r) }})
	s.After(w.bound(), func() {
		if !r.done && !s.TroubledSince(r.start, "stall") && !s.TroubledSince(r.start, "disk") {
			s.Violate("C19", "hang", "aggregate-crls has not ended %.0f s after its start", float64(s.Now-r.start)/1e9)
		}
	})
}
