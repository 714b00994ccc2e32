package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- keys and certificates ----

func ecKey(parts ...any) *ecdsa.PrivateKey {
	r := NewRng(parts...)
	k := new(ecdsa.PrivateKey)
	k.Curve = elliptic.P256()
	n := new(big.Int).Sub(k.Curve.Params().N, big.NewInt(1))
	k.D = new(big.Int).SetBytes(r.Bytes(40))
	k.D.Mod(k.D, n)
	k.D.Add(k.D, big.NewInt(1))
	k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
	return k
}

// simSigner signs deterministically (RFC 6979), whatever randomness it is given.
type simSigner struct{ k *ecdsa.PrivateKey }

func (d simSigner) Public() crypto.PublicKey { return &d.k.PublicKey }
func (d simSigner) Sign(_ io.Reader, digest []byte, opts crypto.SignerOpts) ([]byte, error) {
	return d.k.Sign(nil, digest, opts)
}

type zeroRand struct{}

func (zeroRand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0x42
	}
	return len(p), nil
}

// Issuer is a certificate authority key with one or more certificates.
type Issuer struct {
	Name string
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
	DER  []byte
	ID   string // base64url(sha256(spki)), as crlite names issuers
	sub  pkix.Name
}

var oidCT = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}

func issuerID(spki []byte) string {
	h := sha256.Sum256(spki)
	return base64.URLEncoding.EncodeToString(h[:])
}

var issuerMu sync.Mutex
var issuerCache = map[string]*Issuer{}

// cachedIssuer shares issuers between runs; names and keys depend on parts only.
func cachedIssuer(name string, parent *Issuer, nb, na time.Time, preIssuer bool, parts ...any) *Issuer {
	pn := ""
	if parent != nil {
		pn = parent.ID
	}
	key := fmt.Sprint(name, "|", pn, "|", nb.Unix(), "|", na.Unix(), "|", preIssuer, "|", fmt.Sprint(parts...))
	issuerMu.Lock()
	defer issuerMu.Unlock()
	if is := issuerCache[key]; is != nil {
		return is
	}
	is := mkIssuer(name, parent, nb, na, preIssuer, parts...)
	issuerCache[key] = is
	return is
}

func mkIssuer(name string, parent *Issuer, nb, na time.Time, preIssuer bool, parts ...any) *Issuer {
	is := &Issuer{Name: name, key: ecKey(parts...)}
	is.sub = pkix.Name{CommonName: name, Organization: []string{"Sim"}}
	ski := sha256.Sum256(elliptic.Marshal(is.key.Curve, is.key.X, is.key.Y))
	t := &x509.Certificate{SerialNumber: new(big.Int).SetBytes(append([]byte{1}, ski[:7]...)), Subject: is.sub, NotBefore: nb, NotAfter: na,
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign, SubjectKeyId: ski[:20]}
	if preIssuer {
		t.UnknownExtKeyUsage = []asn1.ObjectIdentifier{oidCT}
	}
	p, pk := t, is.key
	if parent != nil {
		p, pk = parent.cert, parent.key
	}
	der, err := x509.CreateCertificate(zeroRand{}, t, p, &is.key.PublicKey, simSigner{pk})
	if err != nil {
		harness("cert: %v", err)
	}
	is.DER = der
	is.cert, err = x509.ParseCertificate(der)
	if err != nil {
		harness("cert: %v", err)
	}
	is.ID = issuerID(is.cert.RawSubjectPublicKeyInfo)
	return is
}

// LeafKey is shared by all leaf certificates: its value never matters.
var leafKey = ecKey("leaf")

type LeafCert struct {
	DER      []byte
	TBS      []byte
	Serial   string // hex of the DER integer contents
	Issuer   *Issuer
	NotAfter int64 // ns
	RootSelf bool
}

type basicTBS struct {
	Version    int `asn1:"optional,explicit,default:0,tag:0"`
	Serial     asn1.RawValue
	SigAlg     pkix.AlgorithmIdentifier
	Issuer     asn1.RawValue
	Validity   struct{ NotBefore, NotAfter time.Time }
	Subject    asn1.RawValue
	PublicKey  asn1.RawValue
	Extensions []pkix.Extension `asn1:"omitempty,optional,explicit,tag:3"`
}

// mkLeaf makes a certificate with exactly the given serial number bytes.
func mkLeaf(is *Issuer, serial []byte, cn string, nb, na time.Time, poison bool) *LeafCert {
	sub, _ := asn1.Marshal(pkix.Name{CommonName: cn}.ToRDNSequence())
	spki, _ := x509.MarshalPKIXPublicKey(&leafKey.PublicKey)
	alg := pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 2, 840, 10045, 4, 3, 2}}
	t := basicTBS{Version: 2, Serial: asn1.RawValue{Tag: 2, Bytes: serial}, SigAlg: alg, Issuer: asn1.RawValue{FullBytes: is.cert.RawSubject}, Subject: asn1.RawValue{FullBytes: sub}, PublicKey: asn1.RawValue{FullBytes: spki}}
	t.Validity.NotBefore, t.Validity.NotAfter = nb.UTC(), na.UTC()
	san, _ := asn1.Marshal([]asn1.RawValue{{Class: 2, Tag: 2, Bytes: []byte(cn)}})
	t.Extensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: san}}
	plain, err := asn1.Marshal(t)
	if err != nil {
		harness("tbs: %v", err)
	}
	tbs := plain
	if poison {
		t.Extensions = append(t.Extensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}, Critical: true, Value: []byte{5, 0}})
		tbs, _ = asn1.Marshal(t)
	}
	// Neither ct-fetch nor the logs' clients check this signature.
	sig := []byte{0x30, 6, 2, 1, 1, 2, 1, 1}
	der, err := asn1.Marshal(struct {
		TBS asn1.RawValue
		Alg pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}{asn1.RawValue{FullBytes: tbs}, alg, asn1.BitString{Bytes: sig, BitLength: len(sig) * 8}})
	if err != nil {
		harness("cert: %v", err)
	}
	return &LeafCert{DER: der, TBS: plain, Serial: hex.EncodeToString(serial), Issuer: is, NotAfter: na.Unix() * sec}
}

// ---- Merkle trees (RFC 6962) ----

type hash32 = [32]byte

func leafHash(b []byte) hash32 { return sha256.Sum256(append([]byte{0}, b...)) }
func nodeHash(l, r hash32) hash32 {
	var b [65]byte
	b[0] = 1
	copy(b[1:], l[:])
	copy(b[33:], r[:])
	return sha256.Sum256(b[:])
}

type Merkle struct {
	leaves []hash32
	memo   map[[2]int]hash32
}

func (m *Merkle) root(lo, hi int) hash32 { // [lo, hi)
	if hi == lo {
		return sha256.Sum256(nil)
	}
	if hi-lo == 1 {
		return m.leaves[lo]
	}
	key := [2]int{lo, hi}
	if h, ok := m.memo[key]; ok {
		return h
	}
	k := 1
	for k*2 < hi-lo {
		k *= 2
	}
	h := nodeHash(m.root(lo, lo+k), m.root(lo+k, hi))
	if m.memo == nil {
		m.memo = map[[2]int]hash32{}
	}
	m.memo[key] = h
	return h
}

func (m *Merkle) consistency(m1, n int) []hash32 { return m.subproof(m1, 0, n, true) }

func (m *Merkle) subproof(m1, lo, hi int, b bool) []hash32 {
	n := hi - lo
	if m1 == n {
		if b {
			return nil
		}
		return []hash32{m.root(lo, hi)}
	}
	k := 1
	for k*2 < n {
		k *= 2
	}
	if m1 <= k {
		return append(m.subproof(m1, lo, lo+k, b), m.root(lo+k, hi))
	}
	return append(m.subproof(m1-k, lo+k, hi, false), m.root(lo, lo+k))
}

// ---- logs ----

// Entry is one entry of a log.
type Entry struct {
	Cert    *LeafCert
	Chain   []*Issuer // presented chain; empty: a self-signed root
	Precert bool
	TS      int64 // ms
	Index   int
	leaf    []byte // MerkleTreeLeaf
	extra   []byte // extra_data
	tile    []byte // static-ct tile leaf
	rec     *Rec
	issuer  *Issuer // the final issuer (never a precert signing certificate)
}

// Counted reports whether the pipeline should keep this entry at all.
func (e *Entry) Counted() bool { return len(e.Chain) > 0 }

type Log struct {
	s          *Sim
	Name       string
	Tiled      bool
	URL        string
	Short      string
	MMD        int64 // seconds
	key        *ecdsa.PrivateKey
	ID         hash32
	IDb64      string
	KeyB64     string
	Entries    []*Entry
	pending    []*Entry // accepted, to be merged
	tree       Merkle
	sths       []sthT
	sthEvery   int64
	maxGet     int
	Enrolled   bool
	h          *Host
	tokens     float64
	tokenAt    int64
	Tampered   bool // this log served something it should not have
	served     map[string]int
	issuers    map[string][]byte
	enrolledAt int64 // last change of Enrolled
	everOn     bool
	OnSTH      func(p *Proc)
}

type sthT struct {
	size int
	ts   int64
	root hash32
	sig  []byte
}

func u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }
func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func u64(n uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return b[:]
}

func (s *Sim) NewLog(name string, idx int, lp LogPlan) *Log {
	l := &Log{s: s, Name: name, Tiled: lp.Tiled, MMD: lp.MMD, key: ecKey(s.Plan.Seed, "log", idx)}
	host := name + ".ct.sim"
	path := ""
	r := NewRng(s.Plan.Seed, "logurl", idx)
	if r.P(600) {
		path = "/2026h" + strconv.Itoa(1+r.N(2))
	}
	l.URL = "https://" + host + path + "/"
	l.Short = host + path
	spki, _ := x509.MarshalPKIXPublicKey(&l.key.PublicKey)
	l.ID = sha256.Sum256(spki)
	l.IDb64 = base64.StdEncoding.EncodeToString(l.ID[:])
	l.KeyB64 = base64.StdEncoding.EncodeToString(spki)
	l.maxGet = lp.MaxGet
	l.sthEvery = lp.STHEvery * sec
	l.Enrolled = lp.Enrolled
	l.everOn = lp.Enrolled
	l.served = map[string]int{}
	l.issuers = map[string][]byte{}
	l.h = s.HTTPHost("log."+name, host+":443", func(q *HTTPReq) *HTTPResp { return l.serve(q, path) })
	return l
}

func (l *Log) Meta() map[string]any {
	return map[string]any{"crlite_enrolled": l.Enrolled, "description": l.Name, "key": l.KeyB64, "logID": l.IDb64, "mmd": l.MMD, "url": l.URL, "tiled": l.Tiled}
}

// Submit accepts a certificate now; it is merged within the MMD.
func (l *Log) Submit(e *Entry, mergeDelay int64) {
	e.TS = l.s.Now / msec
	l.s.After(mergeDelay, func() { l.merge(e) })
}

func (l *Log) merge(e *Entry) {
	e.Index = len(l.Entries)
	for _, c := range e.Chain {
		h := sha256.Sum256(c.DER)
		l.issuers[hex.EncodeToString(h[:])] = c.DER
	}
	var signed []byte
	ext := u16(0)
	if l.Tiled {
		x := append([]byte{0}, u16(5)...)
		x = append(x, u64(uint64(e.Index))[3:]...)
		ext = append(u16(len(x)), x...)
	}
	typ := u16(0)
	if e.Precert {
		typ = u16(1)
		kh := sha256.Sum256(e.issuer.cert.RawSubjectPublicKeyInfo)
		signed = append(kh[:], append(u24(len(e.Cert.TBS)), e.Cert.TBS...)...)
	} else {
		signed = append(u24(len(e.Cert.DER)), e.Cert.DER...)
	}
	body := append(u64(uint64(e.TS)), typ...)
	body = append(body, signed...)
	body = append(body, ext...)
	e.leaf = append([]byte{0, 0}, body...)
	var chain []byte
	for _, c := range e.Chain {
		chain = append(chain, u24(len(c.DER))...)
		chain = append(chain, c.DER...)
	}
	chain = append(u24(len(chain)), chain...)
	if e.Precert {
		e.extra = append(u24(len(e.Cert.DER)), e.Cert.DER...)
		e.extra = append(e.extra, chain...)
	} else {
		e.extra = chain
	}
	t := append([]byte(nil), body...)
	if e.Precert {
		t = append(t, u24(len(e.Cert.DER))...)
		t = append(t, e.Cert.DER...)
	}
	var fps []byte
	for _, c := range e.Chain {
		h := sha256.Sum256(c.DER)
		fps = append(fps, h[:]...)
	}
	t = append(t, u16(len(fps))...)
	e.tile = append(t, fps...)
	l.Entries = append(l.Entries, e)
	l.tree.leaves = append(l.tree.leaves, leafHash(e.leaf))
}

// publish signs a new tree head.
func (l *Log) publish() {
	n := len(l.Entries)
	st := sthT{size: n, ts: l.s.Now / msec, root: l.tree.root(0, n)}
	in := append([]byte{0, 1}, u64(uint64(st.ts))...)
	in = append(in, u64(uint64(n))...)
	in = append(in, st.root[:]...)
	d := sha256.Sum256(in)
	sig, err := l.key.Sign(nil, d[:], crypto.SHA256)
	if err != nil {
		harness("sign: %v", err)
	}
	st.sig = append([]byte{4, 3}, append(u16(len(sig)), sig...)...)
	l.sths = append(l.sths, st)
}

// sth returns the newest tree head; heads are issued on a fixed cadence.
func (l *Log) sth() sthT {
	if len(l.sths) == 0 || l.s.Now/msec-l.sths[len(l.sths)-1].ts >= l.sthEvery/msec {
		l.publish()
	}
	return l.sths[len(l.sths)-1]
}

// newSTH reports the newest head served so far.
func (l *Log) lastSTH() (sthT, bool) {
	if len(l.sths) == 0 {
		return sthT{}, false
	}
	return l.sths[len(l.sths)-1], true
}

func jsonResp(v any) *HTTPResp {
	b, _ := json.Marshal(v)
	return &HTTPResp{Status: 200, Body: b, Header: [][2]string{{"Content-Type", "application/json"}}}
}

// onSTH: a process starts another round with this log.
func (l *Log) onSTH(p *Proc) {
	p.sthN[l.Name]++
	p.sthAt[l.Name] = l.s.Now
	if l.OnSTH != nil {
		l.OnSTH(p)
	}
}

// serve answers one request; a log that is asked very often gets slow.
func (l *Log) serve(q *HTTPReq, prefix string) *HTTPResp {
	r := l.answer(q, prefix)
	l.tokens += float64(l.s.Now-l.tokenAt) / float64(sec) * 10
	l.tokenAt = l.s.Now
	if l.tokens > 200 {
		l.tokens = 200
	}
	if l.tokens--; l.tokens < 0 {
		l.tokens = 0
		r.Delay += 700 * msec
	}
	return r
}

func (l *Log) answer(q *HTTPReq, prefix string) *HTTPResp {
	u, err := url.Parse(q.Path)
	if err != nil || !strings.HasPrefix(u.Path, prefix+"/") {
		return &HTTPResp{Status: 404}
	}
	p := strings.TrimPrefix(u.Path, prefix+"/")
	q.c.p.busyAt = l.s.Now
	if l.Tiled {
		return l.serveTiled(p, q.c.p)
	}
	switch p {
	case "ct/v1/get-sth":
		l.onSTH(q.c.p)
		st := l.sth()
		if r, ok := l.s.Fault("log.stale"); ok {
			st = l.sths[r.N(len(l.sths))]
		}
		if _, ok := l.s.Fault("tamper.sth"); ok {
			l.tamper()
			st.root[3] ^= 1
		}
		return jsonResp(map[string]any{"tree_size": st.size, "timestamp": st.ts, "sha256_root_hash": st.root[:], "tree_head_signature": st.sig})
	case "ct/v1/get-sth-consistency":
		a, e1 := strconv.Atoi(u.Query().Get("first"))
		b, e2 := strconv.Atoi(u.Query().Get("second"))
		cur := l.sth()
		if e1 != nil || e2 != nil || a < 1 || a > b || b > cur.size {
			return &HTTPResp{Status: 400, Body: []byte("bad range")}
		}
		pf := l.tree.consistency(a, b)
		out := make([][]byte, 0)
		for i := range pf {
			out = append(out, pf[i][:])
		}
		if r, ok := l.s.Fault("tamper.proof"); ok {
			l.tamper()
			switch {
			case len(out) > 0 && r.P(500):
				i := r.N(len(out))
				out[i] = append([]byte(nil), out[i]...)
				out[i][r.N(32)] ^= 1
			case len(out) > 0 && r.P(500):
				out = out[:len(out)-1]
			default:
				out = append(out, make([]byte, 32))
			}
		}
		return jsonResp(map[string]any{"consistency": out})
	case "ct/v1/get-entries":
		a, e1 := strconv.Atoi(u.Query().Get("start"))
		b, e2 := strconv.Atoi(u.Query().Get("end"))
		cur := l.sth()
		if e1 != nil || e2 != nil || a < 0 || b < a || a >= cur.size {
			return &HTTPResp{Status: 400, Body: []byte("bad range")}
		}
		if b >= cur.size {
			b = cur.size - 1
		}
		if b-a+1 > l.maxGet {
			b = a + l.maxGet - 1
			if l.maxGet > 4 && (b+1)%l.maxGet != 0 { // aligned replies, as big logs give
				if e := b - (b+1)%l.maxGet; e >= a {
					b = e
				}
			}
		}
		if r, ok := l.s.Fault("log.short"); ok && b > a {
			b = a + r.N(b-a)
		}
		type le struct {
			LeafInput []byte `json:"leaf_input"`
			ExtraData []byte `json:"extra_data"`
		}
		var out []le
		for i := a; i <= b; i++ {
			out = append(out, le{l.Entries[i].leaf, l.Entries[i].extra})
		}
		if r, ok := l.s.Fault("tamper.entries"); ok {
			l.tamper()
			i := r.N(len(out))
			switch r.N(9) {
			case 7: // what comes with the leaf, outside of the tree, cannot be parsed
				x := append([]byte(nil), out[i].ExtraData...)
				if r.P(500) {
					x = x[:len(x)-1-r.N(min(40, len(x)))]
				} else {
					x[r.N(3)] ^= 0x81
				}
				out[i].ExtraData = x
			case 8: // the leaf cannot be parsed
				x := append([]byte(nil), out[i].LeafInput...)
				if r.P(500) {
					x = x[:len(x)-1-r.N(10)]
				} else {
					x[r.N(2)] ^= 0x81
				}
				out[i].LeafInput = x
			case 0: // another entry in its place
				j := r.N(len(l.Entries))
				out[i] = le{l.Entries[j].leaf, l.Entries[j].extra}
			case 1: // timestamp changed
				x := append([]byte(nil), out[i].LeafInput...)
				x[9] ^= byte(1 + r.N(255))
				out[i].LeafInput = x
			case 2: // an entry left out
				out = append(out[:i:i], out[i+1:]...)
			case 3: // an entry repeated
				out = append(out[:i+1:i+1], out[i:]...)
			case 4: // more than was asked for, not from the log's next index
				out = append(out, out[0])
			case 5: // two entries swapped
				j := r.N(len(out))
				out[i], out[j] = out[j], out[i]
			case 6: // nothing at all
				out = nil
			}
			if out == nil {
				out = []le{}
			}
		}
		return jsonResp(map[string]any{"entries": out})
	}
	return &HTTPResp{Status: 404}
}

func (l *Log) serveTiled(p string, by *Proc) *HTTPResp {
	switch {
	case p == "checkpoint":
		l.onSTH(by)
		st := l.sth()
		if r, ok := l.s.Fault("log.stale"); ok {
			st = l.sths[r.N(len(l.sths))]
		}
		if _, ok := l.s.Fault("tamper.sth"); ok {
			l.tamper()
			st.root[3] ^= 1
		}
		origin := l.Short
		text := fmt.Sprintf("%s\n%d\n%s\n", origin, st.size, base64.StdEncoding.EncodeToString(st.root[:]))
		kh := sha256.Sum256(append([]byte(origin+"\n\x05"), l.ID[:]...))
		sig := append(append([]byte(nil), kh[:4]...), u64(uint64(st.ts))...)
		sig = append(sig, st.sig...)
		return &HTTPResp{Status: 200, Body: []byte(text + "\n— " + origin + " " + base64.StdEncoding.EncodeToString(sig) + "\n")}
	case strings.HasPrefix(p, "issuer/"):
		if d, ok := l.issuers[p[7:]]; ok {
			if r, ok := l.s.Fault("tamper.issuer"); ok {
				l.tamper()
				fs := sortedKeys(l.issuers)
				switch r.N(3) {
				case 0: // cut short
					d = d[:len(d)-1-r.N(len(d)/2)]
				default: // another issuer's
					d = l.issuers[fs[r.N(len(fs))]]
				}
			}
			return &HTTPResp{Status: 200, Body: d}
		}
		return &HTTPResp{Status: 404}
	case strings.HasPrefix(p, "tile/"):
		return l.tile(p[5:])
	}
	return &HTTPResp{Status: 404}
}

func (l *Log) tile(p string) *HTTPResp {
	f := strings.Split(p, "/")
	lev := f[0]
	w := 256
	f = f[1:]
	if len(f) >= 2 && strings.HasSuffix(f[len(f)-2], ".p") {
		n, err := strconv.Atoi(f[len(f)-1])
		if err != nil {
			return &HTTPResp{Status: 400}
		}
		w = n
		f = f[:len(f)-1]
		f[len(f)-1] = strings.TrimSuffix(f[len(f)-1], ".p")
	}
	n := 0
	for _, x := range f {
		k, err := strconv.Atoi(strings.TrimPrefix(x, "x"))
		if err != nil {
			return &HTTPResp{Status: 400}
		}
		n = n*1000 + k
	}
	size := l.sth().size
	var out bytes.Buffer
	if lev == "data" {
		if n*256+w > size {
			return &HTTPResp{Status: 404}
		}
		tr, tam := l.s.Fault("tamper.tile")
		for i := 0; i < w; i++ {
			out.Write(l.Entries[n*256+i].tile)
		}
		b := out.Bytes()
		if tam {
			l.tamper()
			switch tr.N(3) {
			case 0:
				b[7] ^= 1 // first timestamp
			case 1:
				b = b[:len(b)-1-tr.N(40)]
			case 2:
				i, j := tr.N(w), tr.N(len(l.Entries))
				out.Reset()
				for k := 0; k < w; k++ {
					if k == i {
						out.Write(l.Entries[j].tile)
					} else {
						out.Write(l.Entries[n*256+k].tile)
					}
				}
				b = out.Bytes()
			}
		}
		return &HTTPResp{Status: 200, Body: b}
	}
	lv, err := strconv.Atoi(lev)
	if err != nil {
		return &HTTPResp{Status: 400}
	}
	span := 1
	for i := 0; i < lv; i++ {
		span *= 256
	}
	if (n*256+w)*span > size {
		return &HTTPResp{Status: 404}
	}
	for i := 0; i < w; i++ {
		lo := (n*256 + i) * span
		h := l.tree.root(lo, lo+span)
		out.Write(h[:])
	}
	if r, ok := l.s.Fault("tamper.tile"); ok {
		l.tamper()
		b := out.Bytes()
		b[r.N(len(b))] ^= 1
	}
	return &HTTPResp{Status: 200, Body: out.Bytes()}
}

func pemCert(der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

// tamper notes that the log hands out data that is not its own.
func (l *Log) tamper() {
	l.Tampered = true
	l.s.Probe("tampered")
}
