package main

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Redis is a fake Redis server holding the cache of the pipeline. It follows
// Redis semantics for the commands used, including expiry by its own clock,
// SCAN guarantees, and -OOM under noeviction.
type rval struct {
	str    *string
	set    map[string]bool
	order  []string // members in insertion order (deterministic iteration)
	expire int64    // unix ms, 0: none
}

type Redis struct {
	s       *Sim
	h       *Host
	keys    map[string]*rval
	Gen     int // counts wipes
	OOM     bool
	Loading bool
	buckets int
	salt    uint64
	last    map[string]string                        // clients: last command
	OnCmd   func(p *Proc, args []string)             // before execution
	OnDone  func(p *Proc, args []string, rep string) // after execution
	ncmd    int
}

func (s *Sim) NewRedis(addr string) *Redis {
	r := &Redis{s: s, keys: map[string]*rval{}, salt: NewRng(s.Plan.Seed, "redis").U64()}
	r.buckets = 1 << NewRng(s.Plan.Seed, "redisb").N(6)
	r.h = &Host{Name: "redis", Addr: addr, Accept: r.accept, BaseLat: s.rnd.Range(50*usec, 800*usec)}
	s.AddHost(r.h)
	return r
}

func (r *Redis) nowMs() int64 { return r.s.Now / msec }

func (r *Redis) get(k string) *rval {
	v := r.keys[k]
	if v != nil && v.expire != 0 && v.expire <= r.nowMs() {
		delete(r.keys, k)
		r.s.Log("redis expired %s", k)
		return nil
	}
	return v
}

// Wipe models a cache that lost all its data.
func (r *Redis) Wipe() {
	r.s.Log("redis wiped")
	r.keys = map[string]*rval{}
	r.Gen++
}

func (r *Redis) accept(c *Conn) {
	var buf []byte
	c.OnData = func(b []byte) {
		buf = append(buf, b...)
		var out bytes.Buffer
		for !c.dead && !c.closed {
			args, rest, ok := parseRESP(buf)
			if !ok {
				break
			}
			buf = rest
			rep, drop := r.serve(c, args)
			if drop {
				return
			}
			out.WriteString(rep)
		}
		if out.Len() > 0 {
			d := r.s.rnd.Range(0, 200*usec)
			if fr, ok := r.s.Fault("redis.slow"); ok {
				d = fr.Range(500*msec, 12*sec)
			}
			c.Send(out.Bytes(), d)
		}
	}
}

func parseRESP(b []byte) ([]string, []byte, bool) {
	rd := func(p int) (int, int, bool) {
		i := bytes.Index(b[p:], []byte("\r\n"))
		if i < 0 {
			return 0, 0, false
		}
		n, err := strconv.Atoi(string(b[p+1 : p+i]))
		if err != nil {
			harness("bad RESP %q", b[p:p+i])
		}
		return n, p + i + 2, true
	}
	if len(b) == 0 {
		return nil, b, false
	}
	if b[0] != '*' {
		harness("inline RESP command %q", b)
	}
	n, p, ok := rd(0)
	if !ok {
		return nil, b, false
	}
	var args []string
	for i := 0; i < n; i++ {
		if p >= len(b) {
			return nil, b, false
		}
		l, q, ok := rd(p)
		if !ok || len(b) < q+l+2 {
			return nil, b, false
		}
		args = append(args, string(b[q:q+l]))
		p = q + l + 2
	}
	return args, b[p:], true
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func rint(n int) string    { return fmt.Sprintf(":%d\r\n", n) }
func array(xs []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(xs))
	for _, x := range xs {
		b.WriteString(bulk(x))
	}
	return b.String()
}

const rNil = "$-1\r\n"

func show(args []string) string {
	var b strings.Builder
	for i, a := range args {
		if i > 0 {
			b.WriteByte(' ')
		}
		if len(a) > 140 {
			a = a[:140] + "..."
		}
		ok := true
		for j := 0; j < len(a); j++ {
			if a[j] < 32 || a[j] > 126 {
				ok = false
			}
		}
		if ok {
			b.WriteString(a)
		} else {
			fmt.Fprintf(&b, "%x", a)
		}
		if b.Len() > 400 {
			b.WriteString(" ...")
			break
		}
	}
	return b.String()
}

var cadScript = regexp.MustCompile(`^ifredis\.call\(["']get["'],KEYS\[1\]\)==ARGV\[1\]thenreturnredis\.call\(["']del["'],KEYS\[1\]\)(elsereturn0|)end(return0|)$`)

// compareAndDelete stands in for the one script that a client may run: delete
// a key if it has a certain value. It returns the DEL command to execute, or
// nil.
func (r *Redis) compareAndDelete(a []string) []string {
	if len(a) != 5 || a[2] != "1" || !cadScript.MatchString(strings.Join(strings.Fields(strings.ReplaceAll(a[1], ";", " ")), "")) {
		harness("redis stub: script not supported: %q", a)
	}
	if v := r.get(a[3]); v == nil || v.str == nil || *v.str != a[4] {
		return nil
	}
	return []string{"DEL", a[3]}
}

func (r *Redis) serve(c *Conn, args []string) (rep string, drop bool) {
	s := r.s
	p := c.p
	r.ncmd++
	cmd := strings.ToUpper(args[0])
	if _, ok := s.Fault("redis.reset.before"); ok {
		c.Reset(c.lat)
		return "", true
	}
	if cmd == "EVALSHA" {
		return "-NOSCRIPT No matching script. Please use EVAL.\r\n", false
	}
	if cmd == "EVAL" && !r.Loading {
		if args = r.compareAndDelete(args); args == nil {
			s.Log("redis %s#%d compare-and-delete: another value", p.Name, p.ID)
			return rint(0), false
		}
		cmd = "DEL"
	}
	if r.OnCmd != nil {
		r.OnCmd(p, args)
	}
	if r.Loading {
		return "-LOADING Redis is loading the dataset in memory\r\n", false
	}
	rep = r.exec(cmd, args)
	if cmd != "PING" && cmd != "INFO" {
		rs := rep
		if len(rs) > 60 {
			rs = rs[:60] + fmt.Sprintf("...(%d)", len(rep))
		}
		s.Log("redis %s#%d %s -> %s", p.Name, p.ID, show(args), show([]string{strings.ReplaceAll(rs, "\r\n", "|")}))
	}
	if r.OnDone != nil {
		r.OnDone(p, args, rep)
	}
	p.nRedis++
	if cmd != "PING" && cmd != "INFO" {
		if _, ok := s.Fault("crash.redis." + p.Name); ok {
			p.Kill()
			return "", true
		}
	}
	if _, ok := s.Fault("redis.reset.after"); ok {
		c.Reset(c.lat)
		return "", true
	}
	return rep, false
}

const wrongType = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"

func (r *Redis) exec(cmd string, a []string) string {
	need := func(n int) bool { return len(a) >= n }
	denyoom := map[string]bool{"SADD": true, "SET": true, "SETNX": true, "INCR": true, "MSET": true, "SETEX": true}
	if r.OOM && denyoom[cmd] {
		return "-OOM command not allowed when used memory > 'maxmemory'.\r\n"
	}
	if denyoom[cmd] {
		if _, ok := r.s.Fault("redis.oom"); ok {
			return "-OOM command not allowed when used memory > 'maxmemory'.\r\n"
		}
	}
	switch cmd {
	case "PING":
		return "+PONG\r\n"
	case "ECHO":
		return bulk(a[1])
	case "SELECT":
		return "+OK\r\n"
	case "INFO":
		return bulk("# Memory\r\nused_memory:1\r\nmaxmemory_policy:noeviction\r\n")
	case "FLUSHALL", "FLUSHDB":
		r.keys = map[string]*rval{}
		return "+OK\r\n"
	case "SADD":
		v := r.get(a[1])
		if v == nil {
			v = &rval{set: map[string]bool{}}
			r.keys[a[1]] = v
		}
		if v.set == nil {
			return wrongType
		}
		n := 0
		for _, m := range a[2:] {
			if !v.set[m] {
				v.set[m] = true
				v.order = append(v.order, m)
				n++
			}
		}
		return rint(n)
	case "SREM":
		v := r.get(a[1])
		if v == nil {
			return rint(0)
		}
		if v.set == nil {
			return wrongType
		}
		n := 0
		for _, m := range a[2:] {
			if v.set[m] {
				delete(v.set, m)
				n++
			}
		}
		if n > 0 {
			var o []string
			for _, m := range v.order {
				if v.set[m] {
					o = append(o, m)
				}
			}
			v.order = o
		}
		if len(v.set) == 0 {
			delete(r.keys, a[1])
		}
		return rint(n)
	case "SISMEMBER":
		v := r.get(a[1])
		if v != nil && v.set == nil {
			return wrongType
		}
		if v != nil && v.set[a[2]] {
			return rint(1)
		}
		return rint(0)
	case "SCARD":
		v := r.get(a[1])
		if v == nil {
			return rint(0)
		}
		return rint(len(v.set))
	case "SMEMBERS":
		v := r.get(a[1])
		if v == nil {
			return array(nil)
		}
		return array(v.order)
	case "SSCAN":
		v := r.get(a[1])
		if v == nil {
			return r.scanReply("0", nil)
		}
		return r.scan(a[2], a[3:], v.order, "sscan")
	case "SCAN":
		var ks []string
		for _, k := range sortedKeys(r.keys) {
			if r.get(k) != nil {
				ks = append(ks, k)
			}
		}
		return r.scan(a[1], a[2:], ks, "scan")
	case "KEYS":
		var ks []string
		for _, k := range sortedKeys(r.keys) {
			if r.get(k) != nil && globMatch(a[1], k) {
				ks = append(ks, k)
			}
		}
		return array(ks)
	case "EXISTS":
		n := 0
		for _, k := range a[1:] {
			if r.get(k) != nil {
				n++
			}
		}
		return rint(n)
	case "DEL", "UNLINK":
		n := 0
		for _, k := range a[1:] {
			if r.get(k) != nil {
				delete(r.keys, k)
				n++
			}
		}
		return rint(n)
	case "GET":
		v := r.get(a[1])
		if v == nil {
			return rNil
		}
		if v.str == nil {
			return wrongType
		}
		return bulk(*v.str)
	case "MGET":
		out := fmt.Sprintf("*%d\r\n", len(a)-1)
		for _, k := range a[1:] {
			if v := r.get(k); v != nil && v.str != nil {
				out += bulk(*v.str)
			} else {
				out += rNil
			}
		}
		return out
	case "SETNX":
		if r.get(a[1]) != nil {
			return rint(0)
		}
		x := a[2]
		r.keys[a[1]] = &rval{str: &x}
		return rint(1)
	case "SETEX":
		n, _ := strconv.ParseInt(a[2], 10, 64)
		x := a[3]
		r.keys[a[1]] = &rval{str: &x, expire: r.nowMs() + n*1000}
		return "+OK\r\n"
	case "SET":
		if !need(3) {
			return "-ERR wrong number of arguments\r\n"
		}
		x := a[2]
		nv := &rval{str: &x}
		nx, xx := false, false
		for i := 3; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "EX", "PX":
				n, _ := strconv.ParseInt(a[i+1], 10, 64)
				if strings.ToUpper(a[i]) == "EX" {
					n *= 1000
				}
				nv.expire = r.nowMs() + n
				i++
			case "KEEPTTL":
				if o := r.get(a[1]); o != nil {
					nv.expire = o.expire
				}
			default:
				return "-ERR syntax error\r\n"
			}
		}
		old := r.get(a[1])
		if nx && old != nil || xx && old == nil {
			return rNil
		}
		r.keys[a[1]] = nv
		return "+OK\r\n"
	case "INCR", "INCRBY":
		n := int64(0)
		if v := r.get(a[1]); v != nil {
			if v.str == nil {
				return wrongType
			}
			var err error
			n, err = strconv.ParseInt(*v.str, 10, 64)
			if err != nil {
				return "-ERR value is not an integer or out of range\r\n"
			}
		} else {
			r.keys[a[1]] = &rval{}
		}
		d := int64(1)
		if cmd == "INCRBY" {
			d, _ = strconv.ParseInt(a[2], 10, 64)
		}
		x := strconv.FormatInt(n+d, 10)
		r.keys[a[1]].str = &x
		return fmt.Sprintf(":%d\r\n", n+d)
	case "EXPIREAT", "PEXPIREAT", "EXPIRE", "PEXPIRE":
		v := r.get(a[1])
		if v == nil {
			return rint(0)
		}
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		switch cmd {
		case "EXPIREAT":
			n *= 1000
		case "EXPIRE":
			n = r.nowMs() + n*1000
		case "PEXPIRE":
			n += r.nowMs()
		}
		v.expire = n
		if n <= r.nowMs() {
			delete(r.keys, a[1])
		}
		return rint(1)
	case "PERSIST":
		if v := r.get(a[1]); v != nil && v.expire != 0 {
			v.expire = 0
			return rint(1)
		}
		return rint(0)
	case "TTL", "PTTL":
		v := r.get(a[1])
		if v == nil {
			return rint(-2)
		}
		if v.expire == 0 {
			return rint(-1)
		}
		d := v.expire - r.nowMs()
		if cmd == "TTL" {
			d = (d + 500) / 1000
		}
		return rint(int(d))
	case "TYPE":
		v := r.get(a[1])
		if v == nil {
			return "+none\r\n"
		}
		if v.set != nil {
			return "+set\r\n"
		}
		return "+string\r\n"
	case "DBSIZE":
		return rint(len(r.keys))
	case "CLIENT", "CONFIG":
		return "+OK\r\n"
	}
	harness("fake redis: command %q is not implemented", a)
	return ""
}

func (r *Redis) scanReply(cur string, xs []string) string {
	return "*2\r\n" + bulk(cur) + array(xs)
}

// scan walks hash buckets: an element present for the whole iteration is
// returned at least once; elements may be returned more than once.
func (r *Redis) scan(cur string, opts []string, all []string, kind string) string {
	match, count := "", 10
	for i := 0; i+1 < len(opts); i += 2 {
		switch strings.ToUpper(opts[i]) {
		case "MATCH":
			match = opts[i+1]
		case "COUNT":
			count, _ = strconv.Atoi(opts[i+1])
		}
	}
	c, err := strconv.Atoi(cur)
	if err != nil || c < 0 {
		return "-ERR invalid cursor\r\n"
	}
	// COUNT elements of work per call over a table of r.buckets*8 buckets
	nb := r.buckets * 8
	step := count * nb / (len(all) + 1)
	if step < 1 {
		step = 1
	}
	if len(all) <= count && kind == "sscan" {
		// small sets are kept in a compact encoding and returned in one go
		step = nb
	}
	end := c + step
	dup := false
	if _, ok := r.s.Fault("redis.scandup"); ok {
		dup = true
	}
	var out []string
	emit := func(x string) {
		if match == "" || globMatch(match, x) {
			out = append(out, x)
		}
	}
	for b := c; b < end && b < nb; b++ {
		for _, x := range all {
			if r.bucket(x, nb) == b {
				emit(x)
			}
		}
	}
	if dup {
		for _, x := range all {
			if h := r.bucket(x, nb); h < c && mix(r.salt^uint64(len(x))^uint64(c)^uint64(h))%3 != 0 {
				emit(x)
			}
		}
	}
	next := strconv.Itoa(end)
	if end >= nb {
		next = "0"
	}
	return r.scanReply(next, out)
}

func (r *Redis) bucket(x string, nb int) int {
	return int(NewRng(r.salt, x).U64() % uint64(nb))
}

func globMatch(pat, s string) bool {
	ok, err := path.Match(strings.ReplaceAll(pat, "/", "\x01"), strings.ReplaceAll(s, "/", "\x01"))
	return err == nil && ok
}

// Peek reads the cache without touching it.
func (r *Redis) PeekStr(k string) (string, bool) {
	if v := r.get(k); v != nil && v.str != nil {
		return *v.str, true
	}
	return "", false
}

func (r *Redis) PeekKeys(prefix string) []string {
	var all, ks []string
	for k := range r.keys {
		if strings.HasPrefix(k, prefix) {
			all = append(all, k)
		}
	}
	sort.Strings(all)
	for _, k := range all {
		if r.get(k) != nil {
			ks = append(ks, k)
		}
	}
	return ks
}
