package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The reference model: the documented Redis semantics of every command the
// server implements, over plain Go values, in logical time. Apply validates
// one observed reply and moves the model to the following state; where Redis
// leaves a choice (random picks, sub-second expiry) the model follows the
// reply after checking that it is one of the allowed ones.

type Entry struct {
	T byte // 's' string, 'l' list, 'h' hash, 'z' set
	S string
	L []string
	H map[string]string // hash; for sets the values are ""
	D int64             // deadline in ms; 0 = none
}

type Model struct {
	M   map[string]*Entry
	Now int64
	// Slack is how far, in ms, the server's clock may be ahead of Now.
	Slack int64
}

func NewModel(now int64) *Model { return &Model{M: map[string]*Entry{}, Now: now} }

const infDeadline = int64(math.MaxInt64 - 10_000_000)

func (e *Entry) clone() *Entry {
	n := &Entry{T: e.T, S: e.S, D: e.D}
	if e.L != nil {
		n.L = append([]string(nil), e.L...)
	}
	if e.H != nil {
		n.H = make(map[string]string, len(e.H))
		for k, v := range e.H {
			n.H[k] = v
		}
	}
	return n
}

func (m *Model) Clone() *Model {
	n := &Model{M: make(map[string]*Entry, len(m.M)), Now: m.Now, Slack: m.Slack}
	for k, e := range m.M {
		n.M[k] = e.clone()
	}
	return n
}

// Canon is a canonical rendering of the live state.
func (m *Model) Canon() string {
	ks := make([]string, 0, len(m.M))
	for k := range m.M {
		if m.get(k) != nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	w := func(s string) { fmt.Fprintf(&sb, "%d:%s", len(s), s) }
	for _, k := range ks {
		e := m.M[k]
		w(k)
		sb.WriteByte(e.T)
		switch e.T {
		case 's':
			w(e.S)
		case 'l':
			for _, x := range e.L {
				w(x)
			}
		default:
			fs := sortedKeys(e.H)
			for _, f := range fs {
				w(f)
				w(e.H[f])
			}
		}
		fmt.Fprintf(&sb, "@%d;", e.D)
	}
	return sb.String()
}

func sortedKeys(h map[string]string) []string {
	fs := make([]string, 0, len(h))
	for f := range h {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}

// get returns the live entry or nil. Entries are surely gone one second after
// their deadline; between deadline and that moment the caller must not look
// (see Ambiguous).
func (m *Model) get(k string) *Entry {
	e := m.M[k]
	if e == nil {
		return nil
	}
	if e.D != 0 && m.Now >= e.D+1000 {
		delete(m.M, k)
		return nil
	}
	return e
}

// Ambiguous tells whether at time t some key is within its grace second.
func (m *Model) Ambiguous(t int64) bool {
	for _, e := range m.M {
		if e.D != 0 && t >= e.D && t < e.D+1000 {
			return true
		}
	}
	return false
}

// ---- reply checks ----------------------------------------------------------

func isErr(r Reply) bool { return r.Kind == '-' }

func wErr(r Reply, why string) string {
	if r.Kind != '-' {
		return "expected an error (" + why + "), got " + r.String()
	}
	return ""
}

func wInt(r Reply, n int64) string {
	if r.Kind != ':' || r.Int != n {
		return fmt.Sprintf("expected :%d, got %s", n, r)
	}
	return ""
}

func wOK(r Reply) string { return wSimple(r, "OK") }

func wSimple(r Reply, s string) string {
	if r.Kind != '+' || r.Str != s {
		return fmt.Sprintf("expected +%s, got %s", s, r)
	}
	return ""
}

func wBulk(r Reply, s string) string {
	if r.Kind != '$' || r.Null || r.Str != s {
		return fmt.Sprintf("expected %s (%d bytes), got %s", strconv.Quote(clip(s, 80)), len(s), r)
	}
	return ""
}

func wNil(r Reply) string {
	if r.Kind != '$' || !r.Null {
		return "expected nil, got " + r.String()
	}
	return ""
}

// arr views a reply as a list of elements; a null array, an empty array and a
// null bulk all count as "nothing".
func arr(r Reply) ([]Reply, bool) {
	if r.Kind == '*' {
		return r.Arr, true
	}
	if r.Kind == '$' && r.Null {
		return nil, true
	}
	return nil, false
}

func bulks(r Reply) ([]string, string) {
	a, ok := arr(r)
	if !ok {
		return nil, "expected an array, got " + r.String()
	}
	out := make([]string, len(a))
	for i, e := range a {
		if e.Kind != '$' || e.Null {
			return nil, fmt.Sprintf("element %d is not a bulk string: %s", i, r)
		}
		out[i] = e.Str
	}
	return out, ""
}

func wNone(r Reply) string {
	if a, ok := arr(r); !ok || len(a) != 0 {
		return "expected nothing (nil or empty array), got " + r.String()
	}
	return ""
}

func wList(r Reply, want []string) string {
	got, e := bulks(r)
	if e != "" {
		return e
	}
	if len(got) != len(want) {
		return fmt.Sprintf("expected %d elements %s, got %d: %s", len(want), clipList(want), len(got), r)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("element %d: expected %q, got %q", i, clip(want[i], 80), clip(got[i], 80))
		}
	}
	return ""
}

func wMultiset(r Reply, want []string) string {
	got, e := bulks(r)
	if e != "" {
		return e
	}
	g := append([]string(nil), got...)
	w := append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	if len(g) != len(w) {
		return fmt.Sprintf("expected %d elements %s, got %d: %s", len(w), clipList(w), len(g), clipList(g))
	}
	for i := range g {
		if g[i] != w[i] {
			return fmt.Sprintf("expected (in any order) %s, got %s", clipList(w), clipList(g))
		}
	}
	return ""
}

func clipList(l []string) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, s := range l {
		if i == 20 {
			fmt.Fprintf(&sb, " ... %d in all", len(l))
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(strconv.Quote(clip(s, 40)))
	}
	sb.WriteByte(']')
	return sb.String()
}

// ---- arguments -------------------------------------------------------------

// pint parses an integer argument. Spellings Redis and common parsers disagree
// on ("+5", "05") are accepted or refused as the reply shows.
func pint(s string, r Reply) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, false
	}
	if strconv.FormatInt(n, 10) != s && isErr(r) {
		return 0, false
	}
	return n, true
}

func pfloat(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (b > 0 && c < a) || (b < 0 && c > a) {
		return 0, false
	}
	return c, true
}

const wrongType = "wrong type"

// errOr is for requests whose refusal is a matter of taste.
func errOr(r Reply, alt string) string {
	if isErr(r) || alt == "" {
		return ""
	}
	return "expected an error or the empty reply; " + alt
}

type cmdFn func(m *Model, a []string, r Reply) string

var cmdTable map[string]cmdFn

// cmdNames lists every command of the server except SELECT.
var cmdNames []string

func init() {
	cmdTable = map[string]cmdFn{
		"ping": mPing, "del": mDel, "exists": mExists, "keys": mKeys, "expire": mExpire,
		"persist": mPersist, "ttl": mTTL, "rename": mRename, "type": mType,
		"set": mSet, "get": mGet, "getrange": mGetRange, "setrange": mSetRange, "mget": mMGet,
		"mset": mMSet, "setex": mSetEx, "setnx": mSetNx, "strlen": mStrLen, "incr": mIncr,
		"incrby": mIncrBy, "decr": mDecr, "decrby": mDecrBy, "incrbyfloat": mIncrByFloat, "append": mAppend,
		"lindex": mLIndex, "linsert": mLInsert, "llen": mLLen, "lmove": mLMove, "lpop": mLPop, "rpop": mRPop,
		"lpos": mLPos, "lpush": mLPush, "rpush": mRPush, "lpushx": mLPushX, "rpushx": mRPushX,
		"lrange": mLRange, "lrem": mLRem, "lset": mLSet, "ltrim": mLTrim,
		"hdel": mHDel, "hexists": mHExists, "hget": mHGet, "hgetall": mHGetAll, "hincrby": mHIncrBy,
		"hincrbyfloat": mHIncrByFloat, "hkeys": mHKeys, "hlen": mHLen, "hmget": mHMGet, "hmset": mHMSet,
		"hset": mHSet, "hsetnx": mHSetNx, "hvals": mHVals, "hstrlen": mHStrLen, "hrandfield": mHRandField,
		"sadd": mSAdd, "scard": mSCard, "sdiff": mSDiff, "sdiffstore": mSDiffStore, "sinter": mSInter,
		"sinterstore": mSInterStore, "sismember": mSIsMember, "smembers": mSMembers, "smove": mSMove,
		"spop": mSPop, "srandmember": mSRandMember, "srem": mSRem, "sunion": mSUnion, "sunionstore": mSUnionStore,
	}
	for n := range cmdTable {
		cmdNames = append(cmdNames, n)
	}
	sort.Strings(cmdNames)
}

// Apply checks reply r to command a and updates the model.
func (m *Model) Apply(a []string, r Reply) string {
	for _, x := range a {
		if x == nullArg {
			return wErr(r, "null argument")
		}
	}
	f := cmdTable[strings.ToLower(a[0])]
	if f == nil {
		return wErr(r, "unknown command")
	}
	return f(m, a, r)
}

func arity(r Reply) string { return wErr(r, "wrong number of arguments") }

// ---- keys ------------------------------------------------------------------

func mPing(m *Model, a []string, r Reply) string {
	switch len(a) {
	case 1:
		return wSimple(r, "PONG")
	case 2:
		return wBulk(r, a[1])
	}
	return arity(r)
}

func mDel(m *Model, a []string, r Reply) string {
	if len(a) < 2 {
		return arity(r)
	}
	n := int64(0)
	for _, k := range a[1:] {
		if m.get(k) != nil {
			n++
			delete(m.M, k)
		}
	}
	return wInt(r, n)
}

func mExists(m *Model, a []string, r Reply) string {
	if len(a) < 2 {
		return arity(r)
	}
	n := int64(0)
	for _, k := range a[1:] {
		if m.get(k) != nil {
			n++
		}
	}
	return wInt(r, n)
}

func mKeys(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	toks, ok := globParse(a[1])
	if ok {
		var want []string
		for k := range m.M {
			if m.get(k) != nil && globMatch(toks, k) {
				want = append(want, k)
			}
		}
		return wMultiset(r, want)
	}
	got, e := bulks(r)
	if e != "" {
		return e
	}
	seen := map[string]bool{}
	for _, k := range got {
		if m.get(k) == nil {
			return fmt.Sprintf("KEYS lists %q, which does not exist", clip(k, 60))
		}
		if seen[k] {
			return fmt.Sprintf("KEYS lists %q twice", clip(k, 60))
		}
		seen[k] = true
	}
	return ""
}

func mExpire(m *Model, a []string, r Reply) string {
	if len(a) < 3 || len(a) > 4 {
		return arity(r)
	}
	e := m.get(a[1])
	opt := ""
	if len(a) == 4 {
		opt = strings.ToLower(a[3])
		if opt != "nx" && opt != "xx" && opt != "gt" && opt != "lt" {
			return wErr(r, "unknown option")
		}
	}
	ttl, ok := pint(a[2], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	d, inexact := deadlineSec(m.Now, ttl)
	if inexact && isErr(r) {
		return ""
	}
	if e == nil {
		return wInt(r, 0)
	}
	set := true
	switch opt {
	case "nx":
		set = e.D == 0
	case "xx":
		set = e.D != 0
	case "gt":
		set = e.D != 0 && d > e.D
		if e.D != 0 && (d != e.D || m.Slack > 0) && abs64(d-e.D) < 1000+m.Slack {
			set = r.Int == 1
		}
	case "lt":
		set = e.D == 0 || d < e.D
		if e.D != 0 && (d != e.D || m.Slack > 0) && abs64(d-e.D) < 1000+m.Slack {
			set = r.Int == 1
		}
	}
	if !set {
		return wInt(r, 0)
	}
	e.D = d
	return wInt(r, 1)
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// deadlineSec: now+ttl seconds in ms, saturated; inexact when it does not fit
// (a server may then refuse the request).
func deadlineSec(now, ttl int64) (int64, bool) {
	if ttl > infDeadline/1000-now/1000-1 {
		return infDeadline, true
	}
	if ttl < -infDeadline/1000 {
		return 1, true
	}
	d := now + ttl*1000
	if d <= 0 {
		d = 1
	}
	return d, false
}

func mPersist(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e := m.get(a[1])
	if e == nil || e.D == 0 {
		return wInt(r, 0)
	}
	e.D = 0
	return wInt(r, 1)
}

func mTTL(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e := m.get(a[1])
	if e == nil {
		return wInt(r, -2)
	}
	if e.D == 0 {
		return wInt(r, -1)
	}
	if e.D == infDeadline {
		if r.Kind != ':' || r.Int < 1_000_000_000 {
			return "expected a huge time to live, got " + r.String()
		}
		return ""
	}
	rem := e.D - m.Now
	lo, hi := rem/1000, (rem+999)/1000
	if m.Slack > 0 {
		lo, hi = max(0, (rem-m.Slack)/1000-1), (rem+m.Slack)/1000+1
	}
	if r.Kind != ':' || r.Int < lo || r.Int > hi {
		return fmt.Sprintf("expected a time to live of %d or %d seconds (%d ms remain), got %s", lo, hi, rem, r)
	}
	return ""
}

func mRename(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	e := m.get(a[1])
	if e == nil {
		return wErr(r, "no such key")
	}
	delete(m.M, a[1])
	m.M[a[2]] = e
	return wOK(r)
}

func mType(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	return wSimple(r, m.typeName(a[1]))
}

func (m *Model) typeName(k string) string {
	e := m.get(k)
	if e == nil {
		return "none"
	}
	switch e.T {
	case 's':
		return "string"
	case 'l':
		return "list"
	case 'h':
		return "hash"
	}
	return "set"
}

// ---- strings ---------------------------------------------------------------

const maxString = 512 << 20

func mSet(m *Model, a []string, r Reply) string {
	if len(a) < 3 {
		return arity(r)
	}
	var nx, xx, get, keep bool
	nexp := 0
	var d int64
	inexact := false
	for i := 3; i < len(a); i++ {
		o := strings.ToLower(a[i])
		switch o {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "get":
			get = true
		case "keepttl":
			keep = true
			nexp++
		case "ex", "px", "exat", "pxat":
			nexp++
			i++
			if i >= len(a) {
				return wErr(r, "option without value")
			}
			v, ok := pint(a[i], r)
			if !ok {
				return wErr(r, "not an integer")
			}
			if v <= 0 {
				return wErr(r, "invalid expire time")
			}
			switch o {
			case "ex":
				d, inexact = deadlineSec(m.Now, v)
			case "px":
				d = m.Now + v
				if v > infDeadline-m.Now {
					d, inexact = infDeadline, true
				}
			case "exat":
				d = v * 1000
				if v > infDeadline/1000 {
					d, inexact = infDeadline, true
				}
			case "pxat":
				d = v
				if v > infDeadline {
					d = infDeadline
				}
			}
		default:
			return wErr(r, "unknown option")
		}
	}
	if nx && xx || nexp > 1 {
		return wErr(r, "conflicting options")
	}
	if inexact && isErr(r) {
		return ""
	}
	old := m.get(a[1])
	if get && old != nil && old.T != 's' {
		return wErr(r, wrongType)
	}
	did := !(nx && old != nil) && !(xx && old == nil)
	if did {
		e := &Entry{T: 's', S: a[2], D: d}
		if keep && old != nil {
			e.D = old.D
		}
		m.M[a[1]] = e
	}
	if get {
		if old == nil {
			return wNil(r)
		}
		return wBulk(r, old.S)
	}
	if did {
		return wOK(r)
	}
	return wNil(r)
}

func (m *Model) str(k string) (e *Entry, bad bool) {
	e = m.get(k)
	return e, e != nil && e.T != 's'
}

func mGet(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.str(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNil(r)
	}
	return wBulk(r, e.S)
}

func mGetRange(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	s, ok1 := pint(a[2], r)
	t, ok2 := pint(a[3], r)
	e, bad := m.str(a[1])
	if !ok1 || !ok2 {
		return wErr(r, "not an integer")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wBulk(r, "")
	}
	n := int64(len(e.S))
	lax := t < 0 && t+n < 0 // Redis clamps such an end to 0, others call it empty
	if s < 0 {
		s = max(s+n, 0)
	}
	if t < 0 {
		t += n
	}
	t = min(t, n-1)
	if s > t {
		if lax && r.Kind == '$' && !r.Null && len(r.Str) <= 1 && strings.HasPrefix(e.S, r.Str) {
			return ""
		}
		return wBulk(r, "")
	}
	return wBulk(r, e.S[s:t+1])
}

func mSetRange(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	off, ok := pint(a[2], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	if off < 0 {
		return wErr(r, "offset out of range")
	}
	e, bad := m.str(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if len(a[3]) == 0 {
		// Nothing to write; refusing an absurd offset is as good.
		n := 0
		if e != nil {
			n = len(e.S)
		}
		if off+int64(len(a[3])) > maxString && isErr(r) {
			return ""
		}
		return wInt(r, int64(n))
	}
	if off > maxString-int64(len(a[3])) {
		return wErr(r, "string exceeds maximum size")
	}
	if e == nil {
		e = &Entry{T: 's'}
		m.M[a[1]] = e
	}
	n := max(len(e.S), int(off)+len(a[3]))
	b := make([]byte, n)
	copy(b, e.S)
	copy(b[off:], a[3])
	e.S = string(b)
	return wInt(r, int64(n))
}

func mMGet(m *Model, a []string, r Reply) string {
	if len(a) < 2 {
		return arity(r)
	}
	if r.Kind != '*' || len(r.Arr) != len(a)-1 {
		return fmt.Sprintf("expected an array of %d, got %s", len(a)-1, r)
	}
	for i, k := range a[1:] {
		e, bad := m.str(k)
		var w string
		if e == nil || bad {
			w = wNil(r.Arr[i])
		} else {
			w = wBulk(r.Arr[i], e.S)
		}
		if w != "" {
			return fmt.Sprintf("element %d: %s", i, w)
		}
	}
	return ""
}

func mMSet(m *Model, a []string, r Reply) string {
	if len(a) < 3 || len(a)%2 != 1 {
		return arity(r)
	}
	for i := 1; i < len(a); i += 2 {
		m.M[a[i]] = &Entry{T: 's', S: a[i+1]}
	}
	return wOK(r)
}

func mSetEx(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	n, ok := pint(a[2], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	if n <= 0 {
		return wErr(r, "invalid expire time")
	}
	d, inexact := deadlineSec(m.Now, n)
	if inexact && isErr(r) {
		return ""
	}
	m.M[a[1]] = &Entry{T: 's', S: a[3], D: d}
	return wOK(r)
}

func mSetNx(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	if m.get(a[1]) != nil {
		return wInt(r, 0)
	}
	m.M[a[1]] = &Entry{T: 's', S: a[2]}
	return wInt(r, 1)
}

func mStrLen(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.str(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	return wInt(r, int64(len(e.S)))
}

func (m *Model) incr(k string, by int64, r Reply) string {
	e, bad := m.str(k)
	if bad {
		return wErr(r, wrongType)
	}
	cur := int64(0)
	if e != nil {
		v, ok := pint(e.S, r)
		if !ok {
			return wErr(r, "value is not an integer")
		}
		cur = v
	}
	n, ok := addOv(cur, by)
	if !ok {
		return wErr(r, "overflow")
	}
	if e == nil {
		e = &Entry{T: 's'}
		m.M[k] = e
	}
	e.S = strconv.FormatInt(n, 10)
	return wInt(r, n)
}

func mIncr(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	return m.incr(a[1], 1, r)
}

func mDecr(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	return m.incr(a[1], -1, r)
}

func mIncrBy(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	n, ok := pint(a[2], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	return m.incr(a[1], n, r)
}

func mDecrBy(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	n, ok := pint(a[2], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	if n == math.MinInt64 {
		// Redis refuses it outright; computing x-MinInt64 where it fits is as
		// exact.
		if isErr(r) {
			return ""
		}
		e, bad := m.str(a[1])
		if bad {
			return wErr(r, wrongType)
		}
		cur := int64(0)
		if e != nil {
			v, ok := pint(e.S, r)
			if !ok {
				return wErr(r, "not an integer")
			}
			cur = v
		}
		if cur >= 0 {
			return wErr(r, "overflow")
		}
		e.S = strconv.FormatInt(cur-n, 10)
		return wInt(r, cur-n)
	}
	return m.incr(a[1], -n, r)
}

var plainDecimal = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

// floatReply: Redis answers in plain decimal notation, never with an exponent.
func floatReply(r Reply, a, b float64) string {
	want := a + b
	if r.Kind != '$' || r.Null {
		return fmt.Sprintf("expected the number %v, got %s", want, r)
	}
	f, err := strconv.ParseFloat(r.Str, 64)
	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f-want) > 2e-17+1e-12*math.Max(math.Abs(a), math.Abs(b)) || !plainDecimal.MatchString(r.Str) {
		return fmt.Sprintf("expected the number %v, got %s", want, r)
	}
	return ""
}

func mIncrByFloat(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	by, ok := pfloat(a[2])
	if !ok {
		return wErr(r, "not a float")
	}
	e, bad := m.str(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	cur := 0.0
	if e != nil {
		if cur, ok = pfloat(e.S); !ok {
			return wErr(r, "value is not a float")
		}
	}
	f := cur + by
	if math.IsInf(f, 0) {
		return wErr(r, "result is not finite")
	}
	if w := floatReply(r, cur, by); w != "" {
		return w
	}
	if e == nil {
		e = &Entry{T: 's'}
		m.M[a[1]] = e
	}
	e.S = r.Str
	return ""
}

func mAppend(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	e, bad := m.str(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		e = &Entry{T: 's'}
		m.M[a[1]] = e
	}
	e.S += a[2]
	return wInt(r, int64(len(e.S)))
}

// ---- lists -----------------------------------------------------------------

func (m *Model) list(k string) (e *Entry, bad bool) {
	e = m.get(k)
	return e, e != nil && e.T != 'l'
}

func (m *Model) dropEmpty(k string) {
	e := m.M[k]
	if e == nil || e.T == 's' {
		return
	}
	if e.T == 'l' && len(e.L) == 0 || e.T != 'l' && len(e.H) == 0 {
		delete(m.M, k)
	}
}

// listIdx resolves a Redis index; ok false when outside.
func listIdx(i int64, n int) (int, bool) {
	if i < 0 {
		if i < -int64(n) {
			return 0, false
		}
		i += int64(n)
	}
	if i >= int64(n) {
		return 0, false
	}
	return int(i), true
}

// listRange resolves an inclusive range to [s,t).
func listRange(s, t int64, n int) (int, int) {
	N := int64(n)
	if s < 0 {
		if s < -N {
			s = 0
		} else {
			s += N
		}
	}
	if t < 0 {
		if t < -N {
			return 0, 0
		}
		t += N
	}
	if t >= N {
		t = N - 1
	}
	if s > t {
		return 0, 0
	}
	return int(s), int(t) + 1
}

func mLIndex(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	i, ok := pint(a[2], r)
	e, bad := m.list(a[1])
	if !ok {
		return wErr(r, "not an integer")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNil(r)
	}
	p, ok := listIdx(i, len(e.L))
	if !ok {
		return wNil(r)
	}
	return wBulk(r, e.L[p])
}

func insertAt(l []string, p int, v string) []string {
	l = append(l, "")
	copy(l[p+1:], l[p:])
	l[p] = v
	return l
}

func mLInsert(m *Model, a []string, r Reply) string {
	if len(a) != 5 {
		return arity(r)
	}
	w := strings.ToLower(a[2])
	e, bad := m.list(a[1])
	if w != "before" && w != "after" {
		return wErr(r, "syntax")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	for i, x := range e.L {
		if x == a[3] {
			if w == "after" {
				i++
			}
			e.L = insertAt(e.L, i, a[4])
			return wInt(r, int64(len(e.L)))
		}
	}
	return wInt(r, -1)
}

func mLLen(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.list(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	return wInt(r, int64(len(e.L)))
}

func side(s string) (left, ok bool) {
	switch strings.ToLower(s) {
	case "left":
		return true, true
	case "right":
		return false, true
	}
	return false, false
}

func mLMove(m *Model, a []string, r Reply) string {
	if len(a) != 5 {
		return arity(r)
	}
	e, bad := m.list(a[1])
	sl, ok1 := side(a[3])
	dl, ok2 := side(a[4])
	if !ok1 || !ok2 {
		return wErr(r, "syntax")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNil(r)
	}
	d, dbad := m.list(a[2])
	if dbad {
		return wErr(r, wrongType)
	}
	var x string
	if sl {
		x = e.L[0]
		e.L = append([]string(nil), e.L[1:]...)
	} else {
		x = e.L[len(e.L)-1]
		e.L = append([]string(nil), e.L[:len(e.L)-1]...)
	}
	if d == nil {
		d = &Entry{T: 'l'}
		m.M[a[2]] = d
	}
	if dl {
		d.L = insertAt(d.L, 0, x)
	} else {
		d.L = append(d.L, x)
	}
	m.dropEmpty(a[1])
	return wBulk(r, x)
}

func mLPop(m *Model, a []string, r Reply) string { return m.pop(a, r, true) }
func mRPop(m *Model, a []string, r Reply) string { return m.pop(a, r, false) }

func (m *Model) pop(a []string, r Reply, left bool) string {
	if len(a) < 2 || len(a) > 3 {
		return arity(r)
	}
	e, bad := m.list(a[1])
	n := int64(1)
	if len(a) == 3 {
		var ok bool
		n, ok = pint(a[2], r)
		if !ok || n < 0 {
			return wErr(r, "bad count")
		}
		if n == 0 {
			return errOr(r, wNone(r))
		}
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		if len(a) == 3 {
			return wNone(r)
		}
		return wNil(r)
	}
	n = min(n, int64(len(e.L)))
	out := make([]string, 0, n)
	for i := int64(0); i < n; i++ {
		if left {
			out = append(out, e.L[0])
			e.L = e.L[1:]
		} else {
			out = append(out, e.L[len(e.L)-1])
			e.L = e.L[:len(e.L)-1]
		}
	}
	e.L = append([]string(nil), e.L...)
	m.dropEmpty(a[1])
	if len(a) == 3 {
		return wList(r, out)
	}
	return wBulk(r, out[0])
}

func mLPos(m *Model, a []string, r Reply) string {
	if len(a) < 3 || len(a)%2 != 1 {
		return arity(r)
	}
	e, bad := m.list(a[1])
	rank, count, maxlen := int64(1), int64(-1), int64(0)
	for i := 3; i < len(a); i += 2 {
		v, ok := pint(a[i+1], r)
		invalid := !ok
		switch strings.ToLower(a[i]) {
		case "rank":
			rank = v
			invalid = invalid || v == 0
			if v == math.MinInt64 && isErr(r) {
				return "" // Redis refuses it
			}
		case "count":
			count = v
			invalid = invalid || v < 0
		case "maxlen":
			maxlen = v
			invalid = invalid || v < 0
		default:
			invalid = true
		}
		if invalid {
			return wErr(r, "bad option")
		}
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNone(r)
	}
	var found []int64
	n := len(e.L)
	limit := int64(n)
	if maxlen > 0 {
		limit = min(limit, maxlen)
	}
	want := int64(1)
	if count >= 0 {
		want = count
		if count == 0 {
			want = int64(n)
		}
	}
	skip := uint64(0)
	if rank > 0 {
		skip = uint64(rank - 1)
	} else {
		skip = uint64(-(rank + 1))
	}
	for i := int64(0); i < limit && int64(len(found)) < want; i++ {
		p := i
		if rank < 0 {
			p = int64(n) - 1 - i
		}
		if e.L[p] == a[2] {
			if skip > 0 {
				skip--
				continue
			}
			found = append(found, p)
		}
	}
	if count < 0 {
		if len(found) == 0 {
			return wNil(r)
		}
		return wInt(r, found[0])
	}
	if len(found) == 0 {
		return wNone(r)
	}
	g, ok := arr(r)
	if !ok || len(g) != len(found) {
		return fmt.Sprintf("expected positions %v, got %s", found, r)
	}
	for i := range g {
		if g[i].Kind != ':' || g[i].Int != found[i] {
			return fmt.Sprintf("expected positions %v, got %s", found, r)
		}
	}
	return ""
}

func (m *Model) push(a []string, r Reply, left, must bool) string {
	if len(a) < 3 {
		return arity(r)
	}
	e, bad := m.list(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		if must {
			return wInt(r, 0)
		}
		e = &Entry{T: 'l'}
		m.M[a[1]] = e
	}
	if left {
		l := make([]string, 0, len(e.L)+len(a))
		for i := len(a) - 1; i >= 2; i-- {
			l = append(l, a[i])
		}
		e.L = append(l, e.L...)
	} else {
		e.L = append(e.L, a[2:]...)
	}
	return wInt(r, int64(len(e.L)))
}

func mLPush(m *Model, a []string, r Reply) string  { return m.push(a, r, true, false) }
func mRPush(m *Model, a []string, r Reply) string  { return m.push(a, r, false, false) }
func mLPushX(m *Model, a []string, r Reply) string { return m.push(a, r, true, true) }
func mRPushX(m *Model, a []string, r Reply) string { return m.push(a, r, false, true) }

func mLRange(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	s, ok1 := pint(a[2], r)
	t, ok2 := pint(a[3], r)
	e, bad := m.list(a[1])
	if !ok1 || !ok2 {
		return wErr(r, "not an integer")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNone(r)
	}
	i, j := listRange(s, t, len(e.L))
	return wList(r, e.L[i:j])
}

func mLRem(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	c, ok := pint(a[2], r)
	e, bad := m.list(a[1])
	if !ok {
		return wErr(r, "not an integer")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	if c == math.MinInt64 {
		c++
	}
	lim := abs64(c)
	if c == 0 {
		lim = int64(len(e.L))
	}
	drop := make([]bool, len(e.L))
	n := int64(0)
	for i := 0; i < len(e.L) && n < lim; i++ {
		p := i
		if c < 0 {
			p = len(e.L) - 1 - i
		}
		if e.L[p] == a[3] {
			drop[p] = true
			n++
		}
	}
	var l []string
	for i, x := range e.L {
		if !drop[i] {
			l = append(l, x)
		}
	}
	e.L = l
	m.dropEmpty(a[1])
	return wInt(r, n)
}

func mLSet(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	i, ok := pint(a[2], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	e, bad := m.list(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wErr(r, "no such key")
	}
	p, ok := listIdx(i, len(e.L))
	if !ok {
		return wErr(r, "index out of range")
	}
	e.L[p] = a[3]
	return wOK(r)
}

func mLTrim(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	s, ok1 := pint(a[2], r)
	t, ok2 := pint(a[3], r)
	e, bad := m.list(a[1])
	if !ok1 || !ok2 {
		return wErr(r, "not an integer")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wOK(r)
	}
	i, j := listRange(s, t, len(e.L))
	e.L = append([]string(nil), e.L[i:j]...)
	m.dropEmpty(a[1])
	return wOK(r)
}

// ---- hashes ----------------------------------------------------------------

func (m *Model) hash(k string) (e *Entry, bad bool) {
	e = m.get(k)
	return e, e != nil && e.T != 'h'
}

func (m *Model) hashOrNew(k string) *Entry {
	e := m.get(k)
	if e == nil {
		e = &Entry{T: 'h', H: map[string]string{}}
		m.M[k] = e
	}
	return e
}

func mHDel(m *Model, a []string, r Reply) string {
	if len(a) < 3 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	n := int64(0)
	for _, f := range a[2:] {
		if _, ok := e.H[f]; ok {
			delete(e.H, f)
			n++
		}
	}
	m.dropEmpty(a[1])
	return wInt(r, n)
}

func mHExists(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e != nil {
		if _, ok := e.H[a[2]]; ok {
			return wInt(r, 1)
		}
	}
	return wInt(r, 0)
}

func mHGet(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e != nil {
		if v, ok := e.H[a[2]]; ok {
			return wBulk(r, v)
		}
	}
	return wNil(r)
}

func mHGetAll(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNone(r)
	}
	got, w := bulks(r)
	if w != "" {
		return w
	}
	if len(got) != 2*len(e.H) {
		return fmt.Sprintf("expected %d fields and values, got %d: %s", 2*len(e.H), len(got), r)
	}
	seen := map[string]bool{}
	for i := 0; i < len(got); i += 2 {
		v, ok := e.H[got[i]]
		if !ok || seen[got[i]] || v != got[i+1] {
			return fmt.Sprintf("pair %q=%q is wrong (have %v %q)", clip(got[i], 40), clip(got[i+1], 40), ok, clip(v, 40))
		}
		seen[got[i]] = true
	}
	return ""
}

func mHIncrBy(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	by, ok := pint(a[3], r)
	if !ok {
		return wErr(r, "not an integer")
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	cur := int64(0)
	if e != nil {
		if v, has := e.H[a[2]]; has {
			if cur, ok = pint(v, r); !ok {
				return wErr(r, "field is not an integer")
			}
		}
	}
	n, ok := addOv(cur, by)
	if !ok {
		return wErr(r, "overflow")
	}
	m.hashOrNew(a[1]).H[a[2]] = strconv.FormatInt(n, 10)
	return wInt(r, n)
}

func mHIncrByFloat(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	by, ok := pfloat(a[3])
	if !ok {
		return wErr(r, "not a float")
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	cur := 0.0
	if e != nil {
		if v, has := e.H[a[2]]; has {
			if cur, ok = pfloat(v); !ok {
				return wErr(r, "field is not a float")
			}
		}
	}
	f := cur + by
	if math.IsInf(f, 0) {
		return wErr(r, "result is not finite")
	}
	if w := floatReply(r, cur, by); w != "" {
		return w
	}
	m.hashOrNew(a[1]).H[a[2]] = r.Str
	return ""
}

func mHKeys(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNone(r)
	}
	return wMultiset(r, sortedKeys(e.H))
}

func mHVals(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNone(r)
	}
	var vs []string
	for _, v := range e.H {
		vs = append(vs, v)
	}
	return wMultiset(r, vs)
}

func mHLen(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	return wInt(r, int64(len(e.H)))
}

func mHMGet(m *Model, a []string, r Reply) string {
	if len(a) < 3 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if r.Kind != '*' || len(r.Arr) != len(a)-2 {
		return fmt.Sprintf("expected an array of %d, got %s", len(a)-2, r)
	}
	for i, f := range a[2:] {
		w := ""
		if e == nil {
			w = wNil(r.Arr[i])
		} else if v, ok := e.H[f]; ok {
			w = wBulk(r.Arr[i], v)
		} else {
			w = wNil(r.Arr[i])
		}
		if w != "" {
			return fmt.Sprintf("element %d: %s", i, w)
		}
	}
	return ""
}

func (m *Model) hset(a []string, r Reply) (int64, string, bool) {
	if len(a) < 4 || len(a)%2 != 0 {
		return 0, arity(r), false
	}
	_, bad := m.hash(a[1])
	if bad {
		return 0, wErr(r, wrongType), false
	}
	e := m.hashOrNew(a[1])
	n := int64(0)
	for i := 2; i < len(a); i += 2 {
		if _, ok := e.H[a[i]]; !ok {
			n++
		}
		e.H[a[i]] = a[i+1]
	}
	return n, "", true
}

func mHSet(m *Model, a []string, r Reply) string {
	n, w, ok := m.hset(a, r)
	if !ok {
		return w
	}
	return wInt(r, n)
}

func mHMSet(m *Model, a []string, r Reply) string {
	_, w, ok := m.hset(a, r)
	if !ok {
		return w
	}
	return wOK(r)
}

func mHSetNx(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e != nil {
		if _, ok := e.H[a[2]]; ok {
			return wInt(r, 0)
		}
	}
	m.hashOrNew(a[1]).H[a[2]] = a[3]
	return wInt(r, 1)
}

func mHStrLen(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	return wInt(r, int64(len(e.H[a[2]])))
}

// randPick validates a random selection without removal.
func randPick(h map[string]string, r Reply, n int64, values bool) string {
	got, w := bulks(r)
	if w != "" {
		return w
	}
	step := 1
	if values {
		step = 2
	}
	want := n
	if n > 0 {
		want = min(n, int64(len(h)))
	} else {
		want = -n
	}
	if int64(len(got)) != want*int64(step) {
		return fmt.Sprintf("expected %d elements, got %d: %s", want*int64(step), len(got), r)
	}
	seen := map[string]bool{}
	for i := 0; i < len(got); i += step {
		v, ok := h[got[i]]
		if !ok {
			return fmt.Sprintf("picked %q, which is not there", clip(got[i], 60))
		}
		if values && got[i+1] != v {
			return fmt.Sprintf("picked %q with value %q instead of %q", clip(got[i], 40), clip(got[i+1], 40), clip(v, 40))
		}
		if n > 0 && seen[got[i]] {
			return fmt.Sprintf("picked %q twice for a positive count", clip(got[i], 60))
		}
		seen[got[i]] = true
	}
	return ""
}

func mHRandField(m *Model, a []string, r Reply) string {
	if len(a) < 2 || len(a) > 4 {
		return arity(r)
	}
	e, bad := m.hash(a[1])
	n, ok := int64(1), true
	if len(a) > 2 {
		n, ok = pint(a[2], r)
	}
	if !ok || len(a) == 4 && strings.ToLower(a[3]) != "withvalues" {
		return wErr(r, "bad argument")
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		if len(a) == 2 {
			return wNil(r)
		}
		return wNone(r)
	}
	if len(a) == 2 {
		if r.Kind != '$' || r.Null {
			return "expected a field, got " + r.String()
		}
		if _, ok := e.H[r.Str]; !ok {
			return fmt.Sprintf("picked %q, which is not a field", clip(r.Str, 60))
		}
		return ""
	}
	if n != 0 && r.Kind != '*' {
		return "expected an array, got " + r.String()
	}
	return randPick(e.H, r, n, len(a) == 4)
}

// ---- sets ------------------------------------------------------------------

func (m *Model) set(k string) (e *Entry, bad bool) {
	e = m.get(k)
	return e, e != nil && e.T != 'z'
}

func mSAdd(m *Model, a []string, r Reply) string {
	if len(a) < 3 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		e = &Entry{T: 'z', H: map[string]string{}}
		m.M[a[1]] = e
	}
	n := int64(0)
	for _, x := range a[2:] {
		if _, ok := e.H[x]; !ok {
			e.H[x] = ""
			n++
		}
	}
	return wInt(r, n)
}

func mSRem(m *Model, a []string, r Reply) string {
	if len(a) < 3 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	n := int64(0)
	for _, x := range a[2:] {
		if _, ok := e.H[x]; ok {
			delete(e.H, x)
			n++
		}
	}
	m.dropEmpty(a[1])
	return wInt(r, n)
}

func mSCard(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	return wInt(r, int64(len(e.H)))
}

func mSIsMember(m *Model, a []string, r Reply) string {
	if len(a) != 3 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e != nil {
		if _, ok := e.H[a[2]]; ok {
			return wInt(r, 1)
		}
	}
	return wInt(r, 0)
}

func mSMembers(m *Model, a []string, r Reply) string {
	if len(a) != 2 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wNone(r)
	}
	return wMultiset(r, sortedKeys(e.H))
}

func mSMove(m *Model, a []string, r Reply) string {
	if len(a) != 4 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		return wInt(r, 0)
	}
	d, dbad := m.set(a[2])
	if dbad {
		return wErr(r, wrongType)
	}
	if _, ok := e.H[a[3]]; !ok {
		return wInt(r, 0)
	}
	if a[1] != a[2] {
		delete(e.H, a[3])
		m.dropEmpty(a[1])
		if d == nil {
			d = &Entry{T: 'z', H: map[string]string{}}
			m.M[a[2]] = d
		}
		d.H[a[3]] = ""
	}
	return wInt(r, 1)
}

func mSPop(m *Model, a []string, r Reply) string {
	if len(a) != 2 && len(a) != 3 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	n := int64(1)
	if len(a) == 3 {
		var ok bool
		n, ok = pint(a[2], r)
		if !ok || n < 0 {
			return wErr(r, "bad count")
		}
		if n == 0 {
			return errOr(r, wNone(r))
		}
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		if len(a) == 2 {
			return wNil(r)
		}
		return wNone(r)
	}
	var got []string
	if len(a) == 2 {
		if r.Kind != '$' || r.Null {
			return "expected a member, got " + r.String()
		}
		got = []string{r.Str}
	} else {
		if r.Kind != '*' {
			return "expected an array, got " + r.String()
		}
		var w string
		if got, w = bulks(r); w != "" {
			return w
		}
		if int64(len(got)) != min(n, int64(len(e.H))) {
			return fmt.Sprintf("expected %d members, got %d", min(n, int64(len(e.H))), len(got))
		}
	}
	for _, x := range got {
		if _, ok := e.H[x]; !ok {
			return fmt.Sprintf("popped %q, which is not (or no longer) a member", clip(x, 60))
		}
		delete(e.H, x)
	}
	m.dropEmpty(a[1])
	return ""
}

func mSRandMember(m *Model, a []string, r Reply) string {
	if len(a) != 2 && len(a) != 3 {
		return arity(r)
	}
	e, bad := m.set(a[1])
	n, ok := int64(1), true
	if len(a) == 3 {
		n, ok = pint(a[2], r)
		if !ok {
			return wErr(r, "not an integer")
		}
		if n == 0 {
			if bad {
				return wErr(r, wrongType)
			}
			return wNone(r)
		}
	}
	if bad {
		return wErr(r, wrongType)
	}
	if e == nil {
		if len(a) == 2 {
			return wNil(r)
		}
		return wNone(r)
	}
	if len(a) == 2 {
		if r.Kind != '$' || r.Null {
			return "expected a member, got " + r.String()
		}
		if _, ok := e.H[r.Str]; !ok {
			return fmt.Sprintf("picked %q, which is not a member", clip(r.Str, 60))
		}
		return ""
	}
	if r.Kind != '*' {
		return "expected an array, got " + r.String()
	}
	return randPick(e.H, r, n, false)
}

func (m *Model) algebra(op byte, keys []string) (map[string]string, bool) {
	var res map[string]string
	bad := false
	for i, k := range keys {
		e, b := m.set(k)
		bad = bad || b
		var h map[string]string
		if e != nil && !b {
			h = e.H
		}
		if i == 0 {
			res = map[string]string{}
			for x := range h {
				res[x] = ""
			}
			continue
		}
		switch op {
		case 'u':
			for x := range h {
				res[x] = ""
			}
		case 'i':
			for x := range res {
				if _, ok := h[x]; !ok {
					delete(res, x)
				}
			}
		case 'd':
			for x := range h {
				delete(res, x)
			}
		}
	}
	return res, bad
}

func (m *Model) setOp(op byte, a []string, r Reply) string {
	if len(a) < 2 {
		return arity(r)
	}
	res, bad := m.algebra(op, a[1:])
	if bad {
		return wErr(r, wrongType)
	}
	return wMultiset(r, sortedKeys(res))
}

func (m *Model) setOpStore(op byte, a []string, r Reply) string {
	if len(a) < 3 {
		return arity(r)
	}
	res, bad := m.algebra(op, a[2:])
	if bad {
		return wErr(r, wrongType)
	}
	delete(m.M, a[1])
	if len(res) > 0 {
		m.M[a[1]] = &Entry{T: 'z', H: res}
	}
	return wInt(r, int64(len(res)))
}

func mSUnion(m *Model, a []string, r Reply) string      { return m.setOp('u', a, r) }
func mSInter(m *Model, a []string, r Reply) string      { return m.setOp('i', a, r) }
func mSDiff(m *Model, a []string, r Reply) string       { return m.setOp('d', a, r) }
func mSUnionStore(m *Model, a []string, r Reply) string { return m.setOpStore('u', a, r) }
func mSInterStore(m *Model, a []string, r Reply) string { return m.setOpStore('i', a, r) }
func mSDiffStore(m *Model, a []string, r Reply) string  { return m.setOpStore('d', a, r) }

// ---- glob ------------------------------------------------------------------

type globTok struct {
	kind byte // 'c' one of set, '*' any run
	set  [256]bool
}

// globParse accepts the patterns the KEYS property pins down exactly: literal
// bytes, ?, *, and brackets of plain bytes and ascending ranges, optionally
// negated. Anything else (unclosed brackets, escapes, odd bracket contents) is
// reported as not well-formed.
func globParse(p string) ([]globTok, bool) {
	var out []globTok
	for i := 0; i < len(p); i++ {
		var t globTok
		switch p[i] {
		case '\\', ']':
			return nil, false
		case '*':
			t.kind = '*'
		case '?':
			t.kind = 'c'
			for j := range t.set {
				t.set[j] = true
			}
		case '[':
			t.kind = 'c'
			i++
			neg := false
			if i < len(p) && p[i] == '^' {
				neg = true
				i++
			}
			n := 0
			closed := false
			for i < len(p) {
				c := p[i]
				if c == ']' {
					closed = true
					break
				}
				if c == '[' || c == '\\' || c == '^' || c == '-' {
					return nil, false
				}
				if i+1 < len(p) && p[i+1] == '-' {
					if i+2 >= len(p) {
						return nil, false
					}
					d := p[i+2]
					if d == ']' || d == '[' || d == '\\' || d == '^' || d == '-' || d < c {
						return nil, false
					}
					for x := int(c); x <= int(d); x++ {
						t.set[x] = true
					}
					i += 3
					n++
					continue
				}
				t.set[c] = true
				i++
				n++
			}
			if !closed || n == 0 {
				return nil, false
			}
			if neg {
				for j := range t.set {
					t.set[j] = !t.set[j]
				}
			}
		default:
			t.kind = 'c'
			t.set[p[i]] = true
		}
		out = append(out, t)
	}
	return out, true
}

func globMatch(t []globTok, s string) bool {
	// dynamic programming over the pattern
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for _, k := range t {
		next := make([]bool, len(s)+1)
		if k.kind == '*' {
			on := false
			for i := 0; i <= len(s); i++ {
				on = on || cur[i]
				next[i] = on
			}
		} else {
			for i := 0; i < len(s); i++ {
				if cur[i] && k.set[s[i]] {
					next[i+1] = true
				}
			}
		}
		cur = next
	}
	return cur[len(s)]
}
