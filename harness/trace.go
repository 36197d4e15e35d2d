package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- json

type jb struct{ b []byte }

func ev(kind string) *jb {
	j := &jb{b: make([]byte, 0, 128)}
	j.b = append(j.b, `{"e":"`...)
	j.b = append(j.b, kind...)
	j.b = append(j.b, '"')
	return j
}
func (j *jb) key(k string) {
	j.b = append(j.b, ',', '"')
	j.b = append(j.b, k...)
	j.b = append(j.b, '"', ':')
}
func (j *jb) i(k string, v int) *jb {
	if v > 2147483647 || v < -2147483648 {
		// TLC integers are 32 bits; no property below relies on a clipped number
		if v > 0 {
			v = 2147483647
		} else {
			v = -2147483648
		}
	}
	j.key(k)
	j.b = strconv.AppendInt(j.b, int64(v), 10)
	return j
}
func (j *jb) t(k string, v bool) *jb {
	j.key(k)
	j.b = strconv.AppendBool(j.b, v)
	return j
}
func (j *jb) s(k string, v string) *jb {
	j.key(k)
	j.b = append(j.b, jsonStr(v)...)
	return j
}
func (j *jb) a(k string, v []int) *jb {
	j.key(k)
	j.b = appendInts(j.b, v)
	return j
}
func (j *jb) raw(k string, v []byte) *jb {
	j.key(k)
	j.b = append(j.b, v...)
	return j
}
func (j *jb) bytes(k string, v []byte) *jb {
	j.key(k)
	j.b = appendByteArr(j.b, v)
	return j
}
func (j *jb) done() []byte { return append(j.b, '}') }

func appendByteArr(b []byte, v []byte) []byte {
	b = append(b, '[')
	for i, x := range v {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(x), 10)
	}
	return append(b, ']')
}

func appendInts(b []byte, v []int) []byte {
	b = append(b, '[')
	for i, x := range v {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(x), 10)
	}
	return append(b, ']')
}

func jsonStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 32 || r > 126:
			sb.WriteByte('?')
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// ---------------------------------------------------------------- traces

const (
	absent  = -1 // no value for the key
	unknown = -2 // bytes that no operation of this trace ever stored
)

// T is one trace: a history of operations on real dictionaries.
type T struct {
	id      string
	dir     string // scratch directory, removed afterwards
	rng     *Rng
	keys    [][]byte
	keyID   map[string]int
	vals    [][]byte
	valID   map[string]int
	withB   bool // put the key and value bytes in the header
	extra   map[string]int
	scrib   bool // overwrite argument and result buffers after every call
	events  [][]byte
	dead    bool
	nOps    int
	lastOp  string
	between func() // what others do in the middle of a range
	lane    bool   // other traces are being recorded at the same time
	tries   []retained
	inst    []*inst
	started time.Time
}

// retained is a slice a call returned, kept to be looked at again later.
type retained struct {
	b   []byte
	vid int
}

type traceAbort struct{}

var (
	outMu     sync.Mutex
	outW      *bufio.Writer
	curT      atomic.Pointer[T]
	opStart   atomic.Int64 // unix nanoseconds, 0 = idle
	opTimeout = 60 * time.Second
	memLimit  = int64(5) << 30
	traceCnt  int
)

func (t *T) emit(b []byte) { t.events = append(t.events, b) }

func (t *T) val(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	if id, ok := t.valID[string(b)]; ok {
		return id
	}
	t.vals = append(t.vals, append([]byte(nil), b...))
	id := len(t.vals)
	t.valID[string(b)] = id
	return id
}

func (t *T) lookVal(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	if id, ok := t.valID[string(b)]; ok {
		return id
	}
	return unknown
}

func (t *T) lookKey(b []byte) int { // 0 = not one of the keys of this trace
	return t.keyID[string(b)]
}

func (t *T) setKeys(keys [][]byte) {
	t.keys = keys
	t.keyID = make(map[string]int, len(keys))
	for i, k := range keys {
		t.keyID[string(k)] = i + 1
	}
}

func (t *T) K() int { return len(t.keys) }

func (t *T) header() []byte {
	h := ev("hdr").s("id", t.id).i("K", len(t.keys)).i("nd", len(t.inst))
	kd := []byte{'['}
	for i, in := range t.inst {
		if i > 0 {
			kd = append(kd, ',')
		}
		if in.ordered() {
			kd = append(kd, `"od"`...)
		} else {
			kd = append(kd, `"dict"`...)
		}
	}
	h.raw("kd", append(kd, ']'))
	ks := make([]int, len(t.keys))
	hs := make([]int, len(t.keys))
	for i, k := range t.keys {
		ks[i] = len(k)
		hs[i] = int(fnv1a(k) & (1<<24 - 1))
	}
	vs := make([]int, len(t.vals))
	for i, v := range t.vals {
		vs[i] = len(v)
	}
	h.a("ks", ks).a("h", hs).a("vs", vs)
	if t.withB {
		var kb, vb []byte
		kb = append(kb, '[')
		for i, k := range t.keys {
			if i > 0 {
				kb = append(kb, ',')
			}
			kb = appendByteArr(kb, k)
		}
		kb = append(kb, ']')
		vb = append(vb, '[')
		for i, k := range t.vals {
			if i > 0 {
				vb = append(vb, ',')
			}
			vb = appendByteArr(vb, k)
		}
		vb = append(vb, ']')
		h.raw("kb", kb).raw("vb", vb)
	}
	for k, v := range t.extra {
		h.i(k, v)
	}
	return h.done()
}

func (t *T) write() {
	outMu.Lock()
	defer outMu.Unlock()
	outW.Write(t.header())
	outW.WriteByte('\n')
	for _, e := range t.events {
		outW.Write(e)
		outW.WriteByte('\n')
	}
	traceCnt++
}

// guard runs one call into the code under test.
func (t *T) guard(what string, f func()) {
	t.lastOp = what
	if !t.lane {
		opStart.Store(time.Now().UnixNano())
	}
	defer func() {
		if !t.lane {
			opStart.Store(0)
		}
		if e := recover(); e != nil {
			if _, ok := e.(traceAbort); ok {
				panic(e)
			}
			st := string(debug.Stack())
			t.emit(ev("panic").s("op", what).s("msg", fmt.Sprint(e)).s("at", panicSite(st)).done())
			t.dead = true
			panic(traceAbort{})
		}
	}()
	f()
}

// panicSite names the frames of the code under test, for the report only.
func panicSite(st string) string {
	var fr []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, ".go:") && !strings.Contains(l, "/harness/") && !strings.Contains(l, "runtime/") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			fr = append(fr, filepath.Base(filepath.Dir(l))+"/"+filepath.Base(l))
			if len(fr) == 4 {
				break
			}
		}
	}
	return strings.Join(fr, " < ")
}

func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		s := opStart.Load()
		if s == 0 {
			continue
		}
		el := time.Since(time.Unix(0, s))
		why := ""
		if el > opTimeout {
			why = fmt.Sprintf("no answer after %v", opTimeout)
		} else if el > 2*time.Second {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if int64(ms.HeapAlloc) > memLimit {
				why = "memory runs away"
			}
		}
		if why != "" {
			t := curT.Load()
			if t != nil {
				t.emit(ev("hang").s("op", t.lastOp).s("msg", why).done())
				t.write()
			}
			outW.Flush()
			os.RemoveAll(scratchRoot)
			os.Exit(0)
		}
	}
}

var scratchRoot string

// runTrace executes body as one trace and writes it out.
func runTrace(id string, seed uint64, body func(t *T)) {
	if onlyTrace != "" && onlyTrace != id && !strings.HasPrefix(onlyTrace, id+"~") {
		return
	}
	t := &T{id: id, rng: NewRng(seed), valID: map[string]int{}, extra: map[string]int{}, started: time.Now()}
	t.dir = filepath.Join(scratchRoot, strings.ReplaceAll(id, "/", "_"))
	if err := os.MkdirAll(t.dir, 0755); err != nil {
		die("mkdir: %v", err)
	}
	curT.Store(t)
	if verbose {
		fmt.Fprintf(os.Stderr, "START %s\n", id)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(traceAbort); !ok {
					panic(e)
				}
			}
		}()
		body(t)
	}()
	curT.Store(nil)
	t.closeAll()
	t.write()
	os.RemoveAll(t.dir)
	if verbose {
		fmt.Fprintf(os.Stderr, "%-40s events=%d ops=%d %v\n", id, len(t.events), t.nOps, time.Since(t.started).Round(time.Millisecond))
	}
}

// lanes records n traces at the same time, each in a goroutine of its own.
func (t *T) lanes(n int, body func(i int, t *T)) {
	var wg sync.WaitGroup
	start := make(chan bool)
	t.lastOp = "several at the same time"
	opStart.Store(time.Now().UnixNano())
	ts := make([]*T, n)
	for i := range ts {
		s := &T{id: fmt.Sprintf("%s~%d", t.id, i), rng: NewRng(t.rng.U64()), valID: map[string]int{}, extra: map[string]int{}, started: time.Now(), lane: true}
		s.dir = filepath.Join(t.dir, strconv.Itoa(i))
		if err := os.MkdirAll(s.dir, 0755); err != nil {
			die("mkdir: %v", err)
		}
		ts[i] = s
		wg.Add(1)
		go func() {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(traceAbort); !ok {
						panic(e)
					}
				}
			}()
			<-start
			body(i, s)
		}()
	}
	close(start)
	wg.Wait()
	opStart.Store(0)
	for _, s := range ts {
		s.closeAll()
		s.write()
		t.nOps += s.nOps
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	if scratchRoot != "" {
		os.RemoveAll(scratchRoot)
	}
	os.Exit(3)
}

// ---------------------------------------------------------------- misc

// Rng is splitmix64: the same stream on every Go version.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rng) Bool() bool           { return r.U64()&1 == 1 }
func (r *Rng) P(pct int) bool       { return r.N(100) < pct }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func fnv1a(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}
