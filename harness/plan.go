package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

// walk is a path through the state graph of a design model (KV, LinHash),
// performed here on real dictionaries.
type walk struct {
	ID    string  `json:"id"`
	Model string  `json:"model"`
	API   string  `json:"api"`
	K     int     `json:"K"`
	V     int     `json:"V"`
	Hash  []int   `json:"hash"`
	Bits  int     `json:"bits"`
	Steps [][]any `json:"steps"`
}

// planOpts says how the walks of a model are performed and observed.
type planOpts struct {
	profs int // size profiles per walk
	stat  int // statistics every so many steps
	snap  int // file decoded, dictionary reopened
	reap  bool
	keep  int
	every int // all of it read back every so many steps
}

func plans() (ws []walk) {
	f, err := os.Open(planFile)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var w walk
		if err := json.Unmarshal(sc.Bytes(), &w); err != nil {
			die("plan: %v", err)
		}
		ws = append(ws, w)
	}
	if err := sc.Err(); err != nil {
		die("plan: %v", err)
	}
	return
}

var (
	planKeyProfs = []string{"short", "nest", "limit", "shared", "bytes", "limit24", "huge", "coll"}
	planValSizes = [][]int{{2, 3}, {120, 121}, {128, 129}, {129, 130}, {7, 400}, {70000, 4096}, {1, 130}, {127, 128}, {16383, 16384}}
)

// planKeys makes k keys in ascending order, of a kind that matters somewhere.
func planKeys(r *Rng, prof string, k int) (ks [][]byte) {
	rep := func(c byte, n int) []byte { return bytes.Repeat([]byte{c}, n) }
	seen := map[string]bool{}
	for i := 0; len(ks) < k; i++ {
		var b []byte
		switch prof {
		case "short":
			b = []byte(fmt.Sprintf("k%02d", r.N(100)))
		case "nest": // from the empty key on, each the beginning of the next
			b = rep('n', i)
		case "limit": // at the limit between inline and overflow
			b = append(rep('l', 247), rep(byte('a'+r.N(26)), 1+r.N(3)+8*r.N(2))...)
		case "shared": // overflow, the inline part shared
			b = append(rep('s', 249), rep(byte('a'+r.N(26)), 8+r.N(120))...)
		case "bytes":
			b = [][]byte{{}, {0}, {0, 0}, {0xff}, {0xff, 0xff}, {0x7f}, {0x80}, {0xff, 0}, {1}}[r.N(9)]
		case "limit24":
			b = append(rep('w', 21), rep(byte('a'+r.N(26)), 2+r.N(3))...)
		case "huge":
			b = append(rep('h', []int{1, 300, 5000, 65527}[r.N(4)]), byte('a'+r.N(26)))
		case "coll": // all of the same hash sum, some of the same length
			if b = append([]byte(zeroSum), make([]byte, r.N(28))...); k == 2 {
				b = append([]byte(sameSum[0][i&1]), "12345"...)
			}
		default:
			die("plan key profile %s", prof)
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			ks = append(ks, b)
		}
		if i > 10000 {
			die("plan keys %s %d", prof, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i], ks[j]) < 0 })
	return
}

// hashKeys makes keys whose hashes end in the given bits; code[i] is the
// number the i-th of them has in byte order.
func hashKeys(r *Rng, hash []int, bits int) (ks [][]byte, code []int) {
	mask := uint64(1)<<bits - 1
	seen := map[string]bool{}
	var raw [][]byte
	other := map[int][]byte{} // a key with the same hash sum as one there is
	for _, h := range hash {
		if b := other[h]; b != nil {
			delete(other, h)
			seen[string(b)] = true
			raw = append(raw, b)
			continue
		}
		for {
			if p := sameSum[r.N(len(sameSum))]; r.P(30) {
				b := make([]byte, 1+r.N(12))
				for i := range b {
					b[i] = byte(r.U64())
				}
				b1, b2 := append([]byte(p[0]), b...), append([]byte(p[1]), b...)
				if fnv1a(b1)&mask == uint64(h)&mask && !seen[string(b1)] {
					seen[string(b1)] = true
					raw = append(raw, b1)
					other[h] = b2
					break
				}
				continue
			}
			n := []int{r.N(10), 20 + r.N(9), 30 + r.N(300)}[r.N(3)]
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.U64())
			}
			if fnv1a(b)&mask == uint64(h)&mask && !seen[string(b)] {
				seen[string(b)] = true
				raw = append(raw, b)
				break
			}
		}
	}
	idx := make([]int, len(raw))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return bytes.Compare(raw[idx[i]], raw[idx[j]]) < 0 })
	code = make([]int, len(raw))
	for p, i := range idx {
		ks = append(ks, raw[i])
		code[i] = p + 1
	}
	return
}

func (s *suite) plan(model, api string, o planOpts) {
	if o.profs == 0 {
		o.profs = 1
	}
	for i, w := range plans() {
		if w.Model != model || w.API != api && w.API != "" {
			continue
		}
		for j := 0; j < o.profs; j++ {
			w, i, j := w, i, j
			s.add(fmt.Sprintf("plan/%s-%s-%d", w.ID, api, j), len(w.Steps), func(t *T) {
				// every walk with other sizes in every run of the thorough tier
				if len(w.Hash) > 0 {
					ks, code := hashKeys(t.rng, w.Hash, w.Bits)
					t.setKeys(ks)
					t.walk(w, api, o, code, planValSizes[(i+3*j)%len(planValSizes)])
					return
				}
				n := i*o.profs + j
				t.withB = model == "Iter"
				t.setKeys(planKeys(t.rng, planKeyProfs[n%len(planKeyProfs)], w.K))
				sizes := planValSizes[(n+n/len(planKeyProfs))%len(planValSizes)]
				if model == "Shared" {
					t.sharedWalk(w, sizes)
					return
				}
				if model == "Iter" {
					t.iterWalk(w, api, sizes)
					return
				}
				t.walk(w, api, o, nil, sizes)
			})
		}
	}
}

func (t *T) walk(p walk, api string, o planOpts, code []int, sizes []int) {
	if o.keep > 0 {
		t.scrib = true
	}
	in := t.newInst(api, "x.db")
	w := newW(t, in, "", obs{reap: o.reap})
	num := func(x any) int { return int(x.(float64)) }
	vals := []int{0}
	for i := 0; i < p.V; i++ {
		n := sizes[i%len(sizes)]
		if i >= len(sizes) {
			n += i
		}
		vals = append(vals, t.newVal(n))
	}
	key := func(x any) int {
		if code != nil {
			return code[num(x)-1]
		}
		return num(x)
	}
	var cur *scanner
	for i, st := range p.Steps {
		switch q := st[0].(string); q {
		case "open":
			t.open(in, num(st[1]) == 1)
		case "close":
			t.close(in)
		case "rng":
			t.rangeAll(in, st[1].(string), num(st[2]), num(st[3]))
		case "scan":
			t.scanAll(in)
		case "cur":
			cur = t.newCursor(in, 1)
		case "sc":
			if cur != nil && cur.on {
				t.scanStep(in, cur)
			}
		default: // a point operation: key, value, old value wanted
			v := 0
			if len(st) > 3 {
				v = vals[num(st[2])]
			} else if p.V == 0 && q != "clr" && q != "tst" {
				v = t.newVal(sizes[t.rng.N(len(sizes))])
			}
			r := t.rng.Bool()
			if len(st) > 3 {
				r = num(st[3]) == 1
			}
			t.one(in, q, key(st[1]), v, r)
		}
		if !in.open {
			continue
		}
		// only observations from here on; a cursor survives them
		if o.stat > 0 && i%o.stat == 0 {
			t.stats(in)
		}
		if o.every > 0 && i%o.every == 0 {
			w.all()
		}
		if o.keep > 0 && i%o.keep == o.keep-1 {
			t.recheck()
		}
		if o.snap > 0 && (cur == nil || !cur.on) && t.rng.N(o.snap) == 0 {
			w.snap()
		}
	}
	if in.open {
		w.all()
		t.recheck()
		if o.snap > 0 {
			w.snap()
		}
		t.close(in)
	}
}

// iterWalk performs a walk through Iter.
func (t *T) iterWalk(p walk, api string, sizes []int) {
	in := t.newInst(api, "x.db")
	t.mustOpen(in, true)
	num := func(x any) int { return int(x.(float64)) }
	var its [9]*iter
	// piece boundaries of n bytes: in the middle, at the ends, or where the
	// part outside the page begins
	bounds := func(n, edge int) []int {
		b := []int{0}
		for i := 1; i < p.V; i++ {
			b = append(b, []int{min(edge, n), n / 2, min(1, n), max(n-1, 0), min(edge-1, n), min(edge+1, n)}[t.rng.N(6)])
		}
		b = append(b, n, n+1+t.rng.N(300))
		sort.Ints(b)
		return b
	}
	for _, st := range p.Steps {
		switch q := st[0].(string); q {
		case "set":
			t.one(in, "set", num(st[1]), t.newVal(sizes[t.rng.N(len(sizes))]), false)
		case "clr":
			t.one(in, "clr", num(st[1]), 0, false)
		case "start":
			its[num(st[1])] = t.newIter(in, st[2].(string), num(st[3]), num(st[4]))
		case "done":
			for i, x := range its {
				if x != nil {
					x.done()
					its[i] = nil
				}
			}
		case "adv":
			its[num(st[1])].adv()
		case "end":
			its[num(st[1])].end()
		case "ksz", "vsz":
			its[num(st[1])].size(q)
		case "ka", "va", "ra":
			its[num(st[1])].whole(q)
		case "rk", "rv":
			x := its[num(st[1])]
			ks, vs := x.sizes()
			b := bounds(ks, 249)
			if q == "rv" {
				b = bounds(vs, 121)
			}
			o, e := num(st[2]), num(st[2])+num(st[3])
			n := 3 * num(st[3]) // behind the end
			if e <= p.V {
				n = b[e] - b[o]
			} else if o <= p.V {
				n = b[p.V] - b[o] + t.rng.N(20)
			}
			at := b[o]
			if o > p.V && t.rng.P(30) {
				at = t.farOff()
			}
			x.part(q, at, n)
		}
	}
	for _, x := range its {
		if x != nil {
			x.done()
		}
	}
	t.close(in)
}

// sharedWalk performs a walk through Shared.
func (t *T) sharedWalk(p walk, sizes []int) {
	st := t.newStore("s.db")
	st.reap = true
	for _, a := range strings.Split(p.API, "+") {
		w := newW(t, st.add(a), "any", obs{})
		w.st = st
		st.ws = append(st.ws, w)
	}
	num := func(x any) int { return int(x.(float64)) }
	vals := []int{0}
	for i := 0; i < p.V; i++ {
		vals = append(vals, t.newVal(sizes[i%len(sizes)]))
	}
	for _, x := range p.Steps {
		q := x[0].(string)
		if q == "cycle" {
			st.reopen()
			continue
		}
		w := st.ws[num(x[1])-1]
		switch q {
		case "create", "store", "load", "destroy":
			st.life(w.in, q)
		case "all":
			w.all()
			t.stats(w.in)
		default:
			v := vals[num(x[3])]
			if p.V == 0 && q != "clr" && q != "tst" {
				v = t.newVal(sizes[t.rng.N(len(sizes))])
			}
			t.one(w.in, q, num(x[2]), v, num(x[4]) == 1)
		}
	}
	for _, w := range st.ws {
		if !w.in.open && w.in.info >= 0 {
			st.life(w.in, "load")
		}
	}
	st.cycle(true)
	for _, w := range st.ws {
		for k := 1; w.in.open && k <= t.K(); k++ {
			t.one(w.in, "clr", k, 0, true)
		}
	}
	st.finish()
}
