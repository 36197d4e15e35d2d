package main

// obs says what a history is observed with besides its results.
type obs struct {
	rng   int // a range query every so many operations (0 = never)
	full  int // whole range / whole scan
	snap  int // close, decode the file, reopen
	reap  bool
	stat  int
	open  int    // close and reopen
	keep  int    // look again at results returned earlier
	sent  int    // a point operation on a sentinel key
	idle  int    // stats, refused and read-only operations, stats
	rmode string // "iter": ranges are read through iterators step by step
}

// W drives one dictionary.
type W struct {
	t    *T
	in   *inst
	has  []bool
	val  []int // the value last written to each key
	cnt  int
	vp   string
	o    obs
	i    int
	seps []int // keys that currently separate subtrees (from the last snapshot)
	cw   int
	itr  bool      // ranges are read step by step
	st   *store    // the storage shared with others, or nil
	tick func(int) // called after every step
}

func newW(t *T, in *inst, vp string, o obs) *W {
	return &W{t: t, in: in, has: make([]bool, t.K()+2), val: make([]int, t.K()+2), vp: vp, o: o, cw: t.K() / 2}
}

func (w *W) pick(present bool) int { // 0 if there is none
	K := w.t.K()
	if present && w.cnt == 0 || !present && w.cnt == K {
		return 0
	}
	for i := 0; i < 30; i++ {
		k := 1 + w.t.rng.N(K)
		if w.has[k] == present {
			return k
		}
	}
	s := w.t.rng.N(K)
	for i := 0; i < K; i++ {
		k := 1 + (s+i)%K
		if w.has[k] == present {
			return k
		}
	}
	return 0
}

func (w *W) ends(present, low bool) int {
	K := w.t.K()
	for i := 1; i <= K; i++ {
		k := i
		if !low {
			k = K + 1 - i
		}
		if w.has[k] == present {
			return k
		}
	}
	return 0
}

func (w *W) near(present bool, c, width int) int {
	K := w.t.K()
	for i := 0; i < 12; i++ {
		k := c + w.t.rng.N(2*width+1) - width
		if k >= 1 && k <= K && w.has[k] == present {
			return k
		}
	}
	return 0
}

func (w *W) mark(k int, b bool) {
	if w.has[k] != b {
		w.has[k] = b
		if b {
			w.cnt++
		} else {
			w.cnt--
		}
	}
}

func (w *W) put(k int) {
	if k == 0 {
		return
	}
	r := w.t.rng
	v := 0
	if r.P(10) && w.has[k] {
		v = w.t.kin(w.val[k])
	} else if r.P(3) {
		v = w.t.kin(w.val[1+r.N(w.t.K())])
	} else if r.P(4) && w.has[k] && w.val[k] > 0 { // what is there already
		v = w.val[k]
	} else {
		v = w.t.genVal(w.vp)
	}
	w.val[k] = v
	o := "set"
	if !w.has[k] && r.P(35) {
		o = "sin"
	} else if w.has[k] && r.P(35) {
		o = "sie"
	}
	w.t.one(w.in, o, k, v, r.P(60))
	w.mark(k, true)
}

func (w *W) del(k int) {
	if k == 0 {
		return
	}
	w.t.one(w.in, "clr", k, 0, w.t.rng.P(70))
	w.mark(k, false)
}

// misc: read-only and refused operations.
func (w *W) misc() {
	r := w.t.rng
	K := w.t.K()
	switch r.N(5) {
	case 0:
		w.t.one(w.in, "tst", 1+r.N(K), 0, r.P(80))
	case 1:
		if k := w.pick(false); k > 0 {
			w.t.one(w.in, "sie", k, w.t.genVal(w.vp), r.P(70))
		}
	case 2:
		if k := w.pick(true); k > 0 {
			v := w.val[k]
			if v <= 0 || r.P(80) {
				v = w.t.genVal(w.vp)
			}
			w.t.one(w.in, "sin", k, v, r.P(70))
		}
	case 3:
		if k := w.pick(false); k > 0 {
			w.t.one(w.in, "clr", k, 0, r.P(70))
		}
	case 4:
		if k := w.pick(r.P(70)); k > 0 {
			w.t.one(w.in, "tst", k, 0, true)
		}
	}
}

func (w *W) step(pat string) {
	r := w.t.rng
	K := w.t.K()
	switch pat {
	case "grow":
		switch {
		case r.P(82):
			w.put(w.pick(false))
		case r.P(60):
			w.put(w.pick(true))
		default:
			w.del(w.pick(true))
		}
	case "shrink":
		switch {
		case r.P(82):
			w.del(w.pick(true))
		case r.P(40):
			w.put(w.pick(true))
		default:
			w.put(w.pick(false))
		}
	case "mixed":
		if r.Bool() {
			w.put(1 + r.N(K))
		} else {
			w.del(w.pick(true))
		}
	case "asc":
		w.put(w.ends(false, true))
	case "desc":
		w.put(w.ends(false, false))
	case "dasc":
		w.del(w.ends(true, true))
	case "ddesc":
		w.del(w.ends(true, false))
	case "deque": // high end in, low end out
		if r.Bool() || w.cnt == 0 {
			k := w.ends(true, false) + 1 + r.N(3)
			if k > K {
				k = w.pick(false)
			}
			w.put(k)
		} else {
			w.del(w.ends(true, true))
		}
	case "qedeu": // low end in, high end out
		if r.Bool() || w.cnt == 0 {
			k := w.ends(true, true) - 1 - r.N(3)
			if k < 1 {
				k = w.pick(false)
			}
			w.put(k)
		} else {
			w.del(w.ends(true, false))
		}
	case "cgrow", "cshrink":
		if r.P(2) {
			w.cw = 1 + r.N(K)
		}
		wd := K/12 + 2
		pct := 85
		if pat == "cshrink" {
			pct = 15
		}
		if r.P(pct) {
			if k := w.near(false, w.cw, wd); k > 0 {
				w.put(k)
			} else {
				w.cw = 1 + r.N(K)
			}
		} else {
			if k := w.near(true, w.cw, wd); k > 0 {
				w.del(k)
			} else {
				w.cw = 1 + r.N(K)
			}
		}
	case "resize":
		w.put(w.pick(true))
	case "cresize":
		if r.P(3) {
			w.cw = 1 + r.N(K)
		}
		if k := w.near(true, w.cw, K/15+2); k > 0 {
			w.put(k)
		} else {
			w.cw = 1 + r.N(K)
		}
	case "seps": // remove and insert around the keys that separate subtrees
		if len(w.seps) == 0 {
			w.step("mixed")
			return
		}
		s := w.seps[r.N(len(w.seps))]
		switch r.N(4) {
		case 0, 1:
			if w.has[s] {
				w.del(s)
			} else {
				w.put(s)
			}
		case 2:
			if k := w.near(false, s, 2); k > 0 {
				w.put(k)
			}
		case 3:
			if k := w.near(true, s, 2); k > 0 {
				w.del(k)
			}
		}
	default:
		die("unknown pattern %s", pat)
	}
}

// run performs n steps of the pattern with the observations mixed in.
func (w *W) run(pat string, n int, vp string) {
	if vp != "" {
		w.vp = vp
	}
	for j := 0; j < n; j++ {
		w.i++
		w.step(pat)
		if w.t.rng.P(12) {
			w.misc()
		}
		w.observe()
		if w.tick != nil {
			w.tick(j)
		}
	}
}

func (w *W) reopen() {
	if w.st != nil {
		w.st.cycle(false)
	} else {
		w.t.reopen(w.in)
	}
}

func (w *W) observe() {
	r := w.t.rng
	hit := func(every int) bool { return every > 0 && r.N(every) == 0 }
	if hit(w.o.rng) {
		w.aRange()
	}
	if hit(w.o.full) {
		w.all()
	}
	if hit(w.o.stat) {
		w.t.stats(w.in)
	}
	if hit(w.o.sent) {
		w.sentinel()
	}
	if hit(w.o.idle) {
		w.idle()
	}
	if hit(w.o.keep) {
		w.t.recheck()
	}
	if hit(w.o.open) {
		w.reopen()
		if r.P(30) {
			w.all()
		}
		if r.P(10) {
			w.reopen()
		}
	}
	if hit(w.o.snap) {
		w.snap()
	}
}

// snap closes the dictionary, records what is in the file, and reopens it.
func (w *W) snap() {
	in, t := w.in, w.t
	if w.st != nil {
		w.st.cycle(true)
		return
	}
	t.stats(in)
	t.close(in)
	sp, err := w.disk()
	if w.o.reap {
		t.reapEv(in.path, err, sp)
	}
	t.mustOpen(in, t.rng.Bool())
	t.stats(in)
}

func (t *T) reapEv(path, derr string, sps ...spaces) {
	left, dup, err := 0, false, ""
	if derr != "" {
		err = "undecodable: " + derr
	} else {
		left, dup, err = reap(t, path, sps...)
	}
	t.emit(ev("reap").i("left", page(int64(left+4095))).t("dup", dup).s("err", err).done())
}

// disk records the file of the (closed) dictionary.
func (w *W) disk() (spaces, string) {
	in, t := w.in, w.t
	if in.ordered() {
		ts := decodeTree(t, in.path, in.info)
		t.emit(ts.event(in.n))
		w.seps = ts.separators()
		return ts.sp, ts.err
	}
	hs := decodeHash(t, in.path, in.info)
	t.emit(hs.event(in.n))
	return hs.sp, hs.err
}

func (ts *treeSnap) separators() (seps []int) {
	for i := range ts.nodes {
		if !ts.nodes[i].leaf {
			for _, k := range ts.nodes[i].ks {
				if k > 0 {
					seps = append(seps, k)
				}
			}
		}
	}
	return
}

func (w *W) all() {
	if w.in.ordered() {
		dir := "asc"
		if w.t.rng.Bool() {
			dir = "desc"
		}
		w.t.rangeAll(w.in, dir, 0, w.t.K()+1)
	} else {
		w.t.scanAll(w.in)
	}
}

func (w *W) aRange() {
	if !w.in.ordered() {
		w.t.scanAll(w.in)
		return
	}
	r := w.t.rng
	K := w.t.K()
	dir := "asc"
	if r.Bool() {
		dir = "desc"
	}
	var lo, hi int
	switch x := r.N(20); {
	case x == 0:
		lo, hi = 0, K+1
	case x == 1:
		lo, hi = 0, 1+r.N(K)
	case x == 2:
		lo, hi = 1+r.N(K), K+1
	case x == 3: // sentinels in unusual places
		lo, hi = []int{0, K + 1, 1 + r.N(K)}[r.N(3)], []int{0, K + 1, 1 + r.N(K)}[r.N(3)]
	case x == 4:
		lo = 1 + r.N(K)
		hi = lo
	case x <= 8: // short range
		lo = 1 + r.N(K)
		hi = lo + r.N(6)
	case x <= 10: // between two neighbours: nothing in it, or little
		if k := w.pick(false); k > 0 {
			lo = k
			hi = k + r.N(2)
		} else {
			lo, hi = 1, 1
		}
	case x <= 12 && len(w.seps) > 0: // at a boundary between leaves
		s := w.seps[r.N(len(w.seps))]
		lo = s - r.N(4)
		hi = s + r.N(4) - 1
	case x == 13: // reversed
		lo, hi = 1+r.N(K), 1+r.N(K)
		if lo < hi {
			lo, hi = hi, lo
		}
	case x == 14: // from outside
		lo, hi = 1, w.ends(true, true)+r.N(3)-1
	case x == 15:
		lo, hi = w.ends(true, false)+r.N(3)-1, K
	default:
		lo = 1 + r.N(K)
		hi = lo + r.N(K/4+2)
	}
	if lo < 0 {
		lo = 0
	}
	if hi < 0 {
		hi = 0
	}
	if lo > K+1 {
		lo = K + 1
	}
	if hi > K+1 {
		hi = K + 1
	}
	if w.itr {
		w.t.iterate(w.in, dir, lo, hi)
		return
	}
	w.t.rangeAll(w.in, dir, lo, hi)
}

// sentinel performs a point operation through MinKey or MaxKey.
func (w *W) sentinel() {
	r := w.t.rng
	K := w.t.K()
	k := 0
	if r.Bool() {
		k = K + 1
	}
	o := []string{"tst", "tst", "sie", "set", "sin", "clr"}[r.N(6)]
	if w.cnt == 0 && (o == "set" || o == "sin") {
		o = "tst"
	}
	v := 0
	if o == "sie" || o == "set" || o == "sin" {
		v = w.t.genVal(w.vp)
	}
	w.t.one(w.in, o, k, v, r.P(70))
	if o == "clr" && w.cnt > 0 {
		w.mark(w.ends(true, k == 0), false)
	}
}

// idle brackets operations that must change nothing with statistics.
func (w *W) idle() {
	w.t.stats(w.in)
	for i := 0; i < 1+w.t.rng.N(3); i++ {
		switch {
		case w.t.rng.P(15):
			w.aRange()
		default:
			w.misc()
		}
	}
	w.t.stats(w.in)
}

// clearAll removes everything, in some order.
func (w *W) clearAll(pat string) {
	for w.cnt > 0 {
		switch pat {
		case "asc":
			w.del(w.ends(true, true))
		case "desc":
			w.del(w.ends(true, false))
		case "both":
			w.del(w.ends(true, w.t.rng.Bool()))
		case "mid":
			k := w.near(true, w.t.K()/2, w.t.K()/6+2)
			if k == 0 {
				k = w.pick(true)
			}
			w.del(k)
		default:
			w.del(w.pick(true))
		}
		w.i++
		w.observe()
	}
}

// batch fills or empties large dictionaries with few events.
func (w *W) batch(o string, lo, st, n int, vp string, ret bool) {
	w.batchIn(0, o, lo, st, n, vp, ret)
}

// batchIn: dir > 0 is in ascending order, dir < 0 in descending order.
func (w *W) batchIn(dir int, o string, lo, st, n int, vp string, ret bool) {
	K := w.t.K()
	if lo > K || n < 1 {
		return
	}
	if lo+(n-1)*st > K {
		n = (K-lo)/st + 1
	}
	var vals []int
	if o == "set" || o == "sie" || o == "sin" {
		vals = make([]int, n)
		for i := range vals {
			if k := lo + i*st; w.has[k] && w.t.rng.P(6) {
				vals[i] = w.t.kin(w.val[k])
			} else {
				vals[i] = w.t.genVal(vp)
			}
		}
	}
	w.t.op(w.in, dir, o, lo, st, n, vals, ret)
	for i := 0; i < n; i++ {
		switch o {
		case "set", "sin":
			if o == "set" || !w.has[lo+i*st] {
				w.val[lo+i*st] = vals[i]
			}
			w.mark(lo+i*st, true)
		case "clr":
			w.mark(lo+i*st, false)
		}
	}
	w.i += n
}
