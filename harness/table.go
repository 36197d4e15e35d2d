package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
)

// far prepares a file whose free space starts behind 8 GiB (it is sparse).
func (t *T) far(in *inst) {
	fs := new(fsm.FileStorage).Init()
	if err := fs.Open(in.path, true); err != nil {
		die("%v", err)
	}
	fs.AllocateAlignedSpace(1 << 32)
	fs.AllocateAlignedSpace(1 << 32)
	if err := fs.Close(); err != nil {
		die("%v", err)
	}
	t.extra["pad"] = 1
}

// odFar: an ordered dictionary at addresses above 4 GiB.
func (s *suite) odFar(o obs) {
	s.add("OD/far", 3000, func(t *T) {
		t.setKeys(genKeys(t.rng, "max", 400))
		in := t.newInst("OD", "x.db")
		t.far(in)
		t.mustOpen(in, true)
		o.reap = false
		w := newW(t, in, "inl", o)
		w.run("grow", 500, "")
		w.run("mixed", 300, "bi")
		if o.snap > 0 {
			w.snap()
		}
		w.all()
		w.clearAll("asc")
		w.run("grow", 400, "edge")
		w.run("shrink", 300, "")
		w.all()
		w.clearAll("mid")
		w.all()
		t.close(in)
	})
}

func (s *suite) dFar(o obs) {
	s.add("D/far", 3000, func(t *T) {
		t.setKeys(genKeys(t.rng, "edge24", 400))
		in := t.newInst("D", "x.db")
		t.far(in)
		t.mustOpen(in, true)
		o.reap = false
		w := newW(t, in, "any", o)
		w.run("grow", 500, "")
		w.run("mixed", 300, "big")
		w.all()
		if o.snap > 0 {
			w.snap()
		}
		w.clearAll("rand")
		w.run("grow", 200, "")
		w.all()
		t.close(in)
	})
}

// odBig and dBig: values and keys that need space of their own, files that
// grow and are mapped anew.
func (s *suite) odBig(o obs) {
	for _, p := range []prof{{"huge", "mega"}, {"short", "chunk"}, {"mix", "big"}, {"edge257", "chunk"}} {
		K, n := 60, 120
		if p.vp == "mega" {
			K, n = 30, 60
		}
		s.one("OD", "big", p.kp, p.vp, K, o, life(n), nil)
	}
}

func (s *suite) dBig(o obs) {
	for _, p := range []prof{{"huge", "mega"}, {"short", "chunk"}, {"mix", "big"}, {"edge24", "chunk"}} {
		K, n := 60, 120
		if p.vp == "mega" {
			K, n = 30, 60
		}
		s.one("D", "big", p.kp, p.vp, K, o, life(n), nil)
	}
}

func (s *suite) odTalls(o obs) {
	s.odTall(o, 9000, "max", "inl", nil)
	s.odTall(o, 3000, "ovf", "edge", nil)
	s.odTall(o, 5000, "mix", "bi", nil)
	s.odTall(o, 5000, "bimodal", "bi", nil)
	s.odTall(o, 20000, "seq8", "tiny", nil)
	s.odAim(o, 6000, "duo", "flat", 30)
}

func (s *suite) dictWides(o obs) {
	s.dictWide(o, 115000, "seq8", "tiny", nil) // beyond 16 directories
	s.dictWide(o, 60000, "lcp", "small", nil)
	s.dictWide(o, 20000, "seq8", "wide", nil)
	s.dictWide(o, 9000, "edge24", "any", nil)
	s.dictWide(o, 700, "zero", "tiny", nil) // all in one slot
}

// windows: sessions that leave the numbers of keys and bytes as they were:
// keys leave at one end and enter at the other, or change places, or values
// are exchanged for others of the same size; the dictionary is closed and
// opened in between.
func (s *suite) windows(api, kp, vp string, K, rounds int, o obs) {
	s.add(fmt.Sprintf("%s/%s-%s-%d-windows", api, kp, vp, K), rounds*30, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		K := t.K()
		in := t.newInst(api, "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		w.batch("sin", K/4, 1, K/2, vp, false)
		put := func(k int) {
			t.one(in, []string{"set", "sin"}[r.N(2)], k, t.newVal(map[string]int{"fix": 60, "fix2": 200}[vp]), r.Bool())
			w.mark(k, true)
		}
		dir := r.Bool()
		for i := 0; i < rounds; i++ {
			if r.P(15) {
				dir = !dir
			}
			m := 1 + r.N(1+r.N(w.cnt/2))
			switch r.N(5) {
			case 0, 1, 2:
				in, out := w.ends(true, false)+1, w.ends(true, true)
				d := 1
				if !dir {
					in, out, d = out-1, in-1, -1
				}
				first := r.Bool() // the order of leaving and entering
				for j := 0; j < m; j++ {
					if in < 1 || in > K {
						dir = !dir
						break
					}
					if first {
						put(in)
					}
					for out > 0 && out <= K && !w.has[out] {
						out += d
					}
					w.del(out)
					if !first {
						put(in)
					}
					in += d
				}
			case 3: // change places
				for j := 0; j < m; j++ {
					w.del(w.pick(true))
				}
				for j := 0; j < m; j++ {
					put(w.pick(false))
				}
			case 4: // exchange values
				for j := 0; j < m; j++ {
					k := w.pick(true)
					t.one(in, "set", k, t.newVal(map[string]int{"fix": 60, "fix2": 200}[vp]), r.Bool())
				}
			}
			if o.snap > 0 && r.N(o.snap) == 0 {
				w.snap()
			} else {
				t.stats(in)
				w.reopen()
				t.stats(in)
			}
			w.all()
			if in.ordered() {
				t.rangeAll(in, "asc", 1, K)
				t.rangeAll(in, "desc", 0, K)
				for j := 0; j < 4; j++ {
					w.aRange()
				}
			} else {
				w.batch("tst", 1, 1, K, "", true)
			}
		}
		if in.ordered() {
			w.clearAll("asc")
		} else {
			w.clearAll("rand")
		}
		w.all()
		w.snap()
		t.close(in)
	})
}

func (s *suite) odWindows(rounds int, o obs) {
	s.windows("OD", "eq", "fix", 400, rounds, o)
	s.windows("OD", "seq8", "fix2", 800, rounds, o)
	s.windows("OD", "sim", "fix", 500, rounds, o)
}

func (s *suite) dWindows(rounds int, o obs) {
	s.windows("D", "eq", "fix", 200, rounds, o)
	s.windows("D", "seq8", "fix2", 100, rounds, o)
	s.windows("D", "seq8", "fix", 1200, rounds/2, o)
}

// opens: everything that can be at a path.
func (s *suite) opens(api string) {
	s.add(api+"/opens", 4000, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, "short", 60))
		const n = 6
		for i := 0; i < n; i++ {
			t.newInst(api, fmt.Sprintf("x%d.db", i))
		}
		fill := func(in *inst) *W {
			w := newW(t, in, "any", obs{})
			if !r.P(25) { // or left as it is
				w.run("grow", 20+r.N(80), "")
			}
			return w
		}
		for round := 0; round < 40; round++ {
			for _, in := range t.inst {
				os.RemoveAll(in.path)
				t.emit(ev("rm").i("d", in.n).done())
				pre := []string{"missing", "foreign", "empty", "short", "dir", "noparent", "trunc", "other", "bare"}[r.N(9)]
				path := in.path
				switch pre {
				case "foreign":
					b := make([]byte, 4096+r.N(20000))
					for i := range b {
						b[i] = byte(r.U64())
					}
					if r.Bool() {
						copy(b, "!MSF")
					}
					if b[4] == '.' { // that would be a damaged file of the right format
						b[4] = '-'
					}
					os.WriteFile(in.path, b, 0644)
				case "empty":
					os.WriteFile(in.path, nil, 0644)
				case "short":
					b := make([]byte, 1+r.N(4095))
					copy(b, "!MSF.")
					os.WriteFile(in.path, b, 0644)
				case "dir":
					os.MkdirAll(filepath.Join(in.path, "sub"), 0755)
				case "noparent":
					in.path = filepath.Join(t.dir, "nowhere", "x.db")
				case "trunc": // a dictionary that lost its end
					t.openPath(in, "missing", true)
					if in.open {
						fill(in)
						t.close(in)
						if fi, err := os.Stat(in.path); err == nil {
							os.Truncate(in.path, fi.Size()-1-int64(r.N(int(fi.Size())-1)))
						}
						t.emit(ev("rm").i("d", in.n).done())
					}
				case "bare": // a storage that holds no dictionary
					var fs fsm.FileStorage
					fs.Init()
					if err := fs.Open(in.path, true); err != nil {
						die("%v", err)
					}
					if r.Bool() { // with something in it
						fs.AllocateSpace(1 + r.N(20000))
					}
					if err := fs.Close(); err != nil {
						die("%v", err)
					}
				case "other":
					b := []byte("!MSG.")
					b = append(b, make([]byte, 8192)...)
					os.WriteFile(in.path, b, 0644)
				}
				for i := 1 + r.N(3); i > 0; i-- {
					if t.openPath(in, pre, r.P(40)) {
						break
					}
				}
				in.path = path
				if in.open {
					w := fill(in)
					w.all()
					for i := 1 + r.N(4); i > 0; i-- {
						if !t.close(in) {
							break
						}
						t.released(in)
						if !t.openPath(in, "db", r.Bool()) {
							break
						}
						if r.P(20) {
							continue
						}
						w.all()
						t.stats(in)
						w.run("mixed", r.N(30), "")
					}
					if in.open && r.Bool() {
						w.all()
					}
					t.close(in)
					t.released(in)
				} else {
					os.RemoveAll(in.path)
					t.emit(ev("rm").i("d", in.n).done())
					// a refused open must not be in the way of the next one
					if t.openPath(in, "missing", true) {
						w := newW(t, in, "any", obs{})
						if r.P(80) {
							w.all()
							w.run("grow", 10, "")
							w.all()
						}
						t.close(in)
						t.released(in)
					}
				}
			}
		}
	})
}

// iters: iterators step by step.
func (s *suite) iters(kp, vp string, K, rounds int) {
	s.add(fmt.Sprintf("OD/%s-%s-%d-iter", kp, vp, K), rounds*K, func(t *T) {
		t.withB = true
		t.setKeys(genKeys(t.rng, kp, K))
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, obs{open: 300})
		w.itr = true
		t.iterate(in, "asc", 0, K+1)
		t.iterate(in, "desc", 1, K)
		for i := 0; i < rounds; i++ {
			w.run([]string{"grow", "grow", "mixed", "shrink"}[t.rng.N(4)], 1+t.rng.N(K/3+1), "")
			if t.rng.P(5) {
				w.clearAll("rand")
			}
			w.aRange()
			w.aRange()
			if i%6 == 5 {
				t.together(w, 2+t.rng.N(3))
			}
		}
	})
}

// cursors: scans with additions and updates in between.
func (s *suite) cursors(kp, vp string, K, rounds int, deletions bool) {
	s.add(fmt.Sprintf("D/%s-%s-%d-cursor-%v", kp, vp, K, deletions), rounds*K, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		K := t.K()
		in := t.newInst("D", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, obs{})
		cs := make([]*scanner, 3)
		for i := range cs { // the specification knows them from the start
			cs[i] = t.newCursor(in, i+1)
			for t.scanStep(in, cs[i]) {
			}
		}
		for round := 0; round < rounds; round++ {
			// some content to start with
			target := r.N(K * 3 / 4)
			if r.P(10) {
				target = 0
			}
			for w.cnt > target {
				w.del(w.pick(true))
			}
			for w.cnt < target {
				w.put(w.pick(false))
			}
			speed := []int{0, 1, 3, 10, 40}[r.N(5)] // changes per step
			for i := range cs {
				cs[i].on = false
			}
			first := true
			for {
				busy := false
				for i := range cs {
					if !cs[i].on && (first && i == 0 || r.N(K) == 0 && !first && w.cnt < K) {
						cs[i] = t.newCursor(in, i+1)
						first = false
					}
					if cs[i].on {
						busy = true
						for j := 1 + r.N(3); j > 0 && cs[i].on; j-- {
							t.scanStep(in, cs[i])
						}
					}
				}
				if !busy {
					break
				}
				for j := r.N(speed + 1); j > 0; j-- {
					switch {
					case deletions && r.P(30):
						w.del(w.pick(true))
					case r.P(60):
						w.put(w.pick(false))
					case r.P(50):
						w.put(w.pick(true))
					default:
						w.misc()
					}
				}
			}
			if r.P(30) {
				w.all()
			}
		}
		t.close(in)
	})
}

// scans: several scans of dictionaries that stay as they are, at every size,
// with the other operations that change nothing in between.
func (s *suite) scans(kp, vp string, K, rounds int) {
	s.add(fmt.Sprintf("D/%s-%s-%d-scans", kp, vp, K), rounds*K*3, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		var ws []*W
		for i := 0; i < 2; i++ {
			in := t.newInst("D", fmt.Sprintf("x%d.db", i))
			t.mustOpen(in, true)
			ws = append(ws, newW(t, in, vp, obs{}))
		}
		cs := make([]*scanner, 5)
		on := make([]*W, len(cs))
		for i := range cs { // the specification knows them from the start
			cs[i] = t.newCursor(ws[0].in, i+1)
			for t.scanStep(ws[0].in, cs[i]) {
			}
		}
		for round := 0; round < rounds; round++ {
			for _, w := range ws {
				w.run([]string{"grow", "mixed", "shrink", "resize"}[r.N(4)], r.N(K/2+2), "")
				if r.P(5) {
					w.clearAll("rand")
				}
			}
			n := 2 + r.N(len(cs)-1)
			left := n + r.N(3) // scans still to begin
			for i := range cs {
				cs[i].on = false
			}
			for {
				i := r.N(n)
				c := cs[i]
				if !c.on {
					busy := false
					for _, x := range cs {
						busy = busy || x.on
					}
					if left == 0 {
						if busy {
							continue
						}
						break
					}
					if busy && r.P(50) {
						continue
					}
					left--
					on[i] = ws[0]
					if r.P(25) {
						on[i] = ws[1]
					}
					c = t.newCursor(on[i].in, i+1)
					cs[i] = c
				}
				for j := 1 + r.N(1+r.N(4)); j > 0 && c.on; j-- {
					t.scanStep(on[i].in, c)
				}
				switch r.N(30) {
				case 0:
					t.stats(on[i].in)
				case 1:
					w := ws[r.N(2)]
					w.misc()
				case 2:
					if r.P(20) {
						ws[r.N(2)].all()
					}
				}
			}
		}
		for _, w := range ws {
			t.close(w.in)
		}
	})
}

// cursorWide: a scan of a large dictionary while it doubles.
func (s *suite) cursorWide(K int) {
	s.add(fmt.Sprintf("D/seq8-%d-cursor-wide", K), K, func(t *T) {
		t.setKeys(genKeys(t.rng, "seq8", K))
		in := t.newInst("D", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, "tiny", obs{})
		w.batch("set", 1, 3, K, "tiny", false)
		c := t.newCursor(in, 1)
		next := 2
		for i := 0; t.scanStep(in, c); i++ {
			if i%(K/12) == 0 && next <= K {
				w.batch("sin", next, 3, K/12, "tiny", false)
				next += 3 * (K / 12)
			}
			if i%97 == 0 {
				w.put(w.pick(true))
			}
		}
		w.all()
		t.close(in)
	})
}

// shared: several structures in one storage, each with a life of its own.
func (s *suite) shared(apis []string, far bool, rounds int) {
	s.add(fmt.Sprintf("store/%v-far=%v", apis, far), rounds*len(apis)*20, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, []string{"mix", "edge24", "bimodal", "tiny", "ovf"}[r.N(5)], 120))
		st := t.newStore("s.db")
		st.reap = !far
		if far {
			st.pad(2)
			t.extra["pad"] = 1
		}
		for _, a := range apis {
			in := st.add(a)
			w := newW(t, in, "any", obs{})
			w.st = st
			st.ws = append(st.ws, w)
		}
		for i := 0; i < rounds; i++ {
			w := st.ws[r.N(len(st.ws))]
			if !w.in.open {
				st.life(w.in, "create")
				continue
			}
			switch x := r.N(40); {
			case x == 0:
				st.cycle(false)
			case x <= 2:
				st.cycle(true)
			case x == 3:
				w.clearAll("rand")
				w.all()
				st.life(w.in, "destroy")
			case x <= 4:
				w.all()
			case x <= 6:
				t.meanwhile(st.ws, w)
			case x == 7:
				t.stats(w.in)
			case x == 8 && w.in.ordered():
				w.sentinel()
			case x == 9: // this one alone is stored and loaded again
				st.life(w.in, "store")
				v := st.ws[r.N(len(st.ws))]
				if v.in.open {
					v.run("mixed", 20, "")
				}
				st.life(w.in, "load")
			default:
				pat := []string{"grow", "shrink", "mixed", "resize"}[r.N(4)]
				if pat == "resize" && w.cnt == 0 {
					pat = "grow"
				}
				w.run(pat, 5+r.N(40), "")
			}
		}
		for _, w := range st.ws {
			if w.in.open {
				w.all()
			}
		}
		if far {
			for _, w := range st.ws {
				if w.in.open {
					w.clearAll("rand")
					st.life(w.in, "destroy")
				}
			}
			st.fs.Close()
			return
		}
		st.finish()
	})
}

// several: dictionaries in files of their own, open at the same time.
func (s *suite) several(rounds int) {
	s.add("several", rounds*20, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, "mix", 100))
		var ws []*W
		for i, api := range []string{"OD", "D", "OD", "D"} {
			in := t.newInst(api, fmt.Sprintf("x%d.db", i))
			t.mustOpen(in, true)
			ws = append(ws, newW(t, in, "any", obs{open: 60, full: 40, snap: 200, reap: true}))
		}
		for i := 0; i < rounds; i++ {
			w := ws[r.N(len(ws))]
			pat := []string{"grow", "shrink", "mixed", "resize"}[r.N(4)]
			if pat == "resize" && w.cnt == 0 {
				pat = "grow"
			}
			w.run(pat, 1+r.N(25), "")
			if r.P(10) {
				t.meanwhile(ws, ws[r.N(len(ws))])
			}
		}
		for _, w := range ws {
			w.all()
			t.close(w.in)
		}
	})
}

// odDense: leaves with hundreds of records.
func (s *suite) odDense(o obs, vp string, K, n int) {
	s.add(fmt.Sprintf("OD/dense-%s-%d", vp, K), K+6*n, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, "dense", K))
		K := t.K()
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		see := func() {
			w.all()
			t.stats(in)
			for i := 0; i < 6; i++ {
				w.aRange()
			}
			if o.snap > 0 {
				w.snap()
			}
		}
		for i := 0; i < 3; i++ {
			w.batch("set", 1, 1, K*2/3, vp, r.Bool())
			w.run("mixed", n/3, "")
			w.run("dasc", n/3, "")
			see()
			w.run("seps", n/2, "")
			w.batch("sin", K/3, 1, K, vp, r.Bool())
			w.run("ddesc", n/3, "")
			w.run("resize", n/3, []string{"inl", "none", "edge"}[i])
			w.run("cgrow", n/2, vp)
			see()
			w.batchIn(r.N(3)-1, "clr", 1+r.N(4), 1+r.N(3), K, "", true)
			see()
			w.run("mixed", n/3, "")
			w.run("cshrink", n/2, "")
			if i == 1 {
				w.batchIn(1, "clr", 1, 1, K, "", true)
				see()
			}
		}
		see()
		w.clearAll([]string{"asc", "desc", "both", "mid"}[r.N(4)])
		w.all()
		t.close(in)
	})
}

// odRise: trees that gain and lose levels, four and more, filled from one end
// so that all pages are half empty.
func (s *suite) odRise(o obs, kp, vp string, K int) {
	s.add(fmt.Sprintf("OD/%s-%s-%d-rise", kp, vp, K), K*4, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		K := t.K()
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, obs{sent: o.sent, reap: o.reap})
		see := func() {
			w.all()
			t.stats(in)
			for i := 0; i < 8; i++ {
				w.aRange()
			}
			if o.snap > 0 {
				w.snap()
			}
		}
		for i := 0; i < 3; i++ {
			d := 1 - 2*(i&1)
			w.batchIn(d, []string{"set", "sin"}[r.N(2)], 1, 1, K, vp, false)
			see()
			w.batch("tst", 1, 1, K, "", true)
			w.run("seps", 60, "")
			// down to a few leaves, from an end, from the middle, everywhere
			switch []int{3, r.N(3), r.N(4)}[i] {
			case 0:
				w.batchIn(1, "clr", 1, 1, K*9/10, "", r.Bool())
			case 1:
				w.batchIn(-1, "clr", K/10, 1, K, "", r.Bool())
			case 2:
				w.batchIn(r.N(3)-1, "clr", K/20, 1, K*9/10, "", r.Bool())
			case 3:
				w.batchIn(1-2*r.N(2), "clr", 1, 2, K, "", r.Bool())
				w.batchIn(1-2*r.N(2), "clr", 2, 4, K, "", r.Bool())
				w.batchIn(1-2*r.N(2), "clr", 4, 8, K, "", r.Bool())
				for j := 0; j < 12; j++ { // a few levels with little in them
					see()
					w.run("seps", 20, "")
					w.batchIn(r.N(3)-1, "clr", 1+r.N(K), 1+7*r.N(2), 150, "", r.Bool())
				}
			}
			see()
			w.run("mixed", 40, "")
			w.batchIn(r.N(3)-1, "clr", 1, 1, K, "", r.Bool())
			see()
		}
		t.close(in)
	})
}

// brinks: every allocation of space moves the mapping of the file, and some
// releases do.
func (s *suite) brinks(kp, vp string, K, rounds int, keep bool, apis ...string) {
	s.add(fmt.Sprintf("store/%v-%s-%s-%d-brink", apis, kp, vp, K), rounds*40, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		K := t.K()
		t.scrib = keep
		st := t.newStore("s.db")
		st.reap = true
		for _, a := range apis {
			in := st.add(a)
			w := newW(t, in, vp, obs{})
			w.st = st
			st.ws = append(st.ws, w)
			st.life(in, "create")
			w.batch("set", 1+r.N(3), 1+r.N(3), K*(1+r.N(2))/3, vp, false)
		}
		tick := func(on bool) {
			for _, w := range st.ws {
				w.tick = nil
				if on {
					w.tick = func(int) { st.brink() }
				}
			}
		}
		tick(true)
		for i := 0; i < rounds; i++ {
			w := st.ws[r.N(len(st.ws))]
			st.brink()
			switch x := r.N(24); {
			case x == 0:
				w.all()
			case x == 1:
				t.recheck()
			case x <= 4 && len(st.ws) > 1:
				t.meanwhile(st.ws, w)
			case x == 5:
				w.aRange()
			case x == 6:
				w.sets(1+r.N(4), 1+r.N(K))
			case x == 7 && r.P(20):
				w.clearAll("rand")
			case x == 8 && r.P(30):
				st.deflate()
				st.cycle(r.Bool())
			default:
				pat := []string{"grow", "shrink", "mixed", "resize", "cgrow", "cshrink"}[r.N(6)]
				if pat == "resize" && w.cnt == 0 {
					pat = "grow"
				}
				w.run(pat, 1+r.N(8), "")
			}
		}
		tick(false)
		for _, w := range st.ws {
			w.all()
		}
		t.recheck()
		st.deflate()
		st.cycle(true)
		for _, w := range st.ws {
			w.all()
		}
		st.finish()
		t.recheck()
	})
}

func (s *suite) odDenses(o obs) {
	s.odDense(o, "none", 1600, 90)
	s.odDense(o, "tiny", 2500, 90)
}

// burst is a batch of insertions or removals, in ascending order.
type burst struct {
	o         string
	lo, st, n int
}

// scout works on a tree of three levels whose root is almost full, with
// separators of very different sizes, which change when the pages below
// exchange children.  The root's fill, as far as it can be seen in the file,
// steers what it does.  It returns what it did, if stop is set only up to the
// moment when a page looked odd, and whether that was so.
func (t *T) scout(seed uint64, rounds, fall int, stop bool) (did []burst, odd bool) {
	r := NewRng(seed)
	K := t.K()
	path := filepath.Join(t.dir, fmt.Sprintf("scout%d.db", seed))
	defer os.Remove(path)
	defer func() {
		if e := recover(); e != nil {
			odd = true
		}
	}()
	od, err := plainkv.OpenOrderedDict(path, true)
	if err != nil {
		return nil, true
	}
	defer func() { od.Close() }()
	g := &gauge{}
	val := make([]byte, 128)
	do := func(b burst) {
		did = append(did, b)
		for i := 0; i < b.n; i++ {
			if k := t.keys[b.lo+i*b.st-1]; b.o == "sin" {
				od.SetIfNotExists(k, val, false)
			} else {
				od.Clear(k, false)
			}
		}
		if h := od.Stats().BPTreeHeight; h != g.height {
			od.Close()
			g.find(path, h)
			if od, err = plainkv.OpenOrderedDict(path, true); err != nil {
				panic(err)
			}
		}
		g.look(path)
	}
	for lo := 1; lo <= K && !(g.height >= 3 && g.load > 7919-300); lo += K / 50 {
		n := K / 50
		if lo+n > K {
			n = K - lo + 1
		}
		do(burst{"sin", lo, 1, n})
	}
	for i := 0; i < rounds && !(stop && g.odd); i++ {
		on := 50
		switch {
		case g.height > 3:
			on = fall
		case g.load < 7919-150:
			on = 90
		}
		b := burst{"clr", 0, 1 + r.N(4), 1 + r.N(K/25)}
		if r.P(on) {
			b.o = "sin"
		}
		b.lo = 1 + r.N(K-b.n)
		b.n = (b.n-1)/b.st + 1
		do(b)
	}
	return did, g.odd
}

// brim records a history that the scout found, or the last one it tried.
func (s *suite) brim(o obs, K, rounds, fall int) {
	s.add(fmt.Sprintf("OD/uneven-%d-brim-%d", K, fall), K*6+rounds*500, func(t *T) {
		t.setKeys(genKeys(t.rng, "uneven", K))
		var did []burst
		odd := false
		tries := 16
		if thorough {
			tries = 60
		}
		if o.snap == 0 {
			tries = 1
		}
		for i := 0; i < tries && !odd; i++ {
			t.guard("several insertions and removals", func() { did, odd = t.scout(t.rng.U64(), rounds, fall, o.snap > 0) })
		}
		if !odd && o.snap > 0 && len(did) > 250 {
			did = did[:250]
		}
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, "even", o)
		for i, b := range did {
			w.batchIn(1, b.o, b.lo, b.st, b.n, "even", false)
			if i%50 == 49 {
				t.stats(in)
				w.aRange()
			}
			if o.snap > 0 && i%100 == 99 {
				w.snap()
			}
		}
		if o.snap > 0 {
			w.snap()
		}
		w.all()
		w.batch("tst", 1, 1, t.K(), "", true)
		t.close(in)
	})
}

func (s *suite) odRises(o obs) {
	s.odRise(o, "max", "inl", 19500)
	if thorough {
		s.odRise(o, "ovf", "bi", 22000)
		s.odRise(o, "max", "inl", 60000)
	}
}

func (s *suite) btBrinks(keep bool) {
	s.brinks("ovf", "edge", 60, 60, keep, "BT")
	s.brinks("max", "inl", 160, 70, keep, "BT")
	s.brinks("mix", "any", 100, 60, keep, "BT")
	s.brinks("bimodal", "bi", 200, 60, keep, "BT")
}

func (s *suite) hmBrinks(keep bool) {
	s.brinks("edge24", "any", 60, 60, keep, "HM")
	s.brinks("lcp", "wide", 60, 60, keep, "HM")
	s.brinks("coll", "small", 100, 60, keep, "HM")
	s.brinks("short", "big", 30, 40, keep, "HM")
}

// sets changes one key again and again, back and forth.
func (w *W) sets(n, k int) {
	for ; n > 0; n-- {
		if w.has[k] {
			w.del(k)
		} else {
			w.put(k)
		}
		if w.tick != nil {
			w.tick(n)
		}
	}
}

// hot repeats, without a pause, operations that leave the content as it is:
// tests, sets of the same values, refused insertions.  A result is recorded
// if it differs from that of the first test.
func (w *W) hot(rounds int) {
	t, in, r := w.t, w.in, w.t.rng
	K := t.K()
	oks, olds := make([]int, K), make([]int, K)
	intact := true
	t.opOrdered(in, "tst", 1, 1, K, nil, true, r.Perm(K), oks, olds, &intact)
	t.guard("several at the same time", func() {
		for i := 0; i < rounds*K; i++ {
			k := r.N(K)
			var v []byte
			if olds[k] > 0 {
				v = t.vals[olds[k]-1]
			}
			o, vals, want := "tst", []int(nil), oks[k]
			if oks[k] > 0 {
				switch r.N(6) {
				case 0:
					o, want = "set", -1
				case 1:
					o, want = "sin", 0
				}
			}
			var a []byte
			if o != "tst" {
				a, vals = v, []int{olds[k]}
			}
			old, ok := in.call(o, t.keys[k], a, true)
			if ok == want && bytes.Equal(old, v) {
				continue
			}
			e := ev("op").i("d", in.n).s("o", o).i("lo", k+1).i("st", 1).i("n", 1)
			if vals != nil {
				e.a("v", vals)
			}
			e.t("r", true)
			if ok >= 0 {
				e.a("ok", []int{ok})
			}
			e.a("old", []int{t.lookVal(old)})
			t.emit(e.done())
		}
	})
	t.nOps += rounds * K
}

// lanes: several dictionaries, each used by a goroutine of its own.
func (s *suite) lanes(n, rounds int) {
	s.add(fmt.Sprintf("lanes-%d", n), rounds*n*60, func(t *T) {
		seed := t.rng.U64()
		t.lanes(n, func(i int, t *T) {
			r := t.rng
			p := []prof{{"ovf", "edge"}, {"edge24", "any"}, {"ovf", "wide"}, {"lcp", "small"}, {"mix", "any"}, {"coll", "wide"}, {"low", "bi"}, {"long", "any"}}[(uint64(i)+seed)%8]
			t.setKeys(genKeys(r, p.kp, 120))
			K := t.K()
			in := t.newInst([]string{"OD", "D"}[i&1], "x.db")
			t.mustOpen(in, true)
			w := newW(t, in, p.vp, obs{full: 40, rng: 20, open: 60, stat: 60})
			if in.ordered() && i&2 > 0 {
				w.itr = true
				t.withB = true
			}
			for j := 0; j < rounds; j++ {
				w.batch([]string{"set", "sin"}[r.N(2)], 1+r.N(4), 1+r.N(3), K, p.vp, true)
				w.batch("tst", 1, 1, K, "", true)
				w.run([]string{"mixed", "grow", "shrink"}[r.N(3)], 30, "")
				w.hot(30)
				w.all()
				w.aRange()
				w.batch("clr", 1+r.N(4), 1+r.N(3), K, "", true)
			}
			w.all()
			t.close(in)
		})
	})
}

// odMany: more than 64 Ki records, and more children than a byte can count.
func (s *suite) odMany(o obs) {
	s.add("OD/many", 100000, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, "seq8", 100000))
		K := t.K()
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, "small", obs{sent: o.sent})
		see := func() {
			t.stats(in)
			w.all()
			for i := 0; i < 6; i++ {
				w.aRange()
			}
			if o.snap > 0 {
				w.snap()
			} else {
				w.reopen()
				t.stats(in)
			}
		}
		w.batch("set", 1, 1, K, "small", false)
		see()
		w.batch("tst", 1, 1, K, "", true)
		w.run("mixed", 200, "wide")
		w.run("seps", 100, "")
		w.batchIn(r.N(3)-1, "clr", 1+r.N(3), 3, K, "", true)
		see()
		w.batch("clr", 1, 1, K, "", false)
		t.stats(in)
		t.close(in)
	})
}

// vast: a value whose size takes four bytes more to write down than to have.
func (s *suite) vast(api string) {
	s.add(api+"/vast", 30000, func(t *T) {
		t.setKeys([][]byte{{}, []byte("a"), []byte("k")})
		in := t.newInst(api, "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, "small", obs{})
		for i, n := range []int{1<<24 - 2, 121 + 1<<24, 1<<28 + 9} {
			w.run("mixed", 3, "")
			v := t.newVal(n)
			t.one(in, "set", 1+i, v, false)
			w.mark(1+i, true)
			t.one(in, "tst", 1+i, 0, true)
			if i == 1 {
				t.reopen(in)
				w.all()
			}
			t.one(in, "set", 1+i, t.newVal(5), i < 2)
			w.all()
		}
		t.close(in)
	})
}

// hmWide: many slot directories in the map itself, stored and loaded.
func (s *suite) hmWide() {
	s.add("HM/wide", 120000, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, "seq8", 120000))
		K := t.K()
		st := t.newStore("s.db")
		in := st.add("HM")
		w := newW(t, in, "none", obs{})
		w.st = st
		st.ws = append(st.ws, w)
		st.life(in, "create")
		at := 0
		to := func(n int) {
			if n > at {
				w.batch("sin", at+1, 1, n-at, "none", false)
			} else {
				w.batch("clr", n+1, 1, at-n, "", false)
			}
			at = n
			t.stats(in)
			st.cycle(false)
			t.stats(in)
		}
		for _, n := range []int{50000, 56000, 45000, 52000, 30000, 60000, 110000, 100000, 54000, 25000, 60000, 14000, 5000} {
			to(n)
		}
		w.batch("tst", 1, 1, K, "", true)
		st.cycle(true)
		to(0)
		st.finish()
	})
}

// twins: dictionaries of one kind in files of their own that lead the same
// life: what is at one place in one file is at the same place in the other,
// but it is not the same.
func (s *suite) twins(api, kp, vp string, K, rounds int) {
	s.add(fmt.Sprintf("%s/%s-%s-%d-twins", api, kp, vp, K), rounds*30, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		K := t.K()
		var ws []*W
		for i := 0; i < 3; i++ {
			in := t.newInst(api, fmt.Sprintf("x%d.db", i))
			t.mustOpen(in, true)
			w := newW(t, in, vp, obs{})
			w.cw = 0
			ws = append(ws, w)
		}
		perm := make([][]int, len(ws)) // the same steps, other keys
		for i := range perm {
			perm[i] = r.Perm(K)
		}
		for i := 0; i < rounds; i++ {
			n := 1 + r.N(K/4)
			at := r.N(K)
			what := []string{"set", "set", "clr", "sie"}[r.N(4)]
			for j := 0; j < n; j++ {
				ord := r.Perm(len(ws))
				for _, m := range ord {
					w := ws[m]
					k := 1 + perm[m][(at+j)%K]
					v := 0
					if what != "clr" {
						v = t.genVal(vp)
					}
					t.one(w.in, what, k, v, r.P(60))
					if what != "sie" {
						w.mark(k, what == "set")
					}
				}
			}
			switch r.N(8) {
			case 0:
				w := ws[r.N(len(ws))]
				w.reopen()
				w.all()
			case 1:
				for _, w := range ws {
					w.snap()
				}
			case 2, 3, 4:
				t.meanwhile(ws, ws[r.N(len(ws))])
			default:
				w := ws[r.N(len(ws))]
				w.all()
			}
		}
		for _, w := range ws {
			w.batch("tst", 1, 1, K, "", true)
			w.all()
			t.close(w.in)
		}
	})
}

// dumps: Fprint.
func (s *suite) dumps(kp, vp string, K, n int) {
	s.add(fmt.Sprintf("BT/%s-%s-%d-dump", kp, vp, K), n, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		st := t.newStore("s.db")
		in := st.add("BT")
		w := newW(t, in, vp, obs{})
		w.st = st
		st.ws = append(st.ws, w)
		st.life(in, "create")
		t.dump(w)
		every := n / 25
		w.tick = func(i int) {
			if w.i < 12 || w.i%(every+1) == 0 {
				t.dump(w)
			}
		}
		w.run("grow", n, "")
		w.run("seps", n/4, "")
		w.run("mixed", n/4, "")
		w.run("shrink", n, "")
		w.run("dasc", n/4, "")
		t.dump(w)
		w.tick = nil
		st.finish()
	})
}

// dumpTall: trees of height three and more.
func (s *suite) dumpTall(K int, kp, vp string) {
	s.add(fmt.Sprintf("BT/%s-%s-%d-dumptall", kp, vp, K), K*2, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		K, r := t.K(), t.rng
		st := t.newStore("s.db")
		in := st.add("BT")
		w := newW(t, in, vp, obs{})
		w.st = st
		st.ws = append(st.ws, w)
		st.life(in, "create")
		w.batch("set", 1, 1+r.N(2), K, vp, false)
		t.dump(w)
		w.batch("sin", 1, 1, K, vp, false)
		t.dump(w)
		for i := 0; i < 6; i++ {
			w.batchIn(r.N(3)-1, "clr", 1+r.N(K), 1+r.N(3), K/4, "", false)
			t.dump(w)
			w.batchIn(r.N(3)-1, "set", 1+r.N(K), 1+r.N(3), K/6, vp, false)
			t.dump(w)
		}
		w.batch("clr", 1, 1, K-5, "", false)
		t.dump(w)
		w.tick = nil
		st.finish()
	})
}

// goldens: files written by the version this was built for.
func (s *suite) goldens(rounds int) {
	for _, f := range goldenFiles() {
		f := f
		s.add("golden/"+filepath.Base(f), 2000, func(t *T) {
			g := readGolden(f)
			t.setKeys(g.Keys)
			api := map[string]string{"od": "OD", "dict": "D"}[g.Kind]
			in := t.newInst(api, "x.db")
			t.putGolden(g, in)
			w := newW(t, in, "any", obs{full: 60, open: 120})
			for _, k := range g.Have {
				w.mark(k, true)
			}
			w.disk()
			t.mustOpen(in, t.rng.Bool())
			t.stats(in)
			w.all()
			w.batch("tst", 1, 1, t.K(), "", true)
			for i := 0; i < 10; i++ {
				w.aRange()
			}
			if !in.ordered() || w.cnt > 0 {
				w.snap()
			}
			n := rounds
			if t.K() < 100 {
				n = rounds / 3
			}
			w.run("mixed", n, "")
			w.snap()
			w.run("shrink", n, "")
			w.run("grow", n, "")
			w.snap()
			if t.K() > 1000 {
				w.batch("clr", 1, 1, t.K(), "", true)
			} else {
				w.clearAll("rand")
			}
			w.all()
			w.run("grow", n, "")
			w.snap()
			w.all()
			t.close(in)
		})
	}
}

var suites = map[string]func(s *suite){
	"C01": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 7})
		s.times(4, 12, func() {
			s.odMatrix(obs{full: 400, open: 900}, 4)
			s.odBig(obs{full: 100, open: 100})
		})
		s.times(2, 6, func() {
			s.odTalls(obs{})
			s.odTall(obs{}, 20000, "max", "inl", nil)
			s.odFar(obs{})
			s.btBrinks(false)
			s.odRises(obs{})
			s.odMany(obs{})
			s.brim(obs{}, 30000, 500, 5)
			s.odAsks(obs{})
			s.odDenses(obs{})
		})
		s.vast("OD")
	},
	"C02": func(s *suite) {
		s.plan("KV", "D", planOpts{profs: 7})
		s.plan("LinHash", "D", planOpts{})
		s.times(4, 12, func() {
			s.dictMatrix(obs{full: 400, open: 900}, 4)
			s.dBig(obs{full: 100, open: 100})
		})
		s.times(2, 6, func() {
			s.dictWides(obs{})
			s.dFar(obs{})
			s.dAsks(obs{})
			s.hmBrinks(false)
		})
		s.vast("D")
	},
	"C03": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 5, every: 20})
		s.times(2, 8, func() {
			s.odWindows(60, obs{snap: 8})
			s.odMatrix(obs{full: 60, open: 25, snap: 400, stat: 60}, 2)
			s.odBig(obs{full: 20, open: 6, snap: 60})
			s.odTalls(obs{snap: 1})
			s.odFar(obs{open: 60, full: 60, snap: 100})
			s.btBrinks(false)
			s.odRises(obs{snap: 1})
			s.odMany(obs{})
			s.odAsks(obs{snap: 1})
			s.odDenses(obs{snap: 60})
		})
	},
	"C04": func(s *suite) {
		s.plan("KV", "D", planOpts{profs: 5, every: 20})
		s.plan("LinHash", "D", planOpts{snap: 40})
		s.times(2, 8, func() {
			s.dWindows(60, obs{snap: 8})
			s.dictMatrix(obs{full: 60, open: 25, snap: 400, stat: 60}, 2)
			s.dBig(obs{full: 20, open: 6, snap: 60})
			s.dictWides(obs{snap: 1})
			s.dFar(obs{open: 60, full: 60, snap: 100})
			s.dAsks(obs{snap: 1})
			s.hmBrinks(false)
		})
	},
	"C05": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 7, every: 10})
		s.times(2, 8, func() {
			s.odWindows(30, obs{})
			s.odMatrix(obs{rng: 1, full: 60, snap: 150}, 2)
			s.odTalls(obs{snap: 1})
			s.odBig(obs{rng: 2, full: 10})
			s.odFar(obs{rng: 3, full: 60, snap: 200})
			s.btBrinks(false)
			s.odRises(obs{})
			s.odAsks(obs{})
			s.odMany(obs{})
			s.odDenses(obs{rng: 2})
		})
	},
	"C06": func(s *suite) {
		s.plan("Iter", "OD", planOpts{profs: 7})
		s.times(5, 20, func() {
			s.iters("tiny", "any", 30, 60)
			s.iters("edge257", "edge", 60, 60)
			s.iters("ovf", "edge", 60, 60)
			s.iters("ovf", "any", 80, 60)
			s.iters("mix", "any", 80, 60)
			s.iters("bin", "bi", 60, 60)
			s.iters("max", "inl", 120, 60)
			s.iters("lcp", "wide", 60, 60)
			s.iters("nest", "edge", 40, 60)
		})
		s.times(1, 4, func() {
			s.asks("OD", "mix", "any", 80, 150, obs{rmode: "iter"})
			s.asks("OD", "max", "inl", 150, 150, obs{rmode: "iter"})
			s.iters("short", "big", 8, 40)
		})
	},
	"C07": func(s *suite) {
		s.plan("KV", "D", planOpts{profs: 3, every: 2})
		s.plan("LinHash", "D", planOpts{every: 1})
		s.times(2, 8, func() {
			s.dWindows(30, obs{})
			s.dictMatrix(obs{full: 8, open: 300}, 3)
			s.dBig(obs{full: 8, open: 100})
			s.dictWides(obs{})
			s.dFar(obs{full: 20})
			s.hmBrinks(false)
			s.dAsks(obs{})
			s.scans("short", "any", 60, 30)
			s.scans("mix", "any", 300, 6)
			s.scans("coll", "small", 40, 30)
		})
	},
	"C08": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 3, snap: 30})
		s.times(1, 8, func() {
			s.odWindows(30, obs{snap: 1})
			s.odMatrix(obs{snap: 60}, 3)
			s.odTalls(obs{snap: 1})
			s.odTall(obs{snap: 1}, 20000, "max", "inl", nil)
			s.odThins(obs{snap: 1})
			s.odBig(obs{snap: 30})
			s.odFar(obs{snap: 50})
			s.btBrinks(false)
			s.odRises(obs{snap: 1})
			s.odMany(obs{snap: 1})
			s.odDenses(obs{snap: 60})
		})
		s.times(2, 16, func() {
			s.brim(obs{snap: 1}, 30000, 1000, 5)
			s.brim(obs{snap: 1}, 30000, 1000, 50)
		})
	},
	// no property: histories for BPTreeTrace
	"TREE": func(s *suite) {
		s.times(1, 10, func() {
			o := obs{snap: 5, rng: 4, stat: 5}
			for i, p := range []prof{{"max", "inl"}, {"bimodal", "bi"}, {"edge257", "edge"}, {"ovf", "edge"}, {"mix", "any"}, {"short", "wide"}, {"long", "none"}} {
				n := 400
				s.one("OD", "model", p.kp, p.vp, 300, o, [][]phase{
					{{"grow", n, ""}, {"seps", n, ""}, {"resize", n / 2, "none"}, {"resize", n / 2, "edge"}, {"cshrink", n, ""}, {"mixed", n, ""}, {"shrink", n, ""}},
					{{"asc", n / 2, ""}, {"cgrow", n, ""}, {"cresize", n, "bi"}, {"dasc", n / 2, ""}, {"seps", n, ""}, {"mixed", n, ""}},
					{{"desc", n / 2, ""}, {"mixed", n, ""}, {"seps", n, ""}, {"qedeu", n, ""}, {"ddesc", n / 2, ""}, {"cshrink", n, ""}},
				}[i%3], nil)
			}
			s.treeTall(4000, "max", "inl")
			s.treeTall(2500, "bimodal", "bi")
			s.odAim(obs{snap: 1}, 4500, "duo", "flat", 30)
			s.odAim(obs{snap: 1}, 4501, "duo", "flat", 30)
		})
	},
	"C09": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 5, stat: 1})
		s.times(2, 8, func() {
			s.odWindows(30, obs{snap: 3})
			s.odMatrix(obs{stat: 1, snap: 120, open: 400}, 3)
			s.odTalls(obs{snap: 1})
			s.odBig(obs{stat: 1, snap: 60})
			s.odFar(obs{stat: 1, snap: 100})
			s.btBrinks(false)
			s.odRises(obs{snap: 1})
			s.odMany(obs{snap: 1})
			s.odAsks(obs{stat: 1, snap: 1})
			s.odDenses(obs{stat: 1, snap: 60})
		})
	},
	"C10": func(s *suite) {
		s.plan("KV", "D", planOpts{profs: 5, stat: 1})
		s.plan("LinHash", "D", planOpts{stat: 1})
		s.times(2, 8, func() {
			s.dWindows(30, obs{snap: 3})
			s.dictMatrix(obs{stat: 1, snap: 120, open: 400}, 3)
			s.dictWides(obs{snap: 1})
			s.dAsks(obs{stat: 1, snap: 1})
			s.dictSteps(obs{})
			s.hmWide()
			s.dBig(obs{stat: 1, snap: 60})
			s.dFar(obs{stat: 1, snap: 100})
			s.hmBrinks(false)
			s.shared([]string{"HM", "HM"}, false, 150)
		})
	},
	"C11": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 3, snap: 30, reap: true})
		s.times(2, 8, func() {
			s.odWindows(20, obs{snap: 2, reap: true})
			s.odMatrix(obs{snap: 90, reap: true, stat: 50}, 3)
			s.odTalls(obs{snap: 1, reap: true})
			s.odBig(obs{snap: 20, reap: true, stat: 20})
			s.btBrinks(false)
			s.odRises(obs{snap: 1, reap: true})
			s.odDenses(obs{snap: 60, reap: true})
		})
	},
	"C12": func(s *suite) {
		s.plan("KV", "D", planOpts{profs: 3, snap: 30, reap: true})
		s.plan("LinHash", "D", planOpts{snap: 60, reap: true})
		s.times(2, 8, func() {
			s.dWindows(20, obs{snap: 2, reap: true})
			s.dictMatrix(obs{snap: 90, reap: true, stat: 50}, 3)
			s.dictWides(obs{snap: 1, reap: true})
			s.dBig(obs{snap: 20, reap: true, stat: 20})
			s.hmBrinks(false)
		})
	},
	"C13": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 5, keep: 9, every: 15})
		s.plan("KV", "D", planOpts{profs: 5, keep: 9, every: 15})
		s.times(3, 12, func() {
			o := obs{keep: 40, full: 60, rng: 30, open: 500}
			s.odMatrix(o, 2)
			s.dictMatrix(o, 2)
			s.odBig(obs{keep: 15, full: 15, rng: 10, open: 60})
			s.dBig(obs{keep: 15, full: 15, rng: 10, open: 60})
			s.odAsks(obs{keep: 1})
			s.dAsks(obs{keep: 1})
			s.btBrinks(true)
			s.hmBrinks(true)
		})
	},
	"C14": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 5, stat: 1, every: 25})
		s.plan("KV", "D", planOpts{profs: 5, stat: 1, every: 25})
		s.times(2, 8, func() {
			o := obs{idle: 2, full: 80, open: 400}
			s.odMatrix(o, 2)
			s.dictMatrix(o, 2)
			s.odBig(obs{idle: 1, full: 20, open: 60})
			s.dBig(obs{idle: 1, full: 20, open: 60})
		})
	},
	"C15": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 3})
		s.plan("KV", "D", planOpts{profs: 3})
		s.times(3, 24, func() {
			s.opens("OD")
			s.opens("D")
		})
	},
	"C16": func(s *suite) {
		s.plan("KV", "OD", planOpts{profs: 7, stat: 3})
		s.times(2, 8, func() {
			s.odMatrix(obs{sent: 2, rng: 12, open: 300, snap: 300}, 2)
			s.odBig(obs{sent: 2, rng: 4})
			s.odFar(obs{sent: 3})
			s.odAsks(obs{sent: 1})
			s.odDenses(obs{sent: 1, rng: 20})
			s.odRises(obs{sent: 1})
			s.odMany(obs{sent: 1})
		})
	},
	"C17": func(s *suite) {
		s.times(2, 6, func() {
			s.dWindows(20, obs{snap: 2})
			s.odWindows(20, obs{snap: 2})
			s.goldens(300)
			s.odMatrix(obs{snap: 150}, 1)
			s.dictMatrix(obs{snap: 150}, 1)
			s.odFar(obs{snap: 50})
			s.dFar(obs{snap: 50})
		})
	},
	"C18": func(s *suite) {
		for _, a := range []string{"BT+HM", "BT+BT", "HM+HM", "BT+HM+BT"} {
			s.plan("Shared", a, planOpts{profs: 7})
		}
		s.times(4, 16, func() {
			s.shared([]string{"BT", "HM"}, false, 250)
			s.shared([]string{"BT", "BT"}, false, 250)
			s.shared([]string{"HM", "HM"}, false, 250)
			s.shared([]string{"BT", "HM", "BT", "HM", "BT"}, false, 500)
			s.shared([]string{"BT"}, false, 200)
			s.shared([]string{"HM"}, false, 200)
			s.shared([]string{"BT", "HM"}, true, 200)
			s.several(250)
			s.lanes(8, 25)
			s.lanes(3, 40)
			s.twins("OD", "ovf", "edge", 120, 40)
			s.twins("OD", "edge257", "wide", 200, 30)
			s.twins("D", "edge24", "any", 150, 40)
			s.twins("D", "lcp", "wide", 80, 30)
			s.brinks("ovf", "edge", 60, 60, true, "BT", "HM")
			s.brinks("mix", "any", 80, 60, true, "BT", "BT")
			s.brinks("edge24", "any", 80, 60, true, "HM", "HM")
		})
	},
	"C19": func(s *suite) {
		s.times(2, 12, func() {
			s.dumps("tiny", "any", 120, 150)
			s.dumps("mix", "any", 300, 400)
			s.dumps("max", "inl", 500, 600)
			s.dumps("ovf", "edge", 300, 400)
			s.dumps("bin", "wide", 150, 200)
			s.dumps("bimodal", "none", 500, 600)
			s.dumps("long", "tiny", 500, 600)
			s.dumps("giant", "tiny", 60, 60)
			s.dumps("huge", "chunk", 40, 50)
			s.dumps("dense", "none", 2500, 300)
			s.dumpTall(3000, "duo", "flat")
			s.dumpTall(1500, "max", "inl")
		})
	},
	"C20": func(s *suite) {
		s.plan("LinHash", "D", planOpts{})
		s.times(3, 12, func() {
			s.cursors("num", "tiny", 60, 30, false)
			s.cursors("short", "any", 200, 12, false)
			s.cursors("edge24", "small", 400, 8, false)
			s.cursors("lcp", "tiny", 120, 16, true)
			s.cursors("mix", "wide", 300, 8, true)
			s.cursors("coll", "small", 60, 20, false)
			s.cursors("tiny", "none", 30, 60, false)
		})
		s.times(1, 4, func() {
			s.cursorWide(9000)
			s.cursorWide(62000)
		})
		s.times(2, 6, func() { s.cursorRegrow(17000) })
	},
	"C21": func(s *suite) {
		s.plan("LinHash", "D", planOpts{snap: 3})
		s.times(2, 8, func() {
			s.dWindows(30, obs{snap: 1})
			s.dictMatrix(obs{snap: 30}, 3)
			s.dictWides(obs{snap: 1})
			s.dBig(obs{snap: 15})
			s.dFar(obs{snap: 50})
			s.hmBrinks(false)
		})
	},
}

// cursorRegrow: scans that wait in the second and third directory while the
// dictionary shrinks to less than one and grows again, other data taking the
// space in between.
func (s *suite) cursorRegrow(K int) {
	s.add(fmt.Sprintf("D/seq8-%d-cursor-regrow", K), K, func(t *T) {
		t.setKeys(genKeys(t.rng, "seq8", K))
		r := t.rng
		in := t.newInst("D", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, "tiny", obs{})
		w.batch("set", 1, 1, K, "tiny", false)
		var cs []*scanner
		for i, n := range []int{K / 20, K/2 + r.N(K/10), K * 9 / 10} {
			c := t.newCursor(in, i+1)
			for j := 0; j < n; j++ {
				t.scanStep(in, c)
			}
			cs = append(cs, c)
		}
		if r.P(40) {
			w.batch("clr", 1, 1, K, "", false)
		} else {
			w.batch("clr", 1, 1, K-300-r.N(300), "", false)
		}
		if r.P(70) { // values that take the blocks of the directories
			w.batch("set", K-250, 1, 60, "dir", false)
		}
		w.batch("sin", 1+r.N(K/10), 1, K, "tiny", false)
		t.scanStep(in, cs[0])
		for j := 0; j < K/8; j++ {
			t.scanStep(in, cs[1])
		}
		w.batch("clr", K-250, 1, 60, "", false)
		for i := 2; i >= 0; i-- {
			for j := 0; t.scanStep(in, cs[i]); j++ {
				if j%199 == 0 {
					w.put(w.pick(true))
				}
			}
		}
		w.all()
		t.close(in)
	})
}

// dictSteps: statistics after every single change around directory limits.
func (s *suite) dictSteps(o obs) {
	s.add("D/steps", 20000, func(t *T) {
		K := 30000
		t.setKeys(genKeys(t.rng, "seq8", K))
		in := t.newInst("D", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, "none", o)
		// one directory holds 4096 slots: crossed upwards near 6628 items, and
		// downwards near 3314
		walk := func(from, to, n int) {
			k := from
			for k != to {
				m := n
				if to > from {
					if k+m > to {
						m = to - k
					}
					w.batch("sin", k+1, 1, m, "none", false)
					k += m
				} else {
					if k-m < to {
						m = k - to
					}
					w.batch("clr", k-m+1, 1, m, "", false)
					k -= m
				}
				t.stats(in)
			}
		}
		walk(0, 6600, 1100)
		walk(6600, 6660, 1)
		walk(6660, 13200, 1000)
		walk(13200, 13290, 1)
		walk(13290, 19840, 700)
		walk(19840, 19910, 1)
		walk(19910, 6660, 500)
		walk(6660, 6600, 1)
		walk(6600, 3340, 300)
		walk(3340, 3300, 1)
		walk(3300, 0, 300)
		walk(0, 30000, 3000)
		walk(30000, 10, 3000)
		walk(10, 0, 1)
		w.all()
		t.close(in)
	})
}

// treeTall: a high tree, made in one go, then changed key by key around the
// separators of its pages.
func (s *suite) treeTall(K int, kp, vp string) {
	s.add(fmt.Sprintf("OD/%s-%s-%d-treetall", kp, vp, K), K*3, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		K := t.K()
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, obs{snap: 150, rng: 10, stat: 30})
		w.batch("set", 1, 2, K, vp, true)
		w.snap()
		w.run("cgrow", K/4, vp)
		w.run("seps", K/8, "")
		w.run("resize", K/8, "none")
		w.run("cresize", K/8, "inl")
		w.run("cshrink", K/4, "")
		w.run("seps", K/8, "")
		w.run("shrink", K/4, "")
		w.run("asc", K/8, vp)
		w.run("dasc", K/8, "")
		w.run("seps", K/8, "")
		w.run("cshrink", K/4, "")
		w.run("mixed", K/8, "")
		w.snap()
		t.close(in)
	})
}
