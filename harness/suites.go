package main

import (
	"fmt"
)

var goldenDir, planFile string

type suite struct {
	jobs []job
	tag  string // distinguishes repetitions
}

func (s *suite) add(id string, cost int, body func(t *T)) {
	id += s.tag
	s.jobs = append(s.jobs, job{id: id, body: body, cost: cost})
}

// od and dict run phases on one dictionary of package plainkv.
type phase struct {
	pat string
	n   int
	vp  string
}

func (s *suite) one(api, name, kp, vp string, K int, o obs, ph []phase, fin func(w *W)) {
	cost := 0
	for _, p := range ph {
		cost += p.n
	}
	s.add(fmt.Sprintf("%s/%s-%s-%d-%s", api, kp, vp, K, name), cost+K, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		if o.keep > 0 {
			t.scrib = true
		}
		in := t.newInst(api, "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		for _, p := range ph {
			if p.n > 0 {
				w.run(p.pat, p.n, p.vp)
				continue
			}
			// whole-structure phases
			switch p.pat {
			case "clear":
				w.clearAll(p.vp)
			}
			w.all()
		}
		if fin != nil {
			fin(w)
		}
		w.all()
		t.recheck()
		if o.snap > 0 {
			w.snap()
			w.all()
		}
		t.close(in)
	})
}

// growShrink is the standard life of a dictionary.
func life(n int) []phase {
	return []phase{{"grow", n, ""}, {"mixed", n / 2, ""}, {"shrink", n, ""}, {"grow", n / 2, ""}, {"clear", 0, "rand"}, {"grow", n / 4, ""}}
}

type prof struct{ kp, vp string }

// times repeats with other seeds; the thorough tier repeats more.
func (s *suite) times(quick, deep int, f func()) {
	n := quick
	if thorough {
		n = deep
	}
	for i := 1; i <= n; i++ {
		if i > 1 {
			s.tag = fmt.Sprintf("#%d", i)
		}
		f()
	}
	s.tag = ""
}

// odMatrix: ordered dictionaries over all key and value profiles.
func (s *suite) odMatrix(o obs, scale int) {
	small := []prof{{"tiny", "any"}, {"short", "edge"}, {"bin", "wide"}, {"edge257", "bi"}, {"nest", "tiny"}, {"mix", "any"}, {"sim", "small"}, {"low", "edge"}, {"var", "var"}}
	for _, p := range small {
		s.one("OD", "life", p.kp, p.vp, 150, o, life(150*scale), nil)
	}
	big := []prof{{"max", "inl"}, {"ovf", "edge"}, {"mix", "bi"}, {"bimodal", "bi"}, {"long", "wide"}, {"lcp", "small"}, {"edge257", "inl"}, {"bimodal", "none"}}
	for i, p := range big {
		n := 500 * scale
		ph := [][]phase{
			{{"grow", n, ""}, {"seps", n / 3, ""}, {"resize", n / 4, "none"}, {"resize", n / 4, "edge"}, {"cshrink", n, ""}, {"mixed", n / 3, ""}, {"clear", 0, "mid"}, {"cgrow", n / 4, ""}},
			{{"asc", n / 2, ""}, {"cgrow", n, ""}, {"cresize", n / 2, "bi"}, {"dasc", n / 2, ""}, {"seps", n / 4, ""}, {"clear", 0, "desc"}, {"desc", n / 4, ""}},
			{{"desc", n / 2, ""}, {"mixed", n / 2, ""}, {"seps", n / 2, ""}, {"qedeu", n / 2, ""}, {"ddesc", n / 4, ""}, {"cshrink", n / 2, ""}, {"clear", 0, "asc"}, {"grow", n / 4, ""}},
			{{"cgrow", n, ""}, {"deque", n / 2, ""}, {"cresize", n / 3, "none"}, {"cresize", n / 3, "inl"}, {"shrink", n, ""}, {"cgrow", n / 2, ""}, {"clear", 0, "both"}},
		}[i%4]
		s.one("OD", "deep", p.kp, p.vp, 600, o, ph, nil)
	}
}

// odTall: trees of height 4 and more, in few events.
func (s *suite) odTall(o obs, K int, kp, vp string, deepObs func(w *W)) {
	s.add(fmt.Sprintf("OD/%s-%s-%d-tall", kp, vp, K), K*3, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		r := t.rng
		see := func() {
			w.all()
			t.stats(in)
			if o.snap > 0 {
				w.snap()
			}
			for i := 0; i < 30; i++ {
				w.aRange()
			}
			if deepObs != nil {
				deepObs(w)
			}
		}
		w.batch("set", 1, 2, K, vp, true)
		see()
		w.batch("sin", 2, 4, K, vp, true)
		w.batch("tst", 1, 1, K, "", true)
		see()
		w.run("seps", 200, "")
		w.batch("sie", 1, 3, K, "bi", r.Bool())
		w.batch("clr", 1+r.N(3), 3, K, "", true)
		see()
		w.batch("clr", K/5, 1, K/2, "", true) // the middle goes
		see()
		w.run("seps", 200, "")
		w.batch("set", K/4, 1, K/6, vp, true)
		w.batch("clr", 1, 1, K/3, "", false)
		see()
		w.batch("clr", 1, 1, K, "", true)
		see()
		w.batch("sin", 1+r.N(5), 5, K, vp, true)
		see()
		t.close(in)
	})
}

// odThin: a high tree in which stretches are thinned and filled in key order.
func (s *suite) odThin(o obs, K int, kp, vp string, rounds int) {
	s.add(fmt.Sprintf("OD/%s-%s-%d-thin", kp, vp, K), K+rounds*K/10, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		K := t.K()
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		r := t.rng
		w.batch("set", 1, 1, K, vp, false)
		for i := 0; i < rounds; i++ {
			lo, span := 1+r.N(K), 1+r.N(K/4)
			st := 1 + r.N(1+r.N(4))
			// two strides interleaved leave gaps of several sizes
			for j := 1 + r.N(2); j > 0; j-- {
				dir := 1 - 2*r.N(2)
				if r.P(66) {
					w.batchIn(dir, "clr", lo+r.N(3), st, span/st, "", r.P(30))
				} else {
					w.batchIn(dir, "set", lo+r.N(3), st, span/st, vp, r.P(30))
				}
			}
			if i%8 == 7 {
				if o.snap > 0 {
					w.snap()
				}
				w.all()
				t.stats(in)
				for j := 0; j < 5; j++ {
					w.aRange()
				}
			}
		}
		w.batch("tst", 1, 1, K, "", true)
		w.batchIn(1-2*r.N(2), "clr", 1, 1, K, "", true)
		w.all()
		if o.snap > 0 {
			w.snap()
		}
		t.close(in)
	})
}

func (s *suite) odThins(o obs) {
	s.odThin(o, 12000, "duo", "flat", 60)
	s.odThin(o, 6000, "bimodal", "bi", 40)
	s.odAim(o, 7000, "duo", "flat", 60)
}

func (s *suite) dictMatrix(o obs, scale int) {
	for _, p := range []prof{{"tiny", "any"}, {"edge24", "small"}, {"bin", "wide"}, {"edge24", "any"}, {"short", "none"}, {"mix", "any"}, {"nest", "tiny"}, {"var", "var"}, {"coll", "small"}} {
		s.one("D", "life", p.kp, p.vp, 150, o, life(150*scale), nil)
	}
	for i, p := range []prof{{"num", "small"}, {"edge24", "edge"}, {"lcp", "tiny"}, {"seq8", "none"}, {"mix", "any"}, {"short", "wide"}, {"coll", "any"}} {
		n := 500 * scale
		ph := [][]phase{
			{{"grow", n, ""}, {"mixed", n, ""}, {"shrink", n, ""}, {"grow", n, ""}, {"resize", n / 4, "wide"}, {"clear", 0, "rand"}, {"grow", n / 4, ""}},
			{{"asc", n / 2, ""}, {"resize", n / 2, "any"}, {"dasc", n / 2, ""}, {"deque", n / 2, ""}, {"clear", 0, "asc"}, {"desc", n / 4, ""}},
			{{"cgrow", n, ""}, {"cshrink", n, ""}, {"mixed", n / 2, ""}, {"shrink", n, ""}, {"grow", n / 2, ""}, {"clear", 0, "both"}},
		}[i%3]
		s.one("D", "deep", p.kp, p.vp, 600, o, ph, nil)
	}
}

// dictWide: many slot directories, grown and shrunk, in few events.
func (s *suite) dictWide(o obs, K int, kp, vp string, deepObs func(w *W)) {
	s.add(fmt.Sprintf("D/%s-%s-%d-wide", kp, vp, K), K*3, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		in := t.newInst("D", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		r := t.rng
		see := func() {
			w.all()
			t.stats(in)
			if o.snap > 0 {
				w.snap()
			}
			if deepObs != nil {
				deepObs(w)
			}
		}
		w.batch("set", 1, 2, K, vp, true)
		see()
		w.batch("sin", 2, 2, K, vp, true)
		w.batch("tst", 1, 1, K, "", true)
		see()
		w.batch("sie", 1+r.N(7), 7, K, vp, true)
		w.batch("clr", 1+r.N(2), 2, K, "", true)
		see()
		w.batch("tst", 1, 1, K, "", true)
		w.batch("clr", 1, 1, K*7/10, "", true)
		see()
		w.batch("set", 1, 1, K*6/10, vp, true) // grow again over directories that were dropped
		see()
		w.batch("clr", 1, 1, K-3, "", false)
		see()
		w.batch("clr", 1, 1, K, "", true)
		see()
		w.batch("sin", 1, 9, K, vp, true)
		see()
		t.close(in)
	})
}

func suiteJobs(id string) []job {
	s := &suite{}
	f, ok := suites[id]
	if !ok {
		die("unknown suite %q", id)
	}
	f(s)
	return s.jobs
}
