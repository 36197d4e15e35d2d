package main

import "fmt"

// asks puts the same few questions again and again, one kind for a while, and
// between two askings makes changes of one kind: replacements that leave the
// counts and sizes as they were, values that only grow or only shrink, records
// that only come or only go. An answer, or the place where it was found, that
// was kept from the time before must not be given then.
func (s *suite) asks(api, kp, vp string, K, rounds int, o obs) {
	s.add(fmt.Sprintf("%s/%s-%s-%d-asks", api, kp, vp, K), rounds*8, func(t *T) {
		r := t.rng
		t.setKeys(genKeys(r, kp, K))
		K := t.K()
		in := t.newInst(api, "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		if o.rmode == "iter" {
			t.withB, w.itr = true, true
		}
		t.scrib = o.keep > 0
		ordered := in.ordered()
		var q, lo, hi int
		dir, ret := "asc", true
		question := func() {
			q = 1 + r.N(K)
			if p := w.pick(true); p > 0 && r.P(85) {
				q = p
			}
			lo = q - r.N(1+r.N(K/3+1))
			hi = q + r.N(1+r.N(K/3+1))
			if lo < 1 {
				lo = r.N(2)
			}
			if hi > K {
				hi = K + r.N(2)
			}
			dir = []string{"asc", "desc"}[r.N(2)]
			ret = r.P(80)
		}
		ask := func(kind int) {
			switch {
			case kind == 0:
				t.one(in, "tst", q, 0, ret)
			case kind == 1 && ordered:
				if w.itr {
					t.iterate(in, dir, lo, hi)
				} else {
					t.rangeAll(in, dir, lo, hi)
				}
			case kind == 1:
				t.scanAll(in)
			case kind == 2:
				t.stats(in)
			case kind == 3:
				t.one(in, "tst", 0, 0, ret)
			case kind == 4:
				t.one(in, "tst", K+1, 0, ret)
			}
		}
		size := func(k int) int {
			if v := w.val[k]; v > 0 {
				return len(t.vals[v-1])
			}
			return 0
		}
		set := func(k, n int) {
			v := 0
			if n > 0 {
				v = t.newVal(n)
			}
			w.val[k] = v
			t.one(in, "set", k, v, r.P(30))
			w.mark(k, true)
		}
		// some key: anywhere, about the question, or the question itself
		some := func(present bool) int {
			switch x := r.N(10); {
			case x < 2 && w.has[q] == present:
				return q
			case x < 6:
				if k := w.near(present, q, 2+r.N(12)); k > 0 {
					return k
				}
			}
			return w.pick(present)
		}
		change := func(kind int) {
			switch kind {
			case 0: // one goes, another of the same size comes
				a := some(true)
				b := 0
				for i := 0; i < 20; i++ {
					if b = some(false); b == 0 || a == 0 || len(t.keys[b-1]) == len(t.keys[a-1]) {
						break
					}
				}
				if a == 0 || b == 0 {
					return
				}
				n := size(a)
				if r.Bool() {
					w.del(a)
					set(b, n)
				} else {
					set(b, n)
					w.del(a)
				}
			case 1: // a value of the same size
				if k := some(true); k > 0 {
					set(k, size(k))
				}
			case 2, 3: // values grow or shrink, in a stretch, in key order or not
				k, n := some(true), 1+r.N(12)
				if k == 0 {
					return
				}
				d, z := 1-2*r.N(2), 0
				if kind == 2 {
					z = 128 - r.N(10)
				}
				for ; n > 0 && k >= 1 && k <= K; n, k = n-1, k+d {
					if w.has[k] {
						set(k, z)
					}
				}
			case 4: // records come
				for j := 1 + r.N(4); j > 0; j-- {
					w.put(some(false))
				}
			case 5: // records go
				for j := 1 + r.N(4); j > 0; j-- {
					w.del(some(true))
				}
			case 6: // the value of one record moves to another
				a, b := some(true), some(true)
				if a == 0 || b == 0 {
					return
				}
				n, m := size(a), size(b)
				set(a, m)
				set(b, n)
			case 7: // nothing is left, or what is left is taken out and put back
				if r.P(10) {
					w.clearAll("rand")
					w.batch("set", 1+r.N(3), 2, K, vp, false)
					return
				}
				if a := some(true); a > 0 {
					n := size(a)
					w.del(a)
					set(a, n)
				}
			}
		}
		w.batch("set", 1+r.N(2), 2, K, vp, false)
		for i := 0; i < rounds; {
			question()
			kind, what := r.N(5)%3, r.N(8)
			if o.sent > 0 && ordered {
				kind = 3 + r.N(2)
			} else if o.rmode == "iter" {
				kind = 1
			} else if o.stat > 0 {
				kind = 2
			}
			for j := 10 + r.N(50); j > 0; j-- {
				if r.P(4) {
					question()
				}
				ask(kind)
				if what == 4 && w.cnt > K*9/10 || what == 5 && w.cnt < K/10 {
					what = 9 - what
				}
				for c := 1 + r.N(1+r.N(4)); c > 0; c-- {
					change(what)
				}
				if r.P(8) {
					change(r.N(8))
				}
				i++
			}
			ask(kind)
			if r.P(30) {
				w.all()
			}
			if r.P(10) {
				w.reopen()
			}
		}
		if o.snap > 0 {
			w.snap()
		}
		w.all()
		t.recheck()
		t.close(in)
	})
}

func (s *suite) odAsks(o obs) {
	s.asks("OD", "max", "inl", 300, 400, o)
	s.asks("OD", "duo", "flat", 200, 300, o)
	s.asks("OD", "mix", "any", 120, 300, o)
	s.asks("OD", "seq8", "flat", 400, 300, o)
}

func (s *suite) dAsks(o obs) {
	s.asks("D", "seq8", "small", 120, 400, o)
	s.asks("D", "mix", "any", 100, 300, o)
	s.asks("D", "coll", "small", 60, 300, o)
}
