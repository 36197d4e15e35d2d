package main

import "fmt"

// Aimed removals. When the first record of a leaf goes, the separator that
// leads to the leaf changes, and with it the load of a non-leaf: the path to
// the leaf may change while the leaf itself still has to be rebalanced. Random
// histories rarely bring both about at once; here the tree of the file is read
// and pages are led to their limits first. What follows is judged as every
// other history is: nothing depends on the sizes calculated here.

func recSize(k []byte, v int) int {
	return 8 + lim(len(k), 257) + lim(v, 129)
}

func lim(n, m int) int {
	if n > m {
		return m
	}
	return n
}

type aimLeaf struct {
	ks, vs []int // keys, sizes of the values
	load   int
}

func (w *W) aim() {
	t, in, r := w.t, w.in, w.t.rng
	t.close(in)
	ts := decodeTree(t, in.path, in.info)
	t.mustOpen(in, r.Bool())
	if ts.err != "" || ts.height < 3 {
		w.run("mixed", 10, "")
		return
	}
	w.seps = ts.separators()
	at := map[int64]*treeNode{}
	for i := range ts.nodes {
		at[ts.nodes[i].addr] = &ts.nodes[i]
	}
	type cand struct {
		n    *treeNode
		last bool
	}
	var cs []cand
	for i := range ts.nodes {
		if p := &ts.nodes[i]; !p.leaf && p.depth < ts.height-1 {
			for j, a := range p.ch {
				if c := at[a]; !c.leaf && c.depth == ts.height-1 && len(c.ch) > 3 {
					cs = append(cs, cand{c, j == len(p.ch)-1})
				}
			}
		}
	}
	if len(cs) == 0 {
		w.run("mixed", 10, "")
		return
	}
	c := cs[r.N(len(cs))]
	for i := 0; i < 4 && !c.last; i++ { // the last child has but a left sibling
		c = cs[r.N(len(cs))]
	}
	under := r.P(60)
	load := 8188 - c.n.free
	if load > 5400 && r.P(70) {
		under = false
	}
	keySize := func(k int) int {
		if k < 1 || k > t.K() {
			return 0
		}
		return lim(len(t.keys[k-1]), 257)
	}
	var ls []*aimLeaf
	for _, a := range c.n.ch {
		n := at[a]
		l := &aimLeaf{ks: append([]int(nil), n.ks...), load: 8172 - n.free}
		for _, v := range n.vs {
			s := 0
			if v > 0 && v <= len(t.vals) {
				s = len(t.vals[v-1])
			}
			l.vs = append(l.vs, s)
		}
		ls = append(ls, l)
	}
	const leafUnder, nodeUnder, nodeOver = 2770, 2869, 7919
	del := func(l *aimLeaf, i int) {
		w.del(l.ks[i])
		l.load -= 8 + keySize(l.ks[i]) + lim(l.vs[i], 129)
		l.ks = append(l.ks[:i], l.ks[i+1:]...)
		l.vs = append(l.vs[:i], l.vs[i+1:]...)
	}
	size := func(l *aimLeaf, i, n int) { // other value
		v := 0
		if n > 0 {
			v = t.newVal(n)
		}
		t.one(in, "set", l.ks[i], v, r.P(40))
		l.load += lim(n, 129) - lim(l.vs[i], 129)
		l.vs[i] = n
	}
	// next: where after the first record a key is that is shorter (longer)
	next := func(l *aimLeaf, shorter bool) int {
		for p := 1; p < len(l.ks) && p < 6; p++ {
			if d := keySize(l.ks[p]) - keySize(l.ks[0]); shorter && d < -50 || !shorter && d > 50 {
				return p
			}
		}
		return 0
	}
	// the leaf that is aimed at
	x := 0
	for i := 0; i < 30; i++ {
		j := 1 + r.N(len(ls)-1)
		if next(ls[j], under) > 0 {
			x = j
			break
		}
	}
	if x == 0 {
		w.run("mixed", 5, "")
		return
	}
	X := ls[x]
	step := keySize(X.ks[next(X, under)]) - keySize(X.ks[0])
	want := nodeUnder + r.N(-step*3/4+1)
	if !under {
		want = nodeOver - r.N(step*3/4+1)
	}
	// its non-leaf
	for i := 0; i < 200; i++ {
		if under && load-60 < want || !under && load+60 > want {
			break
		}
		y := 1 + r.N(len(ls)-1)
		if y == x {
			continue
		}
		Y := ls[y]
		p := next(Y, under)
		if p == 0 {
			continue
		}
		d := keySize(Y.ks[p]) - keySize(Y.ks[0])
		if under && load+d < nodeUnder || !under && load+d > nodeOver {
			continue
		}
		lost := 0
		for j := 0; j < p; j++ {
			lost += 8 + keySize(Y.ks[j]) + lim(Y.vs[j], 129)
		}
		for j := len(Y.ks) - 1; j >= p && Y.load-lost < leafUnder; j-- {
			if Y.vs[j] < 120 {
				size(Y, j, 128)
			}
		}
		if Y.load-lost < leafUnder {
			continue
		}
		for j := 0; j < p; j++ {
			del(Y, 0)
		}
		load += d
	}
	// the leaf
	for next(X, under) > 1 {
		del(X, 1)
	}
	if !r.P(15) {
		for len(X.ks) > 3 {
			i := len(X.ks) - 1
			if X.load-(8+keySize(X.ks[i])+lim(X.vs[i], 129)) < leafUnder {
				break
			}
			del(X, i)
		}
		first := 8 + keySize(X.ks[0]) + lim(X.vs[0], 129)
		for j := len(X.ks) - 1; j > 0 && X.load-first >= leafUnder; j-- {
			if n := X.load - leafUnder; n < X.vs[j] {
				size(X, j, X.vs[j]-n+r.N(4))
			} else if X.vs[j] > 0 {
				size(X, j, 0)
			}
		}
	}
	lo, hi := X.ks[0], X.ks[len(X.ks)-1]
	del(X, 0)
	from, to := lo-60, hi+60
	if from < 0 {
		from = 0
	}
	if to > t.K()+1 {
		to = t.K() + 1
	}
	t.rangeAll(in, []string{"asc", "desc"}[r.N(2)], from, to)
	w.batch("tst", from+1, 1, to-from-1, "", true)
	for i := r.N(6); i > 0; i-- {
		k := from + 1 + r.N(to-from-1)
		if w.has[k] {
			w.del(k)
		} else {
			w.put(k)
		}
	}
}

func (s *suite) odAim(o obs, K int, kp, vp string, rounds int) {
	s.add(fmt.Sprintf("OD/%s-%s-%d-aim", kp, vp, K), K*2+rounds*80, func(t *T) {
		t.setKeys(genKeys(t.rng, kp, K))
		K := t.K()
		in := t.newInst("OD", "x.db")
		t.mustOpen(in, true)
		w := newW(t, in, vp, o)
		r := t.rng
		w.batch("set", 1, 1, K, vp, false)
		if o.snap > 0 {
			w.snap()
		}
		see := func() {
			if o.snap > 0 {
				w.snap()
			}
			w.all()
			t.stats(in)
		}
		for i := 1; i <= rounds; i++ {
			w.aim()
			if i%10 == 0 {
				see()
				if lo := 1 + r.N(K); r.Bool() { // something to take away
					w.batchIn(r.N(3)-1, "set", lo, 1+r.N(3), K/8, vp, false)
				}
				if r.P(20) {
					w.batch("set", 1, 1, K, vp, false)
				}
				if o.snap > 0 {
					w.snap()
				}
			}
		}
		see()
		w.batchIn(1-2*r.N(2), "clr", 1, 1, K, "", true)
		see()
		t.close(in)
	})
}
