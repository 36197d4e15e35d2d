package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

// ---------------------------------------------------------------- iterators

// iter is one iterator in use; its steps become one event when it is done.
type iter struct {
	t      *T
	in     *inst
	it     bptree.Iterator
	dir    string
	lo, hi int
	b      []byte
	n      int
}

func (t *T) newIter(in *inst, dir string, lo, hi int) *iter {
	x := &iter{t: t, in: in, dir: dir, lo: lo, hi: hi}
	t.guard("iterate", func() {
		a, z := t.keyArg(lo), t.keyArg(hi)
		switch {
		case in.api == "OD" && dir == "asc":
			x.it = in.od.RangeAsc(a, z)
		case in.api == "OD":
			x.it = in.od.RangeDesc(a, z)
		case dir == "asc":
			x.it = in.bt.SearchForward(a, z)
		default:
			x.it = in.bt.SearchBackward(a, z)
		}
	})
	return x
}

// do performs one step and records it.
func (x *iter) do(k string, f func(e *jb)) {
	e := &jb{b: []byte(`{"q":"` + k + `"`)}
	x.t.guard("iterate", func() { f(e) })
	if x.n > 0 {
		x.b = append(x.b, ',')
	}
	x.n++
	x.b = append(x.b, e.done()...)
}

func (x *iter) end() (end bool) {
	x.do("end", func(e *jb) {
		end = x.it.IsAtEnd()
		e.t("x", end)
	})
	return
}

func (x *iter) adv() { x.do("adv", func(e *jb) { e.t("x", x.it.Advance() == x.it) }) }

func (x *iter) size(k string) {
	x.do(k, func(e *jb) {
		f := x.it.GetKeySize
		if k == "vsz" {
			f = x.it.GetValueSize
		}
		n, err := f()
		e.i("n", n).t("er", err != nil)
	})
}

// sizes asks for both sizes without recording it.
func (x *iter) sizes() (ks, vs int) {
	x.t.guard("iterate", func() {
		ks, _ = x.it.GetKeySize()
		vs, _ = x.it.GetValueSize()
	})
	return
}

// farOff is an offset far behind every end, where sums of lengths overflow.
func (t *T) farOff() int {
	r := t.rng
	return []int{math.MaxInt - r.N(40), math.MaxInt - r.N(400), 1<<32 + r.N(200), 1<<31 - 1 - r.N(300), 1<<31 + r.N(200)}[r.N(5)]
}

// part reads m bytes at offset o into a buffer with guards behind it.  Far
// offsets are all the same to the specification, which has 32-bit numbers.
func (x *iter) part(k string, o, m int) {
	x.do(k, func(e *jb) {
		buf := make([]byte, m+8)
		for i := range buf {
			buf[i] = 0xEE
		}
		f := x.it.ReadKey
		if k == "rv" {
			f = x.it.ReadValue
		}
		n, err := f(o, buf[:m:m+8])
		tl := true
		good := n
		if good < 0 || good > m {
			good = 0
			tl = false
		}
		for i := good; i < len(buf); i++ {
			tl = tl && buf[i] == 0xEE
		}
		e.i("o", min(o, 1<<30)).i("len", m).i("n", n).t("er", err != nil).bytes("b", buf[:good]).t("tl", tl)
	})
}

func (x *iter) whole(k string) {
	x.do(k, func(e *jb) {
		switch k {
		case "ka":
			k, err := x.it.ReadKeyAll()
			e.t("er", err != nil).bytes("b", k)
		case "va":
			v, err := x.it.ReadValueAll()
			e.t("er", err != nil).bytes("b", v)
		default:
			k, v, err := x.it.ReadRecordAll()
			e.t("er", err != nil).bytes("b", k).bytes("c", v)
		}
	})
}

func (x *iter) done() {
	x.b = append(append([]byte{'['}, x.b...), ']')
	x.t.emit(ev("it").i("d", x.in.n).s("dir", x.dir).i("lo", x.lo).i("hi", x.hi).raw("s", x.b).done())
	x.t.nOps++
}

// reads reads at random in and around the record x is at.
func (x *iter) reads() {
	r := x.t.rng
	ks, vs := x.sizes()
	size := func(n int) int {
		m := 0
		switch r.N(6) {
		case 0:
		case 1:
			m = 1 + r.N(4)
		case 2:
			m = n
		case 3:
			m = n + 1 + r.N(20)
		default:
			m = r.N(n + 3)
		}
		if m > 4000 {
			m = r.N(4000)
		}
		return m
	}
	off := func(n, edge int) int {
		switch r.N(7) {
		case 0:
			return 0
		case 1:
			return n
		case 2:
			return n + 1 + r.N(300)
		case 3:
			return max(n-1, 0)
		case 4:
			return max(edge-3+r.N(6), 0)
		default:
			return r.N(n + 1)
		}
	}
	part := func(k string, n, edge int) {
		o, m := off(n, edge), size(n)
		if r.P(4) {
			o = x.t.farOff()
		}
		if o < 1<<30 && r.P(30) { // a window across the edge between page and overflow
			o, m = edge-r.N(10), 20+r.N(20)
		}
		x.part(k, o, m)
	}
	for j := r.N(4); j > 0; j-- {
		switch r.N(7) {
		case 0, 1:
			part("rk", ks, 249)
		case 2, 3:
			part("rv", vs, 121)
		case 4:
			x.whole("ka")
		case 5:
			x.whole("va")
		case 6:
			x.whole("ra")
		}
	}
}

// iterate uses one iterator step by step: partial reads, repeated reads,
// reads at and behind the end.
func (t *T) iterate(in *inst, dir string, lo, hi int) {
	r := t.rng
	x := t.newIter(in, dir, lo, hi)
	extra := 2 + r.N(3)
	for i := 0; i < 2*t.K()+20; i++ {
		end := x.end()
		if r.P(50) || end {
			x.size("ksz")
			x.size("vsz")
		}
		x.reads()
		if end {
			if extra == 0 {
				break
			}
			extra--
		}
		x.adv()
		if r.P(10) { // two steps at once
			x.adv()
		}
	}
	x.done()
}

// together uses several iterators at the same time, and single reads of the
// dictionary between their steps.
func (t *T) together(w *W, n int) {
	r := t.rng
	var xs []*iter
	for i := 0; i < n; i++ {
		xs = append(xs, t.newIter(w.in, []string{"asc", "desc"}[r.N(2)], r.N(t.K()+2), r.N(t.K()+2)))
	}
	for i := 0; i < 2*n*t.K()/3+20; i++ {
		x := xs[r.N(n)]
		switch r.N(12) {
		case 0:
			x.end()
		case 1, 2, 3:
			x.reads()
		case 4:
			x.size("ksz")
		case 5:
			x.size("vsz")
		case 6:
			t.one(w.in, "tst", 1+r.N(t.K()), 0, true)
		default:
			x.adv()
		}
	}
	for _, x := range xs {
		x.done()
	}
}

// ---------------------------------------------------------------- cursors

type scanner struct {
	c     int // number in the trace
	cur   plainkv.DictCursor
	steps int
	on    bool
}

func (t *T) newCursor(in *inst, c int) *scanner {
	t.emit(ev("cur").i("c", c).i("d", in.n).done())
	return &scanner{c: c, on: true}
}

func (t *T) scanStep(in *inst, s *scanner) bool {
	var k, v []byte
	var ok bool
	t.guard("scan", func() { k, v, ok = in.scan(&s.cur) })
	t.nOps++
	s.steps++
	e := ev("sc").i("c", s.c).t("ok", ok)
	if ok {
		e.i("k", t.lookKey(k)).i("v", t.lookVal(v))
	} else {
		s.on = false
	}
	t.emit(e.done())
	if s.steps > 30*t.K()+1000 {
		t.emit(ev("hang").s("op", "scan").s("msg", "a scan does not end").done())
		t.dead = true
		panic(traceAbort{})
	}
	return ok
}

// ---------------------------------------------------------------- dumps

var glyph = map[rune]byte{'─': '-', '┬': 'T', '├': 'F', '└': 'L', '│': 'I', '●': 'o', ' ': ' '}

// what writers may return, io.EOF included
var writeErrs = []error{
	errors.New("writer is full"), io.EOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrNoProgress,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, syscall.EPIPE, syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN,
	context.Canceled, fmt.Errorf("wrapped: %w", io.EOF), errors.New(""),
	&os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE},
}

type failWriter struct {
	left  int // bytes (or calls) until it fails
	calls bool
	err   error
	after int
	got   []byte
	dead  bool
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.dead {
		f.after++
		return 0, f.err
	}
	if f.calls {
		if f.left == 0 {
			f.dead = true
			return 0, f.err
		}
		f.left--
		f.got = append(f.got, p...)
		return len(p), nil
	}
	if len(p) > f.left {
		f.got = append(f.got, p[:f.left]...)
		f.dead = true
		return f.left, f.err
	}
	f.left -= len(p)
	f.got = append(f.got, p...)
	return len(p), nil
}

// dump records Fprint of a tree together with the tree as decoded from the file.
func (t *T) dump(w *W) {
	in := w.in
	var out bytes.Buffer
	var err error
	t.guard("fprint", func() { err = in.bt.Fprint(&out) })
	lf := in.bt.NumberOfLeafs()
	lines := []byte{'['}
	bad := ""
	text := out.String()
	// a drawing, a quoted key, perhaps = and a quoted value, a newline in the drawing
	for i, l := 0, strings.Split(text, "\n"); i < len(l); i++ {
		s := l[i]
		if s == "" {
			if i > 0 {
				bad = "empty line"
			}
			if len(l) == 1 {
				break
			}
			continue
		}
		var dr []byte
		if i > 0 {
			dr = append(dr, 'n')
		}
		rest := ""
		for j, c := range s {
			if c == '"' {
				rest = s[j:]
				break
			}
			g, ok := glyph[c]
			if !ok {
				g = '?'
			}
			dr = append(dr, g)
		}
		k, v := 0, -2
		if q, e := strconv.QuotedPrefix(rest); e == nil {
			u, _ := strconv.Unquote(q)
			k = t.lookKey([]byte(u))
			rest = rest[len(q):]
			if rest != "" {
				v = unknown - 1
				if strings.HasPrefix(rest, "=") {
					if u, e := strconv.Unquote(rest[1:]); e == nil {
						v = t.lookVal([]byte(u))
						if v == unknown {
							v = unknown - 1
						}
					}
				}
			}
		}
		if len(lines) > 1 {
			lines = append(lines, ',')
		}
		lines = append(lines, '[')
		lines = append(lines, jsonStr(string(dr))...)
		lines = append(lines, ',')
		lines = strconv.AppendInt(lines, int64(k), 10)
		lines = append(lines, ',')
		lines = strconv.AppendInt(lines, int64(v), 10)
		lines = append(lines, ']')
	}
	if bad != "" {
		lines = append(lines, `,["`+bad+`",0,-9]`...)
	}
	lines = append(lines, ']')
	// failing writers
	for i := 0; i < 6; i++ {
		fw := &failWriter{err: writeErrs[t.rng.N(len(writeErrs))], calls: t.rng.Bool()}
		if fw.calls {
			fw.left = t.rng.N(2*in.bt.NumberOfRecords() + 2)
		} else {
			fw.left = t.rng.N(len(text) + 1)
		}
		var e error
		t.guard("fprint", func() { e = in.bt.Fprint(fw) })
		if !fw.dead {
			continue
		}
		t.emit(ev("fpe").i("d", in.n).t("es", e == fw.err || errors.Is(e, fw.err)).i("aw", fw.after).t("pr", strings.HasPrefix(text, string(fw.got))).done())
	}
	t.nOps++
	var ts *treeSnap
	w.st.cycleWith(func() { ts = decodeTree(t, in.path, in.info) })
	w.seps = ts.separators()
	e := ev("fp").i("d", in.n).t("err", err != nil).i("lf", lf).s("derr", ts.err).i("ht", ts.height).raw("lines", lines)
	t.emit(e.raw("nodes", ts.nodesJSON()).done())
}

// ---------------------------------------------------------------- shared storage

// store is one file storage that several structures live in.
type store struct {
	t    *T
	path string
	fs   *fsm.FileStorage
	ins  []*inst
	ws   []*W
	reap bool

	blocks, chunks []int64 // space nobody uses
}

func (t *T) newStore(file string) *store {
	s := &store{t: t, path: filepath.Join(t.dir, file)}
	s.open()
	return s
}

func (s *store) open() {
	s.fs = new(fsm.FileStorage).Init()
	if err := s.fs.Open(s.path, true); err != nil {
		die("storage: %v", err)
	}
}

// pad makes every later address larger than 4 GiB; the file stays sparse.
func (s *store) pad(n int) {
	for i := 0; i < n; i++ {
		s.fs.AllocateAlignedSpace(1 << 32)
	}
}

func (s *store) add(api string) *inst {
	in := s.t.newInst(api, filepath.Base(s.path))
	in.fs = s.fs
	in.info = -1
	s.ins = append(s.ins, in)
	return in
}

func (s *store) life(in *inst, q string) {
	t := s.t
	t.guard(q, func() {
		switch in.api + q {
		case "BTcreate":
			in.bt = new(bptree.BPTree).Init(s.fs)
			in.bt.Create()
		case "BTstore":
			in.info = in.bt.Store()
		case "BTload":
			if in.bt == nil || t.rng.Bool() {
				in.bt = new(bptree.BPTree)
			}
			in.bt.Init(s.fs)
			in.bt.Load(in.info)
			in.info = -1
		case "BTdestroy":
			in.bt.Destroy()
		case "HMcreate":
			in.hm = new(hashmap.HashMap).Init(s.fs)
			in.hm.Create()
		case "HMstore":
			in.info = in.hm.Store()
		case "HMload":
			if in.hm == nil || t.rng.Bool() {
				in.hm = new(hashmap.HashMap)
			}
			in.hm.Init(s.fs)
			in.hm.Load(in.info)
			in.info = -1
		case "HMdestroy":
			in.hm.Destroy()
		default:
			die("life %s%s", in.api, q)
		}
	})
	in.open = q == "create" || q == "load"
	t.emit(ev("life").i("d", in.n).s("q", q).done())
}

// cycleWith stores everything, closes the storage, and brings it all back.
func (s *store) cycleWith(f func()) {
	var live []*inst
	for _, in := range s.ins {
		if in.open {
			live = append(live, in)
		}
	}
	for _, i := range s.t.rng.Perm(len(live)) {
		s.life(live[i], "store")
	}
	if err := s.fs.Close(); err != nil {
		die("storage: %v", err)
	}
	if f != nil {
		f()
	}
	s.open()
	for _, i := range s.t.rng.Perm(len(live)) {
		s.life(live[i], "load")
	}
}

// reopen closes and opens the storage, all structures being stored.
func (s *store) reopen() {
	if err := s.fs.Close(); err != nil {
		die("storage: %v", err)
	}
	s.open()
}

func (s *store) cycle(snap bool) {
	if !snap {
		s.cycleWith(nil)
		return
	}
	for _, w := range s.ws {
		if w.in.open {
			s.t.stats(w.in)
		}
	}
	s.cycleWith(func() {
		var sps []spaces
		err := ""
		for _, w := range s.ws {
			if w.in.info >= 0 {
				sp, e := w.disk()
				sps = append(sps, sp)
				if e != "" {
					err = e
				}
			}
		}
		if s.reap {
			s.t.reapEv(s.path, err, sps...)
		}
	})
	for _, w := range s.ws {
		if w.in.open {
			s.t.stats(w.in)
		}
	}
}

// brink takes all space that is left in the mapping of the file, so that the
// next allocation moves it; with a hole at the end, so does the release of
// what is allocated next.
func (s *store) brink() {
	r, fs := s.t.rng, s.fs
	if fs.Stats().MappedSpaceSize > 1<<29 || len(s.chunks) > 2000 || r.P(4) {
		s.deflate()
	}
	m := fs.Stats().MappedSpaceSize
	if r.P(70) { // the blocks chunks are taken from
		for sz := 60000; sz >= 8; sz = sz * 2 / 3 {
			for i := 0; i < 40; i++ {
				al := fs.Stats().AllocatedSpaceSize
				a, _ := fs.AllocateSpace(sz)
				if fs.Stats().AllocatedSpaceSize != al {
					fs.FreeSpace(a)
					break
				}
				s.chunks = append(s.chunks, a)
			}
		}
		m = fs.Stats().MappedSpaceSize
	}
	for sz := 1 << 28; sz >= 4096; sz /= 2 {
		for sz < m {
			a, _ := fs.AllocateAlignedSpace(sz)
			if fs.Stats().MappedSpaceSize > m {
				fs.FreeAlignedSpace(a)
				break
			}
			s.blocks = append(s.blocks, a)
		}
	}
	if n := len(s.blocks); n > 0 && r.P(40) {
		fs.FreeAlignedSpace(s.blocks[n-1])
		s.blocks = s.blocks[:n-1]
	}
}

func (s *store) deflate() {
	for _, a := range s.chunks {
		s.fs.FreeSpace(a)
	}
	for i := range s.blocks {
		s.fs.FreeAlignedSpace(s.blocks[len(s.blocks)-1-i])
	}
	s.chunks, s.blocks = nil, nil
}

// finish destroys everything; then nothing may be left.
func (s *store) finish() {
	s.deflate()
	for _, w := range s.ws {
		if !w.in.open {
			continue
		}
		w.clearAll("rand")
		s.life(w.in, "destroy")
	}
	s.t.emit(ev("left").i("n", page(int64(s.fs.Stats().AllocatedSpaceSize+4095))).done())
	if err := s.fs.Close(); err != nil {
		die("storage: %v", err)
	}
}

// ---------------------------------------------------------------- opening what is there

// held counts the descriptors and mappings of the process on a path.
func held(path string) (fds, maps int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.TrimSuffix(l, " (deleted)") == path {
			fds++
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasSuffix(strings.TrimSuffix(l, " (deleted)"), " "+path) {
			maps++
		}
	}
	return
}

type pathState struct {
	kind string
	data []byte
	list string
}

func pathIs(path string) (p pathState) {
	fi, err := os.Lstat(path)
	if err != nil {
		p.kind = "none"
		return
	}
	if fi.IsDir() {
		p.kind = "dir"
		es, _ := os.ReadDir(path)
		for _, e := range es {
			p.list += e.Name() + "/"
		}
		return
	}
	p.kind = "file"
	p.data, _ = os.ReadFile(path)
	return
}

func (p pathState) same(q pathState) bool {
	return p.kind == q.kind && p.list == q.list && bytes.Equal(p.data, q.data)
}

// openPath tries to open whatever is at the path of in.
func (t *T) openPath(in *inst, pre string, create bool) bool {
	before := pathIs(in.path)
	f0, m0 := held(in.path)
	var err error
	isNil := false
	t.guard("open", func() {
		switch in.api {
		case "OD":
			var h *plainkv.OrderedDict
			h, err = plainkv.OpenOrderedDict(in.path, create)
			in.od, isNil = h, h == nil
		case "D":
			var h *plainkv.Dict
			h, err = plainkv.OpenDict(in.path, create)
			in.d, isNil = h, h == nil
		}
	})
	ok := err == nil && !isNil
	e := ev("opn").i("d", in.n).s("pre", pre).t("cr", create).t("ok", ok).t("nil", isNil)
	in.open = ok
	if !ok {
		f1, m1 := held(in.path)
		e.t("same", before.same(pathIs(in.path))).i("fd", f1-f0).i("mp", m1-m0)
	}
	t.nOps++
	t.emit(e.done())
	return ok
}

func (t *T) released(in *inst) {
	f, m := held(in.path)
	t.emit(ev("rel").i("d", in.n).i("fd", f).i("mp", m).done())
}

// ---------------------------------------------------------------- golden files

type golden struct {
	Kind string   `json:"kind"` // od or dict
	Keys [][]byte `json:"keys"` // ascending; a superset of what the file holds
	Have []int    `json:"have"` // 1-based numbers of the keys it holds
	Vals [][]byte `json:"vals"` // their values
	File []byte   `json:"file"`
}

func readGolden(path string) *golden {
	f, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		die("%v", err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		die("%v", err)
	}
	g := &golden{}
	if err := json.Unmarshal(b, g); err != nil {
		die("%v", err)
	}
	return g
}

func goldenFiles() []string {
	fs, _ := filepath.Glob(filepath.Join(goldenDir, "*.json.gz"))
	sort.Strings(fs)
	if len(fs) == 0 {
		die("no golden files in %q", goldenDir)
	}
	return fs
}

func (g *golden) write(path string) {
	b, _ := json.Marshal(g)
	f, err := os.Create(path)
	if err != nil {
		die("%v", err)
	}
	z, _ := gzip.NewWriterLevel(f, 9)
	z.Write(b)
	z.Close()
	f.Close()
}

// makeGolden writes the golden files: done once, on the tree they stand for.
func makeGolden(dir string) {
	for _, c := range []struct {
		api, kp, vp string
		K           int
	}{
		{"OD", "tiny", "any", 0}, {"OD", "tiny", "any", 60}, {"OD", "mix", "any", 400}, {"OD", "ovf", "edge", 300}, {"OD", "bin", "wide", 200},
		{"OD", "max", "inl", 1500}, {"OD", "seq8", "bi", 3000}, {"OD", "huge", "chunk", 12},
		{"D", "tiny", "any", 0}, {"D", "tiny", "any", 60}, {"D", "mix", "any", 400}, {"D", "edge24", "edge", 500}, {"D", "bin", "wide", 200},
		{"D", "seq8", "tiny", 16000}, {"D", "huge", "chunk", 12},
	} {
		t := &T{id: "golden", rng: NewRng(uint64(c.K)*77 + fnv1a([]byte(c.api+c.kp+c.vp))), valID: map[string]int{}, extra: map[string]int{}, dir: scratchRoot}
		name := c.api + "-" + c.kp + "-" + c.vp + "-" + strconv.Itoa(c.K)
		K := c.K
		if K == 0 {
			K = 40
		}
		t.setKeys(genKeys(t.rng, c.kp, K))
		K = t.K()
		in := t.newInst(c.api, name+".db")
		t.mustOpen(in, true)
		m := make([]int, K+1)
		for i := range m {
			m[i] = absent
		}
		for i := 0; i < 3*c.K; i++ {
			k := 1 + t.rng.N(K)
			if t.rng.P(70) {
				v := t.genVal(c.vp)
				t.one(in, "set", k, v, false)
				m[k] = v
			} else {
				t.one(in, "clr", k, 0, false)
				m[k] = absent
			}
			if t.rng.N(c.K) == 0 {
				t.reopen(in)
			}
		}
		t.close(in)
		g := &golden{Kind: map[string]string{"OD": "od", "D": "dict"}[c.api], Keys: t.keys}
		for k := 1; k <= K; k++ {
			if m[k] != absent {
				g.Have = append(g.Have, k)
				var v []byte
				if m[k] > 0 {
					v = t.vals[m[k]-1]
				}
				g.Vals = append(g.Vals, v)
			}
		}
		var err error
		if g.File, err = os.ReadFile(in.path); err != nil {
			die("%v", err)
		}
		os.Remove(in.path)
		g.write(filepath.Join(dir, name+".json.gz"))
	}
}

// putGolden puts a golden file in place and says what it holds.
func (t *T) putGolden(g *golden, in *inst) {
	if err := os.WriteFile(in.path, g.File, 0644); err != nil {
		die("%v", err)
	}
	vs := make([]int, len(g.Have))
	for i := range vs {
		vs[i] = t.val(g.Vals[i])
	}
	have := g.Have
	if have == nil {
		have = []int{}
	}
	t.emit(ev("load").i("d", in.n).a("ks", have).a("vs", vs).done())
}
