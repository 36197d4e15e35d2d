package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/roy2220/fsm"
)

// The decoders below read the files independently of the code under test:
// they implement the documented file layout directly on the bytes.

const fileHeader = 4096

type rawFile struct{ f *os.File }

func (rf rawFile) at(addr int64, n int) ([]byte, error) {
	if addr < 0 {
		return nil, fmt.Errorf("address %d", addr)
	}
	b := make([]byte, n)
	m, err := rf.f.ReadAt(b, fileHeader+addr)
	if err == io.EOF {
		err = fmt.Errorf("address %d: end of file", addr)
	}
	return b[:m], err
}

// some reads up to n bytes.
func (rf rawFile) some(addr int64, n int) ([]byte, error) {
	b, err := rf.at(addr, n)
	if err != nil && len(b) > 0 {
		return b, nil
	}
	return b, err
}

// sized reads [uvarint size][bytes].
func (rf rawFile) sized(addr int64) ([]byte, error) {
	h, err := rf.some(addr, 10)
	if err != nil {
		return nil, err
	}
	n, i := binary.Uvarint(h)
	if i <= 0 || n > 1<<30 {
		return nil, fmt.Errorf("bad size at %d", addr)
	}
	return rf.at(addr+int64(i), int(n))
}

func (rf rawFile) primary() (int64, error) {
	h := make([]byte, fileHeader)
	if _, err := rf.f.ReadAt(h, 0); err != nil {
		return 0, err
	}
	if string(h[:5]) != "!MSF." {
		return 0, errors.New("bad signature")
	}
	return int64(^binary.BigEndian.Uint64(h[5+5*8+16+8:])), nil
}

// spaces is what a structure owns.
type spaces struct {
	blocks []int64 // aligned
	chunks []int64
}

// gauge watches the non-leaves of an open tree.  It only steers histories and
// says when to look closer.
type gauge struct {
	height int
	root   int64
	load   int // of the root
	odd    bool
}

// find reads where the root is in the file of a closed tree.
func (g *gauge) find(path string, height int) {
	g.height, g.root = height, -1
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	rf := rawFile{f}
	if info, err := rf.primary(); err == nil {
		if b, err := rf.at(info, 57); err == nil {
			g.root = int64(binary.BigEndian.Uint64(b))
		}
	}
}

func (g *gauge) look(path string) {
	g.load, g.odd = 0, false
	if g.root < 0 || g.height < 2 {
		return
	}
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	rf := rawFile{f}
	var walk func(addr int64, depth int)
	walk = func(addr int64, depth int) {
		p, err := rf.at(addr, 8192)
		if err != nil {
			return
		}
		c := int(binary.BigEndian.Uint32(p))
		at := int(binary.BigEndian.Uint32(p[4:]))
		if c < 1 || 4+c*12 > 8192 || at > 8192 {
			g.odd = true
			return
		}
		free := at - 4 - c*12
		if depth == 1 {
			g.load = 8188 - free
		}
		g.odd = g.odd || c < 2 || free < 269 || depth > 1 && 3*(8188-free) < 8188
		for i := 0; i < c && depth+1 < g.height; i++ {
			walk(int64(binary.BigEndian.Uint64(p[8+i*12:])), depth+1)
		}
	}
	walk(g.root, 1)
}

type treeNode struct {
	leaf       bool
	addr       int64
	depth      int
	prev, next int64
	ks, vs     []int
	ch         []int64
	free       int
}

type treeSnap struct {
	root, tail, head                  int64
	height                            int
	leafs, nonleafs, records, payload int
	nodes                             []treeNode
	err                               string
	sp                                spaces
}

func decodeTree(t *T, path string, infoAddr int64) (ts *treeSnap) {
	ts = &treeSnap{}
	f, err := os.Open(path)
	if err != nil {
		ts.err = err.Error()
		return
	}
	defer f.Close()
	rf := rawFile{f}
	if infoAddr < 0 {
		if infoAddr, err = rf.primary(); err != nil {
			ts.err = err.Error()
			return
		}
	}
	b, err := rf.at(infoAddr, 57)
	if err != nil {
		ts.err = "info: " + err.Error()
		return
	}
	ts.sp.chunks = append(ts.sp.chunks, infoAddr)
	i64 := func(o int) int64 { return int64(binary.BigEndian.Uint64(b[o:])) }
	ts.root = i64(0)
	ts.height = int(int8(b[8]))
	ts.tail, ts.head = i64(9), i64(17)
	ts.leafs, ts.nonleafs, ts.records, ts.payload = int(i64(25)), int(i64(33)), int(i64(41)), int(i64(49))
	if ts.height < 1 || ts.height > 12 {
		ts.err = fmt.Sprintf("height %d", ts.height)
		return
	}
	if err := ts.walk(t, rf, ts.root, 1); err != nil {
		ts.err = err.Error()
	}
	return
}

func (ts *treeSnap) walk(t *T, rf rawFile, addr int64, depth int) error {
	if len(ts.nodes) > 200000 {
		return errors.New("too many nodes")
	}
	if addr&4095 != 0 {
		return fmt.Errorf("node address %d", addr)
	}
	p, err := rf.at(addr, 8192)
	if err != nil {
		return err
	}
	ts.sp.blocks = append(ts.sp.blocks, addr)
	i32 := func(o int) int { return int(int32(binary.BigEndian.Uint32(p[o:]))) }
	if depth == ts.height {
		n := treeNode{leaf: true, addr: addr, depth: depth}
		n.prev = int64(binary.BigEndian.Uint64(p[0:]))
		n.next = int64(binary.BigEndian.Uint64(p[8:]))
		c := i32(16)
		if c < 0 || 20+c*8 > 8192 {
			return fmt.Errorf("leaf %d: %d records", addr, c)
		}
		at := 8192
		if c > 0 {
			at = i32(20)
		}
		n.free = at - (20 + c*8)
		if n.free < 0 {
			return fmt.Errorf("leaf %d: records overlap headers", addr)
		}
		for i := 0; i < c; i++ {
			ko, vo, end := i32(20+i*8), i32(24+i*8), 8192
			if i+1 < c {
				end = i32(28 + i*8)
			}
			if ko != at || vo < ko || end < vo || end > 8192 {
				return fmt.Errorf("leaf %d: bad offsets of record %d", addr, i)
			}
			at = end
			k, err := ts.key(t, rf, p[ko:vo], true)
			if err != nil {
				return fmt.Errorf("leaf %d record %d: %v", addr, i, err)
			}
			v, err := ts.value(t, rf, p[vo:end])
			if err != nil {
				return fmt.Errorf("leaf %d record %d: %v", addr, i, err)
			}
			n.ks = append(n.ks, k)
			n.vs = append(n.vs, v)
		}
		ts.nodes = append(ts.nodes, n)
		return nil
	}
	n := treeNode{addr: addr, depth: depth}
	c := i32(0)
	if c < 1 || 4+c*12 > 8192 {
		return fmt.Errorf("non-leaf %d: %d children", addr, c)
	}
	at := i32(4)
	n.free = at - (4 + c*12)
	if n.free < 0 {
		return fmt.Errorf("non-leaf %d: keys overlap headers", addr)
	}
	for i := 0; i < c; i++ {
		ko, end := i32(4+i*12), 8192
		if i+1 < c {
			end = i32(16 + i*12)
		}
		if ko != at || end < ko || end > 8192 {
			return fmt.Errorf("non-leaf %d: bad offsets of child %d", addr, i)
		}
		at = end
		if i == 0 {
			if end != ko {
				return fmt.Errorf("non-leaf %d: first child has a key", addr)
			}
		} else {
			k, err := ts.key(t, rf, p[ko:end], false)
			if err != nil {
				return fmt.Errorf("non-leaf %d child %d: %v", addr, i, err)
			}
			n.ks = append(n.ks, k)
		}
		n.ch = append(n.ch, int64(binary.BigEndian.Uint64(p[8+i*12:])))
	}
	ts.nodes = append(ts.nodes, n)
	for _, a := range n.ch {
		if err := ts.walk(t, rf, a, depth+1); err != nil {
			return err
		}
	}
	return nil
}

func (ts *treeSnap) key(t *T, rf rawFile, b []byte, own bool) (int, error) {
	if len(b) > 257 {
		return 0, fmt.Errorf("key of %d bytes in the page", len(b))
	}
	if len(b) == 257 {
		a := int64(binary.BigEndian.Uint64(b[249:]))
		o, err := rf.sized(a)
		if err != nil {
			return 0, err
		}
		if own {
			ts.sp.chunks = append(ts.sp.chunks, a)
		}
		b = append(append([]byte(nil), b[:249]...), o...)
	}
	return t.lookKey(b), nil
}

func (ts *treeSnap) value(t *T, rf rawFile, b []byte) (int, error) {
	if len(b) > 129 {
		return 0, fmt.Errorf("value of %d bytes in the page", len(b))
	}
	if len(b) == 129 {
		a := int64(binary.BigEndian.Uint64(b[121:]))
		o, err := rf.sized(a)
		if err != nil {
			return 0, err
		}
		ts.sp.chunks = append(ts.sp.chunks, a)
		b = append(append([]byte(nil), b[:121]...), o...)
	}
	return t.lookVal(b), nil
}

func page(a int64) int {
	if a < 0 {
		return -1
	}
	return int(a / 4096)
}

func (ts *treeSnap) event(d int) []byte {
	e := ev("tree").i("d", d).s("err", ts.err).i("root", page(ts.root)).i("ht", ts.height).i("tail", page(ts.tail)).i("head", page(ts.head)).
		i("lf", ts.leafs).i("nl", ts.nonleafs).i("rc", ts.records).i("pl", ts.payload)
	return e.raw("nodes", ts.nodesJSON()).done()
}

func (ts *treeSnap) nodesJSON() []byte {
	var b []byte
	b = append(b, '[')
	for i := range ts.nodes {
		n := &ts.nodes[i]
		if i > 0 {
			b = append(b, ',')
		}
		if n.leaf {
			b = append(b, fmt.Sprintf(`{"t":"L","a":%d,"dp":%d,"pv":%d,"nx":%d,"fr":%d,"ks":`, page(n.addr), n.depth, page(n.prev), page(n.next), n.free)...)
			b = appendInts(b, n.ks)
			b = append(b, `,"vs":`...)
			b = appendInts(b, n.vs)
			b = append(b, '}')
		} else {
			ch := make([]int, len(n.ch))
			for j := range ch {
				ch[j] = page(n.ch[j])
			}
			b = append(b, fmt.Sprintf(`{"t":"N","a":%d,"dp":%d,"fr":%d,"ks":`, page(n.addr), n.depth, n.free)...)
			b = appendInts(b, n.ks)
			b = append(b, `,"ch":`...)
			b = appendInts(b, ch)
			b = append(b, '}')
		}
	}
	return append(b, ']')
}

// ---------------------------------------------------------------- hash map

type hashSlot struct {
	idx    int
	ks, vs []int
	kz     bool // stored key sums are right
}

type hashSnap struct {
	dirsAddr                                         int64
	dirs, dirShift, slots, slotShift, items, payload int
	slot                                             []hashSlot
	err                                              string
	sp                                               spaces
}

// protobuf: just enough of the wire format.
func pbFields(b []byte, f func(num int, wire int, v uint64, data []byte) error) error {
	for len(b) > 0 {
		tag, i := binary.Uvarint(b)
		if i <= 0 {
			return errors.New("bad tag")
		}
		b = b[i:]
		var v uint64
		var d []byte
		switch tag & 7 {
		case 0:
			v, i = binary.Uvarint(b)
			if i <= 0 {
				return errors.New("bad varint")
			}
			b = b[i:]
		case 1:
			if len(b) < 8 {
				return errors.New("short fixed64")
			}
			v = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			n, i := binary.Uvarint(b)
			if i <= 0 || n > uint64(len(b)-i) {
				return errors.New("bad length")
			}
			d = b[i : i+int(n)]
			b = b[i+int(n):]
		default:
			return fmt.Errorf("wire type %d", tag&7)
		}
		if err := f(int(tag>>3), int(tag&7), v, d); err != nil {
			return err
		}
	}
	return nil
}

func decodeHash(t *T, path string, infoAddr int64) (hs *hashSnap) {
	hs = &hashSnap{}
	f, err := os.Open(path)
	if err != nil {
		hs.err = err.Error()
		return
	}
	defer f.Close()
	rf := rawFile{f}
	if infoAddr < 0 {
		if infoAddr, err = rf.primary(); err != nil {
			hs.err = err.Error()
			return
		}
	}
	b, err := rf.sized(infoAddr)
	if err != nil {
		hs.err = "info: " + err.Error()
		return
	}
	hs.sp.chunks = append(hs.sp.chunks, infoAddr)
	if err := pbFields(b, func(num, wire int, v uint64, d []byte) error {
		if wire != 0 {
			return errors.New("wire type")
		}
		switch num {
		case 1:
			hs.dirsAddr = int64(v)
		case 2:
			hs.dirs = int(v)
		case 3:
			hs.dirShift = int(v)
		case 4:
			hs.slots = int(v)
		case 5:
			hs.slotShift = int(v)
		case 6:
			hs.items = int(v)
		case 7:
			hs.payload = int(v)
		default:
			return errors.New("unknown field")
		}
		return nil
	}); err != nil {
		hs.err = "info: " + err.Error()
		return
	}
	if err := hs.walk(t, rf); err != nil {
		hs.err = err.Error()
	}
	return
}

func (hs *hashSnap) walk(t *T, rf rawFile) error {
	if hs.dirs < 1 || hs.dirShift < 0 || hs.dirShift > 20 || hs.dirs > 1<<hs.dirShift || hs.slots < 1 || hs.slots > hs.dirs<<12 {
		return fmt.Errorf("dirs %d of 1<<%d, slots %d", hs.dirs, hs.dirShift, hs.slots)
	}
	da, err := rf.at(hs.dirsAddr, hs.dirs*8)
	if err != nil {
		return err
	}
	hs.sp.chunks = append(hs.sp.chunks, hs.dirsAddr)
	for d := 0; d < hs.dirs; d++ {
		a := int64(binary.BigEndian.Uint64(da[d*8:]))
		dir, err := rf.at(a, 8<<12)
		if err != nil {
			return fmt.Errorf("dir %d: %v", d, err)
		}
		hs.sp.chunks = append(hs.sp.chunks, a)
		for i := 0; i < 1<<12 && d<<12+i < hs.slots; i++ {
			sa := int64(binary.BigEndian.Uint64(dir[i*8:]))
			if sa < 0 {
				continue
			}
			sb, err := rf.sized(sa)
			if err != nil {
				return fmt.Errorf("slot %d: %v", d<<12+i, err)
			}
			hs.sp.chunks = append(hs.sp.chunks, sa)
			s, err := decodeSlot(t, sb)
			if err != nil {
				return fmt.Errorf("slot %d: %v", d<<12+i, err)
			}
			s.idx = d<<12 + i
			hs.slot = append(hs.slot, *s)
		}
	}
	return nil
}

func decodeSlot(t *T, b []byte) (*hashSlot, error) {
	type info struct {
		sum    uint64
		ks, vs int64
	}
	var infos []info
	var bin []byte
	if err := pbFields(b, func(num, wire int, v uint64, d []byte) error {
		switch {
		case num == 1 && wire == 2:
			var in info
			if err := pbFields(d, func(num, wire int, v uint64, d []byte) error {
				switch {
				case num == 1 && wire == 1:
					in.sum = v
				case num == 2 && wire == 0:
					in.ks = int64(v)
				case num == 3 && wire == 0:
					in.vs = int64(v)
				default:
					return errors.New("unknown item field")
				}
				return nil
			}); err != nil {
				return err
			}
			infos = append(infos, in)
		case num == 2 && wire == 2:
			bin = d
		default:
			return errors.New("unknown slot field")
		}
		return nil
	}); err != nil {
		return nil, err
	}
	s := &hashSlot{kz: true}
	for i, in := range infos {
		if in.ks < 0 || in.ks > int64(len(bin)) {
			return nil, errors.New("key size")
		}
		k := bin[:in.ks]
		bin = bin[in.ks:]
		if i == len(infos)-1 {
			in.vs = int64(len(bin))
		}
		if in.vs < 0 || in.vs > int64(len(bin)) {
			return nil, errors.New("value size")
		}
		v := bin[:in.vs]
		bin = bin[in.vs:]
		want := uint64(0)
		if len(k) > 24 {
			want = fnv1a(k)
		}
		if in.sum != want {
			s.kz = false
		}
		s.ks = append(s.ks, t.lookKey(k))
		s.vs = append(s.vs, t.lookVal(v))
	}
	return s, nil
}

func (hs *hashSnap) event(d int) []byte {
	e := ev("hash").i("d", d).s("err", hs.err).i("di", hs.dirs).i("ds", hs.dirShift).i("sl", hs.slots).i("ss", hs.slotShift).
		i("rc", hs.items).i("pl", hs.payload)
	ix, ks, vs, kz := []int{}, []int{}, []int{}, true
	for i := range hs.slot {
		s := &hs.slot[i]
		kz = kz && s.kz
		for j := range s.ks {
			ix = append(ix, s.idx)
			ks = append(ks, s.ks[j])
			vs = append(vs, s.vs[j])
		}
	}
	return e.a("ix", ix).a("ks", ks).a("vs", vs).t("kz", kz).done()
}

// reap releases everything a file's structures own, on a copy, and reports
// how much allocated space is left over: what nothing owns has leaked.
func reap(t *T, path string, sps ...spaces) (left int, dup bool, err string) {
	cp := path + ".reap"
	if e := copyFile(cp, path); e != nil {
		return 0, false, e.Error()
	}
	defer os.Remove(cp)
	seen := map[int64]bool{}
	for _, sp := range sps {
		for _, l := range [][]int64{sp.blocks, sp.chunks} {
			for _, a := range l {
				if seen[a] {
					dup = true
				}
				seen[a] = true
			}
		}
	}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Sprint(e)
		}
	}()
	fs := new(fsm.FileStorage).Init()
	if e := fs.Open(cp, false); e != nil {
		return 0, dup, e.Error()
	}
	for _, sp := range sps {
		for _, a := range sp.blocks {
			fs.FreeAlignedSpace(a)
		}
		for _, a := range sp.chunks {
			fs.FreeSpace(a)
		}
	}
	left = fs.Stats().AllocatedSpaceSize
	fs.SetPrimarySpace(-1)
	if e := fs.Close(); e != nil {
		err = e.Error()
	}
	return
}
