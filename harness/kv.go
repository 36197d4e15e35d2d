package main

import (
	"bytes"
	"os"
	"path/filepath"
	"time"

	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

// inst is one dictionary of a trace.
type inst struct {
	n    int    // 1-based number in the trace
	api  string // OD, D: package plainkv; BT, HM: packages bptree and hashmap
	path string
	od   *plainkv.OrderedDict
	d    *plainkv.Dict
	bt   *bptree.BPTree
	hm   *hashmap.HashMap
	fs   *fsm.FileStorage // BT, HM: the storage it lives in
	info int64            // BT, HM: info address while stored
	open bool
}

func (in *inst) ordered() bool { return in.api == "OD" || in.api == "BT" }

// newInst adds a dictionary; slot d of the specification.
func (t *T) newInst(api, file string) *inst {
	in := &inst{n: len(t.inst) + 1, api: api, path: filepath.Join(t.dir, file), info: -1}
	t.inst = append(t.inst, in)
	return in
}

func (t *T) closeAll() {
	for _, in := range t.inst {
		if !in.open || t.dead {
			continue
		}
		// quietly: the trace is over
		func() {
			defer func() { recover() }()
			switch in.api {
			case "OD":
				in.od.Close()
			case "D":
				in.d.Close()
			}
		}()
	}
}

// open calls Open...; pre says what is at the path.
func (t *T) open(in *inst, create bool) bool {
	var err error
	t.guard("open", func() {
		switch in.api {
		case "OD":
			var h *plainkv.OrderedDict
			h, err = plainkv.OpenOrderedDict(in.path, create)
			in.od = h
		case "D":
			var h *plainkv.Dict
			h, err = plainkv.OpenDict(in.path, create)
			in.d = h
		}
	})
	in.open = err == nil
	t.emit(ev("open").i("d", in.n).t("cr", create).t("ok", err == nil).done())
	return err == nil
}

func (t *T) mustOpen(in *inst, create bool) {
	if !t.open(in, create) {
		t.dead = true
		panic(traceAbort{})
	}
}

func (t *T) close(in *inst) bool {
	var err error
	t.guard("close", func() {
		switch in.api {
		case "OD":
			err = in.od.Close()
		case "D":
			err = in.d.Close()
		}
	})
	in.open = false
	in.od, in.d = nil, nil
	t.emit(ev("close").i("d", in.n).t("ok", err == nil).done())
	return err == nil
}

func (t *T) reopen(in *inst) {
	t.close(in)
	t.mustOpen(in, t.rng.Bool())
}

// keyArg resolves a key code: 0 and K+1 are the sentinels.
func (t *T) keyArg(k int) []byte {
	switch {
	case k == 0:
		return plainkv.MinKey
	case k == len(t.keys)+1:
		return plainkv.MaxKey
	default:
		return t.keys[k-1]
	}
}

// call performs one point operation.
func (in *inst) call(o string, key, value []byte, ret bool) (old []byte, ok int) {
	b2i := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	var f bool
	ok = -1
	switch in.api {
	case "OD":
		switch o {
		case "set":
			old = in.od.Set(key, value, ret)
		case "sie":
			old, f = in.od.SetIfExists(key, value, ret)
			ok = b2i(f)
		case "sin":
			old, f = in.od.SetIfNotExists(key, value, ret)
			ok = b2i(f)
		case "clr":
			old, f = in.od.Clear(key, ret)
			ok = b2i(f)
		case "tst":
			old, f = in.od.Test(key, ret)
			ok = b2i(f)
		}
	case "D":
		switch o {
		case "set":
			old = in.d.Set(key, value, ret)
		case "sie":
			old, f = in.d.SetIfExists(key, value, ret)
			ok = b2i(f)
		case "sin":
			old, f = in.d.SetIfNotExists(key, value, ret)
			ok = b2i(f)
		case "clr":
			old, f = in.d.Clear(key, ret)
			ok = b2i(f)
		case "tst":
			old, f = in.d.Test(key, ret)
			ok = b2i(f)
		}
	case "BT":
		switch o {
		case "set":
			old, f = in.bt.AddOrUpdateRecord(key, value, ret)
		case "sie":
			old, f = in.bt.UpdateRecord(key, value, ret)
		case "sin":
			old, f = in.bt.AddRecord(key, value, ret)
		case "clr":
			old, f = in.bt.DeleteRecord(key, ret)
		case "tst":
			old, f = in.bt.HasRecord(key, ret)
		}
		ok = b2i(f)
	case "HM":
		switch o {
		case "set":
			old, f = in.hm.AddOrUpdateItem(key, value, ret)
		case "sie":
			old, f = in.hm.UpdateItem(key, value, ret)
		case "sin":
			old, f = in.hm.AddItem(key, value, ret)
		case "clr":
			old, f = in.hm.DeleteItem(key, ret)
		case "tst":
			old, f = in.hm.HasItem(key, ret)
		}
		ok = b2i(f)
	}
	return
}

// argBuf copies b into the middle of a larger buffer, so that writes outside
// of the argument are seen too.
func argBuf(b []byte) (arg, whole []byte) {
	whole = make([]byte, len(b)+16)
	for i := range whole {
		whole[i] = 0xA5
	}
	copy(whole[8:], b)
	return whole[8 : 8+len(b) : 8+len(b)+4], whole
}

func argIntact(whole, b []byte) bool {
	for i := 0; i < 8; i++ {
		if whole[i] != 0xA5 || whole[len(whole)-1-i] != 0xA5 {
			return false
		}
	}
	return bytes.Equal(whole[8:8+len(b)], b)
}

// op performs the operation o on the keys lo, lo+st, ... (n of them, in a
// random order if n > 1: they are distinct, so the order cannot be seen).
// vals[i] is the value for the i-th of these keys.
func (t *T) op(in *inst, dir int, o string, lo, st, n int, vals []int, ret bool) {
	oks := make([]int, n)
	olds := make([]int, n)
	intact := true
	var order []int
	if n > 1 {
		order = t.rng.Perm(n)
		if dir > 0 || dir == 0 && t.rng.P(30) {
			for i := range order {
				order[i] = i
			}
		} else if dir < 0 || t.rng.P(15) {
			for i := range order {
				order[i] = n - 1 - i
			}
		}
	} else {
		order = []int{0}
	}
	t.opOrdered(in, o, lo, st, n, vals, ret, order, oks, olds, &intact)
}

func (t *T) opOrdered(in *inst, o string, lo, st, n int, vals []int, ret bool, order, oks, olds []int, intact *bool) {
	hasOK := true
	for _, i := range order {
		code := lo + i*st
		k0 := t.keyArg(code)
		var v0 []byte
		if vals != nil && vals[i] > 0 {
			v0 = t.vals[vals[i]-1]
		} else if vals != nil && t.rng.Bool() {
			v0 = []byte{}
		}
		sentinel := code == 0 || code == len(t.keys)+1
		k, v := k0, v0
		var kw, vw []byte
		if t.scrib {
			if !sentinel {
				k, kw = argBuf(k0)
			}
			if v0 != nil {
				v, vw = argBuf(v0)
			}
		}
		var old []byte
		var ok int
		t.guard(o, func() { old, ok = in.call(o, k, v, ret) })
		t.nOps++
		if ok < 0 {
			hasOK = false
		} else {
			oks[i] = ok
		}
		olds[i] = t.lookVal(old)
		if t.scrib {
			if kw != nil {
				*intact = *intact && argIntact(kw, k0)
				for j := range kw {
					kw[j] = 0x5A
				}
			}
			if vw != nil {
				*intact = *intact && argIntact(vw, v0)
				for j := range vw {
					vw[j] = 0x5A
				}
			}
			if len(old) > 0 {
				t.handOver(old, olds[i])
			}
		}
	}
	e := ev("op").i("d", in.n).s("o", o).i("lo", lo).i("st", st).i("n", n)
	if vals != nil {
		e.a("v", vals)
	}
	e.t("r", ret)
	if hasOK {
		e.a("ok", oks)
	}
	e.a("old", olds)
	if t.scrib {
		e.t("ib", *intact)
	}
	t.emit(e.done())
}

// handOver does with a slice that was returned what callers do: appends to it,
// keeps it, overwrites it, or forgets it. id: value, or number of the key + keyBase.
const keyBase = 1 << 28

func (t *T) handOver(b []byte, id int) {
	if len(b) == 0 {
		return
	}
	if t.rng.P(25) { // what follows it must be nobody's
		_ = append(b, bytes.Repeat([]byte{0xA7}, 1+t.rng.N(40))...)
	}
	switch t.rng.N(5) {
	case 0, 1:
		for j := range b {
			b[j] = 0xC3
		}
	case 2:
	default:
		if len(t.tries) < 300 {
			t.tries = append(t.tries, retained{b, id})
		} else { // the older ones are the more interesting ones
			t.tries[t.rng.N(300)] = retained{b, id}
		}
	}
}

// recheck looks again at results that earlier calls returned.
func (t *T) recheck() {
	if len(t.tries) == 0 {
		return
	}
	a, b := []int{}, []int{}
	t.guard("look at a returned slice", func() {
		for _, x := range t.tries {
			a = append(a, x.vid)
			if x.vid >= keyBase {
				b = append(b, keyBase+t.lookKey(x.b))
			} else {
				b = append(b, t.lookVal(x.b))
			}
		}
	})
	t.emit(ev("keep").a("a", a).a("b", b).done())
	t.tries = nil
}

// one is op for a single key.
func (t *T) one(in *inst, o string, k, v int, ret bool) {
	var vals []int
	if o == "set" || o == "sie" || o == "sin" {
		vals = []int{v}
	}
	t.op(in, 0, o, k, 1, 1, vals, ret)
}

// rng reads a whole range.
func (t *T) rangeAll(in *inst, dir string, lo, hi int) {
	ks, vs := []int{}, []int{}
	over, errs := false, false
	limit := len(t.keys)*2 + 10
	t.guard("range", func() {
		var it bptree.Iterator
		a, b := t.keyArg(lo), t.keyArg(hi)
		if in.api == "OD" {
			if dir == "asc" {
				it = in.od.RangeAsc(a, b)
			} else {
				it = in.od.RangeDesc(a, b)
			}
		} else {
			if dir == "asc" {
				it = in.bt.SearchForward(a, b)
			} else {
				it = in.bt.SearchBackward(a, b)
			}
		}
		for ; !it.IsAtEnd(); it.Advance() {
			var k, v []byte
			var err error
			if t.scrib && t.rng.Bool() {
				var e1, e2 error
				k, e1 = it.ReadKeyAll()
				v, e2 = it.ReadValueAll()
				if err = e1; err == nil {
					err = e2
				}
			} else {
				k, v, err = it.ReadRecordAll()
			}
			if err != nil {
				errs = true
				break
			}
			if t.scrib && t.rng.P(30) {
				// what was returned first is kept or overwritten; the same record again
				t.handOver(k, keyBase+t.lookKey(k))
				t.handOver(v, t.lookVal(v))
				if k, v, err = it.ReadRecordAll(); err != nil {
					errs = true
					break
				}
			}
			ks = append(ks, t.lookKey(k))
			vs = append(vs, t.lookVal(v))
			if t.scrib {
				t.handOver(k, keyBase+ks[len(ks)-1])
				t.handOver(v, vs[len(vs)-1])
			}
			if len(ks) > limit {
				over = true
				break
			}
			t.others()
		}
	})
	t.nOps++
	t.emit(ev("rng").i("d", in.n).s("dir", dir).i("lo", lo).i("hi", hi).a("ks", ks).a("vs", vs).t("ov", over || errs).done())
}

// scanAll scans the whole dictionary without changes in between.
func (t *T) scanAll(in *inst) {
	ks, vs := []int{}, []int{}
	over := false
	limit := len(t.keys)*2 + 10
	again := false
	t.guard("scan", func() {
		var c plainkv.DictCursor
		for {
			k, v, ok := in.scan(&c)
			if !ok {
				break
			}
			ks = append(ks, t.lookKey(k))
			vs = append(vs, t.lookVal(v))
			if t.scrib {
				t.handOver(k, keyBase+ks[len(ks)-1])
				t.handOver(v, vs[len(vs)-1])
			}
			if len(ks) > limit {
				over = true
				break
			}
			t.others()
		}
		// at the end it stays at the end
		for i := 0; i < 3 && !over; i++ {
			k, v, ok := in.scan(&c)
			if ok || len(k) > 0 || len(v) > 0 {
				again = true
			}
		}
	})
	t.nOps++
	t.emit(ev("scan").i("d", in.n).a("ks", ks).a("vs", vs).t("ov", over).t("ag", again).done())
}

func (in *inst) scan(c *plainkv.DictCursor) ([]byte, []byte, bool) {
	if in.api == "D" {
		return in.d.Scan(c)
	}
	return in.hm.FetchItem(c)
}

// others lets the other dictionaries do something in the middle of a range or
// a scan.
func (t *T) others() {
	f := t.between
	if f == nil {
		return
	}
	op := t.lastOp
	t.between = nil
	f()
	t.between, t.lastOp = f, op
	opStart.Store(time.Now().UnixNano())
}

// meanwhile goes through one dictionary while the others are changed.
func (t *T) meanwhile(ws []*W, w *W) {
	r := t.rng
	var vs []*W
	for _, v := range ws {
		if v != w && v.in.open {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 || !w.in.open {
		return
	}
	left := 10
	t.between = func() {
		if left == 0 || !r.P(25) {
			return
		}
		left--
		v := vs[r.N(len(vs))]
		switch x := r.N(8); {
		case x == 0:
			v.all()
		case x <= 2 && v.cnt > 0:
			v.run("resize", 1+r.N(6), "")
		default:
			v.run([]string{"grow", "shrink", "mixed"}[r.N(3)], 1+r.N(12), "")
		}
	}
	if r.Bool() {
		w.all()
	} else {
		w.aRange()
	}
	t.between = nil
}

// stats records the statistics the dictionary reports.
func (t *T) stats(in *inst) { t.emit(t.statsEv(in)) }

func (t *T) statsEv(in *inst) []byte {
	e := ev("st").i("d", in.n)
	pg := func(n int) int { return (n + 4095) / 4096 }
	t.guard("stats", func() {
		switch in.api {
		case "OD":
			s := in.od.Stats()
			e.i("ht", s.BPTreeHeight).i("lf", s.NumberOfBPTreeLeafs).i("nl", s.NumberOfBPTreeNonLeafs).
				i("rc", s.NumberOfBPTreeRecords).i("pl", s.PayloadSize)
			e.i("al", pg(s.FSM.AllocatedSpaceSize)).i("us", pg(s.FSM.UsedSpaceSize)).i("sp", pg(s.FSM.SpaceSize)).i("mp", pg(s.FSM.MappedSpaceSize)).i("dm", s.FSM.DismissedSpaceSize)
		case "D":
			s := in.d.Stats()
			e.i("di", s.NumberOfHashSlotDirs).i("sl", s.NumberOfHashSlots).i("rc", s.NumberOfHashItems).i("pl", s.PayloadSize)
			e.i("al", pg(s.FSM.AllocatedSpaceSize)).i("us", pg(s.FSM.UsedSpaceSize)).i("sp", pg(s.FSM.SpaceSize)).i("mp", pg(s.FSM.MappedSpaceSize)).i("dm", s.FSM.DismissedSpaceSize)
		case "BT":
			e.i("ht", in.bt.Height()).i("lf", in.bt.NumberOfLeafs()).i("nl", in.bt.NumberOfNonLeafs()).
				i("rc", in.bt.NumberOfRecords()).i("pl", in.bt.PayloadSize())
		case "HM":
			e.i("di", in.hm.NumberOfSlotDirs()).i("sl", in.hm.NumberOfSlots()).i("rc", in.hm.NumberOfItems()).i("pl", in.hm.PayloadSize())
			e.i("xd", in.hm.MaxNumberOfSlotDirs()).i("ms", in.hm.MinNumberOfSlots())
		}
	})
	return e.done()
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0644)
}
