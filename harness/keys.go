package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
)

// keyProfile makes k distinct keys in ascending byte order.
func genKeys(r *Rng, profile string, k int) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	add := func(b []byte) {
		if len(out) < k && !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	rnd := func(n int, alpha string) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = alpha[r.N(len(alpha))]
		}
		return b
	}
	for tries := 0; len(out) < k; tries++ {
		if tries > 50*k+1000 {
			break // the profile cannot make that many
		}
		switch profile {
		case "num":
			add([]byte(fmt.Sprintf("%07d", len(out)*3+r.N(3))))
		case "tiny":
			add(rnd(r.N(5), "abcdefgh"))
		case "short":
			add(rnd(1+r.N(20), "abcd"))
		case "edge24": // around the short/long key limit of the hash map
			add(rnd(22+r.N(6), "ab\x00\xff"))
		case "edge257": // around the inline/overflow limit of the B+ tree
			b := bytes.Repeat([]byte{'p'}, 240)
			b = append(b, rnd(5+r.N(20), "ab")...)
			add(b)
		case "ovf": // overflow keys, most share the whole inline prefix
			b := bytes.Repeat([]byte{'q'}, 249)
			if r.P(25) {
				b[248-r.N(20)] = byte('a' + r.N(26))
			}
			b = append(b, rnd(8+r.N(300), "abc")...)
			add(b)
		case "low": // what follows the inline prefix sorts on either side of an address
			b := bytes.Repeat([]byte{'q'}, 249)
			for j := r.N(24); j > 0; j-- {
				b = append(b, []byte{0, 0, 0, 0, 1, 0xff}[r.N(6)])
			}
			add(b)
		case "long": // every key long, inline
			b := rnd(3, "abcdefghij")
			b = append(b, bytes.Repeat([]byte{'m'}, 200+r.N(40))...)
			b = append(b, rnd(6, "abcdef")...)
			add(b)
		case "max": // every key of the maximal in-page size
			b := rnd(250, "ab")
			b = append(b, rnd(r.Range(7, 40), "ab")...)
			add(b)
		case "nest": // x^n: each key is a prefix of the next
			add(bytes.Repeat([]byte{'x'}, r.N(4*k)))
		case "bin":
			switch r.N(40) {
			case 0:
				add([]byte("MIN_KEY"))
			case 1:
				add([]byte("MAX_KEY"))
			case 2:
				add([]byte{})
			case 3:
				add(bytes.Repeat([]byte{0xff}, 1+r.N(300)))
			case 4:
				add(bytes.Repeat([]byte{0}, 1+r.N(300)))
			default:
				b := make([]byte, r.N(40))
				for i := range b {
					b[i] = byte(r.U64())
					if r.P(30) {
						b[i] = []byte{0, 0xff, 0x7f, 0x80}[r.N(4)]
					}
				}
				add(b)
			}
		case "mix": // very different sizes side by side
			switch r.N(4) {
			case 0:
				add(rnd(1+r.N(4), "abcdefghijkl"))
			case 1:
				add(append(rnd(2, "abcdefghijkl"), rnd(238+r.N(16), "ab")...))
			case 2:
				add(append(rnd(2, "abcdefghijkl"), rnd(250+r.N(80), "ab")...))
			default:
				add(rnd(1+r.N(60), "abcdefghijkl"))
			}
		case "duo": // short and nearly maximal in-page keys side by side
			b := []byte(fmt.Sprintf("%06d", len(out)))
			if r.Bool() {
				b = append(b, bytes.Repeat([]byte{'k'}, 240+r.N(9))...)
			}
			add(b)
		case "bimodal": // tiny or maximal, clustered: separators change size a lot
			p := rnd(2, "abcdefgh")
			if r.Bool() {
				add(append(p, rnd(1+r.N(3), "abcd")...))
			} else {
				add(append(p, rnd(258+r.N(10), "abcd")...))
			}
		case "uneven": // tiny or maximal in-page, at random
			if r.P(60) {
				add(rnd(256, "abcdefghijklmnopqrstuvwxyz"))
			} else {
				add(rnd(6, "abcdefghijklmnopqrstuvwxyz"))
			}
		case "lcp":
			b := bytes.Repeat([]byte{'l'}, 300)
			b = append(b, []byte(fmt.Sprintf("%06d", r.N(k*4)))...)
			b = append(b, rnd(r.N(100), "z")...)
			add(b)
		case "eq": // all of the same size
			b := bytes.Repeat([]byte{'e'}, 200)
			copy(b, rnd(12, "abcdefghijklmnop"))
			add(b)
		case "seq8":
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, uint64(len(out))*7)
			add(b)
		case "huge":
			switch r.N(3) {
			case 0:
				add(append(rnd(4, "abcdef"), bytes.Repeat([]byte{'h'}, 60000+r.N(10000))...))
			case 1:
				add(append(bytes.Repeat([]byte{'g'}, 249), append(bytes.Repeat([]byte{'h'}, 300000+r.N(900000)), rnd(4, "abcdef")...)...))
			default:
				add(rnd(1+r.N(300), "abcdef"))
			}
		case "var": // lengths at which an encoded length takes one byte more
			n := []int{126, 127, 249 + 126, 249 + 127, 16382, 249 + 16382}[r.N(6)] + r.N(4)
			b := bytes.Repeat([]byte{'v'}, n)
			for i := 0; i < 6; i++ {
				b[[]int{0, 1, n / 2, n - 1}[r.N(4)]] = byte('a' + r.N(26))
			}
			add(b)
		case "coll": // groups of keys with equal hash sums, of equal and of different length
			var b []byte
			if r.P(35) {
				b = append([]byte(zeroSum), make([]byte, r.N(30))...)
			} else {
				b = []byte(sameSum[r.N(len(sameSum))][r.N(2)])
			}
			b = append(b, []string{"", "-", "suffix", "a suffix that makes it long", "another one, longer than that"}[r.N(5)]...)
			if r.P(40) {
				b = append(b, byte('0'+r.N(10)), byte('0'+r.N(10)))
			}
			add(b)
		case "dense": // as many keys to a leaf as can be
			b := rnd(1+r.N(2), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")
			if r.P(20) {
				b = append(b, "az"[r.N(2)])
			}
			add(b)
		case "giant": // every key longer than 64 KiB
			b := bytes.Repeat([]byte{'G'}, 65534+r.N(6))
			copy(b, rnd(3, "abcdef"))
			copy(b[len(b)-3:], rnd(3, "abcdef"))
			add(b)
		case "zero": // all with the same hash sum
			add(append([]byte(zeroSum), make([]byte, len(out))...))
		case "sim": // equal length, differing in one position only
			b := bytes.Repeat([]byte{'s'}, 280)
			b[r.N(280)] = byte('a' + r.N(26))
			add(b)
		default:
			die("unknown key profile %s", profile)
		}
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return out
}

// zeroSum has the FNV-1a sum 0, and so has each continuation with zeros; the
// pairs of sameSum have equal sums, and so have their equal continuations.
const zeroSum = "\xd5\x6b\xb9\x53\x42\x87\x08\x36"

var sameSum = [][2]string{
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"},
	{"gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"},
	{"pFuM83THhM-Qw8FI5FKo", ".jPx7rOtTDteKAwvfOEo"},
	{"7mohtcOFVz", "c1E51sSEyx"},
	{"6a5x-VbtXk", "f_2k7GG-4v"},
}

// genVal makes a value; fresh content most of the time.
func (t *T) genVal(profile string) int {
	r := t.rng
	if len(t.vals) > 0 && r.P(8) {
		return 1 + r.N(len(t.vals))
	}
	var n int
	switch profile {
	case "none":
		return 0
	case "tiny":
		n = r.N(4)
	case "fix":
		n = 60
	case "fix2":
		n = 200
	case "small":
		n = r.N(24)
	case "edge":
		n = 117 + r.N(16)
	case "wide":
		n = r.N(400)
	case "flat":
		n = r.N(128)
	case "inl":
		n = 100 + r.N(29)
	case "even":
		n = 128
	case "bi":
		if r.Bool() {
			n = r.N(3)
		} else {
			n = 128 + r.N(4)
		}
	case "big":
		n = 1000 + r.N(70000)
	case "dir": // as large as a slot directory
		n = 20000 + r.N(12000)
	case "chunk": // around the limit between pooled and unmanaged space
		n = 65000 + r.N(1200)
	case "mega":
		switch r.N(4) {
		case 0:
			n = 1<<20 + r.N(2<<20)
		case 1:
			n = r.N(200)
		default:
			n = 4000 + r.N(200000)
		}
	case "var": // lengths at which an encoded length takes one byte more
		n = []int{126, 127, 121 + 126, 121 + 127, 16382, 121 + 16382}[r.N(6)] + r.N(4)
		if r.P(3) {
			n = []int{1<<21 - 2, 121 + 1<<21 - 2}[r.N(2)] + r.N(4)
		}
	case "any":
		switch r.N(6) {
		case 0:
			n = 0
		case 1:
			n = r.N(8)
		case 2:
			n = 117 + r.N(16)
		case 3:
			n = r.N(300)
		case 4:
			n = 128 + r.N(2)
		default:
			n = r.N(2500)
		}
	default:
		die("unknown value profile %s", profile)
	}
	if n == 0 {
		return 0
	}
	return t.newVal(n)
}

// kin makes a value that resembles another: one byte differs, or it is longer
// or shorter.
func (t *T) kin(v int) int {
	r := t.rng
	if v <= 0 || len(t.vals[v-1]) > 100000 {
		return t.genVal("wide")
	}
	b := append([]byte(nil), t.vals[v-1]...)
	n := len(b)
	switch r.N(8) {
	default:
		b[[]int{0, n - 1, 120, 121, 127, 128, 129, n / 2, r.N(n), r.N(n)}[r.N(10)]%n] ^= byte(1) << r.N(8)
	case 5:
		b = append(b, byte(r.U64()))
	case 6:
		b = b[:[]int{n - 1, n / 2, 121, 128, 129, r.N(n)}[r.N(6)]%n]
	case 7:
		b = append(b, make([]byte, []int{1, 8, 128, 129, 300}[r.N(5)])...)
	}
	return t.val(b)
}

func (t *T) newVal(n int) int {
	b := make([]byte, n)
	x := t.rng.U64()
	s := NewRng(x)
	for i := 0; i < n; i += 8 {
		y := s.U64()
		for j := i; j < i+8 && j < n; j++ {
			b[j] = byte(y)
			y >>= 8
		}
	}
	return t.val(b)
}
