package main

import (
	"bytes"
	"fmt"
	"math/bits"

	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C01", "random and structured BDKs x KSNs of 3..10 bytes (bits outside the counter random or FF), counters of every weight, and 300,000 random devices in one process; each result is compared with the model and with the results for other counters of the same KSN. A case is non-trivial if the call returned a key that was compared; distinct by (BDK, KSN).", c01)
	register("C02", "per device (initial key and KSN base) every one of the 1,048,576 admissible counters is derived and compared with the model's key tree; plus random devices x random counters. Distinct by (device, counter).", c02)
	register("C03", "AES-128/192/256 x counters: all counters of low weight per device, random counters of every weight up to 16, keys random and structured, initial keys from 8 and 12 byte ids; 300,000 random devices in one process. Distinct by (key, KSN).", c03)
	register("C04", "for each KSN base all 2^21 counter values are advanced and compared with the successor computed arithmetically; whole-life walks from counter 0 to exhaustion are counted. Distinct by (base, counter).", c04)
	register("C05", "AES counters: quick = boundary neighbourhoods, carry patterns and a stratified sweep of 2^26 counters; thorough = all 2^32 counters. Successor and validity are compared with the arithmetic definition. Distinct counts one per counter value.", c05)
}

func hexMap(kv ...any) map[string]any {
	m := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		if b, ok := kv[i+1].([]byte); ok {
			m[kv[i].(string)] = hx(b)
		} else {
			m[kv[i].(string)] = fmt.Sprint(kv[i+1])
		}
	}
	return m
}

func c01(r *mon.Run) {
	near(r, 3000, 100000, "des.DerivationOfInitialKey")
	n := r.Pick(60000, 2000000)
	r.Parallel(n, func(i int) {
		g := r.Rng("ik", i)
		bdk := key(g, 16)
		ksn := desKSN(g, 3+i%8)
		want := ref.DESInitialKey(bdk, ksn)
		got, err := des.DerivationOfInitialKey(clone(bdk), clone(ksn))
		r.Eval(1)
		r.Count(fmt.Sprintf("ksn length %d", len(ksn)), 1)
		if err != nil || !bytes.Equal(got, want) {
			r.Violate(fmt.Sprintf("initial-key:ksnlen%d", len(ksn)), fmt.Sprintf("got %x (error %v), want %x", got, err, want), hexMap("bdk", bdk, "ksn", ksn))
			return
		}
		r.Distinct(bdk, ksn)
		// other counters of the same device, admissible or not
		for _, tc := range []uint32{0, 0x1FFFFF, 1 << g.IntN(21), g.Uint32() & 0x1FFFFF} {
			k2 := ref.DESWithCounter(ksn, tc)
			got, err := des.DerivationOfInitialKey(clone(bdk), clone(k2))
			r.Eval(1)
			if err != nil || !bytes.Equal(got, want) {
				r.Violate("initial-key:counter-dependence", fmt.Sprintf("counter %06x: got %x (error %v), want %x", tc, got, err, want), hexMap("bdk", bdk, "ksn", k2))
			}
		}
		r.Count("counters compared on one device", 4)
		if i < 2 {
			r.Sample("initial key", hexMap("bdk", bdk, "ksn", ksn, "ik", got))
		}
	})
	// so many that digests of 32 bits of the arguments cannot all differ
	many := r.Pick(300000, 3000000)
	r.Parallel(many/1000, func(i int) {
		g := r.Rng("many", i)
		ksn := rbytes(g, 10)
		for n := 0; n < 1000; n++ {
			bdk := rbytes(g, 16)
			if n%4 == 0 {
				ksn = rbytes(g, 10)
			}
			want := ref.DESInitialKey(bdk, ksn)
			got, err := des.DerivationOfInitialKey(bdk, ksn)
			if err != nil || !bytes.Equal(got, want) {
				r.Violate("initial-key:many", fmt.Sprintf("got %x (error %v), want %x", got, err, want), hexMap("bdk", bdk, "ksn", ksn))
				return
			}
		}
		r.Eval(1000)
		r.Count("random devices", 1000)
	})
	r.Require("random devices", 300000)
	// every single counter bit and every single KSN bit
	r.Parallel(r.Pick(64, 2000), func(i int) {
		g := r.Rng("bits", i)
		bdk := key(g, 16)
		ksn := desKSN(g, 10)
		for b := 0; b < 80; b++ {
			k2 := clone(ksn)
			k2[9-b/8] ^= 1 << (b % 8)
			got, err := des.DerivationOfInitialKey(clone(bdk), clone(k2))
			want := ref.DESInitialKey(bdk, k2)
			r.Eval(1)
			if err != nil || !bytes.Equal(got, want) {
				r.Violate("initial-key:bit", fmt.Sprintf("KSN bit %d: got %x (error %v), want %x", b, got, err, want), hexMap("bdk", bdk, "ksn", k2))
			}
			r.Distinct(bdk, k2)
		}
		for b := 0; b < 128; b++ {
			b2 := clone(bdk)
			b2[b/8] ^= 1 << (b % 8)
			got, err := des.DerivationOfInitialKey(clone(b2), clone(ksn))
			want := ref.DESInitialKey(b2, ksn)
			r.Eval(1)
			if err != nil || !bytes.Equal(got, want) {
				r.Violate("initial-key:bit", fmt.Sprintf("BDK bit %d: got %x (error %v), want %x", b, got, err, want), hexMap("bdk", b2, "ksn", ksn))
			}
		}
		r.Count("single-bit neighbourhoods", 1)
	})
	r.Require("single-bit neighbourhoods", 64)
	for l := 3; l <= 10; l++ {
		r.Require(fmt.Sprintf("ksn length %d", l), 1000)
	}
	nearLater(r, 1000, 33333, "des.DerivationOfInitialKey")
}

type tcKey struct {
	tc  uint32
	key [16]byte
}

func c02(r *mon.Run) {
	near(r, 3000, 100000, "des.DeriveCurrentTransactionKey")
	devices := r.Pick(1, 40)
	for d := 0; d < devices && !r.Stop(); d++ {
		g := r.Rng("device", d)
		ik := key(g, 16)
		n := 10
		if d%3 == 2 {
			n = 3 + g.IntN(8)
		}
		base := rbytes(g, n)
		var k0 [16]byte
		copy(k0[:], ik)
		list := make([]tcKey, 0, 1<<20)
		ref.DESWalk(base, k0, 0, 10, func(tc uint32, k [16]byte) { list = append(list, tcKey{tc, k}) })
		const chunk = 2048
		r.Parallel((len(list)+chunk-1)/chunk, func(c int) {
			end := min(len(list), (c+1)*chunk)
			for _, e := range list[c*chunk : end] {
				ksn := ref.DESWithCounter(base, e.tc)
				got, err := des.DeriveCurrentTransactionKey(ik, ksn)
				if err != nil || !bytes.Equal(got, e.key[:]) {
					r.Violate(fmt.Sprintf("tx-key:ones%d", bits.OnesCount32(e.tc)), fmt.Sprintf("counter %06x: got %x (error %v), want %x", e.tc, got, err, e.key), hexMap("ik", ik, "ksn", ksn))
				}
				r.DistinctHash(uint64(d)<<32 | uint64(e.tc))
			}
			r.Eval(end - c*chunk)
			if c < 1 {
				r.Sample("device", hexMap("ik", ik, "ksn base", base, "first counters", fmt.Sprintf("%06x %06x %06x", list[1].tc, list[2].tc, list[3].tc)))
			}
		})
		r.Count("devices with all admissible counters", 1)
		if len(list) != 1<<20 {
			r.Inconclusive("the model visited %d counters", len(list))
		}
	}
	r.Require("devices with all admissible counters", devices)
	r.Parallel(r.Pick(30000, 2000000), func(i int) {
		g := r.Rng("random", i)
		ik := key(g, 16)
		ksn := desKSN(g, 3+i%8)
		want := ref.DESTxKey(ik, ksn)
		got, err := des.DeriveCurrentTransactionKey(clone(ik), clone(ksn))
		r.Eval(1)
		r.Distinct(ik, ksn)
		r.Count(fmt.Sprintf("random devices, counter weight %02d", bits.OnesCount32(ref.DESCounter(ksn))), 1)
		if err != nil || !bytes.Equal(got, want) {
			r.Violate("tx-key:random", fmt.Sprintf("got %x (error %v), want %x", got, err, want), hexMap("ik", ik, "ksn", ksn))
		}
	})
	nearLater(r, 1000, 33333, "des.DeriveCurrentTransactionKey")
}

func c03(r *mon.Run) {
	near(r, 3000, 100000, "aes.DerivationOfInitialKey", "aes.DeriveCurrentTransactionKey")
	cmpTK := func(what string, ik, ksn []byte) {
		want := ref.AESTxKey(ik, ksn)
		got, err := aes.DeriveCurrentTransactionKey(clone(ik), clone(ksn))
		r.Eval(1)
		r.Distinct(ik, ksn)
		if err != nil || !bytes.Equal(got, want) {
			r.Violate(fmt.Sprintf("aes-tx-key:%d:%s", len(ik)*8, what), fmt.Sprintf("got %x (error %v), want %x", got, err, want), hexMap("ik", ik, "ksn", ksn))
		}
	}
	// all counters of low weight
	var low []uint32
	maxW := r.Pick(2, 4)
	var rec func(t uint32, from int)
	rec = func(t uint32, from int) {
		low = append(low, t)
		if bits.OnesCount32(t) == maxW {
			return
		}
		for b := from; b < 32; b++ {
			rec(t|1<<b, b+1)
		}
	}
	rec(0, 0)
	devs := r.Pick(4, 12)
	for d := 0; d < devs; d++ {
		for _, n := range []int{16, 24, 32} {
			g := r.Rng("device", d*100+n)
			ik, id := key(g, n), rbytes(g, 8)
			r.Parallel(len(low), func(i int) { cmpTK("low", ik, ref.AESWithCounter(id, low[i])) })
			r.Count(fmt.Sprintf("AES-%d devices with all counters of weight <= %d", n*8, maxW), 1)
		}
	}
	r.Parallel(r.Pick(60000, 2000000), func(i int) {
		g := r.Rng("random", i)
		n := []int{16, 24, 32}[i%3]
		bdk := key(g, n)
		ksn := aesKSN(g)
		want := ref.AESInitialKey(bdk, ksn)
		for _, id := range [][]byte{ksn[:8:8], ksn, ref.AESWithCounter(ksn, g.Uint32())} {
			got, err := aes.DerivationOfInitialKey(clone(bdk), clone(id))
			r.Eval(1)
			if err != nil || !bytes.Equal(got, want) {
				r.Violate(fmt.Sprintf("aes-initial-key:%d:id%d", n*8, len(id)), fmt.Sprintf("got %x (error %v), want %x", got, err, want), hexMap("bdk", bdk, "id", id))
			}
		}
		cmpTK("random", want, ksn)
		r.Count(fmt.Sprintf("AES-%d random, counter weight %02d", n*8, bits.OnesCount32(ref.AESCounter(ksn))), 1)
		if i < 3 {
			r.Sample("aes keys", hexMap("bdk", bdk, "ksn", ksn, "ik", want))
		}
	})
	// so many that digests of 32 bits of the arguments cannot all differ
	many := r.Pick(300000, 3000000)
	r.Parallel(many/1000, func(i int) {
		g := r.Rng("many", i)
		n := []int{16, 24, 32}[i%3]
		for k := 0; k < 1000; k++ {
			bdk, id := rbytes(g, n), rbytes(g, 8)
			want := ref.AESInitialKey(bdk, id)
			got, err := aes.DerivationOfInitialKey(bdk, id)
			if err != nil || !bytes.Equal(got, want) {
				r.Violate(fmt.Sprintf("aes-initial-key:%d:many", n*8), fmt.Sprintf("got %x (error %v), want %x", got, err, want), hexMap("bdk", bdk, "id", id))
				return
			}
			ksn := ref.AESWithCounter(id, 1<<g.IntN(32)|1<<g.IntN(32)) // short derivations
			wantTK := ref.AESTxKey(want, ksn)
			got, err = aes.DeriveCurrentTransactionKey(want, ksn)
			if err != nil || !bytes.Equal(got, wantTK) {
				r.Violate(fmt.Sprintf("aes-tx-key:%d:many", n*8), fmt.Sprintf("got %x (error %v), want %x", got, err, wantTK), hexMap("ik", want, "ksn", ksn))
				return
			}
		}
		r.Eval(2000)
		r.Count("random devices", 1000)
	})
	r.Require("random devices", 300000)
	nearLater(r, 1000, 33333, "aes.DerivationOfInitialKey", "aes.DeriveCurrentTransactionKey")
}

// advance is one monitored step
func desStep(r *mon.Run, ksn []byte, tc uint32) bool {
	in := ref.DESWithCounter(ksn, tc)
	want := ref.DESNext(in)
	got, err := pkg.GenerateNextDesKsn(in)
	if e := judgeNext(result{B: got, Err: err}, want); e != nil {
		r.Violate("des-next", fmt.Sprintf("counter %06x: %v", tc, e), hexMap("ksn", ref.DESWithCounter(ksn, tc)))
		return false
	}
	return true
}

func c04(r *mon.Run) {
	bases := r.Pick(6, 48)
	for d := 0; d < bases && !r.Stop(); d++ {
		g := r.Rng("base", d)
		n := []int{10, 3, 8, 4, 5, 9, 6, 7}[d%8]
		base := rbytes(g, n)
		switch d % 4 {
		case 1:
			for i := range base {
				base[i] = 0xFF
			}
		case 3:
			for i := range base {
				base[i] = 0
			}
		}
		exhausted := make([]int64, 1<<21>>12)
		r.Parallel(1<<21>>12, func(c int) {
			for t := c << 12; t < (c+1)<<12; t++ {
				desStep(r, base, uint32(t))
				if _, ok := ref.NextCounter(uint64(t), 21, 10); !ok {
					exhausted[c]++
				}
				r.DistinctHash(uint64(d)<<32 | uint64(t))
			}
			r.Eval(1 << 12)
		})
		var ex int64
		for _, e := range exhausted {
			ex += e
		}
		r.Count("bases with all 2^21 counters", 1)
		r.Count("exhausted counters reported", int(ex))
		r.Sample("base", hexMap("ksn base", base))
	}
	r.Require("bases with all 2^21 counters", bases)
	// whole lives
	walks := r.Pick(8, 64)
	r.Parallel(walks, func(d int) {
		g := r.Rng("walk", d)
		start := ref.DESWithCounter(rbytes(g, 3+d%8), 0)
		cur, last, n := clone(start), uint32(0), 0
		for {
			next, err := pkg.GenerateNextDesKsn(cur)
			if err != nil {
				if next != nil {
					r.Violate("des-walk:exhaustion", "exhaustion with a KSN", hexMap("ksn", cur))
				}
				break
			}
			if len(next) != len(start) || !bytes.Equal(ref.DESWithCounter(next, 0), start) {
				r.Violate("des-walk:prefix", "bits outside the counter changed", hexMap("ksn", cur, "next", next))
				return
			}
			tc := ref.DESCounter(next)
			if tc <= last || bits.OnesCount32(tc) > 10 {
				r.Violate("des-walk:order", fmt.Sprintf("counter %06x after %06x", tc, last), hexMap("ksn", cur))
				return
			}
			last, cur = tc, next
			n++
			if n > 1<<20 {
				break
			}
			if n&0xFFFF == 0 {
				r.Progress()
			}
		}
		r.Eval(n)
		r.Count("KSNs issued in whole-life walks", n)
		if n != 1048575 {
			r.Violate("des-walk:count", fmt.Sprintf("a device starting at counter 0 passes through %d KSNs", n), hexMap("ksn", start))
		} else {
			r.Count("whole-life walks", 1)
		}
	})
	r.Require("whole-life walks", walks)
}

func c05(r *mon.Run) {
	check := func(id []byte, tc uint32) {
		in := ref.AESWithCounter(id, tc)
		got, err := pkg.GenerateNextAesKsn(in)
		want, ok := ref.NextCounter(uint64(tc), 32, 16)
		bad := ""
		switch {
		case !ok && (err == nil || got != nil):
			bad = fmt.Sprintf("got %x (error %v) instead of exhaustion", got, err)
		case ok && (err != nil || len(got) != 12 || !bytes.Equal(got[:8], id) || uint64(ref.AESCounter(got)) != want):
			bad = fmt.Sprintf("got %x (error %v), want counter %08x", got, err, want)
		}
		if bad != "" {
			r.Violate("aes-next", fmt.Sprintf("counter %08x: %s", tc, bad), hexMap("ksn", ref.AESWithCounter(id, tc)))
		}
		if v := pkg.IsValidAesKsn(in); v != (tc != 0 && bits.OnesCount32(tc) <= 16) {
			r.Violate("aes-valid", fmt.Sprintf("counter %08x: valid = %v", tc, v), hexMap("ksn", in))
		}
	}
	g0 := r.Rng("ids", 0)
	ids := make([][]byte, 16)
	for i := range ids {
		ids[i] = rbytes(g0, 8)
	}
	ids[1] = bytes.Repeat([]byte{0xFF}, 8)
	ids[2] = make([]byte, 8)

	// neighbourhoods of boundaries
	var marks []uint32
	for b := 0; b < 32; b++ {
		marks = append(marks, 1<<b, ^uint32(0)<<b, ^(^uint32(0) << b))
		for c := 0; c+16 <= 32; c++ {
			marks = append(marks, 0xFFFF<<c, 0xFFFF<<c|1<<b, 0x1FFFF<<c&^(1<<b))
		}
	}
	marks = append(marks, 0, 0xFFFF0000, 0xFFFFFFFF, 0xFFFEFFFF, 0xFFFE8000)
	r.Parallel(len(marks), func(i int) {
		for d := -300; d <= 300; d++ {
			check(ids[i%16], marks[i]+uint32(d))
			r.DistinctHash(uint64(marks[i] + uint32(d)))
		}
		r.Eval(601)
		r.Count("boundary neighbourhoods", 1)
	})
	// heavy counters: around 16 ones
	r.Parallel(r.Pick(2000, 20000), func(i int) {
		g := r.Rng("heavy", i)
		for k := 0; k < 500; k++ {
			tc := uint32(0)
			for bits.OnesCount32(tc) < 14+k%8 {
				tc |= 1 << g.IntN(32)
			}
			check(ids[k%16], tc)
			r.DistinctHash(uint64(tc))
		}
		r.Eval(500)
		r.Count("counters with 14 to 21 ones", 500)
	})
	if !r.Thorough() {
		// stratified sweep: an odd multiplier visits 2^26 different counters evenly
		off := r.Rng("offset", 0).Uint32()
		r.Parallel(1<<13, func(c int) {
			for k := 0; k < 1<<13; k++ {
				check(ids[c%16], uint32(c<<13|k)*2654435761+off)
			}
			r.Eval(1 << 13)
		})
		r.Count("stratified counters", 1<<26)
	} else {
		r.Parallel(1<<16, func(c int) {
			for k := 0; k < 1<<16; k++ {
				check(ids[c%16], uint32(c)<<16|uint32(k))
			}
			r.Eval(1 << 16)
		})
		if !r.Stop() {
			r.Count("all 2^32 counters", 1)
			r.Extra("exhaustive", true)
		}
	}
	// walks: history of consecutive issues, strictly increasing without gaps
	r.Parallel(r.Pick(32, 256), func(i int) {
		g := r.Rng("walk", i)
		start := uint32(0)
		switch i % 4 {
		case 1:
			start = 0xFFFF0000 - uint32(g.IntN(1<<20))
		case 2:
			start = g.Uint32()
		case 3:
			start = 0xFFFE0000 + uint32(g.IntN(1<<16))
		}
		cur := ref.AESWithCounter(ids[i%16], start)
		for n := 0; n < 50000; n++ {
			next, err := pkg.GenerateNextAesKsn(cur)
			want := ref.AESNext(cur)
			r.Count("walk steps", 1)
			if e := judgeNext(result{B: next, Err: err}, want); e != nil {
				r.Violate("aes-walk", e.Error(), hexMap("ksn", cur))
				return
			}
			if err != nil {
				r.Count("walks that reached exhaustion", 1)
				break
			}
			cur = next
		}
	})
	r.Require("walks that reached exhaustion", 4)
	r.Sample("counters", fmt.Sprintf("%d boundary marks, e.g. %08x %08x %08x", len(marks), marks[5], marks[40], marks[len(marks)-1]))
}
