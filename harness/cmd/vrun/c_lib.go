package main

import (
	"bytes"
	"crypto/cipher"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C06", "TDES PIN, MAC and data operations on random and structured keys, messages of every length 0..199, of 0..4000 bytes and around powers of two up to 1 MiB and of 3 to 17 MiB (empty MAC messages excluded), more than a million calls of each operation in one process, families of calls that differ in one component, IVs absent/short/exact/long, all actions, all formats in mixed case; outputs are compared with the model (PIN blocks: decrypted by the model and checked against the format). Distinct by (operation, arguments).", func(r *mon.Run) {
		near(r, 500, 20000, "des.EncryptPin", "des.DecryptPin", "des.GenerateMac", "des.EncryptData", "des.DecryptData")
		judgeOps(r, 12000, 400000, "des.EncryptPin", "des.DecryptPin", "des.GenerateMac", "des.EncryptData", "des.DecryptData")
		lengths(r, "des")
		longMessages(r, "des")
		manyCalls(r, "des.EncryptPin", "des.DecryptPin", "des.GenerateMac", "des.EncryptData", "des.DecryptData")
		nearLater(r, 166, 6666, "des.EncryptPin", "des.DecryptPin", "des.GenerateMac", "des.EncryptData", "des.DecryptData")
	})
	register("C07", "AES PIN, CMAC, HMAC and data operations for 128/192/256-bit keys on random and structured keys, KSNs with arbitrary counters, messages of every length 0..199, of 0..4000 bytes and around powers of two up to 1 MiB and of 3 to 17 MiB, more than a million calls of each operation in one process, families of calls that differ in one component, IVs absent/short/exact/long, all actions; outputs are compared with the model. Distinct by (operation, arguments).", func(r *mon.Run) {
		near(r, 1500, 50000, "aes.EncryptPin", "aes.DecryptPin", "aes.GenerateCMAC", "aes.GenerateHMAC", "aes.EncryptData", "aes.DecryptData")
		judgeOps(r, 20000, 600000, "aes.EncryptPin", "aes.DecryptPin", "aes.GenerateCMAC", "aes.GenerateHMAC", "aes.EncryptData", "aes.DecryptData")
		lengths(r, "aes")
		longMessages(r, "aes")
		manyCalls(r, "aes.EncryptPin", "aes.DecryptPin", "aes.GenerateCMAC", "aes.GenerateHMAC", "aes.EncryptData", "aes.DecryptData")
		nearLater(r, 500, 16666, "aes.EncryptPin", "aes.DecryptPin", "aes.GenerateCMAC", "aes.GenerateHMAC", "aes.EncryptData", "aes.DecryptData")
	})
	register("C08", "for every format, PIN length 4..12 and PAN length (13..19; 12..19 for AES) and three AES key sizes: random PINs, PANs, keys and format letter cases; the PIN is encrypted and decrypted by the library (and PIN blocks built by the model with arbitrary fill are decrypted by the library); families of round trips that differ in one component are interleaved. Distinct by (format, key, PIN, PAN).", c08)
	register("C09", "encrypt/decrypt round trips of data for both algorithms and all key sizes: every plaintext length 0..130, random longer ones and lengths around powers of two up to 2 MiB and of 3 to 17 MiB, families of interleaved round trips, IVs absent/short/exact/long, both actions, and decryption with the other action. Distinct by (key, IV, plaintext, action).", c09)
	register("C28", "block ciphers: random and structured keys of every accepted size, random and structured blocks, both directions; every other key length 0..80 and block length 0..80; the caller's key overwritten after construction; one object used for more than a million blocks. Distinct by (cipher, key, block).", c28)
	register("C13", "race-detector build: rounds in which many goroutines call all library operations on the same argument slices and cipher objects (messages of up to half a megabyte too) without any synchronisation between calls; every result is judged by the model; besides, processes of their own whose very first calls of the code, one for each operation, are concurrent. Distinct by (operation, arguments) shared in a round.", c13)
}

func opByName(n string) *op {
	for _, o := range ops {
		if o.Name == n {
			return o
		}
	}
	panic("no op " + n)
}

func judgeOne(r *mon.Run, o *op, a *args) {
	in := a.clone()
	r.Guard(func() any { return map[string]any{"operation": o.Name, "arguments": a.show()} }, func() {
		res := o.Call(in)
		if err := o.Judge(a, res); err != nil {
			r.Violate(o.Name, err.Error(), map[string]any{"arguments": a.show(), "result": res.show()})
		}
	})
	r.Eval(1)
	r.Distinct(o.Name, a.Key, a.KSN, a.IV, a.CT, a.Pin, a.Pan, a.Format, a.KeyType, a.Action, a.Text)
	if r.WantSample(o.Name) {
		r.Sample(o.Name, a.show())
	}
}

func judgeOps(r *mon.Run, quick, thorough int, names ...string) {
	for _, n := range names {
		o := opByName(n)
		cnt := r.Pick(quick, thorough)
		r.Parallel(cnt, func(i int) {
			judgeOne(r, o, o.Gen(r.Rng(n, i)))
		})
		r.Count(n, cnt)
		r.Require(n, cnt)
	}
}

// manyCalls calls each operation so often that whatever is counted or reused by the way comes round
func manyCalls(r *mon.Run, names ...string) {
	n := r.Pick(1_100_000, 6_000_000)
	const part = 10_000
	for _, name := range names {
		o := opByName(name)
		g := r.Rng("many calls "+name, 0)
		random := strings.HasSuffix(name, "EncryptPin")
		cases, first := make([]*args, 32), make([]result, 32)
		for k := range cases {
			a := o.Gen(g)
			if len(a.Text) > 40 {
				a.Text = a.Text[:40]
			}
			if len(a.CT) > 48 {
				a.CT = a.CT[:48]
			}
			cases[k], first[k] = a, o.Call(a.clone())
			first[k].B = clone(first[k].B)
			judgeOne(r, o, a)
		}
		r.Parallel(n/part, func(i int) {
			for x := 0; x < part; x++ {
				k := (x + i) % len(cases)
				a := cases[k]
				res := o.Call(a)
				var err error
				switch {
				case random:
					if err = res.Err; err == nil && len(res.B) != len(first[k].B) {
						err = fmt.Errorf("%d bytes instead of %d", len(res.B), len(first[k].B))
					} else if err == nil && x%40 == 0 {
						err = o.Judge(a, res)
					}
				case !bytes.Equal(res.B, first[k].B) || res.S != first[k].S || (res.Err == nil) != (first[k].Err == nil):
					if err = o.Judge(a, res); err == nil {
						err = fmt.Errorf("the result is %v, at first it was %v", res.show(), first[k].show())
					}
				}
				if err != nil {
					r.Violate("many:"+name, fmt.Sprintf("about call number %d: %v", i*part+x, err), map[string]any{"arguments": a.show(), "result": res.show()})
					return
				}
			}
			r.Eval(part)
			r.Progress()
		})
		r.Count("calls in a row of "+name, n)
	}
}

// lengths drives the message operations through every length and IV length
func lengths(r *mon.Run, fam string) {
	max := r.Pick(200, 1100)
	r.Parallel(max, func(n int) {
		g := r.Rng("len", n)
		for _, o := range ops {
			if o.Fam != fam || !(strings.Contains(o.Name, "MAC") || strings.Contains(o.Name, "Mac") || strings.Contains(o.Name, "Data")) {
				continue
			}
			for _, act := range []string{"request", "response"} {
				for k := 0; k < 3; k++ {
					a := o.Gen(g)
					a.Action = act
					if strings.Contains(o.Name, "Decrypt") {
						bs := 8
						if fam == "aes" {
							bs = 16
						}
						a.CT = rbytes(g, n/bs*bs)
					} else if n > 0 || o.Name != "des.GenerateMac" {
						a.Text = text(g, n)
					}
					if strings.Contains(o.Name, "Data") && n <= 40 {
						a.IV = rbytes(g, n)
					}
					judgeOne(r, o, a)
				}
			}
		}
	})
	r.Count("message lengths enumerated", max)
}

func c08(r *mon.Run) {
	trips(r, 1000, 40000, "des.EncryptPin", "des.DecryptPin", wantCarried)
	trips(r, 1000, 40000, "aes.EncryptPin", "aes.DecryptPin", wantCarried)
	reps := r.Pick(12, 250)
	type cell struct {
		format      string
		pinLen, pan int
	}
	var cells []cell
	for _, f := range ref.DESFormats {
		for p := 4; p <= 12; p++ {
			for n := 13; n <= 19; n++ {
				cells = append(cells, cell{f, p, n})
			}
		}
	}
	for p := 4; p <= 12; p++ {
		for n := 12; n <= 19; n++ {
			for _, k := range []string{"AES128", "AES192", "AES256"} {
				cells = append(cells, cell{k, p, n})
			}
		}
	}
	r.Parallel(len(cells), func(c int) {
		ce := cells[c]
		g := r.Rng("cell", c)
		for k := 0; k < reps; k++ {
			p, pan := digits(g, ce.pinLen), digits(g, ce.pan)
			var ct []byte
			var err error
			want := ref.Carried(ce.format, p)
			sig := fmt.Sprintf("des-decrypt-pin:%s:len%d", ce.format, ce.pinLen)
			info := map[string]any{"format": ce.format, "pin": p, "pan": pan}
			if strings.HasPrefix(ce.format, "AES") {
				sig = fmt.Sprintf("aes-decrypt-pin:%s:len%d", ce.format, ce.pinLen)
				n := map[string]int{"AES128": 16, "AES192": 24, "AES256": 32}[ce.format]
				tk, ksn := key(g, n), aesKSN(g)
				info["key"], info["ksn"] = hx(tk), hx(ksn)
				r.Guard(func() any { return info }, func() {
					ct, err = aes.EncryptPin(clone(tk), clone(ksn), p, pan, ce.format)
					if err != nil {
						r.Violate(sig+":encrypt", err.Error(), info)
						return
					}
					judgePin(r, sig, want, info, rs(aes.DecryptPin(clone(tk), clone(ksn), ct, pan, ce.format)))
					alt := ref.AESPinEnc(tk, ksn, p, pan, rbytes(g, 8))
					judgePin(r, sig, want, info, rs(aes.DecryptPin(clone(tk), clone(ksn), alt, pan, ce.format)))
				})
				r.Distinct(ce.format, tk, ksn, p, pan)
			} else {
				tk := key(g, 16)
				f1, f2 := mixCase(g, ce.format), mixCase(g, ce.format)
				if k == 0 {
					f1, f2 = ce.format, strings.ToLower(ce.format)
				}
				info["key"], info["formats"] = hx(tk), f1+" "+f2
				r.Guard(func() any { return info }, func() {
					ct, err = des.EncryptPin(clone(tk), p, pan, f1)
					if err != nil {
						r.Violate(sig+":encrypt", err.Error(), info)
						return
					}
					judgePin(r, sig, want, info, rs(des.DecryptPin(clone(tk), ct, pan, f2)))
					alt := ref.DESPinEnc(tk, ref.PinBlock(ce.format, p, pan, fillFn(g)))
					judgePin(r, sig, want, info, rs(des.DecryptPin(clone(tk), alt, pan, f1)))
				})
				r.Distinct(ce.format, tk, p, pan)
			}
			r.Eval(2)
		}
		r.Count("cells (format or key size, PIN length, PAN length)", 1)
		if c%211 == 0 {
			r.Sample(ce.format, map[string]any{"pin length": ce.pinLen, "pan length": ce.pan})
		}
	})
	if !r.Stop() {
		r.Require("cells (format or key size, PIN length, PAN length)", len(cells))
	}
}

func judgePin(r *mon.Run, sig, want string, info map[string]any, res result) {
	d := map[string]any{"result": res.show(), "want": want}
	for k, v := range info {
		d[k] = v
	}
	switch {
	case res.Err != nil:
		r.Violate(sig+":error", "the encrypted PIN can not be decrypted: "+res.Err.Error(), d)
	case res.S != want:
		r.Violate(sig+":wrong", fmt.Sprintf("got %q, want %q", res.S, want), d)
	}
}

func c09(r *mon.Run) {
	trips(r, 1000, 40000, "des.EncryptData", "des.DecryptData", wantPadded(8))
	trips(r, 1000, 40000, "aes.EncryptData", "aes.DecryptData", wantPadded(16))
	trip := func(g rng, alg string, n int, act string, iv []byte) {
		msg := text(g, n)
		var bs int
		var enc func() ([]byte, error)
		var dec func(ct []byte, act string) (string, error)
		info := map[string]any{"algorithm": alg, "iv": hx(iv), "iv absent": iv == nil, "plaintext": brief(msg), "action": act}
		var id []byte
		if alg == "des" {
			bs = 8
			tk := key(g, 16)
			id = tk
			enc = func() ([]byte, error) { return des.EncryptData(clone(tk), clone(iv), msg, act) }
			dec = func(ct []byte, a string) (string, error) { return des.DecryptData(clone(tk), ct, clone(iv), a) }
		} else {
			bs = 16
			tk := key(g, map[string]int{"AES128": 16, "AES192": 24, "AES256": 32}[alg])
			ksn := aesKSN(g)
			id = append(clone(tk), ksn...)
			info["ksn"] = hx(ksn)
			enc = func() ([]byte, error) { return aes.EncryptData(clone(tk), clone(ksn), clone(iv), msg, alg, act) }
			dec = func(ct []byte, a string) (string, error) {
				return aes.DecryptData(clone(tk), clone(ksn), ct, clone(iv), alg, a)
			}
		}
		info["key"] = hx(id)
		r.Guard(func() any { return info }, func() {
			ct, err := enc()
			if err != nil {
				r.Violate("roundtrip:"+alg+":encrypt-error", err.Error(), info)
				return
			}
			if want := (n + bs - 1) / bs * bs; len(ct) != want {
				r.Violate("roundtrip:"+alg+":length", fmt.Sprintf("ciphertext of %d bytes for %d bytes", len(ct), n), info)
				return
			}
			pt, err := dec(clone(ct), act)
			padded := msg + strings.Repeat("\x00", len(ct)-n)
			if err != nil || pt != padded {
				r.Violate("roundtrip:"+alg, fmt.Sprintf("got %s (error %v)", brief(pt), err), info)
				return
			}
			if n > 0 {
				other := "response"
				if isResponse(act) {
					other = "request"
				}
				pt, err := dec(clone(ct), other)
				if err == nil && pt == padded {
					r.Violate("roundtrip:"+alg+":other-action", "the other action decrypts the data", info)
				}
				r.Count("other action does not decrypt", 1)
			}
			if ivs := len(iv); ivs < bs {
				r.Count(alg+" short or absent IV", 1)
			} else if ivs > bs {
				r.Count(alg+" long IV", 1)
			}
		})
		r.Eval(1)
		r.Distinct(id, iv, msg, act)
		if r.WantSample(alg) {
			r.Sample(alg, info)
		}
	}
	algs := []string{"des", "AES128", "AES192", "AES256"}
	r.Parallel(131, func(n int) {
		g := r.Rng("len", n)
		for _, alg := range algs {
			for _, act := range actions {
				for k := 0; k < 5; k++ {
					var iv []byte
					if k > 0 {
						iv = rbytes(g, []int{0, 8 + g.IntN(9), g.IntN(8), 17 + g.IntN(30)}[k-1])
					}
					trip(g, alg, n, act, iv)
				}
			}
		}
	})
	r.Parallel(r.Pick(20000, 600000), func(i int) {
		g := r.Rng("random", i)
		alg := algs[i%4]
		bs := 16
		if alg == "des" {
			bs = 8
		}
		trip(g, alg, msgLen(g), action(g), ivAny(g, bs))
	})
	r.Parallel(r.Pick(8, 100), func(i int) {
		g := r.Rng("large", i)
		trip(g, algs[i%4], 50000+g.IntN(400000), action(g), ivAny(g, 16))
		r.Count("large messages", 1)
	})
	sizes := append(bigSizes(r.Pick(1<<21, 1<<24)), hugeSizes...)
	r.Parallel(len(sizes), func(i int) {
		n := sizes[len(sizes)-1-i]
		g := r.Rng("sizes", n)
		for _, alg := range algs {
			trip(g, alg, n, action(g), ivAny(g, 16))
			r.Count("messages "+sizeClass(n), 1)
		}
	})
	r.Require("messages of 1 MiB and more", 3)
}

func c28(r *mon.Run) {
	near(r, 1500, 60000, "encryption.AesECB.Encrypt", "encryption.AesECB.Decrypt", "encryption.DesECB.Encrypt", "encryption.DesECB.Decrypt", "encryption.TripleDesECB.Encrypt", "encryption.TripleDesECB.Decrypt")
	kinds := map[string][]int{"aes": {16, 24, 32}, "des": {8}, "tdes": {16, 24}}
	names := []string{"aes", "des", "tdes"}
	r.Parallel(r.Pick(40000, 1500000), func(i int) {
		g := r.Rng("blocks", i)
		kind := names[i%3]
		sizes := kinds[kind]
		k := key(g, sizes[g.IntN(len(sizes))])
		bs := 8
		if kind == "aes" {
			bs = 16
		}
		mine := clone(k)
		info := func() any { return map[string]any{"cipher": kind, "key": hx(k)} }
		r.Guard(info, func() {
			c, err := newECB(kind, mine)
			if err != nil {
				r.Violate("ecb:"+kind+":construct", err.Error(), info())
				return
			}
			for j := 0; j < 4; j++ {
				if j == 2 { // the caller overwrites its key
					for x := range mine {
						mine[x] ^= byte(g.Uint32() | 1)
					}
					r.Count("keys overwritten after construction", 1)
				}
				b := rbytes(g, bs)
				if j == 3 {
					b = make([]byte, bs)
					b[g.IntN(bs)] = 1 << g.IntN(8)
				}
				in := clone(b)
				e, err := c.Encrypt(in)
				if we := ecbRef[kind][0](k, b); err != nil || !bytes.Equal(e, we) {
					r.Violate("ecb:"+kind+":encrypt", fmt.Sprintf("step %d block %x: got %x (error %v), want %x", j, b, e, err, we), info())
					return
				}
				d, err := c.Decrypt(in)
				if wd := ecbRef[kind][1](k, b); err != nil || !bytes.Equal(d, wd) {
					r.Violate("ecb:"+kind+":decrypt", fmt.Sprintf("step %d block %x: got %x (error %v), want %x", j, b, d, err, wd), info())
					return
				}
				if back, err := c.Decrypt(e); err != nil || !bytes.Equal(back, b) {
					r.Violate("ecb:"+kind+":inverse", fmt.Sprintf("block %x: got %x (error %v)", b, back, err), info())
					return
				}
				r.Eval(3)
				r.Distinct(kind, k, b)
			}
			if x, ok := c.(interface{ GetBlock() cipher.Block }); ok { // the block behind the cipher is the same permutation
				if bl := x.GetBlock(); bl == nil || bl.BlockSize() != bs {
					r.Violate("ecb:"+kind+":block", "GetBlock gives no cipher of the block size", info())
				} else {
					b, e, d := rbytes(g, bs), make([]byte, bs), make([]byte, bs)
					bl.Encrypt(e, b)
					bl.Decrypt(d, b)
					if !bytes.Equal(e, ecbRef[kind][0](k, b)) || !bytes.Equal(d, ecbRef[kind][1](k, b)) {
						r.Violate("ecb:"+kind+":block", fmt.Sprintf("block %x: GetBlock gives %x and %x", b, e, d), info())
					}
					r.Count("blocks through GetBlock", 1)
				}
			}
			if r.WantSample(kind) {
				r.Sample(kind, info())
			}
		})
	})
	// one cipher object for millions of blocks
	long := r.Pick(1_200_000, 20_000_000)
	r.Parallel(6, func(i int) {
		g := r.Rng("long run", i)
		kind, dir := names[i%3], i/3
		k := key(g, kinds[kind][g.IntN(len(kinds[kind]))])
		c, err := newECB(kind, k)
		if err != nil {
			r.Violate("ecb:"+kind+":construct", err.Error(), hexMap("key", k))
			return
		}
		f := c.Encrypt
		if dir == 1 {
			f = c.Decrypt
		}
		bs := 8
		if kind == "aes" {
			bs = 16
		}
		var in, out [16][]byte
		for x := range in {
			in[x] = rbytes(g, bs)
			out[x] = ecbRef[kind][dir](k, in[x])
		}
		for n := 0; n < long; n++ {
			if got, err := f(in[n%16]); err != nil || !bytes.Equal(got, out[n%16]) {
				r.Violate("ecb:"+kind+":long run", fmt.Sprintf("block number %d of one cipher (direction %d): got %x (error %v), want %x", n+1, dir, got, err, out[n%16]), hexMap("key", k, "block", in[n%16]))
				return
			}
			if n%65536 == 0 {
				r.Progress()
			}
		}
		r.Eval(long)
		r.Count("blocks of one cipher object", long)
	})
	r.Require("blocks of one cipher object", 6_000_000)
	// lengths
	r.Parallel(81, func(n int) {
		g := r.Rng("lengths", n)
		for _, kind := range names {
			ok := false
			for _, s := range kinds[kind] {
				ok = ok || s == n
			}
			for rep := 0; rep < 3; rep++ {
				k := key(g, n)
				info := func() any { return map[string]any{"cipher": kind, "key": hx(k)} }
				r.Guard(info, func() {
					c, err := newECB(kind, k)
					if (err == nil) != ok {
						r.Violate(fmt.Sprintf("ecb:%s:keylen%d", kind, n), fmt.Sprintf("a key of %d bytes gives error %v", n, err), info())
					}
					if err != nil && c != nil && c != ecb(nil) {
						r.Violate(fmt.Sprintf("ecb:%s:keylen%d", kind, n), "an error and a cipher", info())
					}
				})
				r.Count("key lengths tried", 1)
				bs := 8
				if kind == "aes" {
					bs = 16
				}
				c, err := newECB(kind, key(g, kinds[kind][0]))
				if err != nil {
					return
				}
				b := rbytes(g, n)
				if n == 0 && rep == 1 {
					b = nil
				}
				for dir, f := range []func([]byte) ([]byte, error){c.Encrypt, c.Decrypt} {
					r.Guard(func() any { return map[string]any{"cipher": kind, "block": hx(b), "direction": dir} }, func() {
						out, err := f(b)
						if (err == nil) != (n == bs) || (err != nil && len(out) > 0) {
							r.Violate(fmt.Sprintf("ecb:%s:blocklen%d", kind, n), fmt.Sprintf("a block of %d bytes gives %x, error %v", n, out, err), hexMap("block", b))
						}
					})
					r.Eval(1)
					r.Count("block lengths tried", 1)
				}
			}
		}
	})
	r.Require("keys overwritten after construction", 1000)
	nearLater(r, 500, 20000, "encryption.AesECB.Encrypt", "encryption.AesECB.Decrypt", "encryption.DesECB.Encrypt", "encryption.DesECB.Decrypt", "encryption.TripleDesECB.Encrypt", "encryption.TripleDesECB.Decrypt")
}

func c13(r *mon.Run) {
	r.Extra("race_detector", raceEnabled)
	if !raceEnabled {
		r.Inconclusive("not built with the race detector")
	}
	coldStarts(r, r.Pick(2, 40), coldNames()...)
	rounds := r.Pick(60, 1500)
	workers := max(16, 2*runtime.GOMAXPROCS(0))
	calls := 30
	maxOverlap, overlapSum := 0, 0
	for rd := 0; rd < rounds && !r.Stop(); rd++ {
		g := r.Rng("round", rd)
		// shared by all goroutines, never written by the harness
		shared := make([][]*args, len(ops))
		for i, o := range ops {
			var first *args
			for k := 0; k < 2; k++ {
				a := o.Gen(g)
				if k == 0 {
					first = a
				} else if vs := variants(g, o, first); len(vs) > 0 && rd%2 == 0 {
					a = vs[0] // the two differ in one component
				}
				message := strings.Contains(o.Name, "MAC") || strings.Contains(o.Name, "Mac") || strings.Contains(o.Name, "Data")
				if long := 1 << (10 + g.IntN(10)); rd%10 == 7 && message { // long messages
					if len(a.Text) > 0 {
						a.Text = text(g, long+g.IntN(17))
					}
					if strings.HasSuffix(o.Name, "DecryptData") {
						a.CT = rbytes(g, long)
					}
					r.Count("long shared messages", 1)
				} else {
					if len(a.Text) > 200 {
						a.Text = a.Text[:200]
					}
					if len(a.CT) > 208 {
						a.CT = a.CT[:208]
					}
				}
				// spare capacity behind the slices makes appends into them visible
				a.Key, a.KSN, a.IV = spare(a.Key), spare(a.KSN), spare(a.IV)
				shared[i] = append(shared[i], a)
			}
		}
		// shared cipher objects
		type obj struct {
			kind string
			key  []byte
			c    ecb
		}
		var objs []obj
		for _, k := range []string{"aes", "des", "tdes"} {
			kk := key(g, map[string]int{"aes": 16, "des": 8, "tdes": 16}[k])
			c, err := newECB(k, kk)
			if err != nil {
				r.Violate("shared-cipher", err.Error(), hexMap("key", kk))
				return
			}
			objs = append(objs, obj{k, kk, c})
		}
		// several blocks: a buffer shared by two calls on one cipher object shows in the result even where the detector cannot see the access (assembly)
		const nBlocks = 8
		blocks := map[string][][]byte{}
		expect := map[string][2][][]byte{}
		for _, o := range objs {
			var e, d [][]byte
			for x := 0; x < nBlocks; x++ {
				b := rbytes(g, map[string]int{"aes": 16, "des": 8, "tdes": 8}[o.kind])
				blocks[o.kind] = append(blocks[o.kind], b)
				e = append(e, ecbRef[o.kind][0](o.key, b))
				d = append(d, ecbRef[o.kind][1](o.key, b))
			}
			expect[o.kind] = [2][][]byte{e, d}
		}
		type span struct{ from, to time.Duration }
		type bad struct {
			op  string
			a   *args
			res result
			err error
		}
		spans := make([][]span, workers)
		bads := make([][]bad, workers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		seeds := make([]*rand.Rand, workers)
		for w := range seeds {
			seeds[w] = r.Rng("worker", rd*1000+w)
		}
		t0 := time.Now()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				my := seeds[w]
				<-start
				r.Guard(nil, func() {
					// all workers hammer one operation of the round first, then random ones
					for n := 0; n < calls; n++ {
						i := my.IntN(len(ops))
						if n < 6 {
							i = (rd*2 + n/3) % len(ops)
						}
						a := shared[i][my.IntN(2)]
						if n%3 == 0 && n < 6 {
							a = shared[i][0]
						}
						from := time.Since(t0)
						res := ops[i].Call(a)
						spans[w] = append(spans[w], span{from, time.Since(t0)})
						if err := ops[i].Judge(a, res); err != nil {
							bads[w] = append(bads[w], bad{ops[i].Name, a, res, err})
						}
						o := objs[my.IntN(len(objs))]
						for x := 0; x < 12; x++ {
							y := my.IntN(nBlocks)
							in := blocks[o.kind][y]
							e, err := o.c.Encrypt(in)
							if err != nil || !bytes.Equal(e, expect[o.kind][0][y]) {
								bads[w] = append(bads[w], bad{"shared " + o.kind + " cipher", &args{Key: o.key, CT: in}, rb(e, err), fmt.Errorf("wrong block")})
							}
							d, err := o.c.Decrypt(in)
							if err != nil || !bytes.Equal(d, expect[o.kind][1][y]) {
								bads[w] = append(bads[w], bad{"shared " + o.kind + " cipher", &args{Key: o.key, CT: in}, rb(d, err), fmt.Errorf("wrong block")})
							}
						}
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		r.Eval(workers * calls * 25)
		for i, o := range ops {
			for _, a := range shared[i] {
				r.Distinct(o.Name, a.Key, a.KSN, a.CT, a.IV, a.Text, a.Pin)
			}
		}
		var ev []struct {
			t time.Duration
			d int
		}
		for w := range spans {
			for _, s := range spans[w] {
				ev = append(ev, struct {
					t time.Duration
					d int
				}{s.from, 1}, struct {
					t time.Duration
					d int
				}{s.to, -1})
			}
			for _, b := range bads[w] {
				r.Violate("concurrent:"+b.op, b.err.Error(), map[string]any{"arguments": b.a.show(), "result": b.res.show()})
			}
		}
		sort.Slice(ev, func(i, j int) bool { return ev[i].t < ev[j].t })
		cur, peak := 0, 0
		for _, e := range ev {
			cur += e.d
			peak = max(peak, cur)
		}
		maxOverlap = max(maxOverlap, peak)
		overlapSum += peak
		r.Count("rounds", 1)
		if peak >= 2 {
			r.Count("rounds with overlapping calls", 1)
		}
		if rd < 2 {
			r.Sample("shared arguments", shared[rd][0].show())
		}
	}
	r.Extra("max_overlapping_calls", maxOverlap)
	r.Extra("goroutines_per_round", workers)
	r.Require("rounds with overlapping calls", rounds/2)
	r.Require("long shared messages", 50)
}

// spare gives the slice free capacity
func spare(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)+64), b...)
}
