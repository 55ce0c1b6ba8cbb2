package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

// Near collisions: calls whose arguments differ in exactly one component, and there as little as
// possible, made one after another in one process. State that the code keeps between calls
// (memos, pools, last-used values) and keys too coarsely makes one of them answer for another.

// flip changes one bit; DES parity bits are left alone when parity is set
func flip(g rng, b []byte, parity bool) []byte {
	c := clone(b)
	i := g.IntN(len(c))
	switch g.IntN(4) { // also where a truncated comparison looks first or last
	case 0:
		i = len(c) - 1
	case 1:
		i = len(c) / 2
	}
	n := g.IntN(8)
	if parity && n == 0 {
		n = 1 + g.IntN(7)
	}
	c[i] ^= 1 << n
	return c
}

func otherDigit(g rng, s string, from int) string {
	if len(s) <= from {
		return s
	}
	b := []byte(s)
	i := from + g.IntN(len(b)-from)
	b[i] = '0' + (b[i]-'0'+byte(1+g.IntN(9)))%10
	return string(b)
}

// nearKSN changes the key identifier or the counter
func nearKSN(g rng, ksn []byte, fam string) []byte {
	aes := fam == "aes" || (fam == "ksn" && len(ksn) == 12)
	if aes && len(ksn) == 8 {
		return flip(g, ksn, false)
	}
	if g.IntN(2) == 0 { // the identifier: bytes before the counter
		n := len(ksn) - 3
		if aes {
			n = 8
		}
		if n > 0 {
			c := clone(ksn)
			copy(c, flip(g, ksn[:n], false))
			return c
		}
	}
	if aes {
		c := ref.AESCounter(ksn)
		for x := 0; x < 40; x++ {
			if t := c ^ 1<<g.IntN(32); ref.AESValid(ref.AESWithCounter(ksn[:8], t)) {
				return ref.AESWithCounter(ksn[:8], t)
			}
		}
		return ref.AESWithCounter(ksn[:8], 1)
	}
	return ref.DESWithCounter(ksn, ones(g, 21, 10))
}

func nearText(g rng, s string) string {
	b := []byte(s)
	switch x := g.IntN(6); {
	case len(b) == 0 || x == 0:
		return s + string(rbytes(g, 1))
	case x == 1:
		return s + "\x00"
	case x == 2 && len(b) > 1:
		return s[:len(s)-1]
	case x == 3 && len(b) > 1:
		return s[1:] + s[:1]
	}
	return string(flip(g, b, false))
}

// variants are argument sets that differ from a in one component
func variants(g rng, o *op, a *args) []*args {
	var out []*args
	add := func(f func(c *args) bool) {
		c := a.clone()
		if f(c) {
			out = append(out, c)
		}
	}
	if len(a.Key) > 0 {
		for x := 0; x < 2; x++ {
			add(func(c *args) bool { c.Key = flip(g, a.Key, o.Fam != "aes"); return true })
		}
		add(func(c *args) bool { c.Key = rbytes(g, len(a.Key)); return true })
		add(func(c *args) bool { // the first eight bytes stay
			copy(c.Key[len(c.Key)/2:], rbytes(g, len(c.Key)/2))
			return true
		})
	}
	if len(a.KSN) > 0 {
		for x := 0; x < 2; x++ {
			add(func(c *args) bool { c.KSN = nearKSN(g, a.KSN, o.Fam); return true })
		}
	}
	if strings.Contains(o.Name, "Data") {
		bs := 8
		if o.Fam == "aes" {
			bs = 16
		}
		add(func(c *args) bool { c.IV = rbytes(g, bs); return true })
		add(func(c *args) bool { c.IV = nil; return true })
		if len(a.IV) > 0 {
			add(func(c *args) bool { c.IV = flip(g, a.IV, false); return true })
			add(func(c *args) bool { c.IV = c.IV[:len(c.IV)-1]; return true })
		}
	}
	if a.Text != "" && o.Name != "pkg.HexDecode" {
		for x := 0; x < 3; x++ {
			add(func(c *args) bool {
				c.Text = nearText(g, a.Text)
				return c.Text != "" || o.Name != "des.GenerateMac"
			})
		}
	}
	if len(a.CT) > 0 && !strings.Contains(o.Name, "Pin") && o.Name != "pkg.HexDecode" {
		add(func(c *args) bool { c.CT = flip(g, a.CT, false); return true })
	}
	if strings.Contains(o.Name, "Mac") || strings.Contains(o.Name, "MAC") || strings.Contains(o.Name, "Data") {
		add(func(c *args) bool {
			c.Action = "response"
			if isResponse(a.Action) {
				c.Action = "request"
			}
			return true
		})
	}
	if a.Pin != "" {
		if o.Name != "des.DecryptPin" { // longer PINs: C08
			add(func(c *args) bool {
				if len(c.Pin) < 12 {
					c.Pin += digits(g, 1)
				} else {
					c.Pin = c.Pin[:11]
				}
				return true
			})
		}
		add(func(c *args) bool { c.Pin = otherDigit(g, a.Pin, 0); return true })
		for x := 0; x < 2; x++ {
			add(func(c *args) bool { c.Pan = otherDigit(g, a.Pan, 0); return true })
		}
		if len(a.Pan) > 13 {
			add(func(c *args) bool { c.Pan = c.Pan[1:]; return true })
		}
		if o.Fam == "des" {
			f := ref.DESFormats[g.IntN(len(ref.DESFormats))]
			if len(a.Pin) <= 9 || !ref.IsIso0Family(f) || o.Name != "des.DecryptPin" {
				add(func(c *args) bool { c.Format = mixCase(g, f); return true })
			}
		}
	}
	for _, c := range out { // what is decrypted belongs to the changed arguments
		switch o.Name {
		case "des.DecryptPin":
			f := strings.ToUpper(c.Format)
			c.CT = ref.DESPinEnc(c.Key, ref.PinBlock(f, c.Pin, c.Pan, fillFn(g)))
			c.WantPin = ref.Carried(f, c.Pin)
		case "aes.DecryptPin", "aes.EncryptPin":
			c.CT = ref.AESPinEnc(c.Key, c.KSN, c.Pin, c.Pan, rbytes(g, 8))
			c.WantPin = c.Pin
		}
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// near judges families of near arguments
func near(r *mon.Run, quick, thorough int, names ...string) {
	nearAs(r, "near/", quick, thorough, names...)
}

// nearLater is near when the process has made many calls before: what it keeps is full or replaced by then
func nearLater(r *mon.Run, quick, thorough int, names ...string) {
	nearAs(r, "later/", quick, thorough, names...)
}

func nearAs(r *mon.Run, label string, quick, thorough int, names ...string) {
	n := r.Pick(quick, thorough)
	for _, name := range names {
		o := opByName(name)
		r.Parallel(n, func(i int) {
			g := r.Rng(label+name, i)
			a := o.Gen(g)
			if len(a.Text) > 100 {
				a.Text = a.Text[:100]
			}
			judgeOne(r, o, a)
			vs := variants(g, o, a)
			for _, v := range vs {
				judgeOne(r, o, v)
			}
			judgeOne(r, o, a)
			r.Count("calls that differ from their predecessor in one component", len(vs))
		})
		r.Count("near families of "+name, n)
		r.Require("near families of "+name, n)
	}
}

// nearDev is a device that shares all but a bit of its base key or of its key identifier with d
func nearDev(g rng, d *dev) *dev {
	e := *d
	if g.IntN(2) == 0 {
		e.BDK = flip(g, d.BDK, !d.aes())
	} else {
		n := 8
		if !d.aes() {
			n = len(d.KSN) - 3
		}
		if n == 0 {
			e.BDK = flip(g, d.BDK, true)
		} else {
			e.KSN = append(flip(g, d.KSN[:n], false), d.KSN[n:]...)
		}
	}
	if e.aes() {
		e.IK = ref.AESInitialKey(e.BDK, e.KSN[:8])
	} else {
		e.IK = ref.DESInitialKey(e.BDK, e.KSN)
	}
	if hx(e.IK) == hx(d.IK) {
		return newDev(g, d.Alg)
	}
	return &e
}

// newDevs gives devices of which some nearly coincide
func newDevs(g rng, n int) []*dev {
	var out []*dev
	seen := map[string]bool{}
	for len(out) < n {
		d := newDev(g, algOf(g.IntN(2)))
		if len(out) > 0 && g.IntN(2) == 0 {
			d = nearDev(g, out[len(out)-1])
		}
		if !seen[d.ik()] {
			seen[d.ik()] = true
			out = append(out, d)
		}
	}
	return out
}

// bigSizes are message lengths around powers of two and multiples of them, up to max bytes
func bigSizes(max int) []int {
	seen := map[int]bool{}
	var out []int
	for p := 1 << 9; p <= max; p <<= 1 {
		for _, m := range []int{p, p + p/2} {
			for _, d := range []int{-17, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9, 15, 16, 17, 33} {
				if n := m + d; n <= max+64 && !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	return out
}

// hugeSizes are a few lengths beyond those of bigSizes
var hugeSizes = []int{3<<20 + 8, 5<<20 + 9, 17<<20 + 25}

func sizeClass(n int) string {
	switch {
	case n >= 1<<20-100:
		return "of 1 MiB and more"
	case n >= 1<<16-100:
		return "of 64 KiB to 1 MiB"
	}
	return "below 64 KiB"
}

// longMessages drives the message operations of a family through long messages
func longMessages(r *mon.Run, fam string) {
	sizes := append(bigSizes(r.Pick(1<<20, 1<<23)), hugeSizes...)
	r.Parallel(len(sizes), func(i int) {
		n := sizes[len(sizes)-1-i]
		g := r.Rng("big", n)
		for _, o := range ops {
			if o.Fam != fam || !(strings.Contains(o.Name, "MAC") || strings.Contains(o.Name, "Mac") || strings.Contains(o.Name, "Data")) {
				continue
			}
			a := o.Gen(g)
			if strings.Contains(o.Name, "Decrypt") {
				bs := 8
				if fam == "aes" {
					bs = 16
				}
				a.CT = rbytes(g, n/bs*bs)
			} else {
				a.Text = text(g, n)
			}
			judgeOne(r, o, a)
			r.Count("messages "+sizeClass(n), 1)
		}
	})
	r.Require("messages of 1 MiB and more", 3)
}

// brief shows a text that may be long
func brief(s string) string {
	if len(s) <= 5000 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
}

func briefHex(b []byte) string {
	if len(b) <= 5000 {
		return hx(b)
	}
	return fmt.Sprintf("%x... (%d bytes)", b[:150], len(b))
}

// trips encrypts a family of near arguments, then decrypts all of it in another order
func trips(r *mon.Run, quick, thorough int, enc, dec string, want func(a *args) string) {
	eo, do := opByName(enc), opByName(dec)
	n := r.Pick(quick, thorough)
	r.Parallel(n, func(i int) {
		g := r.Rng("trips/"+enc, i)
		a := eo.Gen(g)
		if len(a.Text) > 100 {
			a.Text = a.Text[:100]
		}
		all := append([]*args{a}, variants(g, eo, a)...)
		if len(all) > 12 {
			all = all[:12]
		}
		var cts [][]byte
		for _, v := range all {
			r.Guard(func() any { return v.show() }, func() {
				res := eo.Call(v.clone())
				if res.Err != nil {
					r.Violate("trip:"+enc, res.Err.Error(), v.show())
				}
				cts = append(cts, res.B)
			})
		}
		if len(cts) != len(all) {
			return
		}
		for round := 0; round < 2; round++ {
			for _, k := range g.Perm(len(all)) {
				v := all[k].clone()
				if enc == "des.EncryptPin" && len(v.Pin) > 9 && ref.IsIso0Family(strings.ToUpper(v.Format)) {
					continue // known finding, decided by C08's table
				}
				v.CT = clone(cts[k])
				r.Guard(func() any { return v.show() }, func() {
					res := do.Call(v)
					if w := want(all[k]); res.Err != nil || res.S != w {
						r.Violate("trip:"+dec, fmt.Sprintf("one of %d interleaved round trips: got %v, want %q", len(all), res.show(), w), map[string]any{"arguments": all[k].show(), "encrypted": hx(cts[k])})
					}
				})
				r.Eval(1)
			}
			r.Count("interleaved round trips: "+enc, len(all))
		}
		r.Distinct("trips", enc, a.Key, a.KSN, a.Pin, a.Text, a.Pan)
	})
	r.Require("interleaved round trips: "+enc, n)
}

func wantCarried(a *args) string {
	if a.KSN != nil {
		return a.Pin
	}
	return ref.Carried(strings.ToUpper(a.Format), a.Pin)
}

func wantPadded(bs int) func(a *args) string {
	return func(a *args) string {
		return a.Text + strings.Repeat("\x00", (bs-len(a.Text)%bs)%bs)
	}
}

// rest leaves machines alone for a while; the returned function waits until at least the given
// time has passed, collects garbage and checks that everything is as it was left
func rest(r *mon.Run, least time.Duration) (check func()) {
	g := r.Rng("rest", 0)
	type place struct {
		what string
		a    api
		devs []*dev
		held []*server.Machine
		want []server.Machine
	}
	var places []*place
	for _, http := range []bool{false, true} {
		s := newService()
		p := &place{what: "service", a: svcAPI{s}, devs: newDevs(g, 6)}
		if http {
			p.what, p.a = "http handler", handlerAPI(server.MakeHTTPHandler(s))
		}
		for _, d := range p.devs {
			m, err := p.a.Create(d.base(3))
			if err == nil {
				_, _, err = p.a.Next(d.ik())
			}
			var now *server.Machine
			if err == nil {
				now, err = p.a.Get(d.ik())
			}
			if err != nil {
				r.Violate("rest:create:"+p.what, err.Error(), d.show())
				return func() {}
			}
			p.held, p.want = append(p.held, m, now), append(p.want, *m, *now)
		}
		places = append(places, p)
	}
	begun := time.Now()
	return func() {
		for n := 0; time.Since(begun) < least || n < 4; n++ {
			runtime.GC()
			time.Sleep(200 * time.Millisecond)
			r.Progress()
		}
		for _, p := range places {
			for k, m := range p.held {
				if *m != p.want[k] {
					r.Violate("rest:held:"+p.what, fmt.Sprintf("a description changed from %+v to %+v", p.want[k], *m), nil)
				}
			}
			ms, err := p.a.List()
			if err != nil || len(ms) != len(p.devs) {
				r.Violate("rest:list:"+p.what, fmt.Sprintf("after %v %d of %d machines are listed (error %v)", time.Since(begun), len(ms), len(p.devs), err), nil)
			}
			for k, d := range p.devs {
				info := map[string]any{"device": d.show(), "idle": time.Since(begun).String()}
				m, err := p.a.Get(d.ik())
				if err == nil && !same(*m, p.want[2*k+1]) {
					err = fmt.Errorf("machine %+v, left as %+v", *m, p.want[2*k+1])
				}
				if err != nil {
					r.Violate("rest:get:"+p.what, err.Error(), info)
					continue
				}
				c, _ := d.next(3)
				for _, fn := range machineOps {
					q := d.genOp(g, fn, c)
					q.forJSON()
					got, err := p.a.Op(fn, d.ik(), q)
					if err == nil {
						err = d.judgeOp(d.tk(c), c, fn, q, throughJSON(got), true)
					}
					if err != nil {
						r.Violate("rest:"+fn+":"+p.what, err.Error(), info)
					}
				}
				if _, err := p.a.Create(d.base(9)); err == nil {
					r.Violate("rest:create:"+p.what, "the machine is created again", info)
				}
				n, _ := d.next(c)
				if ksn, _, err := p.a.Next(d.ik()); err != nil || !sameHex(ksn, hx(d.ksnAt(n))) {
					r.Violate("rest:next:"+p.what, fmt.Sprintf("next KSN is %s (error %v)", ksn, err), info)
				}
				r.Count("machines found as they were left", 1)
			}
		}
		r.Extra("idle_seconds", int(time.Since(begun).Seconds()))
		r.Eval(8 * 12)
	}
}
