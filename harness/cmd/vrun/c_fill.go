package main

import (
	"fmt"
	"math"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"

	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C31", "groups of encryptions of one PIN with the same parameters in every format with random fill (AES-128/192/256 ISO-4; TDES ISO-1, ISO-3, ECI2, ECI3, ECI4, VISA2, VISA3), one after another and concurrently and in series of 16,000, at the library, the unified function, the service, the HTTP handler, HTTP over TCP and in processes of dukptcli of their own; the reference model decrypts each block and reads its fill. Per group the number of pairs with equal fill must not exceed what chance allows, and every fill position must show many values. Distinct by (boundary, format, parameters).", c31)
}

// fillGroup judges the fills of encryptions with the same parameters; p is the probability that
// two of them agree in one character
func fillGroup(fills []string, p float64, positions bool) error {
	if len(fills) == 0 {
		return fmt.Errorf("no fill")
	}
	seen := map[string]int{}
	for _, f := range fills {
		seen[f]++
	}
	pairs := 0
	for _, n := range seen {
		pairs += n * (n - 1) / 2
	}
	n := float64(len(fills))
	expect := n * (n - 1) / 2 * math.Pow(p, float64(len(fills[0])))
	if limit := expect + 12*math.Sqrt(expect) + 6; float64(pairs) > limit {
		top := []string{}
		for f, n := range seen {
			if n > 1 {
				top = append(top, fmt.Sprintf("%s x%d", f, n))
			}
		}
		sort.Strings(top)
		return fmt.Errorf("%d encryptions of the same PIN have %d pairs with the same fill, chance gives %.2g (repeated: %s)", len(fills), pairs, expect, brief(strings.Join(top, " ")))
	}
	if positions {
		for i := range fills[0] {
			values := map[byte]bool{}
			for _, f := range fills {
				values[f[i]] = true
			}
			if len(values) < 5 {
				return fmt.Errorf("fill character %d has only %d values in %d encryptions", i, len(values), len(fills))
			}
		}
	}
	return nil
}

// fillCase is one PIN encryption that is repeated
type fillCase struct {
	d        *dev
	counter  uint32
	tk       []byte
	format   string // upper case
	spelled  string
	pin, pan string
}

func newFillCase(g rng, format string, i int) *fillCase {
	alg := "des"
	if format == "ISO-4" {
		alg = "aes"
	}
	c := &fillCase{d: newDev(g, alg), format: format, spelled: mixCase(g, format), counter: uint32(1 + g.IntN(900)), pan: digits(g, 13+g.IntN(7)), pin: pin(g, 4, 12)}
	if i%4 == 0 {
		c.pin = pin(g, 4, 4)
	}
	if format == "VISA3" && len(c.pin) > 11 {
		c.pin = c.pin[:11]
	}
	c.tk = c.d.tk(c.counter)
	return c
}

func (c *fillCase) show() map[string]any {
	return map[string]any{"device": c.d.show(), "counter": c.counter, "format": c.spelled, "pin": c.pin, "pan": c.pan}
}

func (c *fillCase) prob() float64 {
	if c.d.aes() {
		return 0.0625
	}
	return ref.RandomFill[c.format]
}

// fill reads the fill of a result
func (c *fillCase) fill(ct []byte, err error) (string, error) {
	if err != nil {
		return "", err
	}
	if c.d.aes() {
		tail, err := ref.AESPinCheck(c.tk, c.d.ksnAt(c.counter), ct, c.pin, c.pan)
		return hx(tail), err
	}
	if len(ct) != 8 {
		return "", fmt.Errorf("%d bytes", len(ct))
	}
	block := ref.DESPinDec(c.tk, ct)
	if err := ref.CheckPinBlock(c.format, block, c.pin, c.pan); err != nil {
		return "", err
	}
	return ref.Fill(c.format, block, c.pin, c.pan), nil
}

func (c *fillCase) fillHex(s string, err error) (string, error) {
	if err != nil {
		return "", err
	}
	if err := checkPinHex(c.d.aes(), c.tk, hx(c.d.ksnAt(c.counter)), c.format, s, c.pin, c.pan); err != nil {
		return "", err
	}
	return c.fill(mustHex(s), nil)
}

func c31(r *mon.Run) {
	formats := []string{"ISO-4", "ISO-1", "ISO-3", "ECI2", "ECI3", "ECI4", "VISA2", "VISA3"}
	// once gives the function that encrypts at a boundary
	type once func() (string, error)
	boundaries := []string{"library", "unified", "service", "handler", "tcp"}
	at := func(where string, c *fillCase) (once, func(), error) {
		ksn := c.d.ksnAt(c.counter)
		switch where {
		case "library":
			if c.d.aes() {
				return func() (string, error) { return c.fill(aes.EncryptPin(c.tk, ksn, c.pin, c.pan, c.d.KeyType)) }, func() {}, nil
			}
			return func() (string, error) { return c.fill(des.EncryptPin(c.tk, c.pin, c.pan, c.spelled)) }, func() {}, nil
		case "unified":
			p := server.UnifiedParams{Algorithm: c.d.Alg, AlgorithmKey: c.d.KeyType, TK: hx(c.tk), KSN: hx(ksn), PIN: c.pin, PAN: c.pan, Format: c.spelled}
			return func() (string, error) { return c.fillHex(server.EncryptPin(p)) }, func() {}, nil
		}
		s := server.NewService(server.NewRepositoryInMemory(quietLog()))
		var a api = svcAPI{s}
		done := func() {}
		switch where {
		case "handler":
			a = handlerAPI(server.MakeHTTPHandler(s), sameHeaders(c.pinLen()))
		case "tcp":
			srv := httptest.NewServer(server.MakeHTTPHandler(s))
			a, done = clientAPI(srv.Client(), srv.URL, sameHeaders(c.pinLen())), srv.Close
		}
		if _, err := a.Create(c.d.base(c.counter)); err != nil {
			done()
			return nil, nil, err
		}
		return func() (string, error) {
			return c.fillHex(a.Op("encrypt_pin", c.d.ik(), opParams{Pin: c.pin, Pan: c.pan, Format: c.spelled}))
		}, done, nil
	}

	type job struct {
		where, format string
		i             int
	}
	var jobs []job
	for i := 0; i < r.Pick(12, 200); i++ {
		for _, w := range boundaries {
			for _, f := range formats {
				jobs = append(jobs, job{w, f, i})
			}
		}
	}
	r.Parallel(len(jobs), func(k int) {
		j := jobs[k]
		g := r.Rng(j.where+j.format, j.i)
		c := newFillCase(g, j.format, j.i)
		n, workers := 64, 1
		if j.i%4 == 0 {
			n = 256
		}
		if j.i%3 == 1 {
			workers = 8
		}
		f, done, err := at(j.where, c)
		if err != nil {
			r.Violate("create", err.Error(), c.show())
			return
		}
		defer done()
		parts := make([][]string, workers)
		errs := make([]error, workers)
		var wg sync.WaitGroup
		for w := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard(func() any { return c.show() }, func() {
					for range n / workers {
						x, err := f()
						if err != nil {
							errs[w] = err
							return
						}
						parts[w] = append(parts[w], x)
					}
				})
			}()
		}
		wg.Wait()
		var all []string
		for w, p := range parts {
			if errs[w] != nil {
				r.Violate("encrypt:"+j.where+":"+j.format, errs[w].Error(), c.show())
				return
			}
			all = append(all, p...)
		}
		// the fill of another PIN under another key must not be the same either
		if err := fillGroup(all, c.prob(), n == 256); err != nil {
			r.Violate("fill:"+j.where+":"+j.format, err.Error(), map[string]any{"case": c.show(), "concurrent": workers, "fills": all[:min(len(all), 16)]})
		}
		r.Eval(len(all))
		r.Distinct(j.where, j.format, c.pin, c.pan, c.tk)
		r.Count("encryptions at "+j.where, len(all))
		r.Count("encryptions in "+j.format, len(all))
		r.Count("groups", 1)
		if workers > 1 {
			r.Count("concurrent groups", 1)
		}
		if r.WantSample(j.where) {
			r.Sample(j.where, map[string]any{"case": c.show(), "encryptions": len(all), "some_fills": all[:min(len(all), 6)]})
		}
	})

	// long series: fills must not come back
	long := []string{"library", "unified", "service", "handler"}
	r.Parallel(len(formats)*len(long), func(k int) {
		format, where := formats[k%len(formats)], long[k/len(formats)]
		g := r.Rng("long "+where+format, 0)
		c := newFillCase(g, format, 0) // the shortest PIN has the longest fill
		f, done, err := at(where, c)
		if err != nil {
			r.Violate("create", err.Error(), c.show())
			return
		}
		defer done()
		n := r.Pick(16000, 400000)
		if where != "library" {
			n /= 2
		}
		all := make([]string, 0, n)
		for range n {
			x, err := f()
			if err != nil {
				r.Violate("encrypt:"+where+":"+format, err.Error(), c.show())
				return
			}
			all = append(all, x)
			if len(all)%1000 == 0 {
				r.Progress()
			}
		}
		if err := fillGroup(all, c.prob(), true); err != nil {
			r.Violate("fill:long:"+where+":"+format, err.Error(), map[string]any{"case": c.show(), "fills": all[:16]})
		}
		r.Eval(n)
		r.Count("encryptions in long series", n)
		r.Distinct("long", where, format)
	})
	r.Require("encryptions in long series", 200_000)

	// different keys, PINs and machines: fills of the same kind must not follow from the parameters
	r.Parallel(len(formats)*2, func(k int) {
		format := formats[k/2]
		g := r.Rng("across"+format, k)
		var all []string
		var p float64
		for n := 0; n < 256; n++ {
			c := newFillCase(g, format, 0)
			if k%2 == 1 { // a fixed PIN and PAN under many keys
				c.pin, c.pan = "1234", "4012345678909"
			}
			p = c.prob()
			f, done, err := at("library", c)
			if err == nil {
				var x string
				x, err = f()
				done()
				all = append(all, x)
			}
			if err != nil {
				r.Violate("encrypt:library:"+format, err.Error(), c.show())
				return
			}
		}
		if err := fillGroup(all, p, true); err != nil {
			r.Violate("fill:across:"+format, err.Error(), map[string]any{"fills": all[:16]})
		}
		r.Eval(len(all))
		r.Count("encryptions under changing parameters", len(all))
		r.Distinct("across", format, k)
	})

	// processes of their own
	perCase := r.Pick(24, 128)
	r.Parallel(len(formats)*r.Pick(2, 12), func(k int) {
		format := formats[k%len(formats)]
		g := r.Rng("process", k)
		c := newFillCase(g, format, 0)
		args := []string{"-ep", "-algorithm", c.d.Alg, "-ep.tk", hx(c.tk), "-ep.pin", c.pin, "-ep.pan", c.pan}
		if c.d.aes() {
			args = append(args, "-algorithm.key_type", strings.ToLower(c.d.KeyType), "-ep.ksn", hx(c.d.ksnAt(c.counter)))
		} else {
			args = append(args, "-ep.format", format)
		}
		var all []string
		for n := 0; n < perCase; n++ {
			res, err := runCLI(args)
			if err != nil {
				r.Inconclusive("dukptcli: %v", err)
				return
			}
			x, err := c.fillHex(strings.TrimSpace(strings.TrimPrefix(res.Out, "RESULT: ")), nil)
			if err != nil {
				r.Violate("encrypt:process:"+format, fmt.Sprintf("%v: %d %q %q", err, res.Code, res.Out, res.Err), map[string]any{"case": c.show(), "arguments": args})
				return
			}
			all = append(all, x)
		}
		if err := fillGroup(all, c.prob(), false); err != nil {
			r.Violate("fill:process:"+format, err.Error(), map[string]any{"case": c.show(), "fills": all, "arguments": args})
		}
		r.Eval(len(all))
		r.Count("encryptions by processes of their own", len(all))
		r.Distinct("process", format, c.pin, c.tk)
	})
	for _, w := range boundaries {
		r.Require("encryptions at "+w, 8*1000)
	}
	r.Require("concurrent groups", 100)
	r.Require("encryptions by processes of their own", 300)
	r.Extra("rule_of_decision", "pairs with equal fill <= expectation + 12 sqrt(expectation) + 6; expectation from the alphabet's size; groups of 64 or 256")
}

func (c *fillCase) pinLen() int { return len(c.pin) }
