package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
)

// Cold starts: processes of their own whose very first calls of the code under test are concurrent, so that
// whatever it sets up when first used is set up concurrently.

// coldReport is what such a process prints
type coldReport struct {
	Calls int      `json:"calls"`
	Peak  int      `json:"overlapping first calls"`
	Bad   []string `json:"bad"`
}

// coldNames are the things that can be called first
func coldNames() []string {
	var out []string
	for _, o := range ops {
		out = append(out, o.Name)
	}
	for _, fn := range unifiedNames {
		out = append(out, "unified."+fn+".des", "unified."+fn+".aes")
	}
	return out
}

// coldCall prepares a call and its judgement, without calling the code under test
func coldCall(g rng, name string) func() func() error {
	if fn, ok := strings.CutPrefix(name, "unified."); ok {
		fn, alg, _ := strings.Cut(fn, ".")
		u := genUnified(g, fn, alg)
		return func() func() error {
			got, err := unifiedFns[fn](u.P)
			return func() error {
				if e := u.judge(got, err); e != nil {
					return fmt.Errorf("%v: %w", u.show(), e)
				}
				return nil
			}
		}
	}
	o := opByName(name)
	a := o.Gen(g)
	return func() func() error {
		res := o.Call(a)
		return func() error {
			if e := o.Judge(a, res); e != nil {
				return fmt.Errorf("%v: %w", a.show(), e)
			}
			return nil
		}
	}
}

// coldClient prepares a client that creates its own machine and uses it
func coldClient(g rng, a api, json bool) func() func() error {
	const c = 5
	d := ownDev(g, algOf(g.IntN(2)))
	var ps []opParams
	for _, fn := range machineOps {
		p := d.genOp(g, fn, c)
		p.forJSON()
		ps = append(ps, p)
	}
	order := g.Perm(len(machineOps))
	return func() func() error {
		err := func() error {
			m, err := a.Create(d.base(c))
			if err != nil {
				return fmt.Errorf("create: %w", err)
			}
			if err := d.checkDesc(m); err != nil {
				return fmt.Errorf("create: %w", err)
			}
			for _, i := range order {
				got, err := a.Op(machineOps[i], d.ik(), ps[i])
				if err == nil {
					err = d.judgeOp(d.tk(c), c, machineOps[i], ps[i], got, json)
				}
				if err != nil {
					return fmt.Errorf("%s: %w", machineOps[i], err)
				}
			}
			if _, err := a.List(); err != nil {
				return fmt.Errorf("list: %w", err)
			}
			ksn, _, err := a.Next(d.ik())
			if next, _ := d.next(c); err != nil || !sameHex(ksn, hx(d.ksnAt(next))) {
				return fmt.Errorf("next KSN: %q %v", ksn, err)
			}
			if m, err = a.Get(d.ik()); err != nil {
				return fmt.Errorf("get: %w", err)
			}
			return d.checkDesc(m)
		}()
		return func() error {
			if err != nil {
				return fmt.Errorf("%v: %w", d.show(), err)
			}
			return nil
		}
	}
}

// coldMain is such a process
func coldMain(name string, seed uint64) {
	r := mon.New("cold", "quick", seed, nil)
	g := r.Rng(name, 0)
	workers := []int{2, 4, 8, 16, 32}[g.IntN(5)]
	calls := make([][]func() func() error, workers)
	var a api
	switch name {
	case "service":
		a = svcAPI{newService()}
	case "handler":
		a = handlerAPI(server.MakeHTTPHandler(newService()))
	case "tcp":
		srv := httptest.NewServer(server.MakeHTTPHandler(newService()))
		defer srv.Close()
		a = clientAPI(srv.Client(), srv.URL)
	}
	for w := range calls {
		for k := range 3 {
			if a != nil {
				calls[w] = append(calls[w], coldClient(r.Rng(name, 100+w*3+k), a, name != "service"))
			} else {
				calls[w] = append(calls[w], coldCall(r.Rng(name, 100+w*3+k), name))
			}
		}
	}
	type span struct{ from, to time.Time }
	first := make([]span, workers)
	verdicts := make([][]func() error, workers)
	var ready atomic.Int64
	var wg sync.WaitGroup
	for w := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int64(workers) {
				runtime.Gosched()
			}
			for k, c := range calls[w] {
				from := time.Now()
				verdicts[w] = append(verdicts[w], c())
				if k == 0 {
					first[w] = span{from, time.Now()}
				}
			}
		}()
	}
	wg.Wait()
	rep := coldReport{Bad: []string{}}
	for w := range verdicts {
		n := 0
		for _, o := range first {
			if !o.to.Before(first[w].from) && !o.from.After(first[w].from) {
				n++
			}
		}
		rep.Peak = max(rep.Peak, n)
		for _, v := range verdicts[w] {
			rep.Calls++
			if err := v(); err != nil {
				rep.Bad = append(rep.Bad, err.Error())
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

// coldStarts runs processes whose first calls are concurrent calls of each name
func coldStarts(r *mon.Run, reps int, names ...string) {
	self, err := os.Executable()
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	overlapping := atomic.Int64{}
	r.Parallel(len(names)*reps, func(i int) {
		name := names[i%len(names)]
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, self, "-cold", name, "-seed", fmt.Sprint(r.Seed*1000+uint64(i)))
		if n := []string{"", "", "3", "2", "", "5", "1", "7"}[(i/len(names))%8]; n != "" {
			cmd.Env = append(os.Environ(), "GOMAXPROCS="+n)
		}
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		var rep coldReport
		if err == nil {
			err = json.Unmarshal(out.Bytes(), &rep)
		}
		if err != nil {
			r.Violate("cold-start:"+name, fmt.Sprintf("a process whose first calls are concurrent ends with %v: %s", err, clip(errs.Bytes())), map[string]any{"calls": name})
			return
		}
		for _, b := range rep.Bad {
			r.Violate("cold-start:"+name, "first calls, concurrent: "+b, map[string]any{"calls": name})
		}
		r.Eval(rep.Calls)
		r.Count("processes whose first calls are concurrent", 1)
		if rep.Peak > 1 {
			overlapping.Add(1)
		}
		r.Distinct("cold", name, i)
	})
	r.Count("cold processes whose first calls overlapped", int(overlapping.Load()))
	r.Require("cold processes whose first calls overlapped", len(names)*reps/4)
}
