package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

// noCounter is a counter that no machine has
const noCounter = 0xFFFFFFFF

func init() {
	register("C14", "concurrent next-KSN requests of 3 to 8 clients against one or two machines (random counters, counter zero, and machines with 0 to 170 KSNs left so that histories cross exhaustion), at the service, the HTTP handler and HTTP over TCP, race build, storage delayed at random before and after each call. Short histories are judged by a linearizability checker, long ones by an exact issuance check (successes are the successor chain, no duplicate, gap or real-time inversion, failures only after the last KSN). Distinct by interleaving (order of call and return events with their outcomes).", c14)
	register("C15", "concurrent PIN, MAC and data operations, get and list against machines whose KSN other clients advance (TDES and AES; service, HTTP handler, TCP; race build; delayed storage). Each result is attributed to the KSN whose key explains it (none: torn use; among them PIN ciphertexts that only a mixture of two states can read), each description is compared with the reference keys of its current KSN, and the whole history must be linearizable with operations as atomic reads of the current KSN. Distinct by interleaving.", c15)
	register("C16", "concurrent create/get/list/next/delete of 1 to 3 initial keys by 3 to 6 clients at the service, the HTTP handler and the in-memory repository itself (race build, delayed storage), creations carry distinct start KSNs so that every read identifies the creation it saw; whole histories including lists are judged by a linearizability checker; a crowd workload with disjoint machines checks list contents by intervals; registries of 6,000 (service, HTTP) and 40,000 machines (repository) are filled, read, listed, thinned out, filled again and emptied, and listed by several clients at once while machines come and go; 300,000 random initial keys are told apart, so that any 32 bits made of one occur several times; processes whose first calls are concurrent creations; machines left alone for more than a minute and several garbage collections must be as they were. Distinct by interleaving.", c16)
}

// boundary builds a fresh service and gives access to it at a boundary
var someExtra = sync.OnceValue(extras)

func boundary(i int, slow bool) (name string, a api, s server.Service, done func()) {
	repo := server.NewRepositoryInMemory(quietLog())
	if slow {
		repo = slowRepo{repo}
	}
	s = server.NewService(repo)
	// what every request of the history has besides, which says nothing about its operation
	var x extra
	if g := rand.New(rand.NewPCG(uint64(i), 42)); g.IntN(2) == 0 {
		all := someExtra()
		switch x = all[g.IntN(len(all))]; g.IntN(4) {
		case 0:
			if n, v := dictPair(g); n != "" {
				x = extra{Query: "?" + url.QueryEscape(n) + "=" + url.QueryEscape(v)}
			}
		case 1, 2: // all names at once
			q := url.Values{}
			v := []string{"2", "3", "1", "true", "0", "-1", "100"}[g.IntN(7)]
			for _, n := range dictNames {
				q.Set(n, v)
			}
			x = extra{Query: "?" + q.Encode()}
		}
	}
	switch i % 5 {
	case 3:
		h := server.MakeHTTPHandler(s)
		if x.Header != nil {
			return "http handler", dressed(h, x), s, func() {}
		}
		return "http handler", handlerAPI(h, sameHeaders(i/5)).asking(x.Query), s, func() {}
	case 4:
		srv := httptest.NewServer(server.MakeHTTPHandler(s))
		c := srv.Client()
		return "http over tcp", clientAPI(c, srv.URL, sameHeaders(i/5)).asking(x.Query), s, func() { c.CloseIdleConnections(); srv.Close() }
	}
	return "service", svcAPI{s}, s, func() {}
}

// do executes one operation of a history
func do(a api, s server.Service, d *dev, e ev) ev {
	var err error
	var m *server.Machine
	switch e.Kind {
	case "create":
		e.Call = now()
		m, err = a.Create(d.base(e.Start))
		e.Ret = now()
	case "get":
		e.Call = now()
		m, err = a.Get(d.ik())
		e.Ret = now()
	case "list":
		var ms []*server.Machine
		e.Call = now()
		ms, err = a.List()
		e.Ret = now()
		for _, x := range ms {
			e.Ms = append(e.Ms, *x)
		}
	case "next":
		e.Call = now()
		e.Out.Text, m, err = a.Next(d.ik())
		e.Ret = now()
	case "delete":
		e.Call = now()
		err = s.DeleteMachine(d.ik())
		e.Ret = now()
	case "use":
		e.Call = now()
		e.Out.Text, err = a.Op(e.Fn, d.ik(), e.P)
		e.Ret = now()
	}
	if m != nil {
		c := *m
		e.M = &c
	}
	e.Out.Code, e.Out.Err = codeOf(err)
	return e
}

// startAt chooses a start counter: anywhere, zero, or shortly before exhaustion
func startAt(g rng, d *dev) uint32 {
	w, m := 21, 10
	if d.aes() {
		w, m = 32, 16
	}
	switch g.IntN(6) {
	case 0:
		return 0
	case 1, 2:
		return d.nearEnd(g.IntN(8))
	}
	c := ones(g, w, m)
	return c
}

// issuance is the exact judgement of next-KSN requests of one machine
func issuance(d *dev, start uint32, evs []ev) error {
	var ok, failed []ev
	for _, e := range evs {
		switch e.Out.Code {
		case "ok":
			ok = append(ok, e)
		case "failed":
			failed = append(failed, e)
		default:
			return fmt.Errorf("unexpected outcome %s", e)
		}
	}
	sort.Slice(ok, func(i, j int) bool { return ok[i].Out.Ctr < ok[j].Out.Ctr })
	cur, more := start, true
	for i, e := range ok {
		var n uint32
		n, more = d.next(cur)
		if !more {
			return fmt.Errorf("a KSN after the last one: %s", e)
		}
		if e.Out.Ctr != n {
			if i > 0 && e.Out.Ctr == cur {
				return fmt.Errorf("KSN issued twice: %s and %s", ok[i-1], e)
			}
			return fmt.Errorf("KSN %#x is missing, next issued is %s", n, e)
		}
		cur = n
	}
	minRet := int64(1) << 62
	for i := len(ok) - 1; i >= 0; i-- {
		if minRet < ok[i].Call {
			return fmt.Errorf("an operation that started later got an earlier KSN: %s", ok[i])
		}
		minRet = min(minRet, ok[i].Ret)
	}
	if len(failed) > 0 {
		if _, more = d.next(cur); more {
			return fmt.Errorf("a request failed before the last KSN was issued: %s", failed[0])
		}
		for _, f := range failed {
			for _, e := range ok {
				if e.Call > f.Ret {
					return fmt.Errorf("a request failed before another one succeeded: %s, %s", f, e)
				}
			}
		}
	}
	return nil
}

func c14(r *mon.Run) {
	// short histories
	lanes(r, r.Pick(400, 12000), func(i int) {
		g := r.Rng("short", i)
		what, a, s, done := boundary(i, i%2 == 0)
		defer done()
		devs := newDevs(g, 1+g.IntN(2))
		var h []ev
		for k, d := range devs {
			h = append(h, do(a, s, d, ev{Client: 99, Kind: "create", K: k, Start: startAt(g, d)}))
		}
		n, per := 3+g.IntN(4), 3+g.IntN(5)
		seeds := make([]rng, n)
		for c := range seeds {
			seeds[c] = r.Rng("client", i*100+c)
		}
		h = append(h, clients(r, n, func(c int, rec func(ev)) {
			g := seeds[c]
			for x := 0; x < per; x++ {
				k := g.IntN(len(devs))
				kind := "next"
				if g.IntN(5) == 0 {
					kind = "get"
				}
				rec(do(a, s, devs[k], ev{Kind: kind, K: k}))
			}
		})...)
		observe(r, what, h)
		r.Count("histories at the "+what, 1)
		for _, e := range h {
			if e.Kind == "next" && e.Out.Code == "failed" {
				r.Count("requests after exhaustion", 1)
			}
		}
		info := []any{devs[0].show()}
		if settle(r, what, devs, h, false) && linearizable(r, what, registryModel(devs), h, info) && r.WantSample(what) {
			r.Sample(what, map[string]any{"devices": info, "history": showHist(h)})
		}
	})
	// long runs
	lanes(r, r.Pick(24, 600), func(i int) {
		g := r.Rng("long", i)
		what, a, s, done := boundary(i, i%3 == 0)
		defer done()
		d := newDev(g, algOf(g.IntN(2)))
		start := startAt(g, d)
		if g.IntN(2) == 0 { // a hundred left
			if d.aes() {
				start = 0xFFFC0000
			} else {
				start = 0x1FE000
			}
		}
		if _, err := a.Create(d.base(start)); err != nil {
			r.Violate("create:"+what, err.Error(), d.show())
			return
		}
		per := r.Pick(50, 300)
		h := clients(r, 8, func(c int, rec func(ev)) {
			for x := 0; x < per; x++ {
				rec(do(a, s, d, ev{Kind: "next"}))
			}
		})
		r.Count("long runs at the "+what, 1)
		observe(r, what, h)
		if !settle(r, what, []*dev{d}, h, false) {
			return
		}
		if err := issuance(d, start, h); err != nil {
			r.Violate("issuance:"+what, err.Error(), map[string]any{"device": d.show(), "start": start, "history": showHist(h)})
			return
		}
		last := start
		for _, e := range h {
			if e.Out.Code == "ok" {
				last = max(last, e.Out.Ctr)
				r.Count("KSNs issued in long runs", 1)
			} else {
				r.Count("requests after exhaustion", 1)
			}
		}
		m, err := a.Get(d.ik())
		if err != nil || !sameHex(m.CurrentKSN, hx(d.ksnAt(last))) {
			r.Violate("final:"+what, fmt.Sprintf("after the run the current KSN is %v (error %v), the last issued one is %#x", m, err, last), d.show())
		}
	})
	r.Require("overlapping pairs of operations", 2000)
	r.Require("requests after exhaustion", 50)
	r.Require("histories judged linearizable", 100)
}

func c15(r *mon.Run) {
	lanes(r, r.Pick(400, 12000), func(i int) {
		g := r.Rng("history", i)
		what, a, s, done := boundary(i, i%2 == 0)
		defer done()
		devs := newDevs(g, 1+g.IntN(2))
		var h []ev
		starts := make([]uint32, len(devs))
		for k, d := range devs {
			starts[k] = startAt(g, d)
			h = append(h, do(a, s, d, ev{Client: 99, Kind: "create", K: k, Start: starts[k]}))
		}
		// plans are drawn before so that clients do nothing but calls
		n := 4 + g.IntN(3)
		// in some histories clients ask for the same few things over and over, which must be
		// answered with the key of the moment each time: while the KSN advances and afterwards
		var menu [][]ev
		if i%3 == 1 {
			for k, d := range devs {
				var m []ev
				for x := 0; x < 1+g.IntN(3); x++ {
					e := ev{K: k, Kind: "use", Fn: []string{"generate_mac", "encrypt_data", "generate_mac", "encrypt_pin", "decrypt_data"}[g.IntN(5)], Start: starts[k], JSON: what != "service"}
					e.P = d.genOp(g, e.Fn, e.Start)
					if g.IntN(2) == 0 {
						switch e.Fn {
						case "generate_mac", "encrypt_data":
							e.P.Data = text(g, 500+g.IntN(1<<(9+g.IntN(6))))
						case "decrypt_data":
							e.P.Data = hexCase(g, rbytes(g, 16*(20+g.IntN(100))))
						}
					}
					if e.JSON {
						e.P.forJSON()
					}
					m = append(m, e)
				}
				menu = append(menu, m)
			}
		}
		plans := make([][]ev, n)
		for c := range plans {
			for x := 0; x < 4+g.IntN(5); x++ {
				k := g.IntN(len(devs))
				e := ev{K: k}
				if menu != nil {
					if e = menu[k][g.IntN(len(menu[k]))]; g.IntN(3) == 0 {
						e = ev{K: k, Kind: "next"}
					}
					plans[c] = append(plans[c], e)
					continue
				}
				switch y := g.IntN(10); {
				case c == 0 || y < 2:
					e.Kind = "next"
				case y < 3:
					e.Kind = "get"
				case y < 4:
					e.Kind = "list"
				default:
					e.Kind, e.Fn = "use", machineOps[g.IntN(len(machineOps))]
					e.Start = starts[k]
					for z := g.IntN(6); z > 0; z-- {
						if nx, ok := devs[k].next(e.Start); ok {
							e.Start = nx
						}
					}
					e.P = devs[k].genOp(g, e.Fn, e.Start)
					if e.Fn == "decrypt_pin" && len(e.P.Pin) < 7 { // short PINs are not unambiguous
						e.Fn = "generate_mac"
						e.P = devs[k].genOp(g, e.Fn, e.Start)
					}
					if e.Fn == "decrypt_pin" && devs[k].aes() && g.IntN(2) == 0 {
						// a ciphertext of the key of one KSN and the number of another: nobody but a torn use can read it
						if nx, ok := devs[k].next(e.Start); ok {
							a, b := e.Start, nx
							if g.IntN(2) == 0 {
								a, b = b, a
							}
							e.P.Data = hx(ref.AESPinEnc(devs[k].tk(a), devs[k].ksnAt(b), e.P.Pin, e.P.Pan, rbytes(g, 8)))
							e.Start = noCounter
						}
					}
					if e.JSON = what != "service"; e.JSON {
						e.P.forJSON()
					}
				}
				plans[c] = append(plans[c], e)
			}
		}
		h = append(h, clients(r, n, func(c int, rec func(ev)) {
			for _, e := range plans[c] {
				rec(do(a, s, devs[e.K], e))
			}
		})...)
		for k, m := range menu { // and when nobody else is there any more
			for y := 0; y < 2; y++ {
				for _, e := range m {
					e.Client = 99
					h = append(h, do(a, s, devs[k], e))
					r.Count("requests repeated unchanged after the KSN advanced", 1)
				}
				if y == 0 {
					h = append(h, do(a, s, devs[k], ev{Client: 99, Kind: "next", K: k}))
				}
			}
		}
		observe(r, what, h)
		r.Count("histories at the "+what, 1)
		for _, e := range h {
			if e.Kind == "use" {
				r.Count("uses of "+e.Fn, 1)
				if e.Fn == "decrypt_pin" && e.Start == noCounter {
					r.Count("PIN ciphertexts that only a torn use can read", 1)
				}
			}
		}
		info := []any{}
		for _, d := range devs {
			info = append(info, d.show())
		}
		if settle(r, what, devs, h, true) && linearizable(r, what, registryModel(devs), h, info) && r.WantSample(what) {
			r.Sample(what, map[string]any{"devices": info, "history": showHist(h)})
		}
	})
	r.Require("overlapping pairs of operations", 2000)
	r.Require("operation results attributed to their KSN", 500)
	r.Require("PIN ciphertexts that only a torn use can read", 50)
	r.Require("requests repeated unchanged after the KSN advanced", 200)
	r.Require("histories judged linearizable", 100)
}

// crowded fills a registry with n machines, reads all of them and the lists at growing sizes,
// then deletes every third one
// apart: so many random initial keys that digests of 32 bits of them cannot all differ
func apart(r *mon.Run, n int) {
	repo := server.NewRepositoryInMemory(quietLog())
	g := r.Rng("apart", 0)
	ms := make([]*server.Machine, n)
	for k := range ms {
		m := &server.Machine{InitialKey: hx(rbytes(g, []int{16, 16, 16, 24, 32}[k%5])), BaseKey: server.BaseKey{KeySerialNumber: fmt.Sprint(k)}}
		if err := repo.StoreMachine(m); err != nil {
			r.Violate("apart:create", fmt.Sprintf("machine number %d with a new initial key %s: %v", k+1, m.InitialKey, err), nil)
			return
		}
		ms[k] = m
	}
	r.Progress()
	find := func(from, step int, there bool) bool {
		for k := from; k < n; k += step {
			m, err := repo.FindMachine(ms[k].InitialKey)
			if there != (err == nil) || there && (m == nil || m.InitialKey != ms[k].InitialKey || m.KeySerialNumber != fmt.Sprint(k)) {
				r.Violate("apart:get", fmt.Sprintf("of %d machines %s is to be found: %v, got %+v (error %v)", n, ms[k].InitialKey, there, m, err), nil)
				return false
			}
		}
		r.Progress()
		return true
	}
	if !find(0, 1, true) {
		return
	}
	for k := 0; k < n; k += 2 {
		if err := repo.DeleteMachine(ms[k].InitialKey); err != nil {
			r.Violate("apart:delete", fmt.Sprintf("%s: %v", ms[k].InitialKey, err), nil)
			return
		}
	}
	if !find(0, 2, false) || !find(1, 2, true) {
		return
	}
	if l := repo.FindAllMachines(); len(l) != n/2 {
		r.Violate("apart:list", fmt.Sprintf("%d of %d machines are listed", len(l), n/2), nil)
	}
	r.Eval(3 * n)
	r.Count("random initial keys told apart", n)
}

func crowded(r *mon.Run, what string, n int) {
	g := r.Rng("crowded "+what, 0)
	repo := server.NewRepositoryInMemory(quietLog())
	s := server.NewService(repo)
	a := api(svcAPI{s})
	if what == "http handler" {
		a = handlerAPI(server.MakeHTTPHandler(s))
	}
	bdk := key(g, 16)
	iks := make([]string, 0, n)
	create := func(k int) (string, error) {
		if what == "repository" { // initial keys with a long common part
			ik := fmt.Sprintf("%032d", k)
			if k%2 == 1 {
				ik = fmt.Sprintf("%d%032d", k, 0)
			}
			return ik, repo.StoreMachine(&server.Machine{InitialKey: ik})
		}
		m, err := a.Create(server.BaseKey{Algorithm: "aes", AlgorithmKey: "AES128", BaseDerivativeKey: hx(bdk), KeySerialNumber: fmt.Sprintf("%016x%08x", k, k+1)})
		if err != nil {
			return "", err
		}
		return m.InitialKey, nil
	}
	get := func(ik string) (*server.Machine, error) {
		if what == "repository" {
			return repo.FindMachine(ik)
		}
		return a.Get(ik)
	}
	check := func(want map[string]bool) bool {
		var ms []*server.Machine
		var err error
		if what == "repository" {
			ms = repo.FindAllMachines()
		} else {
			ms, err = a.List()
		}
		got := map[string]bool{}
		for _, m := range ms {
			if m == nil || !want[m.InitialKey] || got[m.InitialKey] {
				r.Violate("large registry:"+what+":list", fmt.Sprintf("with %d machines the list shows %+v, unknown or for the second time", len(want), m), nil)
				return false
			}
			got[m.InitialKey] = true
		}
		if err != nil || len(got) != len(want) {
			r.Violate("large registry:"+what+":list", fmt.Sprintf("%d of %d machines are listed (error %v)", len(got), len(want), err), nil)
			return false
		}
		r.Count("machines in lists", len(got))
		for ik := range want {
			if m, err := get(ik); err != nil || m.InitialKey != ik {
				r.Violate("large registry:"+what+":get", fmt.Sprintf("with %d machines, get %s gives %+v (error %v)", len(want), ik, m, err), nil)
				return false
			}
		}
		r.Progress()
		r.Eval(1 + len(want))
		return true
	}
	all := map[string]bool{}
	for k := 0; k < n; k++ {
		ik, err := create(k)
		if err != nil {
			r.Violate("large registry:"+what+":create", fmt.Sprintf("machine number %d: %v", k+1, err), nil)
			return
		}
		iks = append(iks, ik)
		all[ik] = true
		if k+1 == n/40 || k+1 == n/8 || k+1 == n {
			if !check(all) {
				return
			}
		}
	}
	r.Count("machines in a large registry", n)
	for k := 0; k < n; k += 7 {
		if _, err := create(k); err == nil {
			r.Violate("large registry:"+what+":create", fmt.Sprintf("machine number %d is created again", k+1), nil)
			return
		}
	}
	delet := func(ik string) error {
		if what == "repository" {
			return repo.DeleteMachine(ik)
		}
		return s.DeleteMachine(ik)
	}
	// while others read all of it, machines come and go
	{
		var stop atomic.Bool
		var wg sync.WaitGroup
		listed := atomic.Int64{}
		for range 6 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop.Load() {
					var ms []*server.Machine
					if what == "repository" {
						ms = repo.FindAllMachines()
					} else {
						ms, _ = a.List()
					}
					seen, old := make(map[string]bool, len(ms)), 0
					for _, m := range ms {
						if seen[m.InitialKey] {
							r.Violate("large registry:"+what+":list", "a machine is listed twice while others are created", m.InitialKey)
							return
						}
						seen[m.InitialKey] = true
						if all[m.InitialKey] {
							old++
						}
					}
					if old != n {
						r.Violate("large registry:"+what+":list", fmt.Sprintf("while others are created, %d of %d machines are listed", old, n), nil)
						return
					}
					listed.Add(1)
					r.Progress()
				}
			}()
		}
		rounds := r.Pick(60, 600)
		for x := 0; x < rounds || listed.Load() < 12 && !r.Violated(); x++ {
			ik, err := create(n + x%rounds)
			if err == nil {
				_, err = get(ik)
			}
			if err == nil {
				err = delet(ik)
			}
			if err != nil {
				r.Violate("large registry:"+what+":busy", fmt.Sprintf("creating, getting and deleting a machine while others list all: %v", err), ik)
				break
			}
			r.Eval(3)
		}
		stop.Store(true)
		wg.Wait()
		r.Count("whole lists of a large registry while machines come and go", int(listed.Load()))
	}
	for k := 0; k < n; k += 3 {
		if err := delet(iks[k]); err != nil {
			r.Violate("large registry:"+what+":delete", err.Error(), nil)
			return
		}
		delete(all, iks[k])
	}
	if !check(all) {
		return
	}
	// again, and then none is left
	for k := 0; k < n; k += 3 {
		if ik, err := create(k); err != nil || ik != iks[k] {
			r.Violate("large registry:"+what+":create", fmt.Sprintf("machine number %d cannot be created after its deletion: %v", k+1, err), nil)
			return
		}
		all[iks[k]] = true
		if k+1 == n {
			break
		}
		if err := delet(iks[k+1]); err != nil {
			r.Violate("large registry:"+what+":delete", err.Error(), nil)
			return
		}
		delete(all, iks[k+1])
	}
	if !check(all) {
		return
	}
	r.Count("machines created again in a large registry", n/3)
	for _, ik := range iks {
		if err := delet(ik); err != nil {
			r.Violate("large registry:"+what+":delete", err.Error(), nil)
			return
		}
		delete(all, ik)
	}
	check(all)
	if _, err := get(iks[0]); err == nil {
		r.Violate("large registry:"+what+":get", "a machine is found after all were deleted", nil)
	}
	for k := 0; k < n; k += 97 {
		if ik, err := create(k); err != nil || ik != iks[k] {
			r.Violate("large registry:"+what+":create", fmt.Sprintf("machine number %d cannot be created after its deletion: %v", k+1, err), nil)
			return
		}
		all[iks[k]] = true
	}
	check(all)
}

// lengths around those at which something fixed in size would end
var nameLengths = []int{7, 8, 15, 16, 23, 31, 32, 47, 63, 64, 127, 128, 255, 256, 511, 1000, 4096}

// otherNames asks for machines under names that are hardly those of existing ones: none of them exists
func otherNames(r *mon.Run) {
	space := []string{" ", "\t", "\n", "\r\n", "\u00a0", "\x00", "  ", "\u200b", "\ufeff", "\v"}
	around := [][2]string{{"\"", "\""}, {"'", "'"}, {"{", "}"}, {"<", ">"}, {"[", "]"}, {"(", ")"}, {"0x", ""}, {"urn:ik:", ""}, {"", "="}, {"", "h"}, {"x'", "'"}, {"", "?"}, {"", "#"}, {"", "%"}, {"", "*"}, {"*", ""}, {"", "."}, {"-", ""}, {"+", ""}, {"0", ""}, {"", "0"}, {"00", ""}, {"", "00"}}
	r.Parallel(r.Pick(400, 12000), func(i int) {
		g := r.Rng("other names", i)
		what, a, s, done := boundary(i, false)
		defer done()
		var devs []*dev
		names, before := []string{}, map[string]string{}
		for len(devs) < 2+g.IntN(3) {
			d := ownDev(g, algOf(g.IntN(2)))
			if _, err := a.Create(d.base(3)); err != nil {
				r.Violate("names:create", fmt.Sprintf("%s: creating %v: %v", what, d.show(), err), nil)
				return
			}
			devs, names = append(devs, d), append(names, d.ik())
		}
		for _, n := range names {
			m, err := a.Get(n)
			if err != nil {
				r.Violate("names:get", fmt.Sprintf("%s: a machine just created: %v", what, err), nil)
				return
			}
			before[n] = string(jsonBody(m))
		}
		for x := 0; x < 24; x++ {
			d := devs[g.IntN(len(devs))]
			own := d.ik()
			var name string
			switch g.IntN(8) {
			case 0:
				name = own + pickS(g, space)
			case 1:
				name = pickS(g, space) + own
			case 2:
				name = pickS(g, space) + own + pickS(g, space)
			case 3, 4:
				p := around[g.IntN(len(around))]
				name = p[0] + own + p[1]
			case 5: // in groups
				sep, n := pickS(g, []string{" ", "-", ":", ".", "_"}), 1<<(1+g.IntN(4))
				for y := 0; y < len(own); y += n {
					if y > 0 {
						name += sep
					}
					name += own[y:min(y+n, len(own))]
				}
			case 6:
				name = pickS(g, []string{own[:len(own)/2], own[len(own)/2:], own[:16], own[:6], own[len(own)-6:], own + own, own[:len(own)-1], own[1:]})
			default:
				name = nearName(g, names)
			}
			exists := false
			for _, n := range names {
				exists = exists || strings.EqualFold(n, name)
			}
			if exists || name == "" {
				continue
			}
			sent := name
			if what != "service" {
				if strings.Contains(name, "/") || name == "." || name == ".." {
					continue
				}
				sent = url.PathEscape(name)
			}
			kind := pickS(g, append([]string{"get", "get", "next", "delete"}, machineOps...))
			var err error
			switch kind {
			case "get":
				_, err = a.Get(sent)
			case "next":
				_, _, err = a.Next(sent)
			case "delete":
				s.DeleteMachine(name)
				err = server.ErrNotFound
			default:
				q := d.genOp(g, kind, 3)
				q.forJSON()
				_, err = a.Op(kind, sent, q)
			}
			r.Eval(1)
			r.Distinct("other name", what, kind, name)
			r.Count("requests under names that are hardly those of machines", 1)
			if !errors.Is(err, server.ErrNotFound) {
				r.Violate("names:"+kind, fmt.Sprintf("%s: there is no machine %q (but %q): %s gives %v", what, name, own, kind, err), map[string]any{"name": name, "machines": names})
			}
		}
		ms, err := a.List()
		if err != nil || len(ms) != len(names) {
			r.Violate("names:list", fmt.Sprintf("%s: requests about machines that do not exist leave %d of %d machines (%v)", what, len(ms), len(names), err), nil)
		}
		for _, n := range names {
			if m, err := a.Get(n); err != nil || string(jsonBody(m)) != before[n] {
				r.Violate("names:kept", fmt.Sprintf("%s: requests about machines that do not exist changed %q: %v", what, n, err), nil)
			}
		}
	})
}

func c16(r *mon.Run) {
	coldStarts(r, r.Pick(12, 200), "service", "handler", "tcp")
	rested := rest(r, time.Duration(r.Pick(65, 1200))*time.Second)
	lanes(r, r.Pick(500, 15000), func(i int) {
		g := r.Rng("registry", i)
		what, a, s, done := boundary(i, i%2 == 0)
		defer done()
		devs := newDevs(g, 1+g.IntN(3))
		n := 3 + g.IntN(4)
		plans := make([][]ev, n)
		for c := range plans {
			for x := 0; x < 4+g.IntN(4); x++ {
				e := ev{K: g.IntN(len(devs))}
				switch y := g.IntN(10); {
				case y < 4 || x == 0:
					e.Kind = "create"
					w, m := 21, 10
					if devs[e.K].aes() {
						w, m = 32, 16
					}
					e.Start = ones(g, w, m)
				case y < 5:
					e.Kind = "get"
				case y < 7:
					e.Kind = "list"
				case y < 8:
					e.Kind = "next"
				default:
					e.Kind = "delete"
				}
				plans[c] = append(plans[c], e)
			}
		}
		h := clients(r, n, func(c int, rec func(ev)) {
			for _, e := range plans[c] {
				rec(do(a, s, devs[e.K], e))
			}
		})
		observe(r, what, h)
		r.Count("histories at the "+what, 1)
		for _, e := range h {
			r.Count(e.Kind+" "+e.Out.Code, 1)
		}
		info := []any{}
		for _, d := range devs {
			info = append(info, d.show())
		}
		if settle(r, what, devs, h, false) && linearizable(r, what, registryModel(devs), h, info) && r.WantSample(what) {
			r.Sample(what, map[string]any{"devices": info, "history": showHist(h)})
		}
	})
	otherNames(r)
	// the repository itself: machines are told apart by their KeySerialNumber
	lanes(r, r.Pick(1500, 40000), func(i int) {
		g := r.Rng("repository", i)
		repo := server.NewRepositoryInMemory(quietLog())
		nk := 1 + g.IntN(maxSlots)
		n := 3 + g.IntN(4)
		plans := make([][]ev, n)
		for c := range plans {
			for x := 0; x < 5+g.IntN(5); x++ {
				plans[c] = append(plans[c], ev{K: g.IntN(nk), Kind: []string{"create", "create", "create", "find", "findall", "findall", "delete"}[g.IntN(7)], Start: uint32(c*100 + x + 1)})
			}
		}
		ik := func(k int) string { // hardly different
			switch i % 10 {
			case 0:
				return fmt.Sprintf("%s%d", strings.Repeat("ab", 24), k)
			case 1:
				return fmt.Sprintf("%d%s", k, strings.Repeat("00", 24))
			case 3:
				return fmt.Sprintf("%s%d", strings.Repeat("AB", 24), k)
			case 4:
				return fmt.Sprintf("Machine %d, aB", k)
			case 5: // long, told apart at the end
				return strings.Repeat("x", nameLengths[i/10%len(nameLengths)]) + fmt.Sprint(k)
			case 6: // long, told apart at the start
				return fmt.Sprint(k) + strings.Repeat("x", nameLengths[i/10%len(nameLengths)])
			case 9: // long, told apart in the middle
				x := strings.Repeat("0", nameLengths[i/10%len(nameLengths)]/2)
				return x + string(rune('a'+k)) + x
			case 7: // told apart by their white space, letter case or form only
				return []string{"ab ", "ab", " ab", "AB", "Ab", "ab\n", "ab\x00", "a b", "ａb", "ab\t", "åb", "a\u030ab"}[k%12] + strings.Repeat(" ", k/12)
			case 8: // told apart by their length
				return strings.Repeat("0", 1+k)
			}
			return fmt.Sprintf("ik-%d", k)
		}
		slot := map[string]int{}
		for k := 0; k < nk; k++ {
			slot[ik(k)] = k
		}
		num := func(s string) (v uint32) { fmt.Sscanf(s, "%d", &v); return }
		h := clients(r, n, func(c int, rec func(ev)) {
			for _, e := range plans[c] {
				if i%2 == 0 {
					pause()
				}
				var err error
				switch e.Kind {
				case "create":
					m := &server.Machine{InitialKey: ik(e.K), BaseKey: server.BaseKey{KeySerialNumber: fmt.Sprint(e.Start)}}
					e.Call = now()
					err = repo.StoreMachine(m)
					e.Ret = now()
				case "find":
					var m *server.Machine
					e.Call = now()
					m, err = repo.FindMachine(ik(e.K))
					e.Ret = now()
					if m != nil {
						e.Out.Start = num(m.KeySerialNumber)
					}
				case "findall":
					e.Call = now()
					ms := repo.FindAllMachines()
					e.Ret = now()
					for _, m := range ms {
						k, ok := slot[m.InitialKey]
						if !ok {
							r.Violate("repository:unknown", fmt.Sprintf("%+v is listed", *m), nil)
							continue
						}
						e.Out.Items = append(e.Out.Items, item{K: k, Start: num(m.KeySerialNumber)})
					}
				case "delete":
					e.Call = now()
					err = repo.DeleteMachine(ik(e.K))
					e.Ret = now()
				}
				e.Out.Code, e.Out.Err = codeOf(err)
				rec(e)
			}
		})
		observe(r, "repository", h)
		r.Count("histories at the repository", 1)
		for _, e := range h {
			r.Count("repository "+e.Kind+" "+e.Out.Code, 1)
		}
		if linearizable(r, "repository", registryModel(nil), h, nil) && r.WantSample("repository") {
			r.Sample("repository", showHist(h))
		}
	})
	// crowd: every client has its own machines, everybody lists
	lanes(r, r.Pick(12, 200), func(i int) {
		what, a, s, done := boundary(i, false)
		defer done()
		type span struct{ c0, c1, d0, d1 int64 }
		const n, each = 6, 12
		devs := make([][]*dev, n)
		for c := range devs {
			g := r.Rng("crowd", i*10+c)
			for x := 0; x < each; x++ {
				devs[c] = append(devs[c], newDev(g, "aes"))
			}
		}
		spans := make([]map[string]*span, n)
		h := clients(r, n, func(c int, rec func(ev)) {
			mine := map[string]*span{}
			spans[c] = mine
			for x, d := range devs[c] {
				e := do(a, s, d, ev{Kind: "create", Start: 1})
				if e.Out.Code != "ok" {
					r.Violate("crowd:create:"+what, e.String(), d.show())
				}
				sp := &span{e.Call, e.Ret, 1 << 62, 1 << 62}
				mine[d.ik()] = sp
				rec(do(a, s, d, ev{Kind: "list"}))
				if x%3 == 1 {
					e = do(a, s, d, ev{Kind: "delete"})
					sp.d0, sp.d1 = e.Call, e.Ret
					if e = do(a, s, d, ev{Kind: "get"}); e.Out.Code != "notfound" {
						r.Violate("crowd:get after delete:"+what, e.String(), d.show())
					}
				} else if e = do(a, s, d, ev{Kind: "get"}); e.Out.Code != "ok" {
					r.Violate("crowd:get:"+what, e.String(), d.show())
				}
			}
		})
		all := map[string]*span{}
		for _, m := range spans {
			for k, v := range m {
				all[k] = v
			}
		}
		for _, e := range h {
			got := map[string]bool{}
			for _, m := range e.Ms {
				sp := all[m.InitialKey]
				if sp == nil || got[m.InitialKey] || sp.c0 > e.Ret || sp.d1 < e.Call {
					r.Violate("crowd:list:"+what, "a list shows a machine twice, one never created, not yet created or already deleted: "+m.InitialKey, nil)
				}
				got[m.InitialKey] = true
			}
			for ik, sp := range all {
				if sp.c1 < e.Call && sp.d0 > e.Ret && !got[ik] {
					r.Violate("crowd:list:"+what, "a list misses an existing machine: "+ik, nil)
				}
			}
			r.Count("lists of many machines", 1)
			r.Count("machines in lists", len(e.Ms))
		}
		r.Eval(len(h) * 3)
	})
	// many machines: nothing is lost, doubled or cut off
	for i, what := range []string{"repository", "service", "http handler"} {
		n := r.Pick([]int{40000, 6000, 6000}[i], []int{400000, 60000, 60000}[i])
		r.Guard(nil, func() { crowded(r, what, n) })
	}
	r.Guard(nil, func() { apart(r, r.Pick(300000, 2000000)) })
	rested()
	r.Require("machines found as they were left", 12)
	r.Require("machines in a large registry", 50000)
	r.Require("random initial keys told apart", 300000)
	r.Require("overlapping pairs of operations", 2000)
	r.Require("create exists", 100)
	r.Require("repository create exists", 100)
	r.Require("histories judged linearizable", 300)
}
