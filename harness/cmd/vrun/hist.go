package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
)

// ev is one operation of a recorded history, seen at the client boundary
type ev struct {
	Client int
	Kind   string // create get list next delete use
	K      int    // machine
	Start  uint32 // create: start counter
	Fn     string // use
	P      opParams
	JSON   bool // texts pass through JSON
	Call   int64
	Ret    int64
	Out    hout

	M  *server.Machine  // description as read at the return of the operation
	Ms []server.Machine // list
}

type hout struct {
	Code  string // ok notfound exists failed
	Err   string
	Start uint32
	Ctr   uint32
	Items []item          // list
	Text  string          // use
	Ctrs  map[uint32]bool // use: counters whose key explains the result
}

type item struct {
	K          int
	Start, Ctr uint32
}

func (e ev) String() string {
	s := fmt.Sprintf("[%d..%d] client %d %s(%d)", e.Call, e.Ret, e.Client, e.Kind, e.K)
	switch e.Kind {
	case "create":
		s += fmt.Sprintf(" start=%#x", e.Start)
	case "use":
		s += " " + e.Fn
	}
	s += " -> " + e.Out.Code
	if e.Out.Err != "" {
		s += " (" + e.Out.Err + ")"
	}
	if e.Out.Code == "ok" {
		switch e.Kind {
		case "list":
			s += fmt.Sprintf(" %+v", e.Out.Items)
		case "get":
			s += fmt.Sprintf(" start=%#x ctr=%#x", e.Out.Start, e.Out.Ctr)
		case "next", "use":
			s += fmt.Sprintf(" ctr=%#x", e.Out.Ctr)
		}
	}
	return s
}

func showHist(h []ev) []string {
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	var out []string
	for i, e := range h {
		if i >= 300 {
			out = append(out, "...")
			break
		}
		out = append(out, e.String())
	}
	return out
}

func codeOf(err error) (string, string) {
	switch {
	case err == nil:
		return "ok", ""
	case errors.Is(err, server.ErrNotFound):
		return "notfound", err.Error()
	case errors.Is(err, server.ErrAlreadyExists):
		return "exists", err.Error()
	}
	return "failed", err.Error()
}

var t0 = time.Now()

func now() int64 { return int64(time.Since(t0)) }

// slot is the model's state of one machine
type slot struct {
	Present    bool
	Start, Ctr uint32
}

const maxSlots = 4

type registry [maxSlots]slot

// registryModel is the sequential specification of a machine registry for the given devices
func registryModel(devs []*dev) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return registry{} },
		Step: func(st, in, _ interface{}) (bool, interface{}) {
			s, e := st.(registry), in.(ev)
			o := e.Out
			cur := s[e.K]
			switch e.Kind {
			case "create":
				if cur.Present {
					return o.Code == "exists", s
				}
				s[e.K] = slot{true, e.Start, e.Start}
				return o.Code == "ok", s
			case "get":
				if !cur.Present {
					return o.Code == "notfound", s
				}
				return o.Code == "ok" && o.Start == cur.Start && o.Ctr == cur.Ctr, s
			case "find": // repository boundary: no counters
				if !cur.Present {
					return o.Code == "notfound", s
				}
				return o.Code == "ok" && o.Start == cur.Start, s
			case "list", "findall":
				n := 0
				for _, c := range s {
					if c.Present {
						n++
					}
				}
				if n != len(o.Items) || o.Code != "ok" {
					return false, s
				}
				for _, it := range o.Items {
					c := s[it.K]
					if !c.Present || c.Start != it.Start || (e.Kind == "list" && c.Ctr != it.Ctr) {
						return false, s
					}
				}
				return true, s
			case "next":
				if !cur.Present {
					return o.Code == "notfound", s
				}
				n, ok := devs[e.K].next(cur.Ctr)
				if !ok {
					return o.Code == "failed", s
				}
				s[e.K].Ctr = n
				return o.Code == "ok" && o.Ctr == n, s
			case "use":
				if !cur.Present {
					return o.Code == "notfound", s
				}
				if e.Fn == "decrypt_pin" { // the ciphertext belongs to counter Start
					if cur.Ctr == e.Start {
						return o.Code == "ok" && o.Text == e.P.Pin, s
					}
					return o.Text != e.P.Pin && o.Code != "notfound", s
				}
				return o.Code == "ok" && o.Ctrs[cur.Ctr], s
			case "delete":
				s[e.K] = slot{}
				return o.Code == "ok", s
			}
			return false, s
		},
		DescribeOperation: func(in, _ interface{}) string { return in.(ev).String() },
	}
}

// linearizable judges a history; unknown counts as undecided
func linearizable(r *mon.Run, what string, model porcupine.Model, h []ev, info any) bool {
	ops := make([]porcupine.Operation, len(h))
	for i, e := range h {
		ops[i] = porcupine.Operation{ClientId: e.Client, Input: e, Call: e.Call, Return: e.Ret}
	}
	switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
	case porcupine.Ok:
		r.Count("histories judged linearizable", 1)
		return true
	case porcupine.Illegal:
		r.Violate("not-linearizable:"+what, "no one-at-a-time order explains this history", map[string]any{"devices": info, "history": showHist(h)})
		return false
	}
	r.Count("histories undecided by the checker", 1)
	return true
}

// observe measures what a history exercised: overlaps and its shape
func observe(r *mon.Run, what string, h []ev) {
	type pt struct {
		t   int64
		id  int
		ret bool
	}
	var pts []pt
	for i, e := range h {
		pts = append(pts, pt{e.Call, i, false}, pt{e.Ret, i, true})
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i].t < pts[j].t })
	open, overlaps := 0, 0
	f := fnv.New64a()
	f.Write([]byte(what))
	for _, p := range pts {
		e := h[p.id]
		fmt.Fprintf(f, "%d%s%d%v%s;", e.Client, e.Kind, e.K, p.ret, e.Out.Code)
		if p.ret {
			open--
		} else {
			overlaps += open
			open++
		}
	}
	r.DistinctHash(f.Sum64())
	r.Eval(len(h))
	r.Count("operations", len(h))
	r.Count("overlapping pairs of operations", overlaps)
	r.Count("histories", 1)
}

// clients runs n clients at the same time and collects what they recorded
func clients(r *mon.Run, n int, f func(c int, rec func(e ev))) []ev {
	logs := make([][]ev, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for c := 0; c < n; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			var mine []ev
			r.Guard(nil, func() {
				f(c, func(e ev) { e.Client = c; mine = append(mine, e) })
			})
			logs[c] = mine
		}()
	}
	close(gate)
	wg.Wait()
	var h []ev
	for _, l := range logs {
		h = append(h, l...)
	}
	r.Progress()
	return h
}

// lanes runs n histories on a few lanes so that the clients of one history really overlap
func lanes(r *mon.Run, n int, f func(i int)) {
	const width = 3
	var wg sync.WaitGroup
	for l := 0; l < width; l++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := l; i < n; i += width {
				if r.Stop() {
					return
				}
				r.Guard(func() any { return map[string]any{"history": i} }, func() { f(i) })
			}
		}()
	}
	wg.Wait()
}

func findDev(devs []*dev, ik string) int {
	for i, d := range devs {
		if strings.EqualFold(d.ik(), ik) {
			return i
		}
	}
	return -1
}

// settle reads the descriptions of a history: consistency of keys and KSN, counters for the model.
// It is done after the clients have finished so that it does not slow them down. Without keys only
// the KSNs are looked at.
func settle(r *mon.Run, what string, devs []*dev, h []ev, keys bool) bool {
	good := true
	bad := func(sig, detail string, e ev, data any) {
		good = false
		r.Violate(sig+":"+what, detail, map[string]any{"event": e.String(), "description": data, "history": showHist(append([]ev(nil), h...))})
	}
	seen := map[int]map[uint32]bool{}
	note := func(k int, c uint32) {
		if seen[k] == nil {
			seen[k] = map[uint32]bool{}
		}
		seen[k][c] = true
	}
	tks := map[string]bool{}
	desc := func(e ev, d *dev, m *server.Machine) bool {
		key := fmt.Sprintf("%p%v", d, *m)
		if !tks[key] {
			check := d.checkKSN
			if keys {
				check = d.checkDesc
			}
			if err := check(m); err != nil {
				bad("description", err.Error(), e, *m)
				return false
			}
			tks[key] = true
		}
		r.Count("descriptions checked", 1)
		return true
	}
	for i := range h {
		e := &h[i]
		d := devs[e.K]
		if e.Out.Code != "ok" {
			continue
		}
		switch {
		case e.M != nil:
			if !desc(*e, d, e.M) {
				continue
			}
			e.Out.Start, _ = d.ctrOf(e.M.KeySerialNumber)
			e.Out.Ctr, _ = d.ctrOf(e.M.CurrentKSN)
			if e.Kind == "create" && (e.Out.Start != e.Start || e.Out.Ctr != e.Start) {
				bad("description", "a new machine does not start at its own KSN", *e, *e.M)
			}
		case e.Kind == "next": // HTTP gives the KSN only
			c, err := d.ctrOf(e.Out.Text)
			if err != nil {
				bad("description", err.Error(), *e, e.Out.Text)
				continue
			}
			e.Out.Ctr = c
		case e.Kind == "list":
			listed := map[int]bool{}
			for j := range e.Ms {
				m := &e.Ms[j]
				k := findDev(devs, m.InitialKey)
				if k < 0 || listed[k] {
					bad("list", "a machine that does not exist or a machine listed twice", *e, *m)
					continue
				}
				listed[k] = true
				if !desc(*e, devs[k], m) {
					continue
				}
				s, _ := devs[k].ctrOf(m.KeySerialNumber)
				c, _ := devs[k].ctrOf(m.CurrentKSN)
				e.Out.Items = append(e.Out.Items, item{k, s, c})
			}
		}
		switch e.Kind {
		case "create":
			note(e.K, e.Start)
		case "next", "get":
			note(e.K, e.Out.Ctr)
		}
	}
	// which KSN did an operation use?
	cache := map[string][]byte{}
	for i := range h {
		e := &h[i]
		if e.Kind != "use" || e.Out.Code != "ok" || e.Fn == "decrypt_pin" {
			continue
		}
		d := devs[e.K]
		e.Out.Ctrs = map[uint32]bool{}
		for c := range seen[e.K] {
			id := fmt.Sprint(e.K, "/", c)
			tk, ok := cache[id]
			if !ok {
				tk = d.tk(c)
				cache[id] = tk
			}
			if d.judgeOp(tk, c, e.Fn, e.P, e.Out.Text, e.JSON) == nil {
				e.Out.Ctr, e.Out.Ctrs[c] = c, true
			}
		}
		if len(e.Out.Ctrs) == 0 {
			bad("torn", fmt.Sprintf("the result of %s (%q) belongs to no KSN the machine ever had", e.Fn, e.Out.Text), *e, devs[e.K].show())
		}
		r.Count("operation results attributed to their KSN", 1)
	}
	return good
}
