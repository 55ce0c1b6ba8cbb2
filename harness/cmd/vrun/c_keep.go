package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C32", "rounds of many operations of one kind (every library operation, valid and hostile; every unified function; every service operation, succeeding and failing, on few machines; next KSN; list; creation and deletion of ever new machines; failed creations; the HTTP handler with good, failing, hostile and cancelled requests; HTTP over TCP with kept, closed and broken off connections; the server program without and with TLS, with clients that leave before, in and after the handshake). Live heap after garbage collection, goroutines and file descriptors are measured between the rounds; growth with the number of operations that goes on in longer rounds is a violation. Distinct by workload and round.", c32)
}

// usage is what the process holds when nothing is going on
type usage struct {
	Heap       int64 `json:"heap"`
	Goroutines int   `json:"goroutines"`
	Files      int   `json:"files"`
}

func measure(r *mon.Run) usage {
	var u usage
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.Heap, u.Goroutines = int64(m.HeapAlloc), runtime.NumGoroutine()
	f, _ := os.ReadDir("/proc/self/fd")
	u.Files = len(f)
	r.Progress()
	return u
}

// settledUsage measures until the counts do not fall any more
func settledUsage(r *mon.Run) usage { return settled(func() usage { return measure(r) }, 3) }

// patience: net/http keeps a connection for half a second after some failures
const patience = 40

func settled(measure func() usage, times int) usage {
	u := measure()
	for still := 0; still < times; {
		time.Sleep(20 * time.Millisecond)
		v := measure()
		still++
		if v.Goroutines < u.Goroutines || v.Files < u.Files || v.Heap < u.Heap-4096 {
			still = 0
		}
		u = usage{min(u.Heap, v.Heap), min(u.Goroutines, v.Goroutines), min(u.Files, v.Files)}
	}
	return u
}

const (
	heapPerOp = 6.0 // bytes
	minHeap   = 96 << 10
	minThings = 12 // goroutines or files
)

// grown tells whether the growth between two measurements is one with the number of operations
func grown(a, b usage, n int) string {
	if d := b.Heap - a.Heap; d > minHeap && float64(d) > heapPerOp*float64(n) {
		return fmt.Sprintf("heap grew by %d bytes in %d operations (%.1f per operation)", d, n, float64(d)/float64(n))
	}
	if d := b.Heap - a.Heap; n >= 100_000 && d > 4*minHeap && d > int64(n)*7/10 { // many operations show less per operation
		return fmt.Sprintf("heap grew by %d bytes in %d operations (%.1f per operation)", d, n, float64(d)/float64(n))
	}
	if d := b.Goroutines - a.Goroutines; d > minThings && d > n/500 {
		return fmt.Sprintf("goroutines grew by %d in %d operations", d, n)
	}
	if d := b.Files - a.Files; d > minThings && d > n/500 {
		return fmt.Sprintf("open files grew by %d in %d operations", d, n)
	}
	return ""
}

// rounds runs the workload in rounds of n operations and judges what is held between them
func rounds(r *mon.Run, name string, n int, state func() usage, op func(g rng, i int) error) {
	next := 0
	var failed atomic.Bool
	batch := func(count int) {
		var i atomic.Int64
		i.Store(int64(next))
		next += count
		var wg sync.WaitGroup
		for range min(runtime.GOMAXPROCS(0), 8) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					k := int(i.Add(1)) - 1
					if k >= next || failed.Load() {
						return
					}
					r.Guard(func() any { return map[string]any{"workload": name, "operation": k} }, func() {
						if err := op(r.Rng(name, k), k); err != nil {
							failed.Store(true)
							r.Violate("answer:"+name, err.Error(), nil)
						}
					})
					r.Eval(1)
				}
			}()
		}
		wg.Wait()
	}
	batch(n)
	first := state()
	history := []usage{first}
	for range 3 {
		batch(n)
		history = append(history, state())
	}
	if failed.Load() {
		return
	}
	r.Count("operations: "+name, 4*n)
	r.Count("measurements", len(history))
	for i := range history {
		r.Distinct(name, i)
	}
	what := grown(first, history[len(history)-1], 3*n)
	for k := 0; what != "" && k < 2; k++ { // a cache may fill: does it go on?
		a := history[len(history)-1]
		more := 4 * n << k
		batch(more)
		b := state()
		history = append(history, b)
		what = grown(a, b, more)
		r.Count("longer rounds", 1)
	}
	if what != "" {
		r.Violate("grows:"+name, what+", and before", map[string]any{"workload": name, "operations per round": n, "held after each round": history})
	}
	r.Extra("held after each round: "+name, history)
	r.Sample(name, map[string]any{"workload": name, "operations": next, "held": history})
}

func c32(r *mon.Run) {
	n := r.Pick(6000, 60000)
	here := func() usage { return settledUsage(r) }

	// the library, every operation; hostile arguments too
	for _, o := range ops {
		k := n / 2
		if o.Slow {
			k = n / 10
		}
		rounds(r, "library "+o.Name, k, here, func(g rng, i int) error {
			a := o.Gen(g)
			if i%3 == 0 {
				corrupt(g, a)
			}
			o.Call(a)
			return nil
		})
	}
	for _, fn := range unifiedNames {
		rounds(r, "unified "+fn, n, here, func(g rng, i int) error {
			u := genUnified(g, fn, algOf(i))
			if i%5 == 0 {
				u.P.TK, u.P.IK, u.P.BKD = hostileString(g), hostileString(g), hostileString(g)
			}
			unifiedFns[fn](u.P)
			return nil
		})
	}

	// the service and the layers above it
	type world struct {
		s    server.Service
		h    http.Handler
		devs []*dev
	}
	const counter = 9
	newWorld := func(name string) *world {
		g := r.Rng("world "+name, 0)
		w := &world{s: newService()}
		w.h = server.MakeHTTPHandler(w.s)
		for k := range 6 {
			d := newDev(g, algOf(k))
			if err := w.s.CreateMachine(server.NewMachine(d.base(counter))); err != nil {
				r.Violate("create", err.Error(), d.show())
			}
			w.devs = append(w.devs, d)
		}
		return w
	}
	// one is a good or failing operation at any boundary
	one := func(a api, w *world, g rng, i int) error {
		d := w.devs[i%len(w.devs)]
		fn := machineOps[g.IntN(len(machineOps))]
		ik, q := d.ik(), d.genOp(g, fn, counter)
		bad := true
		switch i % 7 {
		case 0:
			ik = hx(rbytes(g, 16)) // no such machine
		case 1:
			q.Format, q.Data, q.MacType, q.IV, q.Pin = hostileString(g), hostileString(g), hostileString(g), hostileString(g), hostileString(g)
		default:
			bad = false
		}
		_, err := a.Op(fn, ik, q)
		if err != nil && !bad && !errors.Is(err, errTransport) && fn != "decrypt_pin" && fn != "decrypt_data" {
			return fmt.Errorf("%s: %w", fn, err)
		}
		return nil
	}
	create := func(a api, s server.Service, g rng, i int) error {
		d := ownDev(g, algOf(i))
		if _, err := a.Create(d.base(counter)); err != nil {
			return fmt.Errorf("create: %w", err)
		}
		switch i % 4 {
		case 0:
			a.Op("encrypt_data", d.ik(), opParams{Data: "x"})
		case 1:
			a.Next(d.ik())
		case 2:
			a.Create(d.base(counter)) // fails
		}
		if err := s.DeleteMachine(d.ik()); err != nil {
			return fmt.Errorf("delete: %w", err)
		}
		if i%3 == 0 {
			s.DeleteMachine(d.ik()) // unknown by now
		}
		if _, err := a.Get(d.ik()); err == nil {
			return fmt.Errorf("a deleted machine is found")
		}
		return nil
	}
	refuse := func(a api, g rng, i int) error {
		d := newDev(g, algOf(i))
		b := d.base(counter)
		switch i % 4 {
		case 0:
			b.BaseDerivativeKey = b.BaseDerivativeKey[2:]
		case 1:
			b.KeySerialNumber = "z" + b.KeySerialNumber[1:]
		case 2:
			b.Algorithm = "rot13" + hx(rbytes(g, 4))
		case 3:
			b.BaseDerivativeKey = ""
		}
		if _, err := a.Create(b); err == nil {
			return fmt.Errorf("the machine %+v is created", b)
		}
		return nil
	}
	advance := func(a api, w *world, i int) error {
		if i%16 == 15 {
			a.Next("unknown")
			return nil
		}
		_, _, err := a.Next(w.devs[i%len(w.devs)].ik())
		return err
	}
	look := func(a api, w *world, g rng, i int) error {
		switch i % 3 {
		case 0:
			_, err := a.List()
			return err
		case 1:
			a.Get(hx(rbytes(g, 16)))
			return nil
		}
		_, err := a.Get(w.devs[i%len(w.devs)].ik())
		return err
	}
	keep := func(x any) { runtime.KeepAlive(x) }
	layers := []string{"service", "handler"}
	for _, l := range layers {
		at := func(w *world) api {
			if l == "service" {
				return svcAPI{w.s}
			}
			return handlerAPI(w.h, sameHeaders(1))
		}
		for name, f := range map[string]func(a api, w *world, g rng, i int) error{
			"operations":         one,
			"creation, deletion": func(a api, w *world, g rng, i int) error { return create(a, w.s, g, i) },
			"refused creations":  func(a api, w *world, g rng, i int) error { return refuse(a, g, i) },
			"next KSN":           func(a api, w *world, g rng, i int) error { return advance(a, w, i) },
			"get and list":       look,
			"existing creations": func(a api, w *world, g rng, i int) error { a.Create(w.devs[i%6].base(uint32(1 + i))); return nil },
			"unknown next and get": func(a api, w *world, g rng, i int) error {
				a.Next(hx(rbytes(g, 12)))
				a.Get(hx(rbytes(g, 12)))
				return nil
			},
		} {
			w := newWorld(l + name)
			rounds(r, l+" "+name, n, here, func(g rng, i int) error { return f(at(w), w, g, i) })
			keep(w)
		}
	}
	// long rounds, in which a few bytes for each operation show
	for name, f := range map[string]func(w *world, g rng, i int) error{
		"next KSN":           func(w *world, g rng, i int) error { return advance(svcAPI{w.s}, w, i) },
		"get":                func(w *world, g rng, i int) error { return look(svcAPI{w.s}, w, g, 3*i+1+i%2) },
		"operations":         func(w *world, g rng, i int) error { return one(svcAPI{w.s}, w, g, i) },
		"creation, deletion": func(w *world, g rng, i int) error { return create(svcAPI{w.s}, w.s, g, i) },
		"unified": func(w *world, g rng, i int) error {
			fn := unifiedNames[i%len(unifiedNames)]
			unifiedFns[fn](genUnified(g, fn, algOf(i/len(unifiedNames))).P)
			return nil
		},
		"library": func(w *world, g rng, i int) error {
			if o := ops[i%len(ops)]; !o.Slow {
				o.Call(o.Gen(g))
			}
			return nil
		},
	} {
		w := newWorld("long " + name)
		rounds(r, "long: "+name, r.Pick(60_000, 400_000), here, func(g rng, i int) error { return f(w, g, i) })
		keep(w)
	}
	w := newWorld("hostile")
	k := newKnown(r.Rng("known", 0), w.s)
	rounds(r, "handler hostile requests", n, here, func(g rng, i int) error {
		method := pickS(g, []string{"GET", "POST", "POST", "POST", "OPTIONS", "PUT", "HEAD"})
		path, body := hostilePath(g, k), hostileBody(g)
		if len(body) > 20000 {
			body = body[:20000]
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if i%4 == 0 {
			cancel()
		}
		req, err := http.NewRequestWithContext(ctx, method, "http://h"+path, bytes.NewReader(body))
		if err != nil {
			return nil
		}
		req.RequestURI = path
		for range g.IntN(4) {
			req.Header.Set(pickS(g, []string{"Origin", "X-Request-Id", "X-User-Id", "Authorization", "Idempotency-Key", "Cookie"}), hx(rbytes(g, 12)))
		}
		rec := httptest.NewRecorder()
		w.h.ServeHTTP(rec, req)
		var c struct{ IK string }
		if json.Unmarshal(rec.Body.Bytes(), &c) == nil && c.IK != "" && path == "/machine" && rec.Code == 200 {
			return w.s.DeleteMachine(c.IK)
		}
		return nil
	})
	keep(w)
	keep(k)
	// clients that give up, before, during and after the operation, on every route
	cw := newWorld("cancelled")
	rounds(r, "handler cancelled requests", n*2, here, func(g rng, i int) error {
		d := cw.devs[g.IntN(6)]
		method, path, body := "POST", "", []byte(nil)
		switch y := i % 10; y {
		case 0:
			method, path = "GET", "/machine/"+[]string{d.ik(), hx(rbytes(g, 16))}[g.IntN(2)]
		case 1:
			method, path = "GET", "/machines"
		case 2:
			path = "/generate_ksn/" + []string{d.ik(), hx(rbytes(g, 16))}[g.IntN(2)]
		case 3:
			path, body = "/machine", jsonBody(d.base(counter)) // exists already
		case 4:
			method, path = []string{"OPTIONS", "GET"}[g.IntN(2)], "/ping"
		default:
			fn := machineOps[y-5]
			p := d.genOp(g, fn, counter)
			p.forJSON()
			path, body = "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, p))
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var rd io.Reader = bytes.NewReader(body)
		switch i / 10 % 4 {
		case 0:
			cancel()
		case 1: // with the body half read
			rd = io.MultiReader(bytes.NewReader(body[:len(body)/2]), &cancelReader{cancel, bytes.NewReader(body[len(body)/2:])})
		case 2:
			var stop context.CancelFunc
			ctx, stop = context.WithTimeout(ctx, time.Duration(g.IntN(60))*time.Microsecond)
			defer stop()
		case 3:
			defer time.AfterFunc(time.Duration(g.IntN(60))*time.Microsecond, cancel).Stop()
		}
		cw.h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(method, path, rd).WithContext(ctx))
		return nil
	})
	keep(cw)
	rounds(r, "handler origins and paths", n, here, func(g rng, i int) error {
		req := httptest.NewRequest([]string{"GET", "OPTIONS", "POST"}[i%3], []string{"/ping", "/machine/" + hx(rbytes(g, 16)), "/" + hx(rbytes(g, 10)), "/machines?x=" + hx(rbytes(g, 10))}[g.IntN(4)], nil)
		req.Header.Set("Origin", "https://"+hx(rbytes(g, 10))+".example")
		req.Header.Set("X-Request-Id", hx(rbytes(g, 10)))
		w.h.ServeHTTP(httptest.NewRecorder(), req)
		return nil
	})
	// requests of which no two have any header, address, parameter or name in common
	dw := newWorld("all different")
	rounds(r, "handler requests that differ in everything", n*2, here, func(g rng, i int) error {
		d := dw.devs[g.IntN(6)]
		method, path, body := "POST", "", []byte(nil)
		switch y := i % 11; y {
		case 0, 1:
			method, path = "GET", "/ping"
		case 2:
			method, path = "GET", "/machine/"+[]string{d.ik(), hx(rbytes(g, 16))}[g.IntN(2)]
		case 3:
			method, path = "GET", "/machines"
		case 4:
			path = "/generate_ksn/" + []string{d.ik(), hx(rbytes(g, 16))}[g.IntN(2)]
		case 5:
			path, body = "/machine", jsonBody(d.base(counter)) // exists already
		default:
			fn := machineOps[y-6]
			p := d.genOp(g, fn, counter)
			p.forJSON()
			path, body = "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, p))
		}
		switch g.IntN(12) {
		case 0:
			path = "/" + hx(rbytes(g, 12))
		case 1:
			method = "M" + strings.ToUpper(hx(rbytes(g, 8)))
		case 2:
			method = "OPTIONS"
		}
		req := httptest.NewRequest(method, path+"?"+hx(rbytes(g, 6))+"="+hx(rbytes(g, 6)), bytes.NewReader(body))
		req.Host = hx(rbytes(g, 10)) + ".example"
		req.RemoteAddr = fmt.Sprintf("%d.%d.%d.%d:%d", 1+g.IntN(220), g.IntN(256), g.IntN(256), g.IntN(256), 1024+g.IntN(60000))
		req.Header.Set("User-Agent", "agent/"+hx(rbytes(g, 10)))
		req.Header.Set("Origin", "https://"+hx(rbytes(g, 10))+".example")
		req.Header.Set("X-"+hx(rbytes(g, 4)), hx(rbytes(g, 4)))
		for _, h := range knownHeaders {
			if h[0] != "Origin" && g.IntN(2) == 0 {
				req.Header.Set(h[0], hx(rbytes(g, 12)))
			}
		}
		for _, name := range dictNames {
			if !strings.ContainsAny(name, "_.") && g.IntN(2) == 0 {
				req.Header.Set(name, hx(rbytes(g, 12)))
			}
		}
		req.AddCookie(&http.Cookie{Name: "session", Value: hx(rbytes(g, 10))})
		dw.h.ServeHTTP(httptest.NewRecorder(), req)
		return nil
	})
	keep(dw)
	// making a service or a handler holds nothing when it is dropped
	rounds(r, "services made and dropped", n/2, here, func(g rng, i int) error {
		s := newService()
		h := server.MakeHTTPHandler(s)
		d := newDev(g, algOf(i))
		_, err := handlerAPI(h).Create(d.base(counter))
		return err
	})

	// over TCP
	tw := newWorld("tcp")
	srv := httptest.NewServer(tw.h)
	addr := srv.Listener.Addr().String()
	rounds(r, "TCP", n/4, func() usage {
		srv.Client().CloseIdleConnections()
		return settled(func() usage { return measure(r) }, patience)
	}, func(g rng, i int) error {
		switch i % 4 {
		case 0:
			return one(clientAPI(srv.Client(), srv.URL), tw, g, i)
		case 1: // a connection of its own
			return breakOff(g, addr, tw.devs[i%6], false, false)
		default:
			return breakOff(g, addr, tw.devs[i%6], true, i%8 == 3)
		}
	})
	srv.Close()
	keep(tw)

	// program watches what the server program holds, without and with TLS
	program := func(n int, creds *credentials) {
		name := "server program"
		var conf *tls.Config
		var env []string
		if creds != nil {
			name, conf, env = "server program with TLS", creds.conf(0, 0, "http/1.1"), creds.env()
		}
		g := r.Rng(name, -1)
		p, err := startServer(r, g, conf, env...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		hc := p.client(conf, false)
		a := clientAPI(hc, p.url())
		pw := &world{}
		for k := range 6 {
			d := newDev(g, algOf(k))
			if _, err := a.Create(d.base(counter)); err != nil {
				r.Violate("api", err.Error(), d.show())
				return
			}
			pw.devs = append(pw.devs, d)
		}
		read := func() usage {
			var u usage
			if _, b, err := get("http://" + p.admin + "/debug/pprof/goroutine?debug=1"); err == nil {
				fmt.Sscanf(b, "goroutine profile: total %d", &u.Goroutines)
			}
			if _, b, err := get("http://" + p.admin + "/debug/pprof/heap?gc=1&debug=1"); err == nil {
				if i := strings.Index(b, "# HeapAlloc = "); i >= 0 {
					fmt.Sscanf(b[i:], "# HeapAlloc = %d", &u.Heap)
				}
			}
			f, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid))
			u.Files = len(f)
			r.Progress()
			return u
		}
		if u := read(); u.Goroutines == 0 || u.Heap == 0 {
			r.Count("program without profiles at the admin address", 1)
		}
		// clients that connect and do not get as far as a request
		lost := func(g rng, i int) error {
			c, err := net.DialTimeout("tcp", p.addr, 60*time.Second)
			if err != nil {
				return nil
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(140 * time.Second))
			if i%16 < 8 {
				c.(*net.TCPConn).SetLinger(0)
			}
			hello := clientHello(g, 0x0301, []int{0x0301, 0x0303, 0x0304}[g.IntN(3)], nil)
			switch g.IntN(6) {
			case 0: // nothing
			case 1:
				c.Write(rbytes(g, 1+g.IntN(100)))
			case 2:
				c.Write(hello[:1+g.IntN(len(hello)-1)])
			case 3: // the server answers and is not answered
				c.Write(hello)
				c.Read(make([]byte, 1+g.IntN(200)))
			case 4:
				io.WriteString(c, "GET /machines HTTP/1.1\r\n")
			default: // a handshake and nothing else
				v := []uint16{tls.VersionTLS11, tls.VersionTLS12, tls.VersionTLS13}[g.IntN(3)]
				t := tls.Client(c, creds.conf(min(v, tls.VersionTLS12), v))
				if t.Handshake() == nil && g.IntN(2) == 0 {
					t.Close()
				}
			}
			return nil
		}
		rounds(r, name, n/4, func() usage {
			hc.CloseIdleConnections()
			return settled(read, patience)
		}, func(g rng, i int) error {
			d := pw.devs[i%6]
			if creds != nil && i%8 != 0 && i%8 != 5 {
				return lost(g, i)
			}
			switch i % 8 {
			case 0:
				return advance(a, pw, i)
			case 1:
				return look(a, pw, g, i)
			case 2:
				return breakOff(g, p.addr, d, false, false)
			case 3:
				return breakOff(g, p.addr, d, true, i%16 == 3)
			case 4:
				return refuse(a, g, i)
			}
			q := d.genOp(g, "encrypt_data", counter)
			_, err := a.Op("encrypt_data", d.ik(), q)
			return err
		})
	}
	program(n, nil)
	creds, err := makeCredentials("ecdsa", *scratch, "c32")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	program(n/2, creds)
	r.Require("measurements", 200)
}

// cancelReader calls cancel when it is read
type cancelReader struct {
	cancel context.CancelFunc
	io.Reader
}

func (c *cancelReader) Read(p []byte) (int, error) {
	c.cancel()
	return c.Reader.Read(p)
}

// ownDev is a device that no other case has
func ownDev(g rng, alg string) *dev {
	d := newDev(g, alg)
	d.BDK = rbytes(g, len(d.BDK))
	if d.aes() {
		d.IK = ref.AESInitialKey(d.BDK, d.KSN[:8])
	} else {
		d.IK = ref.DESInitialKey(d.BDK, d.KSN)
	}
	return d
}

// breakOff makes a request on a connection of its own and drops it midway, or completes it
func breakOff(g rng, addr string, d *dev, broken, reset bool) error {
	c, err := net.DialTimeout("tcp", addr, 60*time.Second)
	if err != nil {
		return nil // the ports of this machine run out, not the server's doing
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(140 * time.Second))
	if reset {
		c.(*net.TCPConn).SetLinger(0)
	}
	body := jsonBody(opBody("encrypt_data", opParams{Data: strings.Repeat("a", g.IntN(3000)), Action: "request"}))
	req := fmt.Sprintf("POST /encrypt_data/%s HTTP/1.1\r\nHost: x\r\nConnection: %s\r\nContent-Length: %d\r\n\r\n%s", d.ik(), []string{"close", "keep-alive"}[g.IntN(2)], len(body), body)
	if broken && g.IntN(4) == 0 {
		req = ""
	} else if broken {
		req = req[:g.IntN(len(req))]
	}
	io.WriteString(c, req)
	if broken {
		return nil
	}
	rep, err := readReply(bufio.NewReader(c), "POST")
	if err != nil {
		return err
	}
	if rep.Status != 200 {
		return fmt.Errorf("status %d: %q", rep.Status, clip(rep.Body))
	}
	return nil
}
