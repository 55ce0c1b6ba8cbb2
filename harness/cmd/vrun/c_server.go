package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C24", "the server program (built with the race detector) started with random address configurations (flags, variables, both), probed on its addresses, then sent SIGINT/SIGTERM (also repeatedly, and during start-up) while requests are provably inside handlers (100-continue received, response partly read, admin trace listed in the goroutine dump; over HTTP/1.1 and HTTP/2) or while clients hammer it; crowds of 300 connections, large headers and bodies are served too; servers are started in 19 circumstances (by a parent that ends, in a session of their own, without standard files, in a removed directory, at other priorities, on one processor, with an empty environment, stopped and continued, among files that nobody named, ...) and have to serve and to end like any other; a server that has answered tens of thousands of requests serves like a new one; new connections, every response begun, its correctness against the reference model, and the end of the process are monitored. Distinct by configuration and set of in-flight requests.", c24)
	register("C25", "the server program with certificate and key (RSA, ECDSA, Ed25519, chain, and certificates that careful clients refuse; in all the forms that such files have, under odd and relative names and through links, left or removed after the start) or with none, one or broken ones; TLS handshakes of every version with crypto/tls and hand-written ClientHellos, plaintext requests to every listening socket of the process; negotiated versions, presented certificates, answers and effects are monitored. Distinct by configuration, protocol version and request.", c25)
	register("C26", "the server program with both log formats and under environments with variables of the names that programs look up serving successful, failing, malformed, slow and broken-off requests made of unique random secrets; everything written to standard output and standard error is searched for any of the secrets in text, hexadecimal, base64, decimal and byte-list renderings. Distinct by secret.", c26)
}

// ---- C24

// held is a request on a connection of its own which is inside its handler
type held struct {
	kind  string
	d     *dev
	p     opParams
	body  []byte
	sent  int
	chunk bool
	conn  net.Conn
	br    *bufio.Reader
	resp  *http.Response
	got   []byte
	begun time.Time
}

// errLate: the machine that runs the check was so slow that the read or write timeout of the server may have passed
var errLate = errors.New("not judged: the request took as long as the timeouts of the server")

func (h *held) late() bool { return time.Since(h.begun) > 27*time.Second }

func (h *held) String() string {
	dv := "new device"
	if h.d != nil {
		dv = h.d.Alg
	}
	return fmt.Sprintf("%s of %s (%d bytes, chunked %v)", h.kind, dv, len(h.body), h.chunk)
}

func (h *held) path() string {
	if h.kind == "machine" {
		return "/machine"
	}
	return "/" + h.kind + "/" + h.d.ik()
}

// open sends the head and waits until the handler asks for the body
func (h *held) open(g rng, p *proc) error {
	c, err := p.dial(p.tls, 0)
	if err != nil {
		return err
	}
	h.conn, h.br = c, bufio.NewReader(c)
	for n := g.IntN(3); n > 0; n-- { // the connection was used before
		fmt.Fprintf(c, "GET /ping HTTP/1.1\r\nHost: x\r\n\r\n")
		if rep, err := readReply(h.br, "GET"); err != nil || rep.Status != 200 {
			return fmt.Errorf("ping: %d %w", rep.Status, err)
		}
	}
	h.begun = time.Now()
	length := fmt.Sprintf("Content-Length: %d", len(h.body))
	if h.chunk {
		length = "Transfer-Encoding: chunked"
	}
	fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\n%s\r\nExpect: 100-continue\r\n\r\n", h.path(), length)
	resp, err := http.ReadResponse(h.br, &http.Request{Method: "POST"})
	if err != nil {
		return err
	}
	if resp.StatusCode != 100 {
		return fmt.Errorf("%s: status %d instead of 100", h.path(), resp.StatusCode)
	}
	return nil
}

// send sends a part of the body
func (h *held) send(n int) error {
	b := h.body[h.sent : h.sent+n]
	h.sent += n
	if len(b) == 0 {
		return nil
	}
	if h.chunk {
		b = fmt.Appendf(nil, "%x\r\n%s\r\n", len(b), b)
	}
	_, err := h.conn.Write(b)
	return err
}

// finish completes the request and judges the response
func (h *held) finish(counter uint32) (err error) {
	defer h.conn.Close()
	defer func() {
		if err != nil && h.late() {
			err = errLate
		}
	}()
	if err := h.send(len(h.body) - h.sent); err != nil {
		return fmt.Errorf("connection broken: %w", err)
	}
	if h.chunk {
		if _, err := io.WriteString(h.conn, "0\r\n\r\n"); err != nil {
			return fmt.Errorf("connection broken: %w", err)
		}
	}
	rep, err := readReply(h.br, "POST")
	if err != nil {
		return fmt.Errorf("no complete response: %w", err)
	}
	return h.judge(rep, counter)
}

func (h *held) judge(rep reply, counter uint32) error {
	if rep.Status != 200 {
		return fmt.Errorf("status %d: %q", rep.Status, clip(rep.Body))
	}
	if h.kind == "machine" {
		var out struct {
			IK      string
			Machine *server.Machine
		}
		if err := json.Unmarshal(rep.Body, &out); err != nil {
			return fmt.Errorf("body %q: %w", clip(rep.Body), err)
		}
		return h.d.checkDesc(out.Machine)
	}
	var out map[string]any
	if err := json.Unmarshal(rep.Body, &out); err != nil {
		return fmt.Errorf("body %q: %w", clip(rep.Body), err)
	}
	s, ok := out[opField(h.kind)].(string)
	if !ok {
		return fmt.Errorf("no %s in %q", opField(h.kind), clip(rep.Body))
	}
	return h.d.judgeOp(h.d.tk(counter), counter, h.kind, h.p, s, true)
}

// refused tells whether a connection to the address is refused
func refused(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 30*time.Second)
	if err == nil {
		c.Close()
		return false
	}
	return errors.Is(err, syscall.ECONNREFUSED)
}

func newHeld(g rng, d *dev, counter uint32) *held {
	h := &held{d: d, chunk: g.IntN(4) == 0}
	if d == nil {
		h.d, h.kind = newDev(g, algOf(g.IntN(2))), "machine"
		h.body = jsonBody(h.d.base(counter))
		return h
	}
	h.kind = machineOps[g.IntN(len(machineOps))]
	h.p = d.genOp(g, h.kind, counter)
	for h.kind == "decrypt_pin" && len(h.p.Pin) < 7 {
		h.p = d.genOp(g, h.kind, counter)
	}
	h.p.forJSON()
	h.body = jsonBody(opBody(h.kind, h.p))
	return h
}

// http2Shutdown signals a server that reads the bodies of requests on HTTP/2 connections
func http2Shutdown(r *mon.Run, creds *credentials, i int) {
	const counter = 7
	g := r.Rng("http2 shutdown", i)
	conf := creds.conf(0, 0, "h2", "http/1.1")
	p, err := startServer(r, g, conf, creds.env()...)
	if err != nil {
		r.Violate("start", err.Error(), nil)
		return
	}
	if p == nil {
		return
	}
	defer p.stop()
	var log []string
	say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	fail := func(sig, f string, a ...any) {
		_, e := p.output()
		say("stderr: %s", truncEnd(e))
		r.Violate(sig, fmt.Sprintf(f, a...), map[string]any{"server": p.describe, "history": log})
	}
	clients := make([]*http.Client, 1+g.IntN(3))
	for k := range clients {
		clients[k] = p.client(conf, true)
		clients[k].Transport.(*http.Transport).ExpectContinueTimeout = 100 * time.Second
	}
	var devs []*dev
	for k := 0; k < 2; k++ {
		d := newDev(g, algOf(i+k))
		if _, err := clientAPI(clients[0], p.url()).Create(d.base(counter)); err != nil {
			fail("api", "create: %v", err)
			return
		}
		devs = append(devs, d)
	}
	type answer struct {
		rep reply
		err error
	}
	type stream struct {
		h    *held
		w    *io.PipeWriter
		done chan answer
	}
	var streams []*stream
	for n := 1 + g.IntN(6); n > 0; n-- {
		var d *dev
		if g.IntN(6) > 0 {
			d = devs[g.IntN(2)]
		}
		h := newHeld(g, d, counter)
		rd, w := io.Pipe()
		s := &stream{h, w, make(chan answer, 1)}
		asked := make(chan bool, 1)
		req, err := http.NewRequest("POST", p.url()+h.path(), rd)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		req.Header.Set("Expect", "100-continue")
		if g.IntN(2) == 0 {
			req.ContentLength = int64(len(h.body))
		}
		req = req.WithContext(httptrace.WithClientTrace(req.Context(), &httptrace.ClientTrace{Got100Continue: func() { asked <- true }}))
		h.begun = time.Now()
		hc := clients[g.IntN(len(clients))]
		go func() {
			resp, err := hc.Do(req)
			if err != nil {
				s.done <- answer{err: err}
				return
			}
			defer resp.Body.Close()
			b, err := io.ReadAll(resp.Body)
			if resp.ProtoMajor != 2 {
				err = fmt.Errorf("answered with %s", resp.Proto)
			}
			s.done <- answer{reply{resp.StatusCode, resp.Header, b}, err}
		}()
		select {
		case <-asked:
		case a := <-s.done:
			fail("api", "%s over HTTP/2, body not sent: %d %v", h, a.rep.Status, a.err)
			return
		case <-time.After(60 * time.Second):
			r.Count("not judged: too late", 1)
			return
		}
		h.sent = g.IntN(len(h.body))
		if h.sent > 0 {
			w.Write(h.body[:h.sent])
		}
		say("in flight over HTTP/2: %s, %d bytes sent", h, h.sent)
		streams = append(streams, s)
	}
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.IntN(2)]
	p.cmd.Process.Signal(sig)
	say("%v", sig)
	if !p.poll(manyPolls, func() bool { return p.hasExited() || refused(p.addr) }) {
		fail("accepts", "after %v the server still accepts connections", sig)
		return
	}
	wait := time.Duration(g.IntN(3000)) * time.Millisecond
	time.Sleep(wait)
	say("%v later", wait)
	for n, s := range streams {
		if p.hasExited() && !s.h.late() {
			fail("lost", "the process ended with %d HTTP/2 requests inside their handlers: %v", len(streams)-n, p.state)
			return
		}
		go func() {
			s.w.Write(s.h.body[s.h.sent:])
			s.w.Close()
		}()
		var a answer
		select {
		case a = <-s.done:
		case <-time.After(100 * time.Second):
			a.err = errors.New("no answer within 100 s")
		}
		err := a.err
		if err == nil {
			err = s.h.judge(a.rep, counter)
		}
		if err != nil && s.h.late() {
			r.Count("not judged: too late", 1)
			return
		}
		if err != nil {
			fail("lost", "request in flight over HTTP/2 (%s): %v", s.h, err)
			return
		}
		say("answered: %s", s.h)
		r.Eval(1)
		r.Progress()
		r.Count("in-flight HTTP/2 requests answered correctly after the signal", 1)
	}
	if !p.poll(manyPolls, p.hasExited) {
		fail("alive", "the process does not terminate after %v and the last response over HTTP/2", sig)
		return
	}
	if m := p.crashed(); m != "" {
		fail("crash", "the process crashed: %s", m)
	}
	r.Eval(1)
	r.Count("processes terminated", 1)
	r.Distinct(fmt.Sprint(log))
}

func c24(r *mon.Run) {
	creds, err := makeCredentials("ecdsa", *scratch, "c24")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	underCircumstances(r, creds, len(circumstances)*r.Pick(1, 12))
	r.Require("servers under circumstances", len(circumstances)/2)
	sigOf := func(g rng) syscall.Signal { return []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.IntN(2)] }
	const counter = 7

	// patient scenarios hold requests for many seconds after the signal, close to the timeouts of the server
	scenario := func(i int, patient bool) {
		g := r.Rng("shutdown", i)
		var conf *tls.Config
		var env []string
		if g.IntN(4) == 0 {
			conf, env = creds.conf(0, 0, "http/1.1"), creds.env()
		}
		p, err := startServer(r, g, conf, env...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		load := i%3 == 2 && !patient
		var log []string
		say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		info := func() any { return map[string]any{"server": p.describe, "tls": conf != nil, "history": log} }
		fail := func(sig, f string, a ...any) {
			_, e := p.output()
			say("stderr: %s", truncEnd(e))
			r.Violate(sig, fmt.Sprintf(f, a...), info())
		}

		// configured addresses
		for _, path := range []string{"/live", "/ready", "/version"} {
			st, body, err := get("http://" + p.admin + path)
			if err != nil || st != 200 {
				fail("admin", "GET %s at the admin address %s: %d %v", path, p.admin, st, err)
				return
			}
			if path == "/version" && body == "" {
				fail("admin", "empty version")
			}
			r.Eval(1)
			r.Count("admin probes", 1)
		}
		for _, a := range p.dead {
			if !refused(a) {
				fail("overridden address", "the server listens on %s, which was overridden", a)
				return
			}
			r.Count("overridden addresses found closed", 1)
		}
		hc := p.client(conf, false)
		a := clientAPI(hc, p.url())
		var devs []*dev
		for k := 0; k < 2; k++ {
			d := newDev(g, algOf(i+k))
			if _, err := a.Create(d.base(counter)); err != nil {
				fail("api", "create: %v", err)
				return
			}
			devs = append(devs, d)
		}
		say("2 machines created")

		var active []*held
		inFlight := g.IntN(9)
		if patient {
			inFlight = 1 + g.IntN(3)
		}
		for n := inFlight; n > 0; n-- {
			var d *dev
			if g.IntN(6) > 0 {
				d = devs[g.IntN(2)]
			}
			h := newHeld(g, d, counter)
			if err := h.open(g, p); err != nil {
				fail("api", "%s: %v", h, err)
				return
			}
			defer h.conn.Close()
			h.send(g.IntN(len(h.body)))
			say("in flight: %s, %d bytes sent", h, h.sent)
			active = append(active, h)
		}
		// a response that is being written
		var slow *held
		if g.IntN(3) == 0 {
			slow = newHeld(g, devs[0], counter)
			slow.kind, slow.p = "encrypt_data", opParams{Data: strings.Repeat(hx(rbytes(g, 500)), 1500), Action: action(g)}
			slow.body = jsonBody(opBody(slow.kind, slow.p))
			c, err := p.dial(conf, 8192)
			if err != nil {
				fail("api", "%v", err)
				return
			}
			defer c.Close()
			slow.conn, slow.br, slow.begun = c, bufio.NewReaderSize(c, 512), time.Now()
			fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", slow.path(), len(slow.body))
			c.Write(slow.body)
			if slow.resp, err = http.ReadResponse(slow.br, &http.Request{Method: "POST"}); err != nil {
				fail("api", "%s: %v", slow, err)
				return
			}
			defer slow.resp.Body.Close()
			slow.got = make([]byte, 1+g.IntN(400))
			if _, err := io.ReadFull(slow.resp.Body, slow.got); err != nil {
				fail("api", "%s: %v", slow, err)
				return
			}
			say("in flight: response of %s partly read", slow)
		}
		// idle connections must not keep the process alive
		for n := g.IntN(3); n > 0; n-- {
			c, err := p.dial(conf, 0)
			if err != nil {
				fail("api", "%v", err)
				return
			}
			defer c.Close()
			fmt.Fprintf(c, "GET /ping HTTP/1.1\r\nHost: x\r\n\r\n")
			if _, err := readReply(bufio.NewReader(c), "GET"); err != nil {
				fail("api", "%v", err)
				return
			}
			say("idle connection")
		}
		// a long request at the admin address
		var trace chan error
		if i%8 == 3 {
			trace = make(chan error, 1)
			go func() {
				st, body, err := get("http://" + p.admin + "/debug/pprof/trace?seconds=2")
				switch {
				case err != nil:
				case st != 200 || len(body) < 16:
					err = fmt.Errorf("status %d, %d bytes", st, len(body))
				}
				trace <- err
			}()
			if !p.poll(manyPolls, func() bool {
				_, b, _ := get("http://" + p.admin + "/debug/pprof/goroutine?debug=1")
				return strings.Contains(b, "net/http/pprof.Trace") || len(trace) > 0
			}) || len(trace) > 0 {
				trace = nil // not offered
			} else {
				say("in flight: trace at the admin address")
			}
		}

		// load: clients until their connections fail
		type lane struct {
			log []string
			bad error
			n   int
		}
		lanes := make([]lane, 6)
		var wg sync.WaitGroup
		var done atomic.Int64
		if load {
			plans := make([][]*held, len(lanes))
			var kd []*dev
			for c := range lanes {
				for n := 0; n < 40; n++ {
					plans[c] = append(plans[c], newHeld(g, devs[g.IntN(2)], counter))
				}
				d := newDev(g, algOf(c))
				if _, err := a.Create(d.base(0)); err != nil {
					fail("api", "create: %v", err)
					return
				}
				kd = append(kd, d)
			}
			for c := range lanes {
				wg.Add(1)
				go func() {
					defer wg.Done()
					l := &lanes[c]
					g := r.Rng(fmt.Sprintf("lane %d", i), c)
					var last uint32
					for n := 0; ; n++ {
						if c%3 == 0 { // KSNs of a device of its own
							rep, err := p.one(conf, "POST", "/generate_ksn/"+kd[c].ik(), nil)
							var part *partial
							if errors.As(err, &part) {
								l.bad = fmt.Errorf("generate_ksn: %w", err)
								return
							}
							if err != nil {
								l.log = append(l.log, fmt.Sprintf("request %d: %v", n, err))
								return
							}
							var out struct{ Ksn string }
							want, _ := kd[c].next(last)
							json.Unmarshal(rep.Body, &out)
							if x, err := kd[c].ctrOf(out.Ksn); err != nil || x != want || rep.Status != 200 {
								l.bad = fmt.Errorf("generate_ksn after counter %d: %d %q", last, rep.Status, clip(rep.Body))
								return
							}
							last = want
						} else {
							h := plans[c][n%len(plans[c])]
							h.sent = 0
							if err := h.open(g, p); err != nil { // not known to be inside the handler
								var part *partial
								if errors.As(err, &part) {
									l.bad = err
								}
								if h.conn != nil {
									h.conn.Close()
								}
								l.log = append(l.log, fmt.Sprintf("request %d: %v", n, err))
								return
							}
							if g.IntN(3) == 0 {
								h.send(g.IntN(len(h.body)))
								pause()
							}
							if err := h.finish(counter); errors.Is(err, errLate) {
								l.log = append(l.log, err.Error())
								return
							} else if err != nil {
								l.bad = fmt.Errorf("request %d, which was inside its handler (%s): %w", n, h, err)
								return
							}
						}
						l.n++
						done.Add(1)
						r.Progress()
					}
				}()
			}
			target := int64(10 + g.IntN(400))
			p.poll(manyPolls, func() bool { return done.Load() >= target })
			say("6 clients sent %d requests", done.Load())
		}

		sig := sigOf(g)
		p.cmd.Process.Signal(sig)
		say("%v", sig)
		r.Count("signals: "+sig.String(), 1)
		if !p.poll(manyPolls, func() bool { return p.hasExited() || refused(p.addr) }) {
			fail("accepts", "after %v the server still accepts connections", sig)
			return
		}
		say("connections refused")
		r.Count("shutdowns with refused connections", 1)
		again := g.IntN(4) == 0
		if load {
			wg.Wait()
			for c, l := range lanes {
				say("client %d: %d requests %v", c, l.n, l.log)
				if l.bad != nil {
					fail("lost", "client %d: %v", c, l.bad)
				}
				r.Eval(l.n)
				r.Count("requests under load answered correctly", l.n)
			}
		}
		if patient {
			wait := time.Duration(14+g.IntN(7)) * time.Second
			for t := time.Now(); time.Since(t) < wait && !p.hasExited(); time.Sleep(50 * time.Millisecond) {
				r.Progress()
			}
			say("%v later", wait)
			r.Count("shutdowns with requests held for 14 s or more", 1)
		}
		g.Shuffle(len(active), func(x, y int) { active[x], active[y] = active[y], active[x] })
		for n, h := range active {
			if again && n == len(active)/2 {
				p.cmd.Process.Signal(sigOf(g))
				say("second signal")
				r.Count("repeated signals", 1)
			}
			if h.late() {
				r.Count("not judged: too late", 1)
				return
			}
			if p.hasExited() {
				fail("lost", "the process ended with %d requests inside their handlers: %v", len(active)-n, p.state)
				return
			}
			if n%3 == 0 && !refused(p.addr) && !p.hasExited() {
				fail("accepts", "connections are accepted again")
				return
			}
			if err := h.finish(counter); errors.Is(err, errLate) {
				r.Count("not judged: too late", 1)
				return
			} else if err != nil {
				fail("lost", "request in flight (%s): %v", h, err)
				return
			}
			say("answered: %s", h)
			r.Eval(1)
			r.Count("in-flight requests answered correctly after the signal", 1)
			r.Count("in flight: "+h.kind, 1)
		}
		if slow != nil {
			rest, err := io.ReadAll(slow.resp.Body)
			if err == nil {
				err = slow.judge(reply{slow.resp.StatusCode, slow.resp.Header, append(slow.got, rest...)}, counter)
			}
			if err != nil && slow.late() {
				r.Count("not judged: too late", 1)
				return
			}
			if err != nil {
				fail("lost", "response in flight (%s): after %d more bytes: %v", slow, len(rest), err)
				return
			}
			say("the slowly read response is complete and correct")
			r.Eval(1)
			r.Count("slowly read responses complete", 1)
		}
		if trace != nil {
			if err := <-trace; err != nil {
				fail("lost", "request in flight at the admin address: %v", err)
				return
			}
			r.Eval(1)
			r.Count("admin requests in flight completed", 1)
		}
		if !p.poll(manyPolls, p.hasExited) {
			fail("alive", "the process does not terminate after %v and the last response", sig)
			return
		}
		say("process ended: %v", p.state)
		if m := p.crashed(); m != "" {
			fail("crash", "the process crashed: %s", m)
		}
		r.Eval(1)
		r.Count("processes terminated", 1)
		r.Distinct(fmt.Sprint(log))
		if r.WantSample("shutdown") {
			r.Sample("shutdown", info())
		}
	}

	startup := func(i int) {
		g := r.Rng("startup", i)
		p, err := launch(r, g)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		defer p.stop()
		time.Sleep(time.Duration(g.IntN(120)) * time.Millisecond)
		sig := sigOf(g)
		p.cmd.Process.Signal(sig)
		if !p.poll(manyPolls, p.hasExited) {
			_, e := p.output()
			r.Violate("alive", fmt.Sprintf("the process does not terminate after %v during start-up", sig), map[string]any{"server": p.describe, "stderr": truncEnd(e)})
			return
		}
		r.Eval(1)
		r.Distinct("startup", i, sig)
		r.Count("processes terminated by a signal during start-up", 1)
	}
	// crowd: hundreds of connections at once, each with a request inside its handler, idle ones
	// beside them, and requests of unusual size
	crowd := func(i int) {
		g := r.Rng("crowd", i)
		p, err := startServer(r, g, nil)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		n := r.Pick(300, 800)
		info := func() any { return map[string]any{"server": p.describe, "connections": n} }
		fail := func(sig, f string, a ...any) { r.Violate(sig, fmt.Sprintf(f, a...), info()) }
		a := clientAPI(p.client(nil, false), p.url())
		devs := []*dev{newDev(g, "des"), newDev(g, "aes")}
		for _, d := range devs {
			if _, err := a.Create(d.base(counter)); err != nil {
				fail("api", "create: %v", err)
				return
			}
		}
		hs := make([]*held, n)
		gs := make([]rng, n)
		for k := range hs {
			hs[k], gs[k] = newHeld(g, devs[g.IntN(2)], counter), r.Rng("crowd member", i*1000+k)
		}
		idle := make([]net.Conn, n/3)
		defer func() {
			for _, c := range idle {
				if c != nil {
					c.Close()
				}
			}
			for _, h := range hs {
				if h.conn != nil {
					h.conn.Close()
				}
			}
		}()
		for k := range idle {
			if idle[k], err = p.dial(nil, 0); err != nil {
				fail("api", "idle connection %d: %v", k, err)
				return
			}
		}
		// requests of unusual size
		for _, head := range []string{"Cookie: " + strings.Repeat("c", 16<<10), strings.TrimSuffix(strings.Repeat("X-A: b\r\n", 400), "\r\n")} {
			c, err := p.dial(nil, 0)
			if err != nil {
				fail("api", "%v", err)
				return
			}
			fmt.Fprintf(c, "GET /machine/%s HTTP/1.1\r\nHost: x\r\n%s\r\n\r\n", devs[0].ik(), head)
			rep, err := readReply(bufio.NewReader(c), "GET")
			c.Close()
			if err != nil || rep.Status != 200 || !strings.Contains(string(rep.Body), devs[0].ik()) {
				fail("api", "a request with large headers: %d %q %v", rep.Status, clip(rep.Body), err)
				return
			}
			r.Count("requests with large headers", 1)
		}
		for _, fn := range []string{"encrypt_data", "decrypt_data", "generate_mac"} {
			q := devs[1].genOp(g, fn, counter)
			q.Data = hx(rbytes(g, 3<<20))
			got, err := a.Op(fn, devs[1].ik(), q)
			if err == nil {
				err = devs[1].judgeOp(devs[1].tk(counter), counter, fn, q, got, true)
			}
			if err != nil {
				fail("api", "%s of 6 MiB: %.300s", fn, err)
				return
			}
			r.Count("requests with bodies of 6 MiB", 1)
		}
		each := func(f func(k int) error) bool {
			var next atomic.Int64
			var wg sync.WaitGroup
			errs := make([]error, 16)
			for w := range errs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						k := int(next.Add(1)) - 1
						if k >= n || errs[w] != nil {
							return
						}
						if err := f(k); err != nil && !errors.Is(err, errLate) {
							errs[w] = fmt.Errorf("connection %d: %w", k, err)
						} else if err != nil {
							r.Count("not judged: too late", 1)
						} else {
							r.Count("requests of a crowd", 1)
						}
						r.Progress()
					}
				}()
			}
			wg.Wait()
			for _, e := range errs {
				if e != nil {
					fail("crowd", "%v", e)
					return false
				}
			}
			return true
		}
		if !each(func(k int) error {
			if err := hs[k].open(gs[k], p); err != nil {
				return err
			}
			return nil
		}) {
			return
		}
		d := devs[i%2]
		if _, err := a.Get(d.ik()); err != nil {
			fail("crowd", "a request beside %d others: %v", n, err)
			return
		}
		if i%2 == 0 {
			p.cmd.Process.Signal(sigOf(g))
			if !p.poll(manyPolls, func() bool { return p.hasExited() || refused(p.addr) }) {
				fail("accepts", "the server still accepts connections")
				return
			}
		}
		if !each(func(k int) error { return hs[k].finish(counter) }) {
			return
		}
		if i%2 == 1 {
			p.cmd.Process.Signal(sigOf(g))
		}
		if !p.poll(manyPolls, p.hasExited) {
			fail("alive", "the process does not terminate after the signal and the last response")
			return
		}
		if m := p.crashed(); m != "" {
			fail("crash", "the process crashed: %s", m)
		}
		r.Eval(2 * n)
		r.Distinct("crowd", i)
		r.Count("crowds of connections", 1)
	}
	for i := 0; i < r.Pick(2, 12); i++ {
		r.Guard(nil, func() { crowd(i) })
	}
	// a server left alone, with machines and an idle connection
	gi := r.Rng("idle", 0)
	idle, err := startServer(r, gi, nil)
	if err != nil {
		r.Violate("start", err.Error(), nil)
		return
	}
	var idleDevs []*dev
	if idle != nil {
		defer idle.stop()
		a := clientAPI(idle.client(nil, false), idle.url())
		for x := 0; x < 4; x++ {
			d := newDev(gi, algOf(x))
			if _, err := a.Create(d.base(counter)); err != nil {
				r.Violate("api", "create: "+err.Error(), d.show())
				return
			}
			idleDevs = append(idleDevs, d)
		}
	}
	r.Require("crowds of connections", 1)
	listening(r)
	nStart, nPatient := r.Pick(16, 400), r.Pick(4, 60)
	nLong := r.Pick(2, 6)
	nTwo := r.Pick(12, 200)
	r.Parallel(nTwo+nLong+r.Pick(72, 1500)+nStart+nPatient, func(i int) {
		i -= nLong + nTwo
		switch {
		case i < -nLong:
			http2Shutdown(r, creds, i+nLong+nTwo)
		case i < 0:
			longService(r, creds, i+nLong, r.Pick(70_000, 600_000))
		case i < nPatient: // they run beside the others
			scenario(10000+i, true)
		case i < nPatient+nStart:
			startup(i - nPatient)
		default:
			scenario(i-nPatient-nStart, false)
		}
	})
	for _, d := range idleDevs {
		a := clientAPI(idle.client(nil, false), idle.url())
		p := d.genOp(gi, "generate_mac", counter)
		p.forJSON()
		got, err := a.Op("generate_mac", d.ik(), p)
		if err == nil {
			err = d.judgeOp(d.tk(counter), counter, "generate_mac", p, got, true)
		}
		var m *server.Machine
		if err == nil {
			m, err = a.Get(d.ik())
		}
		if err == nil {
			err = d.checkDesc(m)
		}
		if err != nil {
			r.Violate("idle", "a server that was left alone does not serve its machines any more: "+err.Error(), map[string]any{"server": idle.describe, "device": d.show()})
		}
		r.Count("machines served after the server was left alone", 1)
	}
	r.Require("machines served after the server was left alone", 1)
	r.Require("shutdowns with requests held for 14 s or more", 2)
	r.Require("requests of a long service", 50_000)
	r.Require("processes terminated", 40)
	r.Require("in-flight requests answered correctly after the signal", 100)
	r.Require("requests under load answered correctly", 500)
	r.Require("slowly read responses complete", 5)
	r.Require("in-flight HTTP/2 requests answered correctly after the signal", 20)
	r.Require("overridden addresses found closed", 5)
	r.Require("signals: interrupt", 10)
	r.Require("signals: terminated", 10)
	r.Require("repeated signals", 3)
}

// ---- C25

func u16(b []byte, v int) []byte { return binary.BigEndian.AppendUint16(b, uint16(v)) }

// clientHello makes a ClientHello record; versions: supported_versions extension if not empty
func clientHello(g rng, record, legacy int, versions []int) []byte {
	suites := []int{0xc02b, 0xc02f, 0xcca9, 0xcca8, 0xc009, 0xc013, 0xc00a, 0xc014, 0x009c, 0x002f, 0x0035, 0x1301, 0x1303}
	var cs []byte
	for _, s := range suites {
		cs = u16(cs, s)
	}
	ext := func(id int, b []byte) []byte { return append(u16(u16(nil, id), len(b)), b...) }
	list := func(b []byte) []byte { return append(u16(nil, len(b)), b...) }
	pub := append([]byte{4}, rbytes(g, 64)...)
	var exts []byte
	groups := []byte{0, 23, 0, 24, 0, 29}
	exts = append(exts, ext(10, list(groups))...)
	exts = append(exts, ext(11, []byte{1, 0})...)
	exts = append(exts, ext(13, list([]byte{4, 3, 8, 4, 4, 1, 5, 3, 5, 1, 8, 7, 8, 5, 6, 1, 2, 1, 2, 3}))...)
	if len(versions) > 0 {
		var v []byte
		for _, x := range versions {
			v = u16(v, x)
		}
		exts = append(exts, ext(43, append([]byte{byte(len(v))}, v...))...)
		exts = append(exts, ext(51, list(append(u16(u16(nil, 29), 32), rbytes(g, 32)...)))...)
		_ = pub
	}
	b := u16(nil, legacy)
	b = append(b, rbytes(g, 32)...)
	b = append(b, 0)
	b = append(b, list(cs)...)
	b = append(b, 1, 0)
	if legacy > 0x0300 || len(versions) > 0 {
		b = append(b, list(exts)...)
	}
	hs := append([]byte{1, 0, byte(len(b) >> 8), byte(len(b))}, b...)
	return append(u16(u16([]byte{22}, record), len(hs)), hs...)
}

// serverHello sends raw bytes and gives the version of the ServerHello in the answer, 0 if there is none
func serverHello(p *proc, raw []byte) (version int, answer []byte, err error) {
	c, err := p.dial(nil, 0)
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	if _, err := c.Write(raw); err != nil {
		return 0, nil, err
	}
	head := make([]byte, 5)
	if _, err := io.ReadFull(c, head); err != nil {
		return 0, nil, nil // closed without an answer
	}
	n := int(head[3])<<8 | int(head[4])
	if head[0] != 22 {
		rest := make([]byte, 64)
		k, _ := c.Read(rest)
		return 0, append(head, rest[:k]...), nil
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil {
		return 0, head, nil
	}
	if len(b) < 39 || b[0] != 2 {
		return 0, b, nil
	}
	version = int(b[4])<<8 | int(b[5])
	at := 38 + 1 + int(b[38]) + 3
	if at+2 <= len(b) {
		for e := b[at+2:]; len(e) >= 4; {
			l := int(e[2])<<8 | int(e[3])
			if len(e) < 4+l {
				break
			}
			if e[0] == 0 && e[1] == 43 && l == 2 {
				version = int(e[4])<<8 | int(e[5])
			}
			e = e[4+l:]
		}
	}
	return version, b[:min(len(b), 64)], nil
}

// listeners are the local addresses of the listening TCP sockets of a process started here
func (p *proc) listeners() []string {
	inodes := map[string]bool{}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", p.cmd.Process.Pid))
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	var out []string
	for _, f := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", p.cmd.Process.Pid, f))
		for _, l := range strings.Split(string(b), "\n") {
			x := strings.Fields(l)
			if len(x) < 10 || x[3] != "0A" || !inodes[x[9]] {
				continue
			}
			k := strings.LastIndexByte(x[1], ':')
			var port int
			fmt.Sscanf(x[1][k+1:], "%X", &port)
			out = append(out, fmt.Sprintf("127.0.0.1:%d", port))
		}
	}
	return out
}

// plain sends a request without TLS
func plain(addr, method, path string, body []byte) (reply, error) {
	q := &proc{addr: addr}
	return q.one(nil, method, path, body)
}

func c25(r *mon.Run) {
	kinds := append([]string{"rsa", "ecdsa", "p384", "ed25519", "chain"}, oddKinds...)
	creds := map[string]*credentials{}
	for _, k := range kinds {
		c, err := makeCredentials(k, *scratch, "c25-"+strings.ReplaceAll(k, " ", "-"))
		if err != nil {
			r.Inconclusive("certificate: %v", err)
			return
		}
		creds[k] = c
	}
	other, err := makeCredentials("ecdsa", *scratch, "c25-other")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	// control: these clients do complete old handshakes with a server that allows them
	ctl := httptest.NewUnstartedServer(http.NotFoundHandler())
	ctl.TLS = &tls.Config{MinVersion: tls.VersionTLS10, Certificates: []tls.Certificate{creds["ecdsa"].pair}}
	ctl.Config.ErrorLog = log.New(io.Discard, "", 0)
	ctl.StartTLS()
	defer ctl.Close()
	ctlProc := &proc{addr: strings.TrimPrefix(ctl.URL, "https://")}
	for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11} {
		if c, err := ctlProc.dial(creds["ecdsa"].conf(v, v), 0); err != nil {
			r.Inconclusive("control: handshake of version %#x with a permissive server: %v", v, err)
			return
		} else {
			c.Close()
		}
		if got, ans, err := serverHello(ctlProc, clientHello(r.Rng("control", 0), 0x0301, int(v), nil)); got != int(v) || err != nil {
			r.Inconclusive("control: raw hello of version %#x: %#x %x %v", v, got, ans, err)
			return
		}
		r.Count("control handshakes of old versions with a permissive server", 1)
	}

	const counter = 5
	secure := func(i int) {
		g := r.Rng("secure", i)
		cr := creds[kinds[i%len(kinds)]]
		env, form, gone, err := cr.forms(g, *scratch, i)
		if err != nil {
			r.Inconclusive("files: %v", err)
			return
		}
		r.Distinct("files", cr.kind, form)
		r.Count("servers with certificate files of other forms", 1)
		p, err := startServer(r, g, cr.conf(0, 0, "http/1.1"), env...)
		if err != nil {
			r.Violate("start", "with a certificate: "+err.Error(), map[string]any{"certificate": cr.kind, "files": env, "form": form})
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		info := func(x any) any {
			return map[string]any{"server": p.describe, "certificate": cr.kind, "case": x}
		}
		clients := map[string]httpAPI{}
		for _, v := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
			for _, h2 := range []bool{false, true} {
				clients[fmt.Sprintf("%s h2=%v", tls.VersionName(v), h2)] = clientAPI(p.client(cr.conf(v, v), h2), p.url())
			}
		}
		d, unmade := newDev(g, algOf(i)), newDev(g, algOf(i+1))
		c12 := clients["TLS 1.2 h2=false"]
		if _, err := c12.Create(d.base(counter)); err != nil {
			r.Violate("answer:TLS 1.2", fmt.Sprintf("create: %v", err), info(d.show()))
			return
		}
		// correct answers
		for name, a := range clients {
			for _, fn := range machineOps {
				q := d.genOp(g, fn, counter)
				for fn == "decrypt_pin" && len(q.Pin) < 7 {
					q = d.genOp(g, fn, counter)
				}
				q.forJSON()
				got, err := a.Op(fn, d.ik(), q)
				if err == nil {
					err = d.judgeOp(d.tk(counter), counter, fn, q, got, true)
				}
				if err != nil {
					r.Violate("answer:"+name, fmt.Sprintf("%s: %v", fn, err), info(map[string]any{"device": d.show(), "parameters": q}))
				}
				r.Eval(1)
				r.Count("correct answers over "+name, 1)
				r.Distinct(cr.kind, name, fn, i)
			}
		}
		// a server has what it needs since its start
		if g.IntN(2) == 0 {
			if err := gone(); err != nil {
				r.Inconclusive("files: %v", err)
				return
			}
			r.Count("servers whose certificate files were removed", 1)
			time.Sleep(time.Duration(g.IntN(1500)) * time.Millisecond)
		}
		// versions and certificate
		for _, v := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
			c, err := p.dial(cr.conf(v, v, [][]string{nil, {"http/1.1"}, {"h2", "http/1.1"}}[g.IntN(3)]...), 0)
			if err != nil {
				r.Violate("refused:"+tls.VersionName(v), err.Error(), info(nil))
				continue
			}
			st := c.(*tls.Conn).ConnectionState()
			c.Close()
			if st.Version != v || len(st.PeerCertificates) != cr.chain || !bytes.Equal(st.PeerCertificates[0].Raw, cr.leaf) {
				r.Violate("certificate", fmt.Sprintf("version %s, %d certificates, not the configured one", tls.VersionName(st.Version), len(st.PeerCertificates)), info(nil))
			}
			r.Eval(1)
			r.Count("handshakes of "+tls.VersionName(v), 1)
		}
		// clients of every kind: what they can, what they present, what they ask for
		for _, v := range []uint16{tls.VersionTLS12, tls.VersionTLS13} {
			suites := []uint16{0}
			if v == tls.VersionTLS12 {
				suites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256}
				if cr.kind == "rsa" {
					suites = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384, tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256}
				}
			}
			var all []func(*tls.Config) string
			for _, s := range suites {
				for _, c := range []tls.CurveID{0, tls.CurveP256, tls.CurveP384, tls.CurveP521, tls.X25519} {
					all = append(all, func(conf *tls.Config) string {
						if s != 0 {
							conf.CipherSuites = []uint16{s}
						}
						if c != 0 {
							conf.CurvePreferences = []tls.CurveID{c}
						}
						return fmt.Sprintf("suite %s, curve %v", tls.CipherSuiteName(s), c)
					})
				}
			}
			for _, k := range kinds {
				all = append(all, func(conf *tls.Config) string {
					conf.Certificates = []tls.Certificate{creds[k].pair}
					return "client certificate " + k
				}, func(conf *tls.Config) string {
					conf.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &creds[k].pair, nil }
					return "client certificate on every request " + k
				})
			}
			for _, n := range []string{"127.0.0.1", "x", "localhost"} {
				all = append(all, func(conf *tls.Config) string {
					conf.ServerName = n
					return "server name " + n
				})
			}
			cache := tls.NewLRUClientSessionCache(4)
			for x := 0; x < 4; x++ {
				all = append(all, func(conf *tls.Config) string {
					conf.ClientSessionCache = cache
					return "session tickets"
				}, func(conf *tls.Config) string {
					conf.SessionTicketsDisabled = true
					return "no session tickets"
				}, func(conf *tls.Config) string {
					conf.DynamicRecordSizingDisabled, conf.Renegotiation = true, tls.RenegotiateFreelyAsClient
					return "renegotiation allowed"
				})
			}
			for _, f := range all {
				conf := cr.conf(v, v)
				if g.IntN(3) == 0 {
					conf.NextProtos = []string{"http/1.1"}
				}
				what := f(conf)
				rep, err := p.one(conf, "GET", "/machine/"+d.ik(), nil)
				if err != nil || rep.Status != 200 || !strings.Contains(string(rep.Body), hx(d.ksnAt(counter))) {
					r.Violate("client:"+tls.VersionName(v), fmt.Sprintf("%s: %v %d %q", what, err, rep.Status, clip(rep.Body)), info(what))
				}
				r.Eval(1)
				r.Count("clients of other kinds", 1)
				r.Distinct(cr.kind, v, what)
			}
		}
		// old versions
		for _, v := range []uint16{tls.VersionTLS10, tls.VersionTLS11} {
			for _, min := range []uint16{tls.VersionTLS10, v} {
				conf := cr.conf(min, v)
				conf.InsecureSkipVerify = cr.odd || g.IntN(2) == 0
				c, err := p.dial(conf, 0)
				if err == nil {
					st := c.(*tls.Conn).ConnectionState()
					c.Close()
					r.Violate("accepted:"+tls.VersionName(v), "handshake completed with "+tls.VersionName(st.Version), info(nil))
				} else if errors.Is(err, syscall.ECONNREFUSED) {
					r.Inconclusive("dial: %v", err)
				}
				r.Eval(1)
				r.Count("refused handshakes of "+tls.VersionName(v), 1)
				r.Distinct(cr.kind, v, min)
			}
		}
		hello := func(what string, raw []byte, ok ...int) {
			got, ans, err := serverHello(p, raw)
			if err != nil {
				r.Violate("hello:"+what, err.Error(), info(hx(raw)))
				return
			}
			for _, v := range ok {
				if got == v {
					r.Eval(1)
					r.Count("hello: "+what, 1)
					r.Distinct(cr.kind, what)
					return
				}
			}
			r.Violate("hello:"+what, fmt.Sprintf("the server answers with version %#04x", got), info(map[string]any{"hello": hx(raw), "answer": hx(ans)}))
		}
		for _, rec := range []int{0x0300, 0x0301, 0x0302, 0x0303} {
			hello("legacy SSL 3.0", clientHello(g, rec, 0x0300, nil), 0)
			hello("legacy TLS 1.0", clientHello(g, rec, 0x0301, nil), 0)
			hello("legacy TLS 1.1", clientHello(g, rec, 0x0302, nil), 0)
			hello("supported 1.1", clientHello(g, rec, 0x0303, []int{0x0302}), 0)
			hello("supported 1.0, 1.1", clientHello(g, rec, 0x0303, []int{0x0301, 0x0302}), 0)
			hello("supported 1.1, 1.2", clientHello(g, rec, 0x0303, []int{0x0302, 0x0303}), 0x0303)
		}
		hello("legacy TLS 1.2", clientHello(g, 0x0301, 0x0303, nil), 0x0303)
		hello("supported 1.3, 1.0", clientHello(g, 0x0301, 0x0303, []int{0x0304, 0x0301}), 0x0304)
		hello("legacy 1.1, supported 1.2", clientHello(g, 0x0301, 0x0302, []int{0x0303}), 0, 0x0303)
		hello("SSL 2.0", []byte{0x80, 0x2e, 1, 0, 2, 0, 15, 0, 0, 0, 16, 1, 0, 128, 3, 0, 128, 7, 0, 192, 6, 0, 64, 2, 0, 128}, 0)

		// plaintext requests, at every socket the process listens on
		where := []string{p.addr}
		ls := p.listeners()
		for _, l := range ls {
			if l != p.addr {
				where = append(where, l)
			}
		}
		r.Count("listening sockets seen", len(ls))
		q := d.genOp(g, "encrypt_data", counter)
		q.forJSON()
		want, err := c12.Op("encrypt_data", d.ik(), q)
		if err != nil {
			r.Violate("answer:TLS 1.2", err.Error(), info(q))
		}
		for _, addr := range where {
			for _, x := range []struct {
				method, path string
				body         []byte
			}{
				{"GET", "/ping", nil}, {"GET", "/machines", nil}, {"GET", "/machine/" + d.ik(), nil}, {"OPTIONS", "/machine", nil},
				{"POST", "/machine", jsonBody(unmade.base(counter))}, {"POST", "/generate_ksn/" + d.ik(), nil},
				{"POST", "/encrypt_data/" + d.ik(), jsonBody(opBody("encrypt_data", q))},
			} {
				rep, err := plain(addr, x.method, x.path, x.body)
				what := fmt.Sprintf("%s %s without TLS at %s", x.method, x.path, addr)
				r.Eval(1)
				r.Count("plaintext requests", 1)
				r.Distinct(cr.kind, x.method, x.path, addr == p.addr)
				if err != nil && rep.Status == 0 {
					continue
				}
				body := string(rep.Body)
				reached := rep.Status/100 == 2 || (len(want) > 0 && strings.Contains(body, want)) || body == "PONG" || strings.Contains(body, d.ik())
				if reached {
					r.Violate("plaintext", fmt.Sprintf("%s is answered: %d %q", what, rep.Status, clip(rep.Body)), info(what))
				}
			}
		}
		ms, err := c12.List()
		if err != nil || len(ms) != 1 || d.checkDesc(ms[0]) != nil || !sameHex(ms[0].CurrentKSN, hx(d.ksnAt(counter))) {
			r.Violate("plaintext effect", fmt.Sprintf("after plaintext requests the machines are %s %v", jsonBody(ms), err), info(d.show()))
		}
		if m := p.crashed(); m != "" || p.hasExited() {
			r.Violate("crash", "the process ended: "+m, info(nil))
		}
		if r.WantSample("secure " + cr.kind) {
			r.Sample("secure "+cr.kind, map[string]any{"server": p.describe, "certificate": cr.kind, "listening": ls})
		}
	}

	open := func(i int) {
		g := r.Rng("open", i)
		cr := creds[kinds[g.IntN(len(kinds))]]
		what, env := "none", []string{}
		switch i % 3 {
		case 1:
			what, env = "certificate only", cr.env()[:1]
		case 2:
			what, env = "key only", cr.env()[1:]
		}
		p, err := startServer(r, g, nil, env...)
		if err != nil {
			r.Violate("start", "configured: "+what+": "+err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		info := map[string]any{"server": p.describe, "configured": what}
		a := clientAPI(p.client(nil, false), p.url())
		d := newDev(g, algOf(i))
		if _, err := a.Create(d.base(counter)); err != nil {
			r.Violate("plain:"+what, fmt.Sprintf("create: %v", err), info)
			return
		}
		for _, fn := range machineOps {
			q := d.genOp(g, fn, counter)
			for fn == "decrypt_pin" && len(q.Pin) < 7 {
				q = d.genOp(g, fn, counter)
			}
			q.forJSON()
			got, err := a.Op(fn, d.ik(), q)
			if err == nil {
				err = d.judgeOp(d.tk(counter), counter, fn, q, got, true)
			}
			if err != nil {
				r.Violate("plain:"+what, fmt.Sprintf("%s: %v", fn, err), info)
			}
			r.Eval(1)
			r.Count("plain answers, configured: "+what, 1)
			r.Distinct("open", what, fn, i)
		}
		if c, err := p.dial(cr.conf(0, 0), 0); err == nil {
			c.Close()
			r.Violate("tls without certificate", "a TLS handshake succeeds, configured: "+what, info)
		}
	}

	garbage := filepath.Join(*scratch, "garbage")
	os.WriteFile(garbage, []byte("no PEM\n"), 0o644)
	broken := func(i int) {
		g := r.Rng("broken", i)
		cr := creds[kinds[g.IntN(len(kinds))]]
		pairs := [][3]string{{"missing certificate", "/nonexistent/c", cr.key}, {"missing key", cr.cert, "/nonexistent/k"}, {"garbage certificate", garbage, cr.key}, {"garbage key", cr.cert, garbage},
			{"key of another certificate", cr.cert, other.key}, {"swapped", cr.key, cr.cert}, {"empty", os.DevNull, os.DevNull}, {"missing both", "/nonexistent/c", "/nonexistent/k"}}
		x := pairs[i%len(pairs)]
		p, err := launch(r, g, "HTTPS_CERT_FILE="+x[1], "HTTPS_KEY_FILE="+x[2])
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		defer p.stop()
		polls := 0
		p.poll(300, func() bool {
			polls++
			rep, err := plain(p.addr, "GET", []string{"/ping", "/machines"}[polls&1], nil)
			if err == nil && rep.Status == 200 {
				r.Violate("plaintext:"+x[0], fmt.Sprintf("a server with both files configured (%s) answers plaintext requests: %q", x[0], clip(rep.Body)), p.describe)
				return true
			}
			return p.hasExited()
		})
		r.Eval(1)
		r.Count("broken configurations probed", 1)
		r.Distinct("broken", x[0], cr.kind)
		if p.hasExited() {
			r.Count("broken configurations: process ended", 1)
		}
	}
	a, b, c := r.Pick(24, 300), r.Pick(9, 120), r.Pick(8, 160)
	r.Parallel(a+b+c, func(i int) {
		switch {
		case i < a:
			secure(i)
		case i < a+b:
			open(i - a)
		default:
			broken(i - a - b)
		}
	})
	for _, v := range []string{"TLS 1.2", "TLS 1.3"} {
		r.Require("handshakes of "+v, 10)
		for _, h := range []string{"true", "false"} {
			r.Require("correct answers over "+v+" h2="+h, 40)
		}
	}
	r.Require("refused handshakes of TLS 1.0", 10)
	r.Require("refused handshakes of TLS 1.1", 10)
	r.Require("clients of other kinds", 200)
	r.Require("hello: legacy TLS 1.2", 10)
	r.Require("hello: supported 1.3, 1.0", 10)
	r.Require("plaintext requests", 60)
	for _, w := range []string{"none", "certificate only", "key only"} {
		r.Require("plain answers, configured: "+w, 10)
	}
}

// ---- C26

// secrets collects what must not be logged, in all renderings
type secrets struct {
	mu    sync.Mutex
	forms map[string]string // rendering in lower case -> what
	n     int
}

func (s *secrets) add(what string, forms ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	for _, f := range forms {
		if len(f) >= 10 {
			s.forms[lower(f)] = what
		}
	}
}

// bytes adds a key: every half of it in hexadecimal, and the renderings Go programs print
func (s *secrets) bytes(what string, b []byte) {
	var f []string
	for i := 0; i+8 <= len(b); i++ {
		w := b[i : i+8]
		f = append(f, hx(w), fmt.Sprintf("% x", w), strings.Trim(fmt.Sprint(w), "[]"), strings.ReplaceAll(strings.Trim(fmt.Sprint(w), "[]"), " ", ","),
			strings.ReplaceAll(strings.Trim(fmt.Sprint(w), "[]"), " ", ", "), strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", w), "[]byte{"), "}"), strings.Trim(fmt.Sprintf("%q", w), `"`), string(w))
	}
	for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		f = append(f, e.EncodeToString(b))
	}
	f = append(f, base64.RawStdEncoding.EncodeToString([]byte(hx(b))))
	s.add(what, append(f, string(b))...)
}

// text adds a text; long texts are recognised by parts
func (s *secrets) text(what, t string) {
	w := len(t)
	if w > 40 {
		w = 24
	}
	var f []string
	for i := 0; i+w <= len(t); i += w / 2 {
		f = append(f, t[i:i+w], hx([]byte(t[i:i+w])), strings.Trim(fmt.Sprint([]byte(t[i:i+w])), "[]"))
	}
	f = append(f, base64.RawStdEncoding.EncodeToString([]byte(t)))
	s.add(what, f...)
}

// find gives the secrets that occur in a text
func (s *secrets) find(text string) []string {
	low := lower(text)
	const k = 10
	grams := map[string]struct{}{}
	for i := 0; i+k <= len(low); i++ {
		grams[low[i:i+k]] = struct{}{}
	}
	seen := map[string]bool{}
	var out []string
	for f, what := range s.forms {
		if _, ok := grams[f[:k]]; ok && strings.Contains(low, f) && !seen[what] {
			seen[what] = true
			out = append(out, what)
		}
	}
	return out
}

// lower changes the letters A to Z only
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func withIK(d *dev) *dev {
	if d.aes() {
		d.IK = ref.AESInitialKey(d.BDK, d.KSN[:8])
	} else {
		d.IK = ref.DESInitialKey(d.BDK, d.KSN)
	}
	return d
}

// encrypt gives the ciphertext of which decrypt_data makes the text
func (d *dev) encrypt(c uint32, p opParams, text string) string {
	tk, resp := d.tk(c), isResponse(p.Action)
	if d.aes() {
		return hx(ref.AESDataEnc(tk, d.ksnAt(c), mustHex(p.IV), []byte(text), resp))
	}
	return hx(ref.DESDataEnc(tk, mustHex(p.IV), []byte(text), resp))
}

// pinFor gives the encrypted PIN of which decrypt_pin makes the PIN (in the default format)
func (d *dev) pinFor(g rng, c uint32, p opParams) string {
	tk := d.tk(c)
	if d.aes() {
		return hx(ref.AESPinEnc(tk, d.ksnAt(c), p.Pin, p.Pan, rbytes(g, 8)))
	}
	return hx(ref.DESPinEnc(tk, ref.PinBlock("ISO-0", p.Pin, p.Pan, fillFn(g))))
}

func word(g rng, n int) string {
	const c = "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnpqrstuvwxyz23456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = c[g.IntN(len(c))]
	}
	return string(b)
}

func c26(r *mon.Run) {
	// control: the search finds what it must find
	ctl := &secrets{forms: map[string]string{}}
	g0 := r.Rng("control", 0)
	kb, pinS, txt := rbytes(g0, 16), "48291750382", word(g0, 100)
	ctl.bytes("key", kb)
	ctl.text("pin", pinS)
	ctl.text("text", txt)
	for i, l := range []string{hx(kb), strings.ToUpper(hx(kb)), fmt.Sprint(kb), fmt.Sprintf("%#v", kb), fmt.Sprintf("%q", kb), string(kb), base64.StdEncoding.EncodeToString(kb), fmt.Sprintf("% X", kb), hx(kb[8:]),
		"pin=" + pinS, fmt.Sprintf("%x", pinS), fmt.Sprintf(`{"a":%q}`, txt), txt[:60], fmt.Sprint([]byte(txt))} {
		if len(ctl.find("ts=x msg=y "+l+" z\n")) != 1 {
			r.Inconclusive("control: rendering %d is not found", i)
			return
		}
		r.Count("control renderings found", 1)
	}
	if len(ctl.find("ts=2026-10-03T12:00:00.123456789Z msg=\"startup binding to 127.0.0.1:8080\"")) != 0 {
		r.Inconclusive("control: found without cause")
	}
	creds, err := makeCredentials("ecdsa", *scratch, "c26")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}

	r.Parallel(r.Pick(12, 300), func(i int) {
		g := r.Rng("logs", i)
		var conf *tls.Config
		var env []string
		if i%4 == 3 {
			conf, env = creds.conf(0, 0, "http/1.1"), creds.env()
		}
		format := []string{"json", "plain", ""}[i%3]
		if format != "" {
			env = append(env, "LOG_FORMAT="+format)
		}
		if i%2 == 1 { // variables that could make a program say more
			v := pickS(g, []string{"1", "true", "on", "yes", "debug", "trace", "all", "full", "*", "9", "dev", "DEBUG", "body"})
			switch {
			case i%4 == 1:
				v = []string{"debug", "1", "true", "trace"}[i/4%4]
			}
			for _, a := range actingVars(g) {
				n, _, _ := strings.Cut(a, "=")
				env = append([]string{n + "=" + v}, env...)
			}
			r.Count("servers with variables that could make them say more", 1)
		}
		p, err := startServer(r, g, conf, env...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		s := &secrets{forms: map[string]string{}}
		hc := p.client(conf, false)
		h := clientAPI(hc, p.url())
		var log []string
		var mu sync.Mutex
		call := func(kind, method, path string, body []byte) {
			rep, err := h.do(method, path, body)
			mu.Lock()
			log = append(log, fmt.Sprintf("%s %s %s -> %d %v", method, path, clip(body), rep.Status, err))
			mu.Unlock()
			r.Eval(1)
			r.Count(fmt.Sprintf("%s: status %d", kind, rep.Status), 1)
		}
		one := func(g rng, alg string) {
			d := newDev(g, alg)
			d.BDK = rbytes(g, len(d.BDK)) // no degenerate keys
			if alg == "aes" {
				d.KSN = rbytes(g, 12)
			} else {
				d.KSN = rbytes(g, 10)
			}
			*d = *withIK(d)
			id := d.ik()
			s.bytes("base key of "+id, d.BDK)
			c := uint32(1 + g.IntN(40))
			tks := 0
			know := func(c uint32) {
				s.bytes(fmt.Sprintf("transaction key of %s, counter %d", id, c), d.tk(c))
				tks++
			}
			know(c)
			call("create", "POST", "/machine", jsonBody(d.base(c)))
			call("create (failing)", "POST", "/machine", jsonBody(d.base(c)))
			b, _ := badBase(g, d.base(c))
			call("create (failing)", "POST", "/machine", jsonBody(b))
			b = d.base(c)
			b.BaseDerivativeKey += pickS(g, []string{"0", "zz", "00", hx(rbytes(g, 8))})
			call("create (failing)", "POST", "/machine", jsonBody(b))
			b = d.base(c)
			b.Algorithm = pickS(g, []string{"", "rsa", "DES3"})
			call("create (failing)", "POST", "/machine", jsonBody(b))
			whole := jsonBody(d.base(c))
			call("malformed", "POST", "/machine", whole[:len(whole)-1-g.IntN(20)])
			call("read", "GET", "/machine/"+id, nil)
			call("read", "GET", "/machines", nil)
			call("read (failing)", "GET", "/machine/none", nil)
			for n := 2 + g.IntN(3); n > 0; n-- {
				nx, ok := d.next(c)
				if !ok {
					break
				}
				c = nx
				know(c)
				call("next", "POST", "/generate_ksn/"+id, nil)
				for _, fn := range machineOps {
					q := d.genOp(g, fn, c)
					q.Pin, q.Pan = digits(g, 10+g.IntN(3)), digits(g, 13+g.IntN(7))
					word := word(g, 64+16*g.IntN(8))
					switch fn {
					case "generate_mac", "encrypt_data":
						q.Data = word
					case "decrypt_data":
						q.Data = d.encrypt(c, q, word)
					case "decrypt_pin":
						q.Format = "" // the block of this PAN
						q.Data = d.pinFor(g, c, q)
					}
					s.text("PIN "+q.Pin, q.Pin)
					s.text("PAN "+q.Pan, q.Pan)
					s.text("text "+word[:12], word)
					if rep, err := h.do("POST", "/"+fn+"/"+id, jsonBody(opBody(fn, q))); err == nil && rep.Status == 200 {
						var out map[string]any
						json.Unmarshal(rep.Body, &out)
						res, _ := out[opField(fn)].(string)
						if strings.HasPrefix(fn, "decrypt") && len(res) >= 10 {
							s.text("result of "+fn, res)
							if res == word {
								r.Count("decrypted texts watched for", 1)
							}
						}
						r.Count(fn+": status 200", 1)
					}
					r.Eval(1)
					call(fn+" (failing)", "POST", "/"+fn+"/none", jsonBody(opBody(fn, q)))
					bad, _ := d.badOp(g, fn, q)
					bad.forJSON()
					call(fn+" (bad)", "POST", "/"+fn+"/"+id, jsonBody(opBody(fn, bad)))
					q2 := q
					q2.Pin, q2.Format, q2.MacType, q2.IV = q.Pin+"123", q.Format, "nomac", "zz"
					call(fn+" (bad)", "POST", "/"+fn+"/"+id, jsonBody(opBody(fn, q2)))
					q2 = q
					q2.Pan, q2.Action = q.Pan[:11]+"x", "neither"
					call(fn+" (bad)", "POST", "/"+fn+"/"+id, jsonBody(opBody(fn, q2)))
					body := jsonBody(opBody(fn, q))
					call("malformed", "POST", "/"+fn+"/"+id, append(body, body...))
					call("malformed", "POST", "/"+fn+"/"+id, bytes.ReplaceAll(body, []byte(`"`), []byte(`'`)))
					call("malformed", "POST", "/"+fn+"/"+id, []byte(fmt.Sprintf(`{"pin":%s,"pan":[%q],"data":{"x":%q}}`, q.Pin, q.Pan, word)))
					call("malformed", "POST", "/"+fn+"/"+id, []byte(fmt.Sprintf(`%q`, word)))
					call("other method", "PUT", "/"+fn+"/"+id, body)
					if g.IntN(3) == 0 { // the client goes away
						if cn, err := p.dial(conf, 0); err == nil {
							fmt.Fprintf(cn, "POST /%s/%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", fn, id, len(body)+g.IntN(2)*10, body)
							cn.Close()
							r.Count("connections broken off", 1)
						}
						if cn, err := p.dial(nil, 0); err == nil { // no HTTP or no TLS
							fmt.Fprintf(cn, "POST /%s/%s HTTP/1.1\r\nHost: x\r\nbad header %s\r\n\r\n%s", fn, id, word, body)
							cn.SetReadDeadline(time.Now().Add(20 * time.Second))
							io.Copy(io.Discard, io.LimitReader(cn, 4096))
							cn.Close()
							r.Count("malformed protocol", 1)
						}
					}
				}
			}
			call("unknown route", "POST", "/unknown", jsonBody(d.base(c)))
		}
		// the end of a device's life
		last := newDev(g, algOf(i))
		last.BDK = rbytes(g, len(last.BDK))
		last = withIK(last)
		s.bytes("base key of "+last.ik(), last.BDK)
		s.bytes("last transaction key of "+last.ik(), last.tk(last.nearEnd(0)))
		call("create", "POST", "/machine", jsonBody(last.base(last.nearEnd(0))))
		call("next (exhausted)", "POST", "/generate_ksn/"+last.ik(), nil)
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ { // bodies and heads that take seconds to arrive
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := r.Rng(fmt.Sprintf("slow %d", i), k)
				d := newDev(g, algOf(k))
				d.BDK = rbytes(g, len(d.BDK))
				d = withIK(d)
				s.bytes("base key of "+d.ik(), d.BDK)
				s.bytes("transaction key of "+d.ik(), d.tk(3))
				slow := func(g rng, path string, body []byte, stay bool) {
					cn, err := p.dial(conf, 0)
					if err != nil {
						return
					}
					defer cn.Close()
					cn.SetDeadline(time.Now().Add(60 * time.Second))
					head := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", path, len(body))
					if g.IntN(4) == 0 {
						fmt.Fprint(cn, head[:len(head)-2])
						time.Sleep(time.Duration(500+g.IntN(1500)) * time.Millisecond)
						fmt.Fprint(cn, head[len(head)-2:])
					} else {
						fmt.Fprint(cn, head)
					}
					for rest, pieces := body, 1+g.IntN(2); len(rest) > 0; pieces-- {
						n := len(rest)
						if pieces > 0 {
							n = 1 + g.IntN(len(rest))
						}
						cn.Write(rest[:n])
						if rest = rest[n:]; len(rest) > 0 {
							gap := time.Duration(700+g.IntN(2800)) * time.Millisecond
							if g.IntN(4) == 0 { // far from the timeouts of the server still
								gap = time.Duration(6000+g.IntN(5000)) * time.Millisecond
							}
							time.Sleep(gap)
						}
					}
					r.Progress()
					if stay {
						if resp, err := http.ReadResponse(bufio.NewReader(cn), nil); err == nil {
							io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
							r.Count("slow requests answered", 1)
						}
					}
				}
				call("create", "POST", "/machine", jsonBody(d.base(3)))
				var bodies sync.WaitGroup
				for x, fn := range append([]string{""}, machineOps...) {
					path, body := "/machine", jsonBody(d.base(3))
					if fn != "" {
						q := d.genOp(g, fn, 3)
						q.Pin, q.Pan = digits(g, 10+g.IntN(3)), digits(g, 13+g.IntN(7))
						word := word(g, 64)
						q.Data = word
						switch fn {
						case "decrypt_data":
							q.Data = d.encrypt(3, q, word)
						case "decrypt_pin":
							q.Format, q.Data = "", d.pinFor(g, 3, q)
						}
						s.text("PIN "+q.Pin, q.Pin)
						s.text("PAN "+q.Pan, q.Pan)
						s.text("text "+word[:12], word)
						path, body = "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, q))
						if g.IntN(4) == 0 {
							path += "00"
						}
					}
					bodies.Add(1)
					g := r.Rng(fmt.Sprintf("slow body %d %d", i, k), x)
					go func() {
						defer bodies.Done()
						slow(g, path, body, x != k)
					}()
				}
				bodies.Wait()
			}()
		}
		for c := 0; c < 3; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := r.Rng(fmt.Sprintf("logs %d", i), c)
				for n := 0; n < r.Pick(4, 6); n++ {
					one(g, algOf(c+n))
				}
			}()
		}
		wg.Wait()
		insistent(r, r.Rng("insistent", i), p, h, r.Pick(12, 60), func(d *dev, c uint32) {
			s.bytes("base key of "+d.ik(), d.BDK)
			s.bytes(fmt.Sprintf("transaction key of %s, counter %d", d.ik(), c), d.tk(c))
		})
		hc.CloseIdleConnections()
		for _, path := range []string{"/live", "/ready", "/metrics", "/debug/pprof/goroutine?debug=2"} {
			get("http://" + p.admin + path)
		}
		p.nudge(g, 8)
		if g.IntN(3) == 0 {
			p.cmd.Process.Signal(syscall.SIGHUP)
			p.poll(60, p.hasExited)
			r.Count("hangups", 1)
		}
		p.cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[g.IntN(2)])
		p.poll(1500, p.hasExited) // what is written is judged even if it does not end: C24
		if !p.hasExited() {
			p.cmd.Process.Kill()
			<-p.exited
		}
		out, e := p.output()
		info := map[string]any{"server": p.describe, "stdout": truncEnd(out), "stderr": truncEnd(e)}
		for _, x := range []struct{ name, text string }{{"stdout", out}, {"stderr", e}} {
			r.Count("bytes of "+x.name+" searched", len(x.text))
			for _, w := range s.find(x.text) {
				info["requests"] = log[max(0, len(log)-40):]
				r.Violate("leak:"+strings.SplitN(w, " ", 2)[0]+":"+x.name, fmt.Sprintf("%s appears on %s", w, x.name), info)
			}
		}
		r.Eval(1)
		r.Count("secrets watched for", s.n)
		r.Count("renderings watched for", len(s.forms))
		for f := range s.forms {
			if len(f) > 20 {
				continue
			}
			r.Distinct(f)
		}
		if r.WantSample("log " + format) {
			r.Sample("log "+format, map[string]any{"server": p.describe, "stdout": truncEnd(out), "stderr": truncEnd(e), "requests": log[:min(4, len(log))]})
		}
	})
	r.Require("secrets watched for", 2000)
	r.Require("decrypted texts watched for", 50)
	r.Require("bytes of stdout searched", 1)
	for _, fn := range machineOps {
		r.Require(fn+": status 200", 100)
	}
	r.Require("create: status 200", 50)
	r.Require("connections broken off", 20)
	r.Require("slow requests answered", 50)
	r.Require("requests made over and over", 1000)
}

// listening compares where the server can be reached with where another program that listens at
// the same addresses can be reached
func listening(r *mon.Run) {
	local := []string{"127.0.0.1", "127.0.0.2", "::1"}
	if as, err := net.InterfaceAddrs(); err == nil {
		for _, a := range as {
			if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() && !n.IP.IsLinkLocalUnicast() && len(local) < 8 {
				local = append(local, n.IP.String())
			}
		}
	}
	reach := func(port int) (out []string) {
		for _, a := range local {
			if c, err := net.DialTimeout("tcp", net.JoinHostPort(a, fmt.Sprint(port)), 20*time.Second); err == nil {
				c.Close()
				out = append(out, a)
			}
		}
		return out
	}
	forms := []string{":%d", "127.0.0.1:%d", "localhost:%d", "0.0.0.0:%d", "[::]:%d", "[::1]:%d", "127.0.0.2:%d"}
	want := map[string][]string{}
	for _, f := range forms {
		for try := 0; try < 3 && want[f] == nil; try++ {
			port := freePort()
			l, err := net.Listen("tcp", fmt.Sprintf(f, port))
			if err != nil {
				continue
			}
			want[f] = reach(port)
			l.Close()
		}
	}
	var pairs [][2]string
	for i, f := range forms {
		if len(want[f]) > 0 {
			pairs = append(pairs, [2]string{f, forms[(i+3)%len(forms)]}, [2]string{f, forms[i*2%len(forms)]})
		}
	}
	r.Parallel(len(pairs), func(i int) {
		g := r.Rng("listening", i)
		x := pairs[i]
		if len(want[x[1]]) == 0 {
			x[1] = "127.0.0.1:%d"
		}
		for try := 0; try < 6; try++ {
			ports := [2]int{freePort(), freePort()}
			p, err := launchAt(r, g, fmt.Sprintf(x[0], ports[0]), fmt.Sprintf(x[1], ports[1]))
			if err != nil {
				r.Inconclusive("launch: %v", err)
				return
			}
			p.addr = net.JoinHostPort(want[x[0]][0], fmt.Sprint(ports[0]))
			err = p.ready()
			if err == errInUse {
				p.stop()
				continue
			}
			if err != nil {
				r.Violate("listening:start", err.Error(), p.describe)
				p.stop()
				return
			}
			for k, what := range []string{"API", "admin"} {
				path := []string{"/ping", "/live"}[k]
				p.poll(300, func() bool { return slices.Equal(reach(ports[k]), want[x[k]]) })
				if got := reach(ports[k]); !slices.Equal(got, want[x[k]]) {
					r.Violate("listening:"+what, fmt.Sprintf("with the %s address %s the server can be reached at %v, others that listen there at %v", what, fmt.Sprintf(x[k], ports[k]), got, want[x[k]]), p.describe)
				}
				for _, a := range want[x[k]] {
					if st, _, err := get("http://" + net.JoinHostPort(a, fmt.Sprint(ports[k])) + path); err != nil || st != 200 {
						r.Violate("listening:"+what, fmt.Sprintf("GET %s at %s port %d: %d %v", path, a, ports[k], st, err), p.describe)
					}
					r.Count("addresses asked", 1)
				}
				r.Eval(1)
				r.Distinct("listening", what, x[k])
			}
			p.nudge(g, 2)
			if !p.hasExited() {
				p.cmd.Process.Signal(syscall.SIGTERM)
				if !p.poll(manyPolls, p.hasExited) {
					r.Violate("listening:end", "the server does not end", p.describe)
				}
			}
			p.stop()
			return
		}
	})
	r.Require("addresses asked", 8)
}
