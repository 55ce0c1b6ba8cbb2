package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/mon"
)

func init() {
	register("C34", "the server program, plain and with TLS, and connections that stall at every stage (nothing sent, part of a ClientHello, part of a request line, header or body, also trickled byte by byte and after earlier requests, body never sent after 100-continue, chunked body broken off, large bodies of known and unknown length broken off, large or pipelined responses not read, more connections than the process may have open files, idle after requests, HTTP/2 idle; streams of HTTP/2 connections whose body stalls or whose response is not read); the sockets the server process holds (/proc) tell when it gave each connection up. At the same time other clients must be served correctly, among them slow ones that stay within the limits. Distinct by stage, protocol and parameters.", c34)
}

// remotePorts tells which client ports the process holds connections with (accepted and not closed by it)
func (p *proc) remotePorts() map[int]bool {
	inodes := map[string]bool{}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", p.cmd.Process.Pid))
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	_, apiPort, _ := net.SplitHostPort(p.addr)
	out := map[int]bool{}
	for _, f := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", p.cmd.Process.Pid, f))
		for _, l := range strings.Split(string(b), "\n") {
			x := strings.Fields(l)
			if len(x) < 10 || x[3] == "0A" || !inodes[x[9]] {
				continue
			}
			var local, remote int
			fmt.Sscanf(x[1][strings.LastIndexByte(x[1], ':')+1:], "%X", &local)
			fmt.Sscanf(x[2][strings.LastIndexByte(x[2], ':')+1:], "%X", &remote)
			if fmt.Sprint(local) == apiPort {
				out[remote] = true
			}
		}
	}
	return out
}

const (
	requestLimit = 30 * time.Second
	idleLimit    = 60 * time.Second
	stallSlack   = 60 * time.Second // beyond a limit, for busy machines
)

// stalled is a connection whose client does not go on
type stalled struct {
	stage string
	conn  net.Conn
	port  int
	limit time.Duration
	from  time.Time // the limit counts from here at the latest
	feed  func() bool
	seen  bool
	gone  time.Duration
}

func c34(r *mon.Run) {
	cr, err := makeCredentials("ecdsa", *scratch, "c34")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	const counter = 5
	serve := func(i int, secure bool) {
		g := r.Rng("stall", i)
		var conf *tls.Config
		var env []string
		if secure {
			conf, env = cr.conf(0, 0, "http/1.1"), cr.env()
		}
		p, err := startServer(r, g, conf, env...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		info := func(x any) any {
			_, e := p.output()
			return map[string]any{"server": p.describe, "tls": secure, "case": x, "stderr": truncEnd(e)}
		}
		a := clientAPI(p.client(conf, false), p.url())
		var devs []*dev
		for k := 0; k < 2; k++ {
			d := newDev(g, algOf(k))
			if _, err := a.Create(d.base(counter)); err != nil {
				r.Violate("api", "create: "+err.Error(), info(d.show()))
				return
			}
			devs = append(devs, d)
		}

		// raw opens a TCP connection, with TLS if wanted
		raw := func(handshake bool, rcvbuf int) (net.Conn, int, error) {
			var c net.Conn
			var err error
			if handshake {
				c, err = p.dial(conf, rcvbuf)
			} else {
				c, err = p.dial(nil, rcvbuf)
			}
			if err != nil {
				return nil, 0, err
			}
			c.SetDeadline(time.Now().Add(10 * time.Minute))
			return c, c.LocalAddr().(*net.TCPAddr).Port, nil
		}
		ping := func(c net.Conn, br *bufio.Reader) error {
			fmt.Fprintf(c, "GET /ping HTTP/1.1\r\nHost: x\r\n\r\n")
			rep, err := readReply(br, "GET")
			if err == nil && rep.Status != 200 {
				err = fmt.Errorf("status %d", rep.Status)
			}
			return err
		}
		body := jsonBody(opBody("encrypt_data", opParams{Data: strings.Repeat("0123456789abcdef", 64), Action: "request"}))
		head := func(d *dev, rest string) string {
			return fmt.Sprintf("POST /encrypt_data/%s HTTP/1.1\r\nHost: x\r\n%s", d.ik(), rest)
		}
		full := fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body))

		type stage struct {
			name  string
			limit time.Duration
			// begin does what the client does before it stalls and gives what it trickles, if anything
			begin func(g rng, d *dev, c net.Conn, br *bufio.Reader) (trickle string, err error)
			plain bool // no TLS handshake is made
			buf   int
		}
		send := func(c net.Conn, s string) error { _, err := io.WriteString(c, s); return err }
		stages := []stage{
			{name: "nothing", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) { return "", nil }},
			{name: "request line", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				h := head(d, "")
				return "", send(c, h[:1+g.IntN(20)])
			}},
			{name: "header", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return "", send(c, head(d, "X-A: b\r\nX-"))
			}},
			{name: "header trickled", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return "X-Header: " + strings.Repeat("x", 4000), send(c, head(d, ""))
			}},
			{name: "header of a later request", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				if err := ping(c, br); err != nil {
					return "", err
				}
				return "", send(c, head(d, "X-A"))
			}},
			{name: "body not begun", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return "", send(c, head(d, full))
			}},
			{name: "body", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return "", send(c, head(d, full)+string(body[:1+g.IntN(len(body)-1)]))
			}},
			{name: "body trickled", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return string(body), send(c, head(d, full))
			}},
			{name: "body of a later request", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				for range 3 {
					if err := ping(c, br); err != nil {
						return "", err
					}
				}
				return "", send(c, head(d, full)+string(body[:9]))
			}},
			{name: "body after 100-continue", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				if err := send(c, head(d, "Expect: 100-continue\r\n"+full)); err != nil {
					return "", err
				}
				resp, err := http.ReadResponse(br, &http.Request{Method: "POST"})
				if err == nil && resp.StatusCode != 100 {
					err = fmt.Errorf("status %d instead of 100", resp.StatusCode)
				}
				return "", err
			}},
			{name: "chunked body", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return "", send(c, head(d, "Transfer-Encoding: chunked\r\n\r\n")+fmt.Sprintf("%x\r\n%s\r\n40\r\n{", len(body), body))
			}},
			{name: "body of a creation", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				return "", send(c, "POST /machine HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{")
			}},
			{name: "large body", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				size := []int{20 << 10, 70 << 10, 130 << 10, 300 << 10, 600 << 10, 1100 << 10, 5 << 20}[g.IntN(7)]
				part := []int{0, 1, 1000, size / 2, size - 1}[g.IntN(5)]
				if err := send(c, head(d, fmt.Sprintf("Content-Length: %d\r\n\r\n", size))); err != nil {
					return "", err
				}
				go io.WriteString(c, (`{"action":"request","data":"` + strings.Repeat("x", part))[:part])
				return "", nil
			}},
			{name: "large chunked body", limit: requestLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				size := []int{70 << 10, 300 << 10, 1100 << 10}[g.IntN(3)]
				go io.WriteString(c, head(d, "Transfer-Encoding: chunked\r\n\r\n")+fmt.Sprintf("%x\r\n{\"data\":\"%s", size, strings.Repeat("x", size/2)))
				return "", nil
			}},
			{name: "response not read", limit: requestLimit, buf: 4096, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				big := jsonBody(map[string]string{"data": strings.Repeat("0123456789abcdef", 6<<20/16), "action": "request"})
				return "", send(c, head(d, fmt.Sprintf("Content-Length: %d\r\n\r\n", len(big)))+string(big))
			}},
			{name: "pipelined responses not read", limit: requestLimit, buf: 4096, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				go io.WriteString(c, strings.Repeat("GET /machines HTTP/1.1\r\nHost: x\r\n\r\n", 20000))
				return "", nil
			}},
			{name: "idle", limit: idleLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) { return "", ping(c, br) }},
			{name: "idle after operations", limit: idleLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				for range 3 {
					if err := send(c, head(d, full)+string(body)); err != nil {
						return "", err
					}
					if rep, err := readReply(br, "POST"); err != nil || rep.Status != 200 {
						return "", fmt.Errorf("status %d %w", rep.Status, err)
					}
				}
				return "", nil
			}},
			{name: "idle after a failed operation", limit: idleLimit, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
				if err := send(c, "GET /machine/unknown HTTP/1.1\r\nHost: x\r\n\r\n"); err != nil {
					return "", err
				}
				rep, err := readReply(br, "GET")
				if err == nil && rep.Status != 404 {
					err = fmt.Errorf("status %d", rep.Status)
				}
				return "", err
			}},
		}
		if secure {
			stages = append(stages,
				stage{name: "no handshake", limit: requestLimit, plain: true, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) { return "", nil }},
				stage{name: "part of a ClientHello", limit: requestLimit, plain: true, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
					return "", send(c, "\x16\x03\x01\x01\x00\x01\x00\x00\xfc\x03\x03"[:1+g.IntN(10)])
				}},
				stage{name: "HTTP/2 idle", limit: idleLimit, plain: true, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
					t := tls.Client(c, cr.conf(0, 0, "h2"))
					if err := t.Handshake(); err != nil {
						return "", err
					}
					// the preface, empty settings, and the acknowledgement of the server's
					return "", send(t, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00\x00\x00\x00\x04\x01\x00\x00\x00\x00")
				}},
				stage{name: "ClientHello trickled", limit: requestLimit, plain: true, begin: func(g rng, d *dev, c net.Conn, br *bufio.Reader) (string, error) {
					return "\x03\x01\x01\x00\x01\x00\x00\xfc\x03\x03" + strings.Repeat("a", 300), send(c, "\x16")
				}})
		}

		// others are served meanwhile, and without delay: a control server in this process shows what
		// the machine is able to do
		var done atomic.Bool
		var others sync.WaitGroup
		control := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) { w.Write([]byte("PONG")) }))
		defer control.Close()
		type span struct{ from, to time.Time }
		var spans []span
		var spanMu sync.Mutex
		others.Add(1)
		go func() {
			defer others.Done()
			for !done.Load() {
				t := time.Now()
				if _, _, err := get(control.URL); err != nil {
					continue
				}
				spanMu.Lock()
				spans = append(spans, span{t, time.Now()})
				spanMu.Unlock()
				time.Sleep(100 * time.Millisecond)
			}
		}()
		delays := 0 // two are needed
		delayed := func(from, to time.Time, what string) {
			if to.Sub(from) < 10*time.Second {
				return
			}
			spanMu.Lock()
			defer spanMu.Unlock()
			n, worst := 0, time.Duration(0)
			for _, s := range spans {
				if s.to.After(from) && s.from.Before(to) {
					n++
					worst = max(worst, s.to.Sub(s.from))
				}
			}
			if n < 30 || worst > time.Second {
				r.Count("delays not judged (busy machine)", 1)
				return
			}
			if delays++; delays >= 2 {
				r.Violate("delayed", fmt.Sprintf("%s of another client took %v while connections were stalled; %d requests to a control server took %v at most", what, to.Sub(from).Round(time.Millisecond), n, worst), info(what))
			}
		}
		fresh := p.client(conf, false)
		fresh.Transport.(*http.Transport).DisableKeepAlives = true
		apis := []api{a, a, clientAPI(fresh, p.url())}
		apis = append(apis, a, a, clientAPI(fresh, p.url()))
		for w := range 6 { // the last three send large bodies
			others.Add(1)
			go func() {
				defer others.Done()
				g := r.Rng("others", i*10+w)
				for n := 0; !done.Load(); n++ {
					d := devs[(n+w)&1]
					fn := machineOps[g.IntN(len(machineOps))]
					q := d.genOp(g, fn, counter)
					for fn == "decrypt_pin" && len(q.Pin) < 7 {
						q = d.genOp(g, fn, counter)
					}
					if w >= 3 {
						fn, q = []string{"encrypt_data", "generate_mac"}[n&1], opParams{Data: strings.Repeat("0123456789abcdef", []int{20 << 10, 70 << 10, 130 << 10, 300 << 10, 600 << 10, 1100 << 10, 2 << 20}[n%7]/16), Action: "request"}
						if fn == "generate_mac" && d.aes() {
							q.MacType = "cmac"
						}
						r.Count("large requests of other clients", 1)
					}
					q.forJSON()
					t := time.Now()
					got, err := apis[w].Op(fn, d.ik(), q)
					if err == nil {
						err = d.judgeOp(d.tk(counter), counter, fn, q, got, true)
					}
					delayed(t, time.Now(), fn)
					if err != nil {
						r.Violate("others:"+fn, err.Error(), info(map[string]any{"device": d.show(), "parameters": q}))
						return
					}
					r.Eval(1)
					r.Count("answers to other clients", 1)
					time.Sleep(time.Duration(20+w/3*130) * time.Millisecond)
				}
			}()
		}

		var mu sync.Mutex
		var all []*stalled
		var wg sync.WaitGroup
		open := func(s stage, k int) {
			defer wg.Done()
			g := r.Rng("stall "+s.name, i*1000+k)
			d := devs[k&1]
			begun := time.Now()
			c, port, err := raw(secure && !s.plain, s.buf)
			if err != nil {
				if time.Since(begun) < 25*time.Second {
					r.Violate("connect", err.Error(), info(s.name))
				}
				return
			}
			br := bufio.NewReader(c)
			asked := time.Now()
			c.SetDeadline(asked.Add(150 * time.Second))
			trickle, err := s.begin(g, d, c, br)
			c.SetDeadline(asked.Add(10 * time.Minute))
			delayed(asked, time.Now(), "what came before the stage "+s.name)
			if err != nil {
				if time.Since(begun) < 25*time.Second {
					r.Violate("before the stall:"+s.name, err.Error(), info(s.name))
				}
				c.Close()
				return
			}
			st := &stalled{stage: s.name, conn: c, port: port, limit: s.limit, from: time.Now()}
			if trickle != "" {
				k := 0
				last := time.Now()
				st.feed = func() bool {
					if time.Since(last) < 700*time.Millisecond || k >= len(trickle) {
						return true
					}
					last = time.Now()
					_, err := io.WriteString(c, trickle[k:k+1])
					k++
					return err == nil
				}
			}
			mu.Lock()
			all = append(all, st)
			mu.Unlock()
		}
		for _, s := range stages {
			n := r.Pick(5, 40)
			switch {
			case s.buf > 0:
				n = 2
			case s.name == "body": // crowds that could take all places of a kind
				n = 150
			case s.name == "large body":
				n = 30
			case s.name == "header", s.name == "idle", s.name == "nothing":
				n = 60
			}
			for k := range n {
				wg.Add(1)
				go open(s, k)
			}
		}
		wg.Wait()
		defer func() {
			for _, s := range all {
				s.conn.Close()
			}
		}()

		// slow clients within the limits
		op := func(g rng, d *dev) (string, opParams, []byte) {
			fn := machineOps[g.IntN(len(machineOps))]
			q := d.genOp(g, fn, counter)
			for fn == "decrypt_pin" && len(q.Pin) < 7 {
				q = d.genOp(g, fn, counter)
			}
			q.forJSON()
			return fn, q, jsonBody(opBody(fn, q))
		}
		slices := func(c net.Conn, s string, parts int, total time.Duration) error {
			for k := range parts {
				if err := send(c, s[len(s)*k/parts:len(s)*(k+1)/parts]); err != nil {
					return err
				}
				time.Sleep(total / time.Duration(parts))
			}
			return nil
		}
		slow := map[string]func(g rng, d *dev) error{
			"header in pieces": func(g rng, d *dev) error {
				return slowRequest(raw, secure, d, counter, op, g, func(c net.Conn, h, b string) error {
					if err := slices(c, h, 12, 14*time.Second); err != nil {
						return err
					}
					return send(c, b)
				})
			},
			"body in pieces": func(g rng, d *dev) error {
				return slowRequest(raw, secure, d, counter, op, g, func(c net.Conn, h, b string) error {
					if err := send(c, h); err != nil {
						return err
					}
					return slices(c, b, 12, 14*time.Second)
				})
			},
			"late first byte": func(g rng, d *dev) error {
				return slowRequest(raw, secure, d, counter, op, g, func(c net.Conn, h, b string) error {
					time.Sleep(14 * time.Second)
					return send(c, h+b)
				})
			},
			"late body": func(g rng, d *dev) error {
				return slowRequest(raw, secure, d, counter, op, g, func(c net.Conn, h, b string) error {
					if err := send(c, h); err != nil {
						return err
					}
					time.Sleep(14 * time.Second)
					return send(c, b)
				})
			},
			"idle before": func(g rng, d *dev) error {
				return slowRequest(raw, secure, d, counter, op, g, func(c net.Conn, h, b string) error {
					br := bufio.NewReader(c)
					if err := ping(c, br); err != nil {
						return err
					}
					time.Sleep(18 * time.Second)
					return send(c, h+b)
				})
			},
			"response read slowly": func(g rng, d *dev) error {
				c, _, err := raw(secure, 4096)
				if err != nil {
					return err
				}
				defer c.Close()
				q := opParams{Data: strings.Repeat("0123456789abcdef", 6<<20/16), Action: "request"}
				b := jsonBody(opBody("encrypt_data", q))
				if err := send(c, head(d, fmt.Sprintf("Content-Length: %d\r\n\r\n", len(b)))+string(b)); err != nil {
					return err
				}
				time.Sleep(14 * time.Second)
				rep, err := readReply(bufio.NewReader(c), "POST")
				if err != nil {
					return err
				}
				h := &held{kind: "encrypt_data", d: d, p: q}
				return h.judge(rep, counter)
			},
		}
		var slows sync.WaitGroup
		for name, f := range slow {
			for k := range 2 {
				if r.Violated() {
					continue
				}
				slows.Add(1)
				go func() {
					defer slows.Done()
					g := r.Rng("slow "+name, i*10+k)
					begun := time.Now()
					err := f(g, devs[k])
					if err != nil {
						if took := time.Since(begun); took > 25*time.Second {
							r.Count("slow clients not judged (too slow)", 1)
							return
						}
						r.Violate("slow:"+name, fmt.Sprintf("a client that stays within the limits is not served (%s): %v", name, err), info(devs[k].show()))
						return
					}
					r.Eval(1)
					r.Count("slow clients served", 1)
					r.Distinct("slow", name, secure, k, i)
				}()
			}
		}

		// the monitor
		open2, began := len(all), time.Now()
		longest := map[string]time.Duration{}
		for open2 > 0 && !(r.Violated() && time.Since(began) > time.Minute) {
			ports := p.remotePorts()
			if m := p.crashed(); m != "" || p.hasExited() {
				r.Violate("crash", "the process ended: "+m, info(nil))
				break
			}
			open2 = 0
			for _, s := range all {
				if s.gone != 0 {
					continue
				}
				age := time.Since(s.from)
				s.seen = s.seen || ports[s.port]
				if !s.seen && age < 10*time.Second { // not accepted yet
					open2++
					continue
				}
				if !ports[s.port] {
					s.gone = age
					longest[s.stage] = max(longest[s.stage], age)
					r.Eval(1)
					r.Distinct(s.stage, secure, i, s.port)
					r.Count("stalled connections given up", 1)
					r.Count("stage "+s.stage, 1)
					continue
				}
				if age > s.limit+stallSlack {
					r.Violate("still open:"+s.stage, fmt.Sprintf("a connection stalled at stage %q is still open after %v", s.stage, age.Round(time.Second)), info(s.stage))
					s.gone = age
					continue
				}
				if s.feed != nil {
					s.feed()
				}
				open2++
			}
			r.Progress()
			time.Sleep(100 * time.Millisecond)
		}
		done.Store(true)
		others.Wait()
		slows.Wait()
		secs := map[string]float64{}
		for s, d := range longest {
			secs[s] = float64(d.Milliseconds()) / 1000
		}
		r.Extra(fmt.Sprintf("longest life of a stalled connection by stage in s (server %d, tls %v)", i, secure), secs)
		r.Sample("server", map[string]any{"server": p.describe, "tls": secure, "stalled": len(all)})
	}
	// more connections than the process may have files
	crowded := func(i int) {
		g := r.Rng("crowded", i)
		secure := i%2 == 1
		var conf *tls.Config
		var env []string
		if secure {
			conf, env = cr.conf(0, 0, "http/1.1"), cr.env()
		}
		addr, admin := fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())
		limit := 32 + g.IntN(64)
		p, err := launchRaw(r, []string{"/bin/sh", "-c", fmt.Sprintf(`ulimit -n %d && exec "$@"`, limit), "sh"}, []string{"-http.addr=" + addr, "-admin.addr=" + admin}, env, addr, admin)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		defer p.stop()
		p.tls = conf
		info := func() any {
			o, e := p.output()
			return map[string]any{"server": p.describe, "open files allowed": limit, "tls": secure, "stdout": truncEnd(o), "stderr": truncEnd(e)}
		}
		if err := p.ready(); err != nil {
			if err == errInUse {
				r.Count("ports taken by others", 1)
			} else {
				r.Violate("crowd:start", err.Error(), info())
			}
			return
		}
		d := newDev(g, algOf(g.IntN(2)))
		if rep, err := p.one(conf, "POST", "/machine", jsonBody(d.base(counter))); err != nil || rep.Status != 200 {
			r.Violate("crowd:create", fmt.Sprintf("%v %d", err, rep.Status), info())
			return
		}
		look := func(c net.Conn, br *bufio.Reader) error {
			fmt.Fprintf(c, "GET /machine/%s HTTP/1.1\r\nHost: x\r\n\r\n", d.ik())
			rep, err := readReply(br, "GET")
			if err == nil && (rep.Status != 200 || !strings.Contains(string(rep.Body), hx(d.ksnAt(counter)))) {
				err = fmt.Errorf("%d %q", rep.Status, clip(rep.Body))
			}
			return err
		}
		kept, err := p.dial(conf, 0)
		if err != nil {
			r.Violate("crowd:dial", err.Error(), info())
			return
		}
		defer kept.Close()
		br := bufio.NewReader(kept)
		rounds := r.Pick(2, 6)
		for round := 0; round < rounds; round++ {
			var crowd []net.Conn
			for x := 0; x < 2*limit; x++ {
				c, err := net.DialTimeout("tcp", addr, 10*time.Second)
				if err != nil {
					break
				}
				if g.IntN(2) == 0 {
					c.Write([]byte("GET /pi"))
				}
				crowd = append(crowd, c)
			}
			full := p.poll(500, func() bool {
				fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", p.cmd.Process.Pid))
				return len(fds) >= limit-1 || p.hasExited()
			})
			if full {
				r.Count("times a server had no files left", 1)
			}
			err := error(nil)
			for x := 0; x < 5 && err == nil; x++ {
				kept.SetDeadline(time.Now().Add(100 * time.Second))
				err = look(kept, br)
				r.Progress()
				time.Sleep(300 * time.Millisecond)
			}
			for _, c := range crowd {
				c.Close()
			}
			if err != nil {
				r.Violate("crowd:kept", fmt.Sprintf("with %d other connections a connection that was there before is not served: %v", len(crowd), err), info())
				return
			}
			r.Count("answers while there were no files left", 5)
			var last error
			closed := time.Now()
			if !p.poll(manyPolls, func() bool {
				if p.hasExited() || time.Since(closed) > 30*time.Second && r.Violated() {
					return true
				}
				c, err := p.dial(conf, 0)
				if err == nil {
					defer c.Close()
					err = look(c, bufio.NewReader(c))
				}
				last = err
				return err == nil
			}) {
				r.Violate("crowd:after", fmt.Sprintf("after %d connections have been closed, no new client is served: %v", len(crowd), last), info())
				return
			}
			if p.hasExited() {
				r.Violate("crowd:end", fmt.Sprintf("the server ends when it has %d connections and may have %d files open", len(crowd), limit), info())
				return
			}
			r.Eval(6)
			r.Count("clients served after a crowd", 1)
			r.Distinct("crowd", limit, secure, round)
		}
	}
	// the streams of an HTTP/2 connection
	streams := func(i int) {
		g := r.Rng("streams", i)
		p, err := startServer(r, g, cr.conf(0, 0, "h2", "http/1.1"), cr.env()...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		info := func(x any) any {
			_, e := p.output()
			return map[string]any{"server": p.describe, "case": x, "stderr": truncEnd(e)}
		}
		cl := p.client(cr.conf(0, 0), true)
		cl.Timeout = 0
		other := p.client(cr.conf(0, 0), true)
		d := newDev(g, algOf(g.IntN(2)))
		if _, err := clientAPI(cl, p.url()).Create(d.base(counter)); err != nil {
			r.Violate("stream:api", "create: "+err.Error(), info(d.show()))
			return
		}
		type end struct {
			what string
			took time.Duration
			resp *http.Response
			err  error
		}
		ends := make(chan end, 200)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		waiting := map[string]int{}
		body := jsonBody(opBody("encrypt_data", opParams{Data: strings.Repeat("0123456789abcdef", 64), Action: "request"}))
		for k := 0; k < r.Pick(24, 80); k++ {
			what := []string{"body not begun", "body", "body trickled", "whole body but not its end"}[k%4]
			path := []string{"/encrypt_data/" + d.ik(), "/generate_mac/" + d.ik(), "/machine"}[g.IntN(3)]
			pr, pw := io.Pipe()
			req, _ := http.NewRequestWithContext(ctx, "POST", p.url()+path, pr)
			req.ContentLength = -1
			if g.IntN(2) == 0 {
				req.ContentLength = int64(len(body))
				if what == "whole body but not its end" {
					req.ContentLength++
				}
			}
			who := []*http.Client{cl, other}[k%8/4]
			waiting[what]++
			go func() {
				begun := time.Now()
				resp, err := who.Do(req)
				ends <- end{what, time.Since(begun), resp, err}
				pw.CloseWithError(io.ErrClosedPipe)
			}()
			go func() {
				switch what {
				case "body":
					pw.Write(body[:len(body)/2])
				case "whole body but not its end":
					pw.Write(body)
				case "body trickled":
					for _, b := range body {
						if _, err := pw.Write([]byte{b}); err != nil {
							return
						}
						time.Sleep(700 * time.Millisecond)
					}
				}
			}()
		}
		// responses that are not read: each larger than what the client lets the server send
		big := jsonBody(opBody("encrypt_data", opParams{Data: strings.Repeat("0123456789abcdef", 6<<20/16), Action: "request"}))
		var unread []*http.Response
		for range 2 {
			resp, err := cl.Post(p.url()+"/encrypt_data/"+d.ik(), "application/json", bytes.NewReader(big))
			if err != nil || resp.StatusCode != 200 {
				r.Violate("stream:large", fmt.Sprintf("a large request: %v", err), info(nil))
				return
			}
			defer resp.Body.Close()
			unread = append(unread, resp)
			r.Progress()
		}
		from := time.Now()
		// others on the same connection are served
		apis := []api{clientAPI(cl, p.url()), clientAPI(other, p.url())}
		drained := false
		left := r.Pick(24, 80)
		for n := 0; (left > 0 || !drained) && !r.Violated(); n++ {
			fn := machineOps[g.IntN(len(machineOps))]
			q := d.genOp(g, fn, counter)
			for fn == "decrypt_pin" && len(q.Pin) < 7 {
				q = d.genOp(g, fn, counter)
			}
			q.forJSON()
			got, err := apis[n&1].Op(fn, d.ik(), q)
			if err == nil {
				err = d.judgeOp(d.tk(counter), counter, fn, q, got, true)
			}
			if err != nil {
				r.Violate("stream:others", fmt.Sprintf("%s: %v", fn, err), info(map[string]any{"device": d.show(), "parameters": q}))
				return
			}
			r.Count("answers on connections with stalled streams", 1)
			age := time.Since(from)
			for more := true; more; {
				select {
				case e := <-ends:
					left--
					waiting[e.what]--
					status := 0
					if e.resp != nil {
						status = e.resp.StatusCode
						e.resp.Body.Close()
					}
					if status/100 == 2 {
						r.Violate("stream:answered", fmt.Sprintf("a request whose body has not ended (%s) is answered with %d", e.what, status), info(e.what))
						return
					}
					r.Eval(1)
					r.Count("stalled streams given up", 1)
					r.Count("stream stage "+e.what, 1)
					r.Distinct("stream", e.what, status, i)
				default:
					more = false
				}
			}
			if age > requestLimit+stallSlack && left > 0 {
				r.Violate("stream:still open", fmt.Sprintf("%d streams of HTTP/2 connections are still open after %v: %v", left, age.Round(time.Second), waiting), info(nil))
				return
			}
			// the server takes back what nobody reads: a client that comes later gets only a part
			if x := map[bool]int{true: 1}[age > requestLimit+stallSlack]; !drained && age > requestLimit+15*time.Second && unread[x] != nil {
				n, err := io.Copy(io.Discard, unread[x].Body)
				unread[x] = nil
				if err != nil {
					drained = true
					r.Count("unread responses taken back", 1)
				} else if x == 1 {
					r.Violate("stream:unread", fmt.Sprintf("a response of %d bytes that nobody read for %v is still complete", n, age.Round(time.Second)), info(nil))
					return
				}
			}
			time.Sleep(100 * time.Millisecond)
		}
		if m := p.crashed(); m != "" || p.hasExited() {
			r.Violate("crash", "the process ended: "+m, info(nil))
		}
	}
	n, crowds, h2 := r.Pick(2, 8), r.Pick(4, 24), r.Pick(1, 8)
	r.Parallel(n+crowds+h2, func(i int) {
		switch {
		case i < n:
			serve(i, i%2 == 1)
		case i < n+h2:
			streams(i - n)
		default:
			crowded(i - n - h2)
		}
	})
	r.Require("stalled streams given up", 20)
	r.Require("unread responses taken back", 1)
	r.Require("answers on connections with stalled streams", 50)
	r.Require("times a server had no files left", 2)
	r.Require("clients served after a crowd", 4)
	r.Require("stalled connections given up", 120)
	r.Require("answers to other clients", 100)
	r.Require("large requests of other clients", 50)
}

// slowRequest sends one operation with the given timing and judges the answer
func slowRequest(raw func(bool, int) (net.Conn, int, error), secure bool, d *dev, counter uint32, op func(rng, *dev) (string, opParams, []byte), g rng, f func(c net.Conn, h, b string) error) error {
	c, _, err := raw(secure, 0)
	if err != nil {
		return err
	}
	defer c.Close()
	fn, q, b := op(g, d)
	if err := f(c, fmt.Sprintf("POST /%s/%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", fn, d.ik(), len(b)), string(b)); err != nil {
		return err
	}
	rep, err := readReply(bufio.NewReader(c), "POST")
	if err != nil {
		return err
	}
	h := &held{kind: fn, d: d, p: q}
	return h.judge(rep, counter)
}
