package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/moov-io/dukpt"
	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
)

func init() {
	register("C35", "server processes (plain, TLS 1.x with HTTP/1.1 and HTTP/2) asked at the API address for every method x undocumented path (those of the admin server, usual debug and health paths, words of the code's literals, documented paths with parts added or missing) with and without the headers that the code looks up and that clients, proxies and browsers send, with targets and headers that name other hosts, and at the admin address for the documented admin paths and for every API route with valid bodies; statuses, bodies (searched for keys of the registered machines and the version) and the machines before and after are compared. Distinct by address, method and path.", c35)
	register("C36", "server processes started with every kind of log format (variable, flag, both, unknown names) and hostile addresses and certificates, loaded with concurrent valid, failing and malformed requests, and ended by SIGTERM, SIGINT or a failing start; every line of the standard output is parsed as a JSON object or as logfmt by an own parser and checked for its time, level and message. Distinct by format, start, end and line.", c36)
	register("C37", "server and dukptcli processes under valid, failing and hostile requests and options, under strace (file, process and network system calls) and with working, home and temporary directories that are compared before and after; opened files, child processes and outgoing sockets are also polled in /proc; after an end by SIGTERM, SIGINT or SIGKILL a server started again in the same place must know no machine. Distinct by request or command line.", c37)
	register("C38", "responses to valid, failing and hostile requests with hostile headers at the handler (a ResponseWriter that records every call) and over TCP (plain, TLS, HTTP/2; raw bytes of the response); the body must be one JSON object with unique member names in UTF-8 and the header must say so, and requests that change nothing must be answered alike whatever their headers. Distinct by request.", c38)
}

// launchRaw starts a program with a home of its own
func launchRaw(r *mon.Run, wrap, args, env []string, addr, admin string) (*proc, error) {
	return launchOn(r, "", wrap, args, env, addr, admin)
}

// launchOn starts it with a standard output of that kind: a file or what sink knows
func launchOn(r *mon.Run, kind string, wrap, args, env []string, addr, admin string) (*proc, error) {
	n := procSeq.Add(1)
	p := &proc{r: r, exited: make(chan struct{}), dir: filepath.Join(*scratch, fmt.Sprintf("proc%d", n)), addr: addr, admin: admin}
	for _, d := range []string{"home", "tmp", "cwd"} {
		if err := os.MkdirAll(filepath.Join(p.dir, d), 0o755); err != nil {
			return nil, err
		}
	}
	p.stdout = kind
	return p, p.begin(wrap, args, env)
}

// begin starts (or starts again) the server of this directory
func (p *proc) begin(wrap, args, env []string) error {
	p.exited = make(chan struct{})
	vars := []string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Join(p.dir, "home"), "TMPDIR=" + filepath.Join(p.dir, "tmp"), "GOTRACEBACK=all"}
	vars = append(vars, env...)
	line := append(append(append([]string{}, wrap...), *binServer), args...)
	p.describe = map[string]any{"arguments": args, "environment": env, "api": p.addr, "admin": p.admin}
	if p.stdout != "" {
		p.describe["standard output"] = p.stdout
	}
	p.cmd = exec.Command(line[0], line[1:]...)
	p.cmd.Env, p.cmd.Dir = vars, filepath.Join(p.dir, "cwd")
	var copied func()
	for _, f := range []struct {
		name string
		w    *io.Writer
	}{{"stdout", &p.cmd.Stdout}, {"stderr", &p.cmd.Stderr}} {
		fh, err := os.OpenFile(filepath.Join(p.dir, f.name), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err != nil {
			return err
		}
		if p.stdout != "" && f.name == "stdout" {
			to, done, err := sink(p.stdout, fh)
			if err != nil {
				return err
			}
			*f.w, copied = to, func() {
				done()
				fh.Close()
			}
		} else {
			defer fh.Close()
			*f.w = fh
		}
	}
	if err := p.cmd.Start(); err != nil {
		return err
	}
	cmd, done := p.cmd, p.exited
	copying := make(chan struct{})
	go func() {
		if copied != nil {
			copied()
		}
		close(copying)
	}()
	go func() {
		cmd.Wait()
		<-copying
		p.state = cmd.ProcessState
		close(done)
	}()
	return nil
}

// end asks the server to end and kills it when it does not
func (p *proc) end(sig os.Signal) {
	p.cmd.Process.Signal(sig)
	if !p.poll(3000, p.hasExited) {
		p.cmd.Process.Kill()
		<-p.exited
	}
}

// ---- C35

var undocumented = []string{"/", "/live", "/ready", "/version", "/metrics", "/health", "/healthz", "/status", "/debug", "/debug/", "/debug/pprof", "/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/profile?seconds=1", "/debug/pprof/heap", "/debug/pprof/goroutine?debug=2",
	"/debug/pprof/symbol", "/debug/pprof/trace?seconds=1", "/debug/pprof/allocs", "/debug/vars", "/debug/requests", "/favicon.ico", "/index.html", "/robots.txt", "/admin", "/admin/version", "/admin/machines", "/keys", "/bdk", "/config", "/env", "/shutdown", "/quit", "/reset", "/dump", "/backup", "/export", "/import", "/swagger", "/openapi.yaml", "/docs", "/api", "/v1/machines", "/api/machines", "/api/v1/machine",
	"/machines/", "/machine/", "/machines/all", "/machine/%s/", "/machine/%s/keys", "/machine/%s/bdk", "/machine/%s/delete", "/machines/%s", "/generate_ksn", "/generate_ksn/", "/generate_ksn/%s/", "/generate_ksn/%s/1", "/encrypt_pin", "/decrypt_pin/", "/generate_mac", "/encrypt_data/%s/x", "/decrypt_data/%s/x", "/delete_machine/%s", "/delete/%s", "/reset/%s", "/export/%s", "/initial_key/%s", "/transaction_key/%s", "/tk/%s", "/ik/%s", "/bdk/%s", "/ksn/%s", "/verify_mac/%s", "/ping/", "/ping/x", "/pong", "/Machines", "/MACHINE/%s", "/.git/config", "/etc/passwd"}

// routeOf gives the documented API route of a request, "" if there is none
func routeOf(method, path string) string {
	path, _, _ = strings.Cut(path, "?")
	seg := strings.Split(strings.TrimPrefix(path, "/"), "/")
	if method == "OPTIONS" {
		return "preflight"
	}
	for _, s := range seg {
		if s == "" {
			return ""
		}
	}
	switch {
	case method == "GET" && (path == "/ping" || path == "/machines"):
		return seg[0]
	case method == "GET" && len(seg) == 2 && seg[0] == "machine":
		return "machine"
	case method == "POST" && path == "/machine":
		return "create"
	case method == "POST" && len(seg) == 2:
		switch seg[0] {
		case "generate_ksn", "encrypt_pin", "decrypt_pin", "generate_mac", "encrypt_data", "decrypt_data":
			return seg[0]
		}
	}
	return ""
}

// plainHeader tells whether any client can send the header with any protocol
func plainHeader(name, value string) bool {
	switch strings.ToLower(name) {
	case "", "connection", "content-length", "transfer-encoding", "host", "expect", "upgrade", "trailer", "http2-settings", "keep-alive", "proxy-connection", "te":
		return false
	}
	return !strings.ContainsFunc(name, func(c rune) bool {
		return !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-')
	}) && len(value) < 2000 && !strings.ContainsFunc(value, func(c rune) bool { return c < ' ' || c > '~' })
}

func c35(r *mon.Run) {
	creds, err := makeCredentials("ecdsa", *scratch, "c35")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	methods := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "TRACE", "get", "Post", "PURGE", "PROPFIND"}
	r.Parallel(r.Pick(6, 60), func(i int) {
		g := r.Rng("endpoints", i)
		var conf *tls.Config
		var env []string
		if i%3 == 1 {
			conf, env = creds.conf(0, 0, "http/1.1"), creds.env()
		} else if i%3 == 2 {
			conf, env = creds.conf(0, 0, "h2", "http/1.1"), creds.env()
		}
		p, err := startServer(r, g, conf, env...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		hc := p.client(conf, i%3 == 2)
		hc.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		defer hc.CloseIdleConnections()
		a := clientAPI(hc, p.url())
		ac := &http.Client{Timeout: 140 * time.Second, CheckRedirect: hc.CheckRedirect, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}
		defer ac.CloseIdleConnections()
		adm := clientAPI(ac, "http://"+p.admin)
		s := &secrets{forms: map[string]string{}}
		var devs []*dev
		// what the admin server is for
		life := func(when string) {
			for _, x := range []struct{ path, want string }{{"/live", ""}, {"/ready", ""}, {"/version", dukpt.Version}} {
				rep, err := adm.do("GET", x.path, nil)
				r.Eval(1)
				r.Distinct("admin", x.path, when)
				if err != nil || rep.Status != 200 || x.want != "" && strings.TrimSpace(string(rep.Body)) != x.want {
					r.Violate("admin:"+x.path, fmt.Sprintf("GET %s at the admin address %s: %v %d %q, want 200 %q", x.path, when, err, rep.Status, clip(rep.Body), x.want), map[string]any{"server": p.describe})
					continue
				}
				r.Count("admin answers", 1)
			}
		}
		life("before the first request")
		for x := 0; x < 4; x++ {
			if x == 1 {
				life("after the first request")
			}
			d := ownDev(g, algOf(x))
			m, err := a.Create(d.base(3))
			if err == nil {
				err = d.checkDesc(m)
			}
			if err != nil {
				r.Violate("api", "create: "+err.Error(), nil)
				return
			}
			devs = append(devs, d)
			s.bytes("base key", d.BDK)
			s.bytes("transaction key", d.tk(3))
		}
		before, err := a.do("GET", "/machines", nil)
		if err != nil {
			r.Violate("api", err.Error(), nil)
			return
		}
		count := func() (int, error) {
			l, err := a.List()
			return len(l), err
		}
		unchanged := func(after string) bool {
			for _, d := range devs {
				m, err := a.Get(d.ik())
				if err == nil {
					err = d.checkDesc(m)
				}
				if err == nil {
					if c, e := d.ctrOf(m.CurrentKSN); e != nil || c != 3 {
						err = fmt.Errorf("the machine advanced to %s", m.CurrentKSN)
					}
				}
				if err != nil {
					r.Violate("changed", after+": "+err.Error(), nil)
					return false
				}
			}
			if n, err := count(); err != nil || n != len(devs) {
				r.Violate("changed", fmt.Sprintf("%s: %d machines are listed instead of %d (%v)", after, n, len(devs), err), nil)
				return false
			}
			r.Count("comparisons of the machines", 1)
			return true
		}
		_ = before
		name := func(path string) string {
			if strings.Contains(path, "%s") {
				path = fmt.Sprintf(path, devs[g.IntN(len(devs))].ik())
			}
			return path
		}
		// undocumented paths at the API address
		dressed := false
		ask := func(g rng, method, path string) {
			if routeOf(method, path) != "" {
				return
			}
			body := jsonBody(devs[0].base(3))
			if g.IntN(2) == 0 {
				body = jsonBody(ownDev(g, algOf(g.IntN(2))).base(1))
			}
			if method == "GET" || method == "HEAD" || method == "TRACE" {
				body = nil
			}
			at, what := a, fmt.Sprintf("%s %s at the API address", method, path)
			if dressed || g.IntN(3) > 0 { // headers do not open other paths
				dress := map[string]string{}
				if dressed || g.IntN(3) == 0 {
					for _, n := range dictNames {
						if l := dictNear[n]; !strings.ContainsAny(n, "_.") {
							dress[n] = pickS(g, append([]string{"1", "true", "yes"}, l...))
						}
					}
				}
				for n := g.IntN(4); n > 0; n-- {
					k, v := hostileHeader(g)
					dress[k] = v
				}
				for k, v := range dress {
					if k == "" || !plainHeader(k, v) {
						delete(dress, k)
					}
				}
				at, what = clientAPI(hc, p.url(), dress), fmt.Sprintf("%s with the headers %v", what, dress)
				r.Count("undocumented requests with headers", 1)
			}
			rep, err := at.do(method, path, body)
			r.Eval(1)
			r.Distinct("api", method, path)
			if err != nil {
				r.Violate("no response", what+": "+err.Error(), nil)
				return
			}
			switch rep.Status {
			case 404, 405:
				r.Count("undocumented requests refused", 1)
			case 301, 307, 308:
				r.Count("undocumented requests redirected", 1)
			case 400, 501:
				// refused by the protocol layer
				r.Count("undocumented requests refused by the protocol", 1)
			default:
				r.Violate("served:api:"+method, fmt.Sprintf("%s: status %d, %q", what, rep.Status, clip(rep.Body)), map[string]any{"server": p.describe})
			}
			text := string(rep.Body) + fmt.Sprint(rep.Header)
			if w := s.find(text); len(w) > 0 {
				r.Violate("secret:api", fmt.Sprintf("%s: the response carries a %s", what, w[0]), nil)
			}
			if r.WantSample("api " + method) {
				r.Sample("api "+method, map[string]any{"path": path, "status": rep.Status})
			}
		}
		for _, path := range undocumented {
			for _, m := range methods {
				if m == "TRACE" && i%3 == 2 {
					continue
				}
				ask(g, m, name(path))
			}
		}
		// documented paths with other methods
		for _, path := range []string{"/ping", "/machines", "/machine", "/machine/%s", "/generate_ksn/%s", "/encrypt_pin/%s", "/decrypt_pin/%s", "/generate_mac/%s", "/encrypt_data/%s", "/decrypt_data/%s"} {
			for _, m := range methods {
				ask(g, m, name(path))
			}
		}
		for n := 0; n < r.Pick(150, 600); n++ {
			path := "/" + dictWord(g)
			if g.IntN(3) == 0 {
				path += "/" + devs[g.IntN(len(devs))].ik()
			}
			if g.IntN(4) == 0 {
				path = pickS(g, []string{"/machine", "/machines", "/debug", "/admin", "/generate_ksn"}) + path + "/" + dictWord(g)
			}
			if g.IntN(5) == 0 { // below a documented path
				path = pickS(g, []string{"/machine/%s", "/machines", "/ping", "/generate_ksn/%s", "/encrypt_pin/%s", "/encrypt_data/%s", "/generate_mac/%s"})
				for x := 1 + g.IntN(3); x > 0; x-- {
					path += "/" + pickS(g, []string{dictWord(g), "x", "keys", "%s", "1", "next", "status"})
				}
				path = strings.ReplaceAll(path, "%s", devs[g.IntN(len(devs))].ik())
			}
			ask(g, pickS(g, methods), path+hostileQuery(g))
		}
		// every word of the code as a path, with every header that it looks up
		for _, w := range dictStrings {
			w = strings.Trim(w, "/")
			if len(dictNames) == 0 || w == "" || strings.ContainsAny(w, " %?#{}\\\"\n\t") {
				continue
			}
			dressed = true
			ask(g, pickS(g, []string{"GET", "GET", "POST"}), "/"+w)
			dressed = false
		}
		if !unchanged("undocumented requests at the API address") {
			return
		}
		// requests that name a host: in their target, in their Host header, in what proxies add
		named := func(where, method, target, host, extra string, forbidden func(rep reply) string) {
			c, err := p.dial(map[bool]*tls.Config{true: onlyHTTP1(conf)}[where == p.addr], 0)
			if where == p.admin {
				if err == nil {
					c.Close()
				}
				c, err = net.DialTimeout("tcp", p.admin, 20*time.Second)
			}
			if err != nil {
				r.Violate("no response", "connection: "+err.Error(), nil)
				return
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(100 * time.Second))
			fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n%sContent-Length: 0\r\n\r\n", method, target, host, extra)
			rep, err := readReply(bufio.NewReader(c), method)
			r.Eval(1)
			r.Distinct("named", where == p.admin, method, target, host, extra)
			what := fmt.Sprintf("%s %s (Host: %s) at %s", method, target, host, where)
			if err != nil {
				r.Violate("no response", what+": "+err.Error(), nil)
				return
			}
			if forbidden == nil { // the API itself
				return
			}
			bad := forbidden(rep)
			if w := s.find(string(rep.Body) + fmt.Sprint(rep.Header)); len(w) > 0 {
				bad = "the response carries a " + w[0]
			}
			if bad != "" {
				r.Violate("named host", fmt.Sprintf("%s: status %d, %q: %s", what, rep.Status, clip(rep.Body), bad), map[string]any{"server": p.describe})
			}
			r.Count("requests that name a host", 1)
		}
		refusal := func(rep reply) string {
			if rep.Status/100 == 2 || rep.Status == 101 {
				return "it is served"
			}
			return ""
		}
		hosts := []string{p.admin, p.addr, strings.Replace(p.admin, "127.0.0.1", "localhost", 1), strings.Replace(p.addr, "127.0.0.1", "localhost", 1), "admin", "localhost", "127.0.0.1", "internal.example", "metrics", "x"}
		for _, h := range hosts {
			ik := devs[g.IntN(len(devs))].ik()
			for _, path := range []string{"/version", "/live", "/ready", "/metrics", "/debug/pprof/cmdline", "/debug/pprof/heap?debug=1", "/", ""} {
				for _, scheme := range []string{"http://", "https://", ""} {
					target, host, extra := scheme+h+path, h, ""
					if scheme == "" {
						if target = path; path == "" {
							target = "/admin"
						}
						extra = pickS(g, []string{"", "X-Forwarded-Host: " + h + "\r\n", "Forwarded: host=" + h + "\r\n", "X-Original-URL: /version\r\n", "X-Rewrite-URL: /metrics\r\n", "X-Forwarded-Port: " + p.admin[strings.LastIndex(p.admin, ":")+1:] + "\r\n"})
					} else if g.IntN(2) == 0 {
						host = pickS(g, hosts)
					}
					named(p.addr, "GET", target, host, extra, refusal)
				}
			}
			for _, path := range []string{"/ping", "/machines", "/machine/" + ik} {
				for _, scheme := range []string{"http://", "https://", ""} {
					target, host, extra := scheme+h+path, h, ""
					if scheme == "" {
						target, extra = path, pickS(g, []string{"", "X-Forwarded-Host: " + h + "\r\n", "Forwarded: host=" + h + "\r\n", "X-Original-URL: /machines\r\n", "X-Rewrite-URL: /machines\r\n"})
					} else if g.IntN(2) == 0 {
						host = pickS(g, hosts)
					}
					named(p.admin, "GET", target, host, extra, refusal)
					named(p.addr, "GET", target, host, extra, nil)
				}
			}
			named(p.admin, "POST", "http://"+h+"/generate_ksn/"+ik, h, "", refusal)
			for _, where := range []string{p.addr, p.admin} {
				if strings.Contains(h, ":") {
					named(where, "CONNECT", h, h, "", refusal)
				}
			}
		}
		if !unchanged("requests that name a host") {
			return
		}
		busy := make(chan struct{})
		var wg sync.WaitGroup
		for c := 0; c < 4; c++ { // beside requests in progress
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-busy:
						return
					default:
					}
					a.do("GET", "/machines", nil)
				}
			}()
		}
		for n := 0; n < 12; n++ {
			life(fmt.Sprint("beside requests, ", n))
		}
		close(busy)
		wg.Wait()
		for _, path := range []string{"/metrics", "/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/goroutine?debug=2", "/debug/pprof/heap?debug=1"} {
			rep, err := adm.do("GET", path, nil)
			if err != nil || rep.Status != 200 {
				r.Violate("admin:"+path, fmt.Sprintf("GET %s at the admin address: %v %d", path, err, rep.Status), map[string]any{"server": p.describe})
				continue
			}
			r.Count("admin answers", 1)
			r.Count("bytes of admin answers searched", len(rep.Body))
			if w := s.find(string(rep.Body)); len(w) > 0 {
				r.Violate("secret:admin", fmt.Sprintf("GET %s at the admin address carries a %s", path, w[0]), nil)
			}
		}
		// no API there
		api := func(method, path string, body []byte) {
			rep, err := adm.do(method, path, body)
			r.Eval(1)
			r.Distinct("admin", method, path)
			if err != nil || rep.Status != 404 && rep.Status != 405 {
				r.Violate("served:admin:"+routeOf(method, path), fmt.Sprintf("%s %s at the admin address: %v, status %d, %q", method, path, err, rep.Status, clip(rep.Body)), map[string]any{"server": p.describe})
				return
			}
			if w := s.find(string(rep.Body)); len(w) > 0 {
				r.Violate("secret:admin", fmt.Sprintf("%s %s at the admin address carries a %s", method, path, w[0]), nil)
			}
			r.Count("API requests refused at the admin address", 1)
		}
		for n := 0; n < 6; n++ {
			d := devs[n%len(devs)]
			api("GET", "/ping", nil)
			api("GET", "/machines", nil)
			api("GET", "/machine/"+d.ik(), nil)
			api("POST", "/machine", jsonBody(ownDev(g, algOf(n)).base(1)))
			api("POST", "/generate_ksn/"+d.ik(), nil)
			api("GET", "/generate_ksn/"+d.ik(), nil)
			api("DELETE", "/machine/"+d.ik(), nil)
			for _, fn := range machineOps {
				api("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, d.genOp(g, fn, 3))))
			}
			api("GET", "/"+dictWord(g)+"/"+d.ik(), nil)
		}
		// pages of any name there: no key on any of them, and no way to the API below them
		prefixes := []string{"/debug", "/debug/pprof", "/admin", "/api", "/v1", "/internal", "/proxy", "/live", "/ready", "/version", "/metrics"}
		for _, t := range dictStrings {
			if u := strings.Trim(t, "/"); u != "" && len(u) < 60 && !strings.ContainsFunc(u, func(c rune) bool { return c <= 32 || c > 126 || strings.ContainsRune("%?#{}\\\"<>", c) }) {
				prefixes = append(prefixes, "/"+u)
			}
		}
		for n, pre := range prefixes {
			d := devs[n%len(devs)]
			fn := pickS(g, machineOps)
			for _, q := range []struct {
				method, path string
				body         []byte
			}{{"GET", "", nil}, {"GET", "/", nil}, {"GET", "/machines", nil}, {"GET", "/machine/" + d.ik(), nil}, {"GET", "/" + d.ik(), nil}, {"POST", "/" + fn + "/" + d.ik(), jsonBody(opBody(fn, d.genOp(g, fn, 3)))}, {"POST", "/machine", jsonBody(ownDev(g, algOf(n)).base(1))}, {"POST", "/generate_ksn/" + d.ik(), nil}, {"DELETE", "/" + d.ik(), nil}, {"GET", "/machines" + hostileQuery(g), nil}} {
				if strings.Contains(pre, "pprof") && (strings.Contains(pre, "trace") || strings.Contains(pre, "profile")) {
					continue // these take half a minute
				}
				rep, err := adm.do(q.method, pre+q.path, q.body)
				r.Eval(1)
				if err != nil {
					r.Violate("no response", fmt.Sprintf("%s %s at the admin address: %v", q.method, pre+q.path, err), nil)
					continue
				}
				r.Distinct("admin", q.method, pre, len(q.path))
				r.Count("pages of the admin address searched", 1)
				if w := s.find(string(rep.Body) + fmt.Sprint(rep.Header)); len(w) > 0 {
					r.Violate("secret:admin", fmt.Sprintf("%s %s at the admin address carries a %s", q.method, pre+q.path, w[0]), nil)
				}
				if m := map[string]any{}; rep.Status == 200 && strings.HasPrefix(rep.Header.Get("Content-Type"), "application/json") && json.Unmarshal(rep.Body, &m) == nil && (m["Machines"] != nil || m["Machine"] != nil || m["InitialKey"] != nil) {
					r.Violate("served:admin:below", fmt.Sprintf("%s %s at the admin address serves the API: %q", q.method, pre+q.path, clip(rep.Body)), nil)
				}
			}
		}
		unchanged("API requests at the admin address")
	})
	r.Require("undocumented requests refused", 3000)
	r.Require("undocumented requests with headers", 1000)
	r.Require("admin answers", 150)
	r.Require("pages of the admin address searched", 1000)
	r.Require("requests that name a host", 1000)
	r.Require("API requests refused at the admin address", 200)
	r.Require("comparisons of the machines", 6)
}

// ---- C36

// logfmt parses one line of key=value pairs
func logfmt(line string) (map[string]string, error) {
	m := map[string]string{}
	rest := line
	for {
		rest = strings.TrimLeft(rest, " ")
		if rest == "" {
			return m, nil
		}
		k := strings.IndexAny(rest, "= \"")
		if k <= 0 || rest[k] != '=' {
			return nil, fmt.Errorf("no key=value at %q", rest)
		}
		key := rest[:k]
		rest = rest[k+1:]
		var val string
		if strings.HasPrefix(rest, `"`) {
			end := 1
			for end < len(rest) && rest[end] != '"' {
				if rest[end] == '\\' {
					end++
				}
				end++
			}
			if end >= len(rest) {
				return nil, fmt.Errorf("the value of %s is not closed", key)
			}
			if err := json.Unmarshal([]byte(rest[:end+1]), &val); err != nil {
				if val, err = strconv.Unquote(rest[:end+1]); err != nil {
					return nil, fmt.Errorf("the value of %s is not quoted correctly: %q", key, rest[:end+1])
				}
			}
			rest = rest[end+1:]
			if rest != "" && rest[0] != ' ' {
				return nil, fmt.Errorf("no space after the value of %s", key)
			}
		} else {
			end := strings.IndexByte(rest, ' ')
			if end < 0 {
				end = len(rest)
			}
			val = rest[:end]
			if strings.ContainsAny(val, "=\"") {
				return nil, fmt.Errorf("the value of %s is not quoted: %q", key, val)
			}
			rest = rest[end:]
		}
		if _, dup := m[key]; dup {
			return nil, fmt.Errorf("%s occurs twice", key)
		}
		m[key] = val
	}
}

// record parses one line of the log
func record(line string, asJSON bool) (map[string]string, error) {
	if !utf8.ValidString(line) {
		return nil, fmt.Errorf("the line is not UTF-8")
	}
	for _, c := range line {
		if c < 32 || c == 127 {
			return nil, fmt.Errorf("the line contains the control character %q", c)
		}
	}
	var m map[string]string
	if asJSON {
		if err := uniqueMembers([]byte(line)); err != nil {
			return nil, err
		}
		var o map[string]any
		if err := json.Unmarshal([]byte(line), &o); err != nil {
			return nil, fmt.Errorf("no JSON object: %v", err)
		}
		m = map[string]string{}
		for k, v := range o {
			m[k] = fmt.Sprint(v)
		}
	} else {
		var err error
		if m, err = logfmt(line); err != nil {
			return nil, err
		}
	}
	if _, err := time.Parse(time.RFC3339, m["ts"]); err != nil {
		return nil, fmt.Errorf("no time in ts: %v", err)
	}
	if !regexp.MustCompile(`^(trace|debug|info|warn|error|fatal)$`).MatchString(m["level"]) {
		return nil, fmt.Errorf("level %q", m["level"])
	}
	if m["msg"] == "" {
		return nil, fmt.Errorf("no msg")
	}
	return m, nil
}

// records parses a log
func records(out string, asJSON bool) (all []map[string]string, bad string, err error) {
	if out != "" && !strings.HasSuffix(out, "\n") {
		return nil, out[strings.LastIndexByte(out, '\n')+1:], fmt.Errorf("the last line does not end")
	}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		m, err := record(l, asJSON)
		if err != nil {
			return all, l, err
		}
		all = append(all, m)
	}
	return all, "", nil
}

func c36(r *mon.Run) {
	// controls of the parser
	for l, ok := range map[string]bool{
		`ts=2026-11-19T19:32:11Z msg="Starting dukpt" level=info`: true, `ts=2026-11-19T19:32:11Z msg=terminated errored=true level=info`: true, `ts=2026-11-19T19:32:11Z msg="a \"b\" \n c" level=info`: true,
		`ts=2026-11-19T19:32:11Z msg=a b level=info`: false, `ts=2026-11-19T19:32:11Z msg="a level=info`: false, `ts=x msg=a level=info`: false, `2026/11/19 19:32:11 hello`: false, `{"ts":"2026-11-19T19:32:11Z","msg":"a","level":"info"}`: false,
		`ts=2026-11-19T19:32:11Z msg=a level=info msg=b`: false,
	} {
		if _, err := record(l, false); (err == nil) != ok {
			r.Inconclusive("control: logfmt line %q: %v", l, err)
			return
		}
	}
	for l, ok := range map[string]bool{
		`{"ts":"2026-11-19T19:32:11Z","msg":"a","level":"info"}`: true, `{"ts":"2026-11-19T19:32:11Z","msg":"a","level":"info"`: false, `{"ts":"2026-11-19T19:32:11Z","msg":"a","msg":"a","level":"info"}`: false,
		`{"ts":"2026-11-19T19:32:11Z","msg":"a","level":"info"} x`: false, `ts=2026-11-19T19:32:11Z msg=a level=info`: false,
	} {
		if _, err := record(l, true); (err == nil) != ok {
			r.Inconclusive("control: JSON line %q: %v", l, err)
			return
		}
	}
	creds, err := makeCredentials("ecdsa", *scratch, "c36")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	formats := []struct {
		flag, variable string // "-": not given
		json           bool
	}{{"-", "-", false}, {"json", "-", true}, {"-", "json", true}, {"plain", "-", false}, {"-", "plain", false}, {"plain", "json", true}, {"json", "plain", false}, {"json", "", true}, {"xml", "-", false}, {"", "json", true},
		{"JSON", "-", false}, {"-", "JSON", false}, {"Json", "-", false}, {"-", "jsoN", false}, {"json-pretty", "-", false}, {"-", "jsonl", false}, {" json", "-", false}, {"-", "json ", false}, {"js", "-", false}, {"-", "json,plain", false}, {"json", "JSON", false}, {"-", "1", false}, {"logfmt", "json", true}, {"-", "\"json\"", false}, {"true", "-", false}}
	starts := []string{"", "", "", "tls", "in use", "odd address", "odd admin", "odd certificate"}
	odd := []string{"127.0.0.1:http\n\"x\"", "no\thost \"quoted\":1", "[::1", "127.0.0.1:99999 level=error", "a=b msg=\"c\":80:80", "127.0.0.1:x\r\nts=1 msg=forged level=info", "{\"level\":\"info\"}:1", "\x1b[31mred:1:1", "é\u2028:1:1", "\xff\xfe:1:1", "%s%d%n:1:1", "back\\slash:1:1", "127.0.0.1",
		strings.Repeat("x", 5000), strings.Repeat("a=\"b\n", 3000), strings.Repeat("long", 17000)}
	outputs := []string{"", "pipe", "socket"} // standard output
	if m, s, err := openTerminal(); err == nil {
		m.Close()
		s.Close()
		outputs = append(outputs, "terminal", "terminal")
	} else {
		r.Count("no terminals here: "+err.Error(), 1)
	}
	formsOf := map[bool][]int{}
	for k, f := range formats {
		formsOf[f.json] = append(formsOf[f.json], k)
	}
	n := r.Pick(80, 800)
	run := func(i int) {
		g := r.Rng("log", i)
		f := formats[i%len(formats)]
		start := starts[(i/len(formats)+i)%len(starts)]
		value := pickS(g, odd)
		if x := i - n; x >= 0 { // each of the odd values as each of the addresses in both formats
			forms := formsOf[x/len(odd)%2 == 0]
			f, start, value = formats[forms[g.IntN(len(forms))]], []string{"odd address", "odd admin"}[x/len(odd)/2%2], odd[x%len(odd)]
		}
		var args, env []string
		if f.flag != "-" {
			if g.IntN(2) == 0 {
				args = append(args, "-log.format="+f.flag)
			} else {
				args = append(args, "--log.format", f.flag)
			}
		}
		if f.variable != "-" {
			env = append(env, "LOG_FORMAT="+f.variable)
		}
		addr, admin := fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())
		var conf *tls.Config
		fails := false
		api, adm := addr, admin
		switch start {
		case "tls":
			conf = creds.conf(0, 0, "http/1.1")
			env = append(env, creds.env()...)
		case "in use":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				r.Inconclusive("listen: %v", err)
				return
			}
			defer l.Close()
			fails, api = true, l.Addr().String()
			if g.IntN(2) == 0 {
				api, adm = addr, api
			}
		case "odd address":
			fails, api = true, value
		case "odd admin":
			fails, adm = true, value
		case "odd certificate":
			fails = true
			env = append(env, "HTTPS_CERT_FILE=/nonexistent/"+pickS(g, []string{"c", "c\nd", "c \"d\"=e", "\xff"}), "HTTPS_KEY_FILE=/nonexistent/k\tl")
		}
		if g.IntN(2) == 0 {
			args = append(args, "-http.addr="+api)
		} else {
			env = append(env, "HTTP_BIND_ADDRESS="+api)
		}
		if g.IntN(2) == 0 {
			args = append(args, "-admin.addr="+adm)
		} else {
			env = append(env, "HTTP_ADMIN_BIND_ADDRESS="+adm)
		}
		kind := outputs[(i+i/len(formats))%len(outputs)]
		p, err := launchOn(r, kind, nil, args, env, addr, admin)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		r.Count("logs written to: "+map[bool]string{true: "file", false: kind}[kind == ""], 1)
		defer p.stop()
		p.tls = conf
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[g.IntN(2)]
		over := false // ended by another signal
		if fails {
			if !p.poll(1500, p.hasExited) { // whether it ends: C33
				p.cmd.Process.Kill()
				<-p.exited
				r.Count("starts that did not end", 1)
			}
		} else {
			if err := p.ready(); err != nil {
				if err == errInUse {
					r.Count("ports taken by others", 1)
					return
				}
				r.Violate("start", err.Error(), p.describe)
				return
			}
			hc := p.client(conf, false)
			a := clientAPI(hc, p.url())
			var wg sync.WaitGroup
			for c := 0; c < 6; c++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					traffic(r, r.Rng(fmt.Sprintf("log traffic %d", i), c), p, a, r.Pick(25, 60))
				}()
			}
			if i%4 == 0 || i%4 == 1 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					insistent(r, r.Rng("insistent", i), p, a, r.Pick(12, 40), func(*dev, uint32) {})
				}()
			}
			if i%4 == 1 || i%4 == 2 { // bodies and answers that take their time
				wg.Add(1)
				go func() {
					defer wg.Done()
					slowly(r, r.Rng("slow", i), p, conf)
				}()
			}
			wg.Wait()
			hc.CloseIdleConnections()
			p.nudge(g, 5)
			if g.IntN(4) == 0 {
				p.hangup(g)
			}
			over = p.hasExited()
			p.end(sig)
		}
		out, e := p.output()
		all, bad, err := records(out, f.json)
		r.Eval(1 + len(all))
		r.Count("log records", len(all))
		form := map[bool]string{true: "json", false: "logfmt"}[f.json]
		r.Count("processes logging "+form, 1)
		for _, m := range all {
			r.Distinct(form, start, m["msg"])
		}
		info := map[string]any{"server": p.describe, "stdout": truncEnd(out), "stderr": truncEnd(e), "start": start}
		if err != nil {
			r.Violate("record:"+form, fmt.Sprintf("a line of the log (%s): %v: %q", form, err, clip([]byte(bad))), info)
			return
		}
		has := func(parts ...string) bool {
			for _, m := range all {
				ok := true
				for _, s := range parts {
					ok = ok && strings.Contains(m["msg"], s)
				}
				if ok {
					return true
				}
			}
			return false
		}
		if len(all) == 0 || !strings.Contains(all[0]["msg"], dukpt.Version) {
			r.Violate("version", "the first record of the log does not name the version", info)
		}
		if !fails {
			port := func(a string) string { return a[strings.LastIndexByte(a, ':'):] }
			if !has(port(addr)) {
				r.Violate("address", "no record names the API address", info)
			}
			if !has(port(admin)) {
				r.Violate("admin address", "no record names the admin address", info)
			}
			if !over && !has(sig.String()) {
				r.Violate("end", fmt.Sprintf("no record names the signal that ended the server (%v)", sig), info)
			}
			r.Count("logs of whole lives", 1)
		} else {
			r.Count("logs of failing starts", 1)
		}
		if r.WantSample(form + " " + start) {
			r.Sample(form+" "+start, info)
		}
	}
	r.Parallel(n+4*len(odd), run)
	r.Require("log records", n*2)
	r.Require("processes logging json", n/4)
	r.Require("processes logging logfmt", n/4)
	r.Require("logs of whole lives", n/4)
	r.Require("slow requests answered", n/8)
	r.Require("logs of failing starts", n/4)
}

// traffic sends requests of every kind that leave the registered machines of others alone
func traffic(r *mon.Run, g rng, p *proc, a httpAPI, n int) {
	var d *dev
	c := uint32(0)
	for x := 0; x < n; x++ {
		r.Count("requests", 1)
		r.Progress()
		if d == nil || g.IntN(8) == 0 {
			d, c = ownDev(g, algOf(g.IntN(2))), uint32(1+g.IntN(30))
			if g.IntN(4) == 0 {
				c = d.nearEnd(0)
			}
			a.do("POST", "/machine", jsonBody(d.base(c)))
		}
		switch g.IntN(10) {
		case 0:
			a.do("POST", "/machine", jsonBody(d.base(c))) // duplicate
		case 1:
			b, _ := badBase(g, d.base(c))
			a.do("POST", "/machine", jsonBody(b))
		case 2:
			a.do("POST", "/generate_ksn/"+d.ik(), nil)
		case 3:
			a.do("GET", "/machines", nil)
			a.do("GET", "/machine/"+pickS(g, []string{d.ik(), "none", "a%0Ab", "%22", dictWord(g)}), nil)
		case 4:
			a.do(pickS(g, []string{"GET", "POST", "PUT", "OPTIONS"}), "/"+pickS(g, []string{"machine", "encrypt_data/" + d.ik(), "decrypt_pin/" + d.ik(), "nothing", "ping"}), hostileBody(g))
		case 5:
			fn := pickS(g, machineOps)
			q, _ := d.badOp(g, fn, d.genOp(g, fn, c))
			q.forJSON()
			a.do("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, q)))
		case 6: // no HTTP, or the client goes away
			if cn, err := p.dial(nil, 0); err == nil {
				switch g.IntN(3) {
				case 0:
					fmt.Fprintf(cn, "GET / HTTP/1.1\r\nbad header\r\n\r\n")
				case 1:
					fmt.Fprintf(cn, "POST /encrypt_pin/%s HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"pin\"", d.ik())
				default:
					cn.Write(rbytes(g, 200))
				}
				cn.Close()
			}
		default:
			fn := pickS(g, machineOps)
			a.do("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, d.genOp(g, fn, c))))
		}
	}
}

// insistent is a client that makes each request over and over, on machines near the end of their keys; watch is told what it uses
func insistent(r *mon.Run, g rng, p *proc, a httpAPI, times int, watch func(d *dev, c uint32)) {
	for k := 0; k < 2; k++ {
		d := &dev{Alg: algOf(k), BDK: rbytes(g, 16), KSN: rbytes(g, 10)}
		if d.aes() {
			d.KeyType, d.KSN = "AES128", rbytes(g, 12)
		}
		d = withIK(d)
		c := d.nearEnd(4 + g.IntN(3))
		watch(d, c)
		again := func(method, path string, body []byte) {
			for n := 0; n < times; n++ {
				a.do(method, path, body)
				r.Count("requests made over and over", 1)
			}
			r.Progress()
		}
		again("POST", "/machine", jsonBody(d.base(c))) // the first one succeeds
		b, _ := badBase(g, d.base(c))
		again("POST", "/machine", jsonBody(b))
		again("GET", "/machine/"+d.ik(), nil)
		again("GET", "/machine/"+d.ik()+"0", nil)
		again("GET", "/machines", nil)
		for _, fn := range machineOps {
			q := d.genOp(g, fn, c)
			q.forJSON()
			again("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, q)))
			bad, _ := d.badOp(g, fn, q)
			bad.forJSON()
			again("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, bad)))
			again("POST", "/"+fn+"/none", jsonBody(opBody(fn, q)))
			again("POST", "/"+fn+"/"+d.ik(), []byte("{"))
		}
		for n := 0; n < times+12; n++ { // to the end of its keys and on
			a.do("POST", "/generate_ksn/"+d.ik(), nil)
			if nx, ok := d.next(c); ok {
				c = nx
				watch(d, c)
			} else {
				r.Count("requests after the last key", 1)
			}
			fn := pickS(g, machineOps)
			q := d.genOp(g, fn, c)
			q.forJSON()
			a.do("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, q)))
		}
		again("POST", "/generate_ksn/none", nil)
		again("DELETE", "/machine/"+d.ik(), nil)
		again("POST", "/nothing", []byte("{}"))
		for n := 0; n < times; n++ {
			if cn, err := p.dial(nil, 0); err == nil {
				fmt.Fprintf(cn, "POST /encrypt_pin/%s HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"pin\"", d.ik())
				cn.Close()
			}
		}
		for _, path := range []string{"/live", "/ready", "/version", "/metrics"} {
			for n := 0; n < times/2; n++ {
				get("http://" + p.admin + path)
			}
		}
	}
}

// slowly sends a request whose parts are seconds apart, and another whose answer is read that late
func slowly(r *mon.Run, g rng, p *proc, conf *tls.Config) {
	d := ownDev(g, algOf(g.IntN(2)))
	fn := pickS(g, machineOps)
	for _, q := range []struct {
		path string
		body []byte
	}{{"/machine", jsonBody(d.base(3))}, {"/" + fn + "/" + d.ik(), jsonBody(opBody(fn, d.genOp(g, fn, 3)))}} {
		c, err := p.dial(conf, 0)
		if err != nil {
			return
		}
		c.SetDeadline(time.Now().Add(60 * time.Second))
		fmt.Fprintf(c, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", q.path, len(q.body))
		n := g.IntN(len(q.body))
		c.Write(q.body[:n])
		time.Sleep(time.Duration(1500+g.IntN(2500)) * time.Millisecond)
		r.Progress()
		c.Write(q.body[n:])
		if resp, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			r.Count("slow requests answered", 1)
		}
		c.Close()
	}
}

// ---- C37

const traced = "open,openat,openat2,creat,connect,execve,execveat,fork,vfork,clone,clone3,rename,renameat,renameat2,mkdir,mkdirat,rmdir,unlink,unlinkat,link,linkat,symlink,symlinkat,mknod,mknodat,truncate,ftruncate,chmod,fchmod,fchmodat,chown,fchown,fchownat,lchown,utimensat,setxattr,mount,umount2,chdir,kill,sendto,sendmsg,sendmmsg,ptrace,memfd_create,bind,listen"

// straceCommand gives the wrapper that records the system calls of a program in a file
func straceCommand(file string) []string {
	bin, err := exec.LookPath("strace")
	if err != nil {
		return nil
	}
	return []string{bin, "-D", "-f", "-qq", "-s", "300", "-e", "signal=none", "-e", "trace=" + traced, "-o", file}
}

// harmless names the reads of the Go runtime and the C library
var readsOnly = regexp.MustCompile(`O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_TMPFILE`)

// judgeTrace gives the system calls that act outside of the process
func judgeTrace(text string, secretsIn []string) (bad []string, calls int) {
	execs := 0
	for _, l := range strings.Split(text, "\n") {
		f := strings.SplitN(strings.TrimLeft(l, " "), " ", 2)
		if len(f) < 2 {
			continue
		}
		call := strings.TrimLeft(f[1], " ")
		name, argsOf, ok := strings.Cut(call, "(")
		if !ok || strings.HasPrefix(name, "<") || strings.HasPrefix(name, "+") || strings.HasPrefix(name, "-") || strings.HasPrefix(name, "?") {
			continue
		}
		calls++
		for _, s := range secretsIn {
			if strings.Contains(argsOf, s) && name != "execve" {
				bad = append(bad, call)
			}
		}
		switch name {
		case "open", "openat", "openat2":
			if readsOnly.MatchString(argsOf) && !strings.Contains(argsOf, `"/dev/null"`) && !strings.Contains(argsOf, `"/dev/tty"`) {
				bad = append(bad, call)
			}
		case "execve":
			execs++
			if execs > 1 {
				bad = append(bad, call)
			}
		case "fork", "vfork", "execveat":
			bad = append(bad, call)
		case "clone", "clone3":
			if !strings.Contains(argsOf, "CLONE_THREAD") {
				bad = append(bad, call)
			}
		case "connect":
			if !strings.Contains(argsOf, "AF_UNSPEC") {
				bad = append(bad, call)
			}
		case "sendto", "sendmsg", "sendmmsg":
			if strings.Contains(argsOf, "sa_family=AF_INET") {
				bad = append(bad, call)
			}
		case "bind", "listen", "ptrace", "kill", "memfd_create", "chdir", "ftruncate":
			// listening elsewhere is C24's
			if name == "kill" || name == "ptrace" || name == "ftruncate" {
				bad = append(bad, call)
			}
		default:
			bad = append(bad, call)
		}
	}
	return bad, calls
}

// tree lists the files below a directory
func tree(dir string) (out []string) {
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		i, err := e.Info()
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		out = append(out, fmt.Sprintf("%s %v %d %d", rel, i.Mode(), i.Size(), i.ModTime().UnixNano()))
		return nil
	})
	return out
}

// foreignSockets are the sockets of a process that do not belong to its own addresses
func foreignSockets(pid int, own []string) (out []string) {
	inodes := map[string]bool{}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	for _, f := range []string{"tcp", "tcp6", "udp", "udp6", "unix"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, f))
		for _, l := range strings.Split(string(b), "\n") {
			x := strings.Fields(l)
			if f == "unix" {
				if len(x) > 6 && inodes[x[6]] {
					out = append(out, "unix "+strings.Join(x[7:], " "))
				}
				continue
			}
			if len(x) < 10 || !inodes[x[9]] {
				continue
			}
			var port int
			fmt.Sscanf(x[1][strings.LastIndexByte(x[1], ':')+1:], "%X", &port)
			mine := false
			for _, a := range own {
				mine = mine || strings.HasSuffix(a, fmt.Sprintf(":%d", port))
			}
			if !mine {
				out = append(out, fmt.Sprintf("%s %s -> %s", f, x[1], x[2]))
			}
		}
	}
	return out
}

// watchProc polls what a process has open until stop is closed
func watchProc(r *mon.Run, pid int, own []string, stop <-chan struct{}, report func(sig, f string, a ...any)) {
	for n := 0; ; n++ {
		select {
		case <-stop:
			return
		case <-time.After(map[bool]time.Duration{true: 3, false: 50}[n < 600] * time.Millisecond):
		}
		r.Count("polls of a process", 1)
		fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
		for _, f := range fds {
			l, err := os.Readlink(f)
			if err != nil || !strings.HasPrefix(l, "/") || strings.HasPrefix(l, "/dev/") || strings.HasPrefix(l, "/proc/") {
				continue
			}
			base := filepath.Base(f)
			if base == "1" || base == "2" {
				continue
			}
			b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%s", pid, base))
			var flags int64
			for _, x := range strings.Split(string(b), "\n") {
				if v, ok := strings.CutPrefix(x, "flags:"); ok {
					flags, _ = strconv.ParseInt(strings.TrimSpace(v), 8, 64)
				}
			}
			if flags&3 != 0 {
				report("file", "the process has %s open for writing", l)
			}
		}
		if n%4 == 0 {
			for _, x := range foreignSockets(pid, own) {
				report("connection", "the process has the socket %s", x)
			}
		}
		kids, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/children", pid))
		for _, k := range kids {
			if b, _ := os.ReadFile(k); len(bytes.TrimSpace(b)) > 0 {
				for _, c := range strings.Fields(string(b)) {
					name, _ := os.ReadFile("/proc/" + c + "/comm")
					if s := strings.TrimSpace(string(name)); s != "strace" && s != "" {
						report("process", "the process has the child %s (%s)", c, s)
					}
				}
			}
		}
	}
}

// everyHeader requests every route with headers that clients and proxies send: with each of their values, and with all at once
func everyHeader(r *mon.Run, g rng, hc *http.Client, url string) {
	d := ownDev(g, algOf(g.IntN(2)))
	send := func(method, path string, body []byte, hd map[string]string) {
		req, err := http.NewRequest(method, url+path, bytes.NewReader(body))
		if err != nil {
			return
		}
		for n, v := range hd {
			if !strings.ContainsFunc(v, func(c rune) bool { return c < 32 || c > 126 }) {
				req.Header.Set(n, v)
			}
		}
		if resp, err := hc.Do(req); err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			r.Count("requests with each known header", 1)
			r.Distinct(method, path, hd)
		}
		r.Progress()
	}
	routes := func(hd map[string]string, n int) {
		all := []func(){
			func() { send("POST", "/machine", jsonBody(ownDev(g, algOf(g.IntN(2))).base(3)), hd) },
			func() { send("POST", "/machine", jsonBody(d.base(3)), hd) },
			func() { send("GET", "/machine/"+d.ik(), nil, hd) },
			func() { send("GET", "/machines", nil, hd) },
			func() { send("GET", "/ping", nil, hd) },
			func() { send("GET", "/nothing", nil, hd) },
			func() { send("OPTIONS", "/machine", nil, hd) },
			func() { send("POST", "/generate_ksn/"+d.ik(), nil, hd) },
		}
		for _, fn := range machineOps {
			all = append(all, func() { send("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, d.genOp(g, fn, 3))), hd) })
		}
		g.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		for _, f := range all[:min(n, len(all))] {
			f()
		}
	}
	for k := 0; k < 20; k++ {
		at := map[string]string{}
		for _, e := range knownHeaders {
			at[e[0]] = e[1+k%(len(e)-1)]
		}
		routes(at, 99)
		for _, e := range knownHeaders {
			if v := at[e[0]]; k < len(e)-1 {
				routes(map[string]string{e[0]: v}, 4)
			}
		}
	}
}

// actingVars are variables that could make a program write files or call others
func actingVars(g rng) (env []string) {
	names := append([]string{"SSLKEYLOGFILE", "LOG_FILE", "LOGFILE", "LOG_PATH", "LOG_DIR", "AUDIT_LOG", "ACCESS_LOG", "PID_FILE", "PIDFILE", "CACHE_DIR", "DATA_DIR", "STATE_DIRECTORY", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR", "RUNTIME_DIRECTORY", "CPUPROFILE", "MEMPROFILE", "PROFILE", "TRACE", "DEBUG", "LOG_LEVEL", "LOGLEVEL", "LOG_BODY", "LOG_REQUESTS", "VERBOSE", "LOG_VERBOSE", "HTTPDEBUG", "DUKPT_LOG_LEVEL", "APP_ENV", "ENV", "ENVIRONMENT", "DUKPT_DEBUG", "DUKPT_CONFIG", "DUKPT_STORE", "DUKPT_HOME", "DATABASE_URL", "NOTIFY_SOCKET", "SYSLOG", "SENTRY_DSN", "OTEL_EXPORTER_OTLP_ENDPOINT", "JAEGER_AGENT_HOST", "STATSD_ADDR", "WEBHOOK_URL", "HISTFILE", "PAGER", "EDITOR", "BROWSER"}, dictNames...)
	values := []string{"file-made", "./file-made", "dir-made/file", "127.0.0.1:9", "http://127.0.0.1:9/x", "udp://127.0.0.1:9", "1", "true", "on", "debug", "*"}
	seen := map[string]bool{}
	for _, n := range names {
		u := strings.ToUpper(n)
		if seen[n] || (g.IntN(4) == 0 && n != "SSLKEYLOGFILE") || n == "" || strings.ContainsAny(n, "=\x00") || strings.HasPrefix(u, "GO") || strings.HasPrefix(u, "HTTP") || strings.HasPrefix(u, "LD_") || u == "LOG_FORMAT" || u == "PATH" || u == "HOME" || u == "TMPDIR" {
			continue
		}
		seen[n] = true
		v := pickS(g, values)
		if g.IntN(2) == 0 || n == "SSLKEYLOGFILE" {
			v = pickS(g, values[:2])
		}
		env = append(env, n+"="+v)
	}
	return env
}

func c37(r *mon.Run) {
	// control: what strace shows here
	traceOK := true
	func() {
		dir := filepath.Join(*scratch, "control")
		os.MkdirAll(dir, 0o755)
		defer os.RemoveAll(dir)
		w := straceCommand(filepath.Join(dir, "trace"))
		if w == nil {
			traceOK = false
			return
		}
		c := exec.Command(w[0], append(w[1:], "/bin/sh", "-c", "echo x > "+dir+"/made; mkdir "+dir+"/sub; /bin/true")...)
		c.Env = []string{"PATH=/usr/bin:/bin"}
		if err := c.Run(); err != nil {
			traceOK = false
			return
		}
		var text []byte
		for n := 0; n < 200; n++ { // the tracer may still be writing
			text, _ = os.ReadFile(filepath.Join(dir, "trace"))
			bad, _ := judgeTrace(string(text), nil)
			if len(bad) >= 3 {
				r.Count("control: system calls found", len(bad))
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		traceOK = false
	}()
	fmt.Println("strace usable:", traceOK)
	if !traceOK {
		r.Extra("strace", "not usable here: /proc and the directories were watched only")
	}
	canaries := filepath.Join(*scratch, "canary")
	os.MkdirAll(canaries, 0o755)
	canary := filepath.Join(canaries, "CANARY-"+strconv.Itoa(os.Getpid()))
	os.WriteFile(canary, []byte("0123456789ABCDEFFEDCBA9876543210\n"), 0o600)
	names := []string{canary, "@" + canary, "file://" + canary, "file:" + canary, "<" + canary, "$(cat " + canary + ")", "`cat " + canary + "`", "|cat " + canary, "; touch " + canary + "2 ;", canary + "3", "../../../../.." + canary, "http://127.0.0.1:9/" + filepath.Base(canary)}
	creds, err := makeCredentials("ecdsa", *scratch, "c37")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	place := func(dir string) []string {
		var out []string
		for _, d := range []string{"home", "tmp", "cwd"} {
			for _, f := range tree(filepath.Join(dir, d)) {
				out = append(out, d+"/"+f)
			}
		}
		return out
	}
	srv := func(i int) {
		g := r.Rng("contained", i)
		addr, admin := fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())
		var env []string
		var conf *tls.Config
		if i%3 == 2 {
			conf, env = creds.conf(0, 0, "h2", "http/1.1"), creds.env()
		}
		if g.IntN(2) == 0 {
			env = append(env, "LOG_FORMAT=json")
		}
		if i%2 == 0 {
			env = append(actingVars(g), env...)
			r.Count("servers with variables that name files and addresses", 1)
		}
		args := []string{"-http.addr", addr, "-admin.addr", admin}
		traceFile := filepath.Join(*scratch, fmt.Sprintf("trace%d", i))
		var wrap []string
		if traceOK && i%4 != 3 {
			wrap = straceCommand(traceFile)
		}
		p, err := launchRaw(r, wrap, args, env, addr, admin)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		defer os.Remove(traceFile)
		defer p.stop()
		p.tls = conf
		os.WriteFile(filepath.Join(p.dir, "cwd", "machines.json"), []byte("[]\n"), 0o644) // a file that was there
		info := func() any {
			o, e := p.output()
			return map[string]any{"server": p.describe, "stdout": truncEnd(o), "stderr": truncEnd(e)}
		}
		if err := p.ready(); err != nil {
			if err != errInUse {
				r.Violate("start", err.Error(), info())
			}
			return
		}
		before := place(p.dir)
		stop := make(chan struct{})
		var watch sync.WaitGroup
		watch.Add(1)
		go func() {
			defer watch.Done()
			watchProc(r, p.cmd.Process.Pid, []string{addr, admin}, stop, func(sig, f string, a ...any) { r.Violate("polled:"+sig, fmt.Sprintf(f, a...), p.describe) })
		}()
		hc := p.client(conf, i%3 == 2 && g.IntN(2) == 0)
		a := clientAPI(hc, p.url())
		var mine []*dev
		for x, most := 0, 6+(i&1)*r.Pick(300, 1500); x < most; x++ {
			d := ownDev(g, algOf(x))
			if _, err := a.Create(d.base(2)); err != nil {
				r.Violate("api", err.Error(), info())
				break
			}
			a.Next(d.ik())
			if x < 6 {
				mine = append(mine, d)
			}
		}
		var wg sync.WaitGroup
		for c := 0; c < 3; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := r.Rng(fmt.Sprintf("contained traffic %d", i), c)
				traffic(r, g, p, a, r.Pick(60, 200))
				for x := 0; x < r.Pick(40, 120); x++ { // requests that name a file or an address
					s := pickS(g, names)
					d := mine[g.IntN(len(mine))]
					fn := pickS(g, machineOps)
					q := d.genOp(g, fn, 2)
					switch g.IntN(5) {
					case 0:
						q.Data = s
					case 1:
						q.Pin, q.Pan = s, s
					case 2:
						q.Format, q.MacType, q.Action = s, s, s
					case 3:
						q.IV = s
					}
					path := "/" + fn + "/" + d.ik()
					if g.IntN(5) == 0 {
						path = "/" + fn + "/" + strings.NewReplacer("/", "%2F", " ", "%20", "<", "%3C", "|", "%7C", "`", "%60").Replace(s)
					}
					if req, err := http.NewRequest("POST", p.url()+path, bytes.NewReader(jsonBody(opBody(fn, q)))); err == nil {
						for y := g.IntN(3); y > 0; y-- {
							name, v := hostileHeader(g)
							if g.IntN(2) == 0 {
								v = s
							}
							if !strings.ContainsFunc(v, func(c rune) bool { return c < 32 || c > 126 }) && !strings.ContainsFunc(name, func(c rune) bool { return c <= 32 || c > 126 || strings.ContainsRune("()<>@,;:\\\"/[]?={}", c) }) {
								req.Header.Set(name, v)
							}
						}
						if resp, err := hc.Do(req); err == nil {
							io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
						}
					}
					if g.IntN(6) == 0 { // a valid creation with such headers and query
						if req, err := http.NewRequest("POST", p.url()+"/machine"+hostileQuery(g), bytes.NewReader(jsonBody(ownDev(g, algOf(x)).base(3)))); err == nil {
							for _, n := range dictNames {
								if g.IntN(2) == 0 && !strings.ContainsAny(n, "_.") && !strings.EqualFold(n, "host") {
									req.Header.Set(n, pickS(g, []string{"http://127.0.0.1:9/x", "https://127.0.0.1:9/x", "/tmp/x", "1", "true", "http://localhost:9", canary}))
								}
							}
							if resp, err := hc.Do(req); err == nil {
								io.Copy(io.Discard, resp.Body)
								resp.Body.Close()
								r.Count("creations with headers that name an address", 1)
							}
						}
					}
					if g.IntN(40) == 0 { // much data
						size := []int{100 << 10, 300 << 10, 1100 << 10, 5 << 20}[g.IntN(4)]
						if n, ok := dictSize(g, 12<<20); ok && g.IntN(2) == 0 {
							size = n
						}
						a.do("POST", "/encrypt_data/"+d.ik(), jsonBody(map[string]any{"data": strings.Repeat("0A", size/2), "action": "request"}))
						r.Count("large requests", 1)
					}
					if g.IntN(4) == 0 {
						b := d.base(1)
						b.KeySerialNumber = s
						a.do("POST", "/machine", jsonBody(b))
						b = d.base(1)
						b.BaseDerivativeKey, b.AlgorithmKey = s, s
						a.do("POST", "/machine", jsonBody(b))
					}
					r.Eval(1)
					r.Count("requests that name a file or an address", 1)
					r.Distinct(fn, path, q)
				}
			}()
		}
		if i == 1 { // more machines than a registry may be meant for
			wg.Add(1)
			go func() {
				defer wg.Done()
				g := r.Rng("many machines", i)
				for n := 0; n < r.Pick(2200, 12000) && !r.Stop(); n++ {
					if _, err := a.Create(ownDev(g, algOf(n)).base(3)); err != nil {
						break // judged elsewhere
					}
					r.Count("machines of one server", 1)
					r.Progress()
				}
			}()
		}
		if i%2 == 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				insistent(r, r.Rng("insistent", i), p, a, r.Pick(12, 40), func(*dev, uint32) {})
			}()
		}
		if i < 4 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				everyHeader(r, r.Rng("headers", i), hc, p.url())
			}()
		}
		wg.Wait()
		for _, path := range []string{"/live", "/ready", "/version"} {
			get("http://" + admin + path)
		}
		hc.CloseIdleConnections()
		if i < 2 { // what is done from time to time
			for n, most := 0, r.Pick(65, 330); n < most && !p.hasExited(); n++ {
				time.Sleep(time.Second)
				r.Progress()
			}
			r.Count("servers watched for more than a minute", 1)
		}
		close(stop)
		watch.Wait()
		p.nudge(g, 8)
		if i%3 == 1 {
			p.hangup(g)
		}
		sig := []os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[g.IntN(3)]
		p.end(sig)
		if after := place(p.dir); strings.Join(after, "\n") != strings.Join(before, "\n") {
			r.Violate("files", fmt.Sprintf("the files in the working, home and temporary directories changed: %q -> %q", before, after), info())
		}
		r.Count("servers watched", 1)
		if wrap != nil {
			var text []byte
			for n, last := 0, -1; n < 300; n++ { // until the tracer has ended
				text, _ = os.ReadFile(traceFile)
				if len(text) == last && n > 5 {
					break
				}
				last = len(text)
				time.Sleep(10 * time.Millisecond)
			}
			bad, calls := judgeTrace(string(text), []string{"CANARY"})
			r.Count("traced system calls judged", calls)
			r.Count("servers traced", 1)
			if len(bad) > 0 {
				name, _, _ := strings.Cut(bad[0], "(")
				r.Violate("system call:"+name, "the server acts outside of its connections and its output: "+bad[0], map[string]any{"server": p.describe, "calls": bad[:min(len(bad), 20)]})
			}
			if r.WantSample("trace") {
				r.Sample("trace", map[string]any{"server": p.describe, "calls": truncEnd(string(text))})
			}
		}
		// nothing is left of it
		for try := 0; ; try++ {
			if err := p.begin(nil, args, env); err != nil {
				r.Inconclusive("launch: %v", err)
				return
			}
			err := p.ready()
			if err == nil {
				break
			}
			p.cmd.Process.Kill()
			<-p.exited
			out, e := p.output()
			if strings.Contains(out+e, "address already in use") {
				r.Count("ports taken by others", 1)
				return
			}
			r.Violate("start", "the server does not start again: "+err.Error(), info())
			return
		}
		hc = p.client(conf, false)
		defer hc.CloseIdleConnections()
		a = clientAPI(hc, p.url())
		if l, err := a.List(); err != nil || len(l) != 0 {
			r.Violate("kept", fmt.Sprintf("a server started again after %v lists %d machines (%v)", sig, len(l), err), info())
		}
		for _, d := range mine {
			rep, err := a.do("GET", "/machine/"+d.ik(), nil)
			if err != nil || rep.Status != 404 {
				r.Violate("kept", fmt.Sprintf("a server started again after %v knows a machine: %d %q %v", sig, rep.Status, clip(rep.Body), err), info())
				break
			}
			m, err := a.Create(d.base(5))
			if err == nil {
				err = d.checkDesc(m)
			}
			if err == nil {
				if c, e := d.ctrOf(m.CurrentKSN); e != nil || c != 5 {
					err = fmt.Errorf("current KSN %s", m.CurrentKSN)
				}
			}
			if err != nil {
				r.Violate("kept", fmt.Sprintf("a server started again after %v does not create a machine anew: %v", sig, err), info())
				break
			}
			r.Count("machines that a new server did not know", 1)
			r.Eval(1)
		}
	}
	r.Parallel(r.Pick(8, 80), srv)

	// starts that fail
	failing := []string{"api in use", "admin in use", "api malformed", "admin malformed", "no certificate", "no key", "key of another", "both in use"}
	r.Parallel(len(failing)*r.Pick(2, 12), func(i int) {
		g := r.Rng("failing start", i)
		kind := failing[i%len(failing)]
		addr, admin := fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())
		api, adm := addr, admin
		taken := func() string {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return "127.0.0.1:99999"
			}
			go func() { time.Sleep(20 * time.Second); l.Close() }()
			return l.Addr().String()
		}
		malformed := []string{"127.0.0.1:99999", "[::1", "127.0.0.1", "127.0.0.1:-1", "127.0.0.1:1:2", "::"}
		var env []string
		switch kind {
		case "api in use":
			api = taken()
		case "admin in use":
			adm = taken()
		case "both in use":
			api, adm = taken(), taken()
		case "api malformed":
			api = pickS(g, malformed)
		case "admin malformed":
			adm = pickS(g, malformed)
		default:
			env = creds.env()
			for k, v := range env {
				switch {
				case kind == "no certificate" && strings.Contains(v, "CERT"), kind == "no key" && strings.Contains(v, "KEY"):
					env[k] += "x"
				case kind == "key of another" && strings.Contains(v, "KEY"):
					env[k] = strings.SplitN(v, "=", 2)[0] + "=" + canary
				}
			}
		}
		if g.IntN(2) == 0 {
			env = append(env, "LOG_FORMAT=json")
		}
		if i%3 == 0 {
			env = append(actingVars(g), env...)
		}
		var wrap []string
		traceFile := filepath.Join(*scratch, fmt.Sprintf("failing%d", i))
		if traceOK && i%2 == 0 {
			wrap = straceCommand(traceFile)
		}
		p, err := launchRaw(r, wrap, []string{"-http.addr=" + api, "-admin.addr=" + adm}, env, addr, admin)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		defer os.Remove(traceFile)
		defer p.stop()
		p.poll(100, p.hasExited) // whether it ends: C33
		p.end(syscall.SIGTERM)
		r.Eval(1)
		r.Distinct(kind, api, adm)
		r.Count("failing starts watched", 1)
		o, e := p.output()
		info := map[string]any{"server": p.describe, "start": kind, "stdout": truncEnd(o), "stderr": truncEnd(e)}
		if after := place(p.dir); len(after) != 0 {
			r.Violate("files:start:"+kind, fmt.Sprintf("a server that cannot start leaves files: %q", after), info)
		}
		if wrap != nil {
			var text []byte
			for n, last := 0, -1; n < 300; n++ {
				text, _ = os.ReadFile(traceFile)
				if len(text) == last && n > 5 {
					break
				}
				last = len(text)
				time.Sleep(10 * time.Millisecond)
			}
			bad, calls := judgeTrace(string(text), nil)
			r.Count("traced system calls judged", calls)
			if len(bad) > 0 {
				name, _, _ := strings.Cut(bad[0], "(")
				info["calls"] = bad[:min(len(bad), 20)]
				r.Violate("system call:start:"+name, "a server that cannot start acts outside of its output: "+bad[0], info)
			}
		}
	})
	r.Require("failing starts watched", 12)

	cli := func(i int) {
		g := r.Rng("contained cli", i)
		dir := filepath.Join(*scratch, fmt.Sprintf("cli%d", i))
		for _, d := range []string{"home", "tmp", "cwd"} {
			os.MkdirAll(filepath.Join(dir, d), 0o755)
		}
		defer os.RemoveAll(dir)
		var wrap []string
		if traceOK && i%2 == 0 {
			wrap = straceCommand(filepath.Join(dir, "trace"))
			wrap = append(wrap[:1:1], wrap[2:]...) // the tracer stays the parent: its end is the end of the trace
		}
		alg := algOf(g.IntN(2))
		c := genCLI(g, cliOps[i%len(cliOps)], alg)
		switch g.IntN(6) { // an option that names a file, or none that names anything
		case 2: // a required option missing
			delete(c.need, sortedKeys(c.need)[g.IntN(len(c.need))])
		case 3:
			k := sortedKeys(c.need)[g.IntN(len(c.need))]
			c.need[k] = pickS(g, []string{"zz", "00", "x", strings.Repeat("ab", 500)})
		case 4:
			c.op = ""
		case 0:
			for _, m := range []map[string]string{c.need, c.opt} {
				for _, k := range sortedKeys(m) {
					if g.IntN(3) == 0 {
						m[k] = pickS(g, names)
					}
				}
			}
		case 1:
			c.glob["algorithm.key_type"] = pickS(g, names)
		}
		args := c.args(g)
		line := append(append(append([]string{}, wrap...), *binCli), args...)
		cmd := exec.Command(line[0], line[1:]...)
		cmd.Dir = filepath.Join(dir, "cwd")
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Join(dir, "home"), "TMPDIR=" + filepath.Join(dir, "tmp")}
		if i%3 == 0 {
			cmd.Env = append(cmd.Env, actingVars(g)...)
			r.Count("commands with variables that name files and addresses", 1)
		}
		out, _ := cmd.CombinedOutput()
		r.Eval(1)
		r.Count("commands watched", 1)
		r.Distinct(strings.Join(args, "\x00"))
		info := map[string]any{"arguments": args, "output": string(clip(out))}
		if after := place(dir); len(after) != 0 {
			r.Violate("files:cli", fmt.Sprintf("dukptcli leaves files: %q", after), info)
		}
		if wrap != nil {
			text, _ := os.ReadFile(filepath.Join(dir, "trace"))
			bad, calls := judgeTrace(string(text), []string{"CANARY"})
			r.Count("traced system calls judged", calls)
			r.Count("commands traced", 1)
			if len(bad) > 0 {
				name, _, _ := strings.Cut(bad[0], "(")
				info["calls"] = bad[:min(len(bad), 20)]
				r.Violate("system call:cli:"+name, "dukptcli acts outside of its output: "+bad[0], info)
			}
			if r.WantSample("cli trace") {
				r.Sample("cli trace", map[string]any{"arguments": args, "calls": truncEnd(string(text))})
			}
		}
	}
	r.Parallel(r.Pick(240, 3000), cli)
	if f := tree(canaries); len(f) != 1 {
		r.Violate("files:canary", fmt.Sprintf("files named in requests or options were made: %q", f), nil)
	}
	r.Require("servers watched", 6)
	r.Require("machines that a new server did not know", 24)
	r.Require("requests that name a file or an address", 500)
	r.Require("commands watched", 200)
	if traceOK {
		r.Require("servers traced", 4)
		r.Require("commands traced", 100)
		r.Require("traced system calls judged", 1000)
	}
}

// ---- C38

// uniqueMembers checks that a text is exactly one JSON value in which no object has two members of one name
func uniqueMembers(b []byte) error {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var value func() error
	value = func() error {
		t, err := dec.Token()
		if err != nil {
			return err
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return err
				}
				if seen[k.(string)] {
					return fmt.Errorf("member %q occurs twice", k)
				}
				seen[k.(string)] = true
				if err := value(); err != nil {
					return err
				}
			}
			_, err = dec.Token()
		case json.Delim('['):
			for dec.More() {
				if err := value(); err != nil {
					return err
				}
			}
			_, err = dec.Token()
		}
		return err
	}
	if err := value(); err != nil {
		return err
	}
	if rest := bytes.TrimSpace(b[dec.InputOffset():]); len(rest) > 0 {
		return fmt.Errorf("something follows the JSON value: %q", clip(rest))
	}
	return nil
}

// wellFormed judges the form of a response
func wellFormed(route string, rep reply) error {
	ct := rep.Header.Values("Content-Type")
	if len(ct) > 1 {
		return fmt.Errorf("several Content-Type headers: %q", ct)
	}
	kind := ""
	if len(ct) == 1 {
		kind = strings.ToLower(strings.ReplaceAll(ct[0], " ", ""))
	}
	switch route {
	case "ping":
		if rep.Status != 200 || string(rep.Body) != "PONG" || kind != "text/plain" && !strings.HasPrefix(kind, "text/plain;") {
			return fmt.Errorf("status %d, type %q, body %q", rep.Status, ct, clip(rep.Body))
		}
		return nil
	case "preflight":
		if rep.Status/100 != 2 || len(rep.Body) != 0 {
			return fmt.Errorf("status %d, body %q", rep.Status, clip(rep.Body))
		}
		return nil
	}
	if rep.Status < 200 || rep.Status > 200 && rep.Status < 400 || rep.Status > 599 {
		return fmt.Errorf("status %d", rep.Status)
	}
	if kind != "application/json;charset=utf-8" {
		return fmt.Errorf("Content-Type %q", ct)
	}
	if !utf8.Valid(rep.Body) {
		return fmt.Errorf("the body is not UTF-8: %q", clip(rep.Body))
	}
	if b := bytes.TrimSpace(rep.Body); len(b) == 0 || b[0] != '{' {
		return fmt.Errorf("the body is no JSON object: %q", clip(rep.Body))
	}
	if err := uniqueMembers(rep.Body); err != nil {
		return fmt.Errorf("%w: %q", err, clip(rep.Body))
	}
	if e := rep.Header.Get("Content-Encoding"); e != "" && e != "identity" {
		return fmt.Errorf("Content-Encoding %q for a request that asks for none", e)
	}
	return nil
}

// monWriter records what a handler does with its response
type monWriter struct {
	mu     sync.Mutex
	header http.Header
	status int
	heads  int
	body   bytes.Buffer
	done   bool
	late   []string
	sent   http.Header
	wrong  string
}

func (w *monWriter) Header() http.Header { return w.header }
func (w *monWriter) WriteHeader(s int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.done {
		w.late = append(w.late, "WriteHeader")
	}
	w.heads++
	if w.heads == 1 {
		w.status, w.sent = s, w.header.Clone()
	}
}
func (w *monWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.done {
		w.late = append(w.late, "Write")
	}
	if w.heads == 0 {
		w.heads, w.status, w.sent = 1, 200, w.header.Clone()
	}
	return w.body.Write(b)
}
func (w *monWriter) Flush() {}

func (w *monWriter) reply() reply {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.done = true
	if w.heads == 0 {
		w.status, w.sent = 200, w.header.Clone()
	}
	if n := w.sent.Get("Content-Length"); n != "" && n != strconv.Itoa(w.body.Len()) {
		w.wrong = fmt.Sprintf("Content-Length is %s, the body has %d bytes", n, w.body.Len())
	}
	return reply{w.status, w.sent, w.body.Bytes()}
}

// formRequest is a request on a documented route; constant: it changes nothing and is answered alike each time
func formRequest(g rng, k *knownAnswers) (method, path string, body []byte, constant bool) {
	x := g.IntN(len(k.devs))
	d, ik := k.devs[x], k.iks[x]
	odd := pickS(g, []string{"none", "%20", "%22%3C%3E", "%0A", "%ff", "%E2%80%A8", "a=b&c", "%7B%7D", "%00", ik + "0", strings.ToUpper(ik) + "x"})
	if g.IntN(2) == 0 {
		if x := strings.ReplaceAll(hostileString(g), "/", "|"); x != "" && x != "." && x != ".." && len(x) < 2000 {
			odd = url.PathEscape(x)
		}
	}
	switch g.IntN(14) {
	case 0:
		return "GET", "/ping", nil, true
	case 1:
		return "OPTIONS", "/" + pickS(g, []string{"ping", "machine", "machines", "machine/" + ik, "encrypt_pin/" + ik, "x/y"}), nil, true
	case 2:
		return "GET", "/machine/" + ik, nil, true
	case 3:
		return "GET", "/machine/" + odd, nil, true
	case 4:
		return "GET", "/machines", nil, false
	case 5:
		return "POST", "/machine", jsonBody(d.base(7)), true // it exists
	case 6:
		b, _ := badBase(g, newDev(g, algOf(g.IntN(2))).base(3))
		return "POST", "/machine", jsonBody(b), false
	case 7:
		return "POST", "/machine", jsonBody(newDev(g, algOf(g.IntN(2))).base(uint32(1 + g.IntN(9)))), false
	case 8:
		return "POST", "/generate_ksn/" + pickS(g, append([]string{odd}, k.victims...)), nil, false
	case 9:
		return "POST", "/" + pickS(g, append(machineOps, "generate_ksn")) + "/" + odd, jsonBody(map[string]any{"pin": "1234"}), true
	case 10:
		return "POST", "/" + pickS(g, append(machineOps, "generate_ksn")) + "/" + pickS(g, k.victims), hostileBody(g), false
	case 11:
		return "POST", "/machine", hostileBody(g), false
	case 12:
		fn := pickS(g, machineOps)
		q, _ := d.badOp(g, fn, d.genOp(g, fn, 7))
		q.forJSON()
		return "POST", "/" + fn + "/" + ik, jsonBody(opBody(fn, q)), fn != "encrypt_pin"
	}
	fn := pickS(g, machineOps)
	q := d.genOp(g, fn, 7)
	if g.IntN(8) == 0 { // a long answer
		fn = pickS(g, []string{"encrypt_data", "decrypt_data"})
		q = d.genOp(g, fn, 7)
		q.Data = hx(rbytes(g, 16*(20+g.IntN(400))))
	}
	q.forJSON()
	return "POST", "/" + fn + "/" + ik, jsonBody(opBody(fn, q)), fn != "encrypt_pin"
}

func c38(r *mon.Run) {
	for l, ok := range map[string]bool{`{"a":1}`: true, `{"a":1,"a":2}`: false, `{"a":{"b":1,"b":1}}`: false, `{"a":1}{"b":1}`: false, `{"a":[{"b":1},{"b":1}]}` + "\n": true, `{"a":`: false, `x`: false} {
		if err := uniqueMembers([]byte(l)); (err == nil) != ok {
			r.Inconclusive("control: %q: %v", l, err)
			return
		}
	}
	// headers are some that must not matter; before is the header of an earlier response to the same request
	headers := func(g rng, before http.Header) map[string]string {
		m := map[string]string{}
		if before != nil && g.IntN(2) == 0 { // what a cache or a browser would send then
			for from, to := range map[string]string{"Etag": []string{"If-None-Match", "If-Match", "If-Range"}[g.IntN(3)], "Last-Modified": []string{"If-Modified-Since", "If-Unmodified-Since"}[g.IntN(2)], "Set-Cookie": "Cookie", "Location": "Referer", "X-Request-Id": "X-Request-Id", "Content-Type": "Accept"} {
				if v := before.Get(from); v != "" {
					if to == "Cookie" {
						v, _, _ = strings.Cut(v, ";")
					}
					m[to] = v
					r.Count("headers made of those of a response", 1)
				}
			}
		}
		for y := g.IntN(4); y > 0; y-- {
			n, v := hostileHeader(g)
			if strings.EqualFold(n, "te") && v == "trailers" { // a client that would take trailers
				m["Te"] = v
				continue
			}
			switch strings.ToLower(n) { // these change the framing or ask for another encoding
			case "host", "connection", "content-length", "transfer-encoding", "expect", "upgrade", "trailer", "te":
				continue
			}
			m[http.CanonicalHeaderKey(n)] = v
		}
		if g.IntN(3) == 0 {
			m["Content-Type"] = mediaType(g)
			r.Count("requests with a media type", 1)
		}
		if g.IntN(3) == 0 {
			m["Accept-Encoding"] = pickS(g, []string{"gzip", "gzip, deflate, br", "deflate", "br", "identity", "*", "gzip;q=0", "gzip;q=1.0, *;q=0", "zstd", "identity;q=0, gzip", "compress", ""})
		}
		return m
	}
	judge := func(where, method, path string, hd map[string]string, body []byte, rep reply, first *reply) {
		route := routeOf(method, path)
		r.Eval(1)
		r.Distinct(where, method, path, body, hd)
		r.Count("responses "+where, 1)
		r.Count(fmt.Sprintf("%s: status %d", route, rep.Status), 1)
		info := func() any {
			return map[string]any{"request": fmt.Sprintf("%s %s", method, path), "headers": hd, "body": string(clip(body)), "status": rep.Status, "header": rep.Header, "response": string(clip(rep.Body))}
		}
		if err := wellFormed(route, rep); err != nil {
			r.Violate("form:"+route, fmt.Sprintf("%s %s: %v", method, path, err), info())
		}
		if first != nil {
			r.Count("answers compared under other headers", 1)
			if first.Status != rep.Status || !bytes.Equal(first.Body, rep.Body) {
				r.Violate("headers:"+route, fmt.Sprintf("%s %s is answered differently with other headers or another query: %d %q, before %d %q", method, path, rep.Status, clip(rep.Body), first.Status, clip(first.Body)), info())
			}
		}
		if r.WantSample(where + " " + route) {
			r.Sample(where+" "+route, info())
		}
	}
	r.Parallel(r.Pick(1500, 60000), func(i int) {
		g := r.Rng("form", i)
		s := newService()
		h := server.MakeHTTPHandler(s)
		k := newKnown(g, s)
		for x := 0; x < 10; x++ {
			method, path, body, constant := formRequest(g, k)
			var first *reply
			for y := 0; y < 3; y++ {
				if y > 0 && !constant {
					break
				}
				var hd map[string]string
				path := path
				if y > 0 {
					hd = headers(g, first.Header)
					path += hostileQuery(g)
				}
				var rep reply
				ok := true
				r.Guard(nil, func() {
					ok = false
					w := &monWriter{header: http.Header{}}
					req := httptest.NewRequest(method, path, bytes.NewReader(body))
					for n, v := range hd {
						req.Header[n] = []string{v}
					}
					h.ServeHTTP(w, req)
					ok = true
					rep = w.reply()
					if w.heads > 1 {
						r.Violate("calls:"+routeOf(method, path), fmt.Sprintf("%s %s: the handler sends %d headers", method, path, w.heads), nil)
					}
					if w.wrong != "" {
						r.Violate("calls:"+routeOf(method, path), fmt.Sprintf("%s %s %q: %s", method, path, clip(body), w.wrong), nil)
					}
				})
				if !ok {
					break
				}
				judge("handler", method, path, hd, body, rep, first)
				if y == 0 {
					first = &rep
				}
			}
		}
	})

	creds, err := makeCredentials("ecdsa", *scratch, "c38")
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	r.Parallel(r.Pick(6, 40), func(i int) {
		g := r.Rng("form tcp", i)
		var conf *tls.Config
		var env []string
		if i%3 > 0 {
			conf, env = creds.conf(0, 0, "http/1.1"), creds.env()
		}
		if i%3 == 2 {
			conf = creds.conf(0, 0, "h2", "http/1.1")
		}
		p, err := startServer(r, g, conf, env...)
		if err != nil {
			r.Violate("start", err.Error(), nil)
			return
		}
		if p == nil {
			return
		}
		defer p.stop()
		hc := p.client(conf, i%3 == 2)
		defer hc.CloseIdleConnections()
		hc.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		hc.Transport.(*http.Transport).DisableCompression = true
		a := clientAPI(hc, p.url())
		k := &knownAnswers{}
		for x := 0; x < 4; x++ {
			d := ownDev(g, algOf(x))
			if _, err := a.Create(d.base(7)); err != nil {
				r.Violate("api", err.Error(), nil)
				return
			}
			if x < 2 {
				k.devs, k.iks, k.tks = append(k.devs, d), append(k.iks, d.ik()), append(k.tks, d.tk(7))
			} else {
				k.victims = append(k.victims, d.ik())
			}
		}
		// raw gives the response and what follows it on the connection
		raw := func(method, path string, hd map[string]string, body []byte) (reply, error) {
			c, err := p.dial(conf, 0)
			if err != nil {
				return reply{}, err
			}
			defer c.Close()
			var b bytes.Buffer
			fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: %s\r\nContent-Length: %d\r\n", method, path, lastOr(body), len(body))
			for n, v := range hd {
				fmt.Fprintf(&b, "%s: %s\r\n", n, strings.Map(func(c rune) rune {
					if c < 32 || c == 127 {
						return '.'
					}
					return c
				}, v))
			}
			b.WriteString("\r\n")
			b.Write(body)
			c.Write(b.Bytes())
			br := bufio.NewReader(c)
			resp, err := http.ReadResponse(br, &http.Request{Method: method})
			if err != nil {
				return reply{}, err
			}
			data, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			rep := reply{resp.StatusCode, resp.Header, data}
			if err != nil {
				return rep, fmt.Errorf("the body breaks off: %w", err)
			}
			if resp.ContentLength < 0 && len(resp.TransferEncoding) == 0 {
				return rep, fmt.Errorf("neither Content-Length nor chunks")
			}
			rest, _ := br.Peek(br.Buffered())
			if lastOr(body) == "close" {
				rest, _ = io.ReadAll(br)
			}
			if len(rest) > 0 {
				return rep, fmt.Errorf("%d bytes follow the response: %q", len(rest), clip(rest))
			}
			return rep, nil
		}
		for n := 0; n < r.Pick(300, 2000); n++ {
			method, path, body, constant := formRequest(g, k)
			if len(body) > 20000 {
				body = body[:20000]
			}
			var first *reply
			for y := 0; y < 2; y++ {
				if y > 0 && !constant {
					break
				}
				var hd map[string]string
				path := path
				if y > 0 {
					hd = headers(g, first.Header)
					path += hostileQuery(g)
				}
				var rep reply
				var err error
				where := "tcp"
				if i%3 == 2 {
					where = "HTTP/2"
					var req *http.Request
					if req, err = http.NewRequest(method, p.url()+path, bytes.NewReader(body)); err != nil {
						break
					}
					for n, v := range hd {
						if v = strings.TrimSpace(v); strings.ContainsFunc(v, func(c rune) bool { return c < 32 || c > 126 }) {
							continue
						}
						req.Header.Set(n, v)
					}
					var resp *http.Response
					if resp, err = hc.Do(req); err == nil {
						var b []byte
						b, err = io.ReadAll(resp.Body)
						resp.Body.Close()
						rep = reply{resp.StatusCode, resp.Header, b}
						if resp.ProtoMajor != 2 {
							where = "tls"
						}
					}
				} else {
					rep, err = raw(method, path, hd, body)
				}
				if err != nil {
					r.Violate("response:"+routeOf(method, path), fmt.Sprintf("%s %s (%s): %v", method, path, where, err), map[string]any{"headers": hd, "body": string(clip(body))})
					break
				}
				if rep.Status == 400 && strings.HasPrefix(rep.Header.Get("Content-Type"), "text/plain") && hd != nil {
					r.Count("refused by the protocol layer", 1) // headers that are none
					break
				}
				judge(where, method, path, hd, body, rep, first)
				if y == 0 {
					first = &rep
				}
			}
		}
		_, e := p.output()
		if x := strings.Index(e, "superfluous"); x >= 0 {
			r.Violate("calls", "the server reports superfluous calls of its handlers", truncEnd(e[x:]))
		}
		if x := strings.Index(e, "wrote more than the declared"); x >= 0 {
			r.Violate("calls", "the server reports bodies longer than declared", truncEnd(e[x:]))
		}
	})
	// long lists
	r.Parallel(r.Pick(4, 20), func(i int) {
		g := r.Rng("form list", i)
		s := newService()
		h := server.MakeHTTPHandler(s)
		have := 0
		for _, most := range []int{1, 3, 10, 33, 101, 257, 520, 1030, r.Pick(2100, 5200)} {
			if n, ok := dictSize(g, r.Pick(2500, 20000)); ok && g.IntN(3) == 0 && n > have {
				most = n
			}
			for ; have < most; have++ {
				d := ownDev(g, algOf(have))
				if err := s.CreateMachine(server.NewMachine(d.base(uint32(1 + g.IntN(9))))); err != nil {
					r.Violate("api", err.Error(), nil)
					return
				}
			}
			w := &monWriter{header: http.Header{}}
			h.ServeHTTP(w, httptest.NewRequest("GET", "/machines", nil))
			rep := w.reply()
			if w.wrong != "" {
				r.Violate("calls:machines", fmt.Sprintf("%d machines: %s", have, w.wrong), nil)
			}
			judge("handler", "GET", "/machines", nil, nil, rep, nil)
			if have <= 600 { // whatever their order, they are as many bytes
				hd := headers(g, rep.Header)
				again, ok := handlerRequest(h, "GET", "/machines"+hostileQuery(g), hd, nil)
				if ok && (again.Status != rep.Status || len(again.Body) != len(rep.Body)) {
					r.Violate("headers:machines", fmt.Sprintf("GET /machines with %d machines is answered with status %d and %d bytes, with other headers with %d and %d", have, rep.Status, len(rep.Body), again.Status, len(again.Body)), hd)
				}
			}
			var out struct{ Machines []*server.Machine }
			if err := json.Unmarshal(rep.Body, &out); err != nil || len(out.Machines) != have {
				r.Violate("list", fmt.Sprintf("GET /machines answers %d of %d machines (%v)", len(out.Machines), have, err), nil)
				return
			}
			r.Count("machines in listed answers", have)
		}
	})
	r.Require("responses handler", 10000)
	r.Require("responses tcp", 500)
	r.Require("responses HTTP/2", 200)
	r.Require("answers compared under other headers", 3000)
}
