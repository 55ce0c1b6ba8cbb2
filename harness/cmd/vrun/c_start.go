package main

import (
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync/atomic"

	"verifharness/mon"
)

func init() {
	register("C33", "the server program started with addresses it cannot listen on (in use by a listener of the check or by another server, both addresses equal, malformed or missing port, address of another host; API or admin address, by flag, variable or both) and with certificates it cannot use (missing, unreadable, garbage, empty, swapped, mismatched, directory), and combinations; the end of the process, the reported reason, panics, listening sockets while it lives and plaintext answers are monitored; a server that already runs at the address must keep serving. Distinct by cause, way of configuration and combination.", c33)
}

// lastPart is the reason at the end of a chain of wrapped errors
func lastPart(err error) string {
	s := err.Error()
	if i := strings.LastIndex(s, ": "); i >= 0 {
		s = s[i+2:]
	}
	return s
}

func c33(r *mon.Run) {
	var stays atomic.Int64 // servers that did not end within the full time
	cr, err := makeCredentials("ecdsa", *scratch, "c33")
	if err == nil {
		var e2 error
		_, e2 = makeCredentials("rsa", *scratch, "c33-other")
		err = e2
	}
	if err != nil {
		r.Inconclusive("certificate: %v", err)
		return
	}
	file := func(name, content string) string {
		f := filepath.Join(*scratch, name)
		os.WriteFile(f, []byte(content), 0o600)
		return f
	}
	garbage, empty := file("c33-garbage", "no PEM\n"), file("c33-empty", "")
	badPEM := file("c33-badpem", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")
	certs := [][3]string{
		{"missing certificate", "/nonexistent/c", cr.key}, {"missing key", cr.cert, "/nonexistent/k"}, {"missing both", "/nonexistent/c", "/nonexistent/k"},
		{"garbage certificate", garbage, cr.key}, {"garbage key", cr.cert, garbage}, {"empty certificate", empty, cr.key}, {"empty key", cr.cert, empty},
		{"malformed certificate", badPEM, cr.key}, {"key of another certificate", cr.cert, filepath.Join(*scratch, "c33-other.key")}, {"swapped", cr.key, cr.cert}, {"certificate twice", cr.cert, cr.cert},
		{"directory as certificate", *scratch, cr.key}, {"directory as key", cr.cert, *scratch},
	}
	addrs := []string{"in use", "in use by a server", "in use by a secure server", "port too large", "negative port", "named port", "no port", "other host", "unknown host", "two colons"}

	// what is wrong: at the API address, at the admin address, with the certificate
	type plan struct{ http, admin, cert, kind string }
	var plans []plan
	for _, a := range addrs {
		plans = append(plans, plan{http: a}, plan{admin: a}, plan{http: a, cert: "good"}, plan{admin: a, cert: "good"})
	}
	for _, c := range certs {
		plans = append(plans, plan{cert: c[0]})
	}
	plans = append(plans, plan{http: "equal", admin: "equal"}, plan{http: "equal", admin: "equal", cert: "good"}, plan{http: "in use", admin: "in use"}, plan{http: "in use", cert: certs[0][0]},
		plan{http: "no port", cert: certs[8][0]}, plan{admin: "in use", cert: certs[3][0]}, plan{http: "in use", admin: "named port", cert: certs[1][0]})

	run := func(i int) {
		pl := plans[i%len(plans)]
		g := r.Rng("start", i)
		var reasons []string
		var closers []func()
		defer func() {
			for _, c := range closers {
				c()
			}
		}()
		var neighbour *proc
		address := func(kind string) (string, bool) {
			a := ""
			switch kind {
			case "":
				return "", true
			case "in use":
				l, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					r.Inconclusive("listen: %v", err)
					return "", false
				}
				closers = append(closers, func() { l.Close() })
				a = l.Addr().String()
			case "in use by a server", "in use by a secure server":
				var conf *tls.Config
				var env []string
				if kind == "in use by a secure server" {
					conf, env = cr.conf(0, 0, "http/1.1"), cr.env()
				}
				p, err := startServer(r, g, conf, env...)
				if err != nil {
					r.Violate("start", err.Error(), nil)
					return "", false
				}
				if p == nil {
					return "", false
				}
				closers = append(closers, p.stop)
				neighbour = p
				for _, l := range p.listeners() {
					if l == p.addr {
						a = p.addr
					}
				}
				if a == "" {
					r.Inconclusive("the running server is not seen listening at %s", p.addr)
					return "", false
				}
			case "port too large":
				a = "127.0.0.1:99999"
			case "negative port":
				a = "127.0.0.1:-1"
			case "named port":
				a = "127.0.0.1:nosuchport"
			case "no port":
				a = "127.0.0.1"
			case "other host":
				a = "192.0.2.1:18080"
			case "unknown host":
				a = "no.such.host.invalid:18080"
			case "two colons":
				a = "127.0.0.1:80:80"
			case "equal":
				a = fmt.Sprintf("127.0.0.1:%d", freePort())
				reasons = append(reasons, "address already in use")
				return a, true
			}
			l, err := net.Listen("tcp", a)
			if err == nil {
				l.Close()
				r.Count("causes that are none here", 1)
				return "", false
			}
			reasons = append(reasons, lastPart(err))
			if kind == "unknown host" {
				reasons = append(reasons, "lookup ", "no such host", "no.such.host")
			}
			return a, true
		}
		api, ok := address(pl.http)
		if !ok {
			return
		}
		adm := api
		if pl.admin != "equal" {
			if adm, ok = address(pl.admin); !ok {
				return
			}
		}
		var env []string
		certOK := true
		for _, c := range certs {
			if c[0] == pl.cert {
				_, err := tls.LoadX509KeyPair(c[1], c[2])
				if err == nil {
					r.Inconclusive("%s loads", c[0])
					return
				}
				reasons = append(reasons, lastPart(err))
				certOK = false
				env = []string{"HTTPS_CERT_FILE=" + c[1], "HTTPS_KEY_FILE=" + c[2]}
			}
		}
		if pl.cert == "good" {
			env = cr.env()
		}
		p, err := launchAt(r, g, api, adm, env...)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return
		}
		defer p.stop()
		what := fmt.Sprintf("API address %q, admin address %q, certificate %q", pl.http, pl.admin, pl.cert)
		info := func() any {
			o, e := p.output()
			return map[string]any{"server": p.describe, "wrong": what, "stdout": truncEnd(o), "stderr": truncEnd(e)}
		}
		seen := map[string]bool{}
		strange := ""
		polls := 0
		patience := manyPolls
		if stays.Load() > 2 { // it is known that they do not end
			patience = 600
		}
		p.poll(patience, func() bool {
			if p.hasExited() {
				return true
			}
			if polls++; polls > 500 && polls%25 != 0 {
				return false
			}
			for _, l := range p.listeners() {
				seen[l] = true
				if l != p.addr && l != p.admin {
					strange = l
					return true
				}
			}
			if !certOK && pl.http == "" {
				if rep, err := plain(p.addr, "GET", "/ping", nil); err == nil && rep.Status == 200 {
					strange = "(without TLS) " + p.addr
					return true
				}
			}
			return false
		})
		r.Eval(1)
		r.Distinct(pl.http, pl.admin, pl.cert, p.describe["arguments"] != nil, len(p.dead), i)
		r.Count("starts that must fail", 1)
		if m := p.crashed(); m != "" {
			r.Violate("crash:"+causeOf(pl.http, pl.admin, pl.cert), "the server crashes: "+m, info())
			return
		}
		if strange != "" {
			r.Violate("elsewhere:"+causeOf(pl.http, pl.admin, pl.cert), fmt.Sprintf("%s: the server serves at %s", what, strange), info())
			return
		}
		if !p.hasExited() {
			stays.Add(1)
			r.Violate("no end:"+causeOf(pl.http, pl.admin, pl.cert), what+": the server keeps running", info())
			return
		}
		r.Count("processes that ended", 1)
		o, e := p.output()
		if !slices.ContainsFunc(reasons, func(s string) bool { return strings.Contains(o+e, s) }) {
			r.Violate("silent:"+causeOf(pl.http, pl.admin, pl.cert), fmt.Sprintf("%s: none of %q is reported", what, reasons), info())
		} else {
			r.Count("reasons reported", 1)
		}
		if neighbour != nil {
			n := neighbour
			d := newDev(g, algOf(i))
			a := clientAPI(n.client(n.tls, false), n.url())
			for k := 0; k < 3; k++ {
				if k == 0 {
					if _, err := a.Create(d.base(3)); err != nil {
						r.Violate("neighbour", "the server that was running fails: "+err.Error(), info())
						return
					}
				}
				m, err := a.Get(d.ik())
				if err == nil {
					err = d.checkDesc(m)
				}
				if err != nil {
					r.Violate("neighbour", "the server that was running answers wrongly: "+err.Error(), info())
					return
				}
				r.Count("answers of servers that were running", 1)
			}
		}
		if r.WantSample(causeOf(pl.http, pl.admin, pl.cert)) {
			r.Sample(causeOf(pl.http, pl.admin, pl.cert), info())
		}
	}
	n := len(plans) * r.Pick(1, 12)
	r.Parallel(n, run)
	r.Require("starts that must fail", n*8/10)
	r.Require("processes that ended", n*8/10)
	r.Extra("causes", map[string]any{"addresses": addrs, "certificates": len(certs), "plans": len(plans)})
}

func causeOf(parts ...string) string {
	var out []string
	for i, p := range parts {
		if p != "" {
			out = append(out, []string{"API", "admin", "certificate"}[i]+" "+p)
		}
	}
	return strings.Join(out, ", ")
}
