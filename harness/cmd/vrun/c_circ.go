package main

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/mon"
)

// Circumstances under which a program may be started and left alone: they say nothing about what
// it is to do, and so it must serve, go on serving, and end when it is told to.
var circumstances = []struct{ name, script string }{
	{"parent gone", `"$@" & echo $! > pid`},
	{"parent gone later", `"$@" & echo $! > pid; sleep 2`},
	{"session of its own", `setsid "$@" & echo $! > pid`},
	{"nohup", `nohup "$@" > out & echo $! > pid`},
	{"standard input closed", `"$@" <&- & echo $! > pid`},
	{"standard input never read", `mkfifo in; sleep 60 > in & echo $! > pid2; "$@" < in & echo $! > pid`},
	{"standard output closed", `"$@" >&- & echo $! > pid`},
	{"standard error closed", `"$@" 2>&- & echo $! > pid`},
	{"everything closed", `"$@" <&- >&- 2>&- & echo $! > pid`},
	{"working directory removed", `mkdir gone; cd gone; "$@" & echo $! > ../pid; rmdir ../gone`},
	{"root directory", `d=$PWD; cd /; "$@" & echo $! > "$d/pid"`},
	{"lowest priority", `nice -n 19 "$@" & echo $! > pid`},
	{"umask 777", `touch pid; umask 777; "$@" & echo $! > pid`},
	{"no environment", `env -i "$@" & echo $! > pid`},
	{"another name", `ln -s "$1" ./-other; shift; ./-other "$@" & echo $! > pid`},
	{"one processor", `if taskset -c 0 true 2> /dev/null; then taskset -c 0 "$@" & else "$@" & fi; echo $! > pid`},
	{"three processors", `if taskset -c 0-2 true 2> /dev/null; then taskset -c 0-2 "$@" & else "$@" & fi; echo $! > pid`},
	{"no core file", `ulimit -c 0; "$@" & echo $! > pid`},
	{"files that nobody named", `"$@" & echo $! > pid`},
	{"stopped and continued", `"$@" & echo $! > pid`},
}

func underCircumstances(r *mon.Run, creds *credentials, n int) {
	looked := filepath.Join(*scratch, "looked")
	os.MkdirAll(looked, 0o755)
	sought, seen := soughtFiles(looked, nil, 3*time.Second, *binServer, fmt.Sprintf("-http.addr=127.0.0.1:%d", freePort()), fmt.Sprintf("-admin.addr=127.0.0.1:%d", freePort()))
	r.Count("names of files that it asked for", seen)
	sought = slices.DeleteFunc(sought, func(n string) bool { // this check's own
		first, _, _ := strings.Cut(n, "/")
		return first == "log" || first == "pid" || first == "pid2"
	})
	r.Parallel(n, func(i int) {
		g := r.Rng("circumstances", i)
		circ := circumstances[i%len(circumstances)]
		var conf *tls.Config
		var env []string
		if g.IntN(3) == 0 && circ.name != "no environment" {
			conf, env = creds.conf(0, 0, "http/1.1"), creds.env()
		}
		dir := filepath.Join(*scratch, fmt.Sprintf("circ%d", i))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		addr, admin := fmt.Sprintf("127.0.0.1:%d", freePort()), fmt.Sprintf("127.0.0.1:%d", freePort())
		if circ.name == "files that nobody named" {
			other := fmt.Sprintf("127.0.0.1:%d", freePort())
			putFiles(g, dir, sought, map[string]string{"http.addr": other, "admin.addr": other, "log.format": "json", "http_bind_address": other, "http_admin_bind_address": other, "https_cert_file": "/nonexistent", "https_key_file": "/nonexistent"}, "")
		}
		sh := exec.Command("/bin/sh", "-c", circ.script, "sh", *binServer, "-http.addr="+addr, "-admin.addr="+admin)
		sh.Dir, sh.Env = dir, append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=all"}, env...)
		fh, err := os.Create(filepath.Join(dir, "log"))
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer fh.Close()
		sh.Stdout, sh.Stderr = fh, fh
		if err := sh.Run(); err != nil {
			r.Inconclusive("%s: %v", circ.name, err)
			return
		}
		number := func(name string) int {
			b, _ := os.ReadFile(filepath.Join(dir, name))
			pid, _ := strconv.Atoi(strings.TrimSpace(string(b)))
			return pid
		}
		pid := number("pid")
		if pid <= 1 {
			r.Inconclusive("%s: no process", circ.name)
			return
		}
		// gone: ended, or nothing but its entry is left
		gone := func(pid int) bool {
			b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
			if err != nil {
				return true
			}
			_, rest, ok := strings.Cut(string(b), ") ")
			return ok && (rest[0] == 'Z' || rest[0] == 'X')
		}
		defer func() {
			if p2 := number("pid2"); p2 > 1 && !gone(p2) {
				syscall.Kill(p2, syscall.SIGKILL)
			}
			if !gone(pid) {
				syscall.Kill(pid, syscall.SIGKILL)
			}
		}()
		p := &proc{r: r, exited: make(chan struct{}), dir: dir, addr: addr, admin: admin, tls: conf}
		info := func() any {
			b, _ := os.ReadFile(filepath.Join(dir, "log"))
			return map[string]any{"circumstances": circ.name, "shell": circ.script, "tls": conf != nil, "output": truncEnd(string(b))}
		}
		up := false
		p.poll(manyPolls, func() bool {
			rep, err := p.one(conf, "GET", "/ping", nil)
			up = err == nil && rep.Status == 200
			return up || gone(pid)
		})
		if !up {
			b, _ := os.ReadFile(filepath.Join(dir, "log"))
			if strings.Contains(string(b), "address already in use") {
				r.Count("ports taken by others", 1)
				return
			}
			r.Violate("circumstances:start:"+circ.name, fmt.Sprintf("a server that was started with %s does not serve (ended: %v)", circ.name, gone(pid)), info())
			return
		}
		const counter = 4
		hc := p.client(conf, false)
		a := clientAPI(hc, p.url())
		d := newDev(g, algOf(i))
		if _, err := a.Create(d.base(counter)); err != nil {
			r.Violate("circumstances:api:"+circ.name, fmt.Sprintf("create: %v", err), info())
			return
		}
		use := func(when string) bool {
			for _, fn := range machineOps {
				q := d.genOp(g, fn, counter)
				for fn == "decrypt_pin" && len(q.Pin) < 7 {
					q = d.genOp(g, fn, counter)
				}
				q.forJSON()
				got, err := a.Op(fn, d.ik(), q)
				if err == nil {
					err = d.judgeOp(d.tk(counter), counter, fn, q, got, true)
				}
				if err != nil {
					r.Violate("circumstances:api:"+circ.name, fmt.Sprintf("%s %s (%s): %v (ended: %v)", fn, when, circ.name, err, gone(pid)), info())
					return false
				}
				r.Eval(1)
				r.Count("operations under circumstances", 1)
			}
			return true
		}
		if !use("at first") {
			return
		}
		for x := 0; x < 3; x++ {
			if circ.name == "stopped and continued" {
				syscall.Kill(pid, syscall.SIGSTOP)
			}
			time.Sleep(time.Duration(r.Pick(2500, 15000)) * time.Millisecond)
			syscall.Kill(pid, syscall.SIGCONT)
			r.Progress()
			if !use("some time later") {
				return
			}
		}
		hc.CloseIdleConnections()
		syscall.Kill(pid, syscall.SIGTERM)
		if !p.poll(manyPolls, func() bool { return gone(pid) }) {
			r.Violate("circumstances:end:"+circ.name, "the server does not end when it is told to", info())
			return
		}
		r.Count("servers under circumstances", 1)
		r.Distinct("circumstances", circ.name, conf != nil)
	})
}

// longService: what a server has served does not matter. It is given many requests, operations and
// errors, over few connections and over many, and serves as on its first day; then it ends when told.
func longService(r *mon.Run, creds *credentials, i, total int) {
	g := r.Rng("long service", i)
	secure := i%2 == 1
	var conf *tls.Config
	var env []string
	if secure {
		conf, env = creds.conf(0, 0, "http/1.1"), creds.env()
		total /= 2
	}
	p, err := startServer(r, g, conf, env...)
	if err != nil {
		r.Violate("start", err.Error(), nil)
		return
	}
	if p == nil {
		return
	}
	defer p.stop()
	const counter = 6
	var served atomic.Int64
	info := func(x any) any {
		_, e := p.output()
		return map[string]any{"server": p.describe, "tls": secure, "requests before": served.Load(), "case": x, "stderr": truncEnd(e)}
	}
	a := clientAPI(p.client(conf, false), p.url())
	d := newDev(g, algOf(g.IntN(2)))
	if _, err := a.Create(d.base(counter)); err != nil {
		r.Violate("api", "create: "+err.Error(), info(d.show()))
		return
	}
	type request struct {
		text   string
		status int
		has    string
	}
	var reqs []request
	for _, fn := range []string{"encrypt_data", "generate_mac", "encrypt_pin"} {
		q := d.genOp(g, fn, counter)
		q.forJSON()
		got, err := a.Op(fn, d.ik(), q)
		if err == nil {
			err = d.judgeOp(d.tk(counter), counter, fn, q, got, true)
		}
		if err != nil {
			r.Violate("long service:api", fmt.Sprintf("%s: %v", fn, err), info(q))
			return
		}
		if fn == "encrypt_pin" { // its padding may be random
			got = `"encrypted":"`
		}
		b := jsonBody(opBody(fn, q))
		reqs = append(reqs, request{fmt.Sprintf("POST /%s/%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", fn, d.ik(), len(b), b), 200, got})
	}
	reqs = append(reqs,
		request{"GET /ping HTTP/1.1\r\nHost: x\r\n\r\n", 200, "PONG"},
		request{"GET /machine/" + d.ik() + " HTTP/1.1\r\nHost: x\r\n\r\n", 200, hx(d.ksnAt(counter))},
		request{"GET /machines HTTP/1.1\r\nHost: x\r\n\r\n", 200, hx(d.ksnAt(counter))},
		request{"GET /machine/00 HTTP/1.1\r\nHost: x\r\n\r\n", 404, "error"},
		request{"GET /nothing HTTP/1.1\r\nHost: x\r\n\r\n", 404, ""},
		request{"POST /encrypt_data/" + d.ik() + " HTTP/1.1\r\nHost: x\r\nContent-Length: 1\r\n\r\n{", 0, "error"})
	var failed atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		g := r.Rng("long service", i*100+w+10)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < total/8 && !failed.Load(); {
				err := func() error {
					c, err := p.dial(conf, 0)
					if err != nil {
						return fmt.Errorf("dial: %w", err)
					}
					defer c.Close()
					c.SetDeadline(time.Now().Add(120 * time.Second))
					br := bufio.NewReader(c)
					r.Count("connections of a long service", 1)
					many := 1 + g.IntN(8)
					if w < 4 || n > 5000 {
						many = 2000
					}
					for ; many > 0 && n < total/8; many-- {
						q := reqs[g.IntN(len(reqs))]
						if _, err := io.WriteString(c, q.text); err != nil {
							return err
						}
						rep, err := readReply(br, q.text[:3])
						if err != nil {
							return err
						}
						if q.status != 0 && rep.Status != q.status || q.status == 0 && rep.Status < 400 || !strings.Contains(strings.ToUpper(string(rep.Body)), strings.ToUpper(q.has)) {
							return fmt.Errorf("%q: %d %q", q.text[:20], rep.Status, clip(rep.Body))
						}
						n++
						if served.Add(1)%256 == 0 {
							r.Progress()
						}
					}
					return nil
				}()
				if err != nil && !failed.Swap(true) {
					r.Violate("long service", fmt.Sprintf("after %d requests the server does not serve as before: %v", served.Load(), err), info(nil))
				}
			}
		}()
	}
	wg.Wait()
	r.Eval(int(served.Load()))
	r.Count("requests of a long service", int(served.Load()))
	if failed.Load() {
		return
	}
	// also some time later
	for x := 0; x < 10; x++ {
		if rep, err := p.one(conf, "GET", "/machine/"+d.ik(), nil); err != nil || rep.Status != 200 || !strings.Contains(string(rep.Body), hx(d.ksnAt(counter))) {
			r.Violate("long service", fmt.Sprintf("after %d requests the server does not serve as before: %v %d", served.Load(), err, rep.Status), info(nil))
			return
		}
		time.Sleep(200 * time.Millisecond)
	}
	p.cmd.Process.Signal(syscall.SIGTERM)
	if !p.poll(manyPolls, p.hasExited) {
		r.Violate("long service:end", "the server does not end when it is told to", info(nil))
		return
	}
	r.Distinct("long service", secure, i)
	r.Count("long services", 1)
}
