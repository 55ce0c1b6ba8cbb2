package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/iotest"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
)

func init() {
	register("C19", "random sequences of well-formed requests over all routes on several machines (TDES and AES, all key sizes, PIN formats, MAC types, actions, IVs; exotic JSON spellings, percent-encoded paths, unused fields, queries and headers), at the handler and over TCP: status, JSON fields and values are compared with the reference model of that operation on that machine's current KSN, including decryption of what was encrypted over HTTP; every operation together with query parameters and headers of the names the code looks up and of those that clients send; bodies around powers of two up to 1 MiB, long lives of one site, and clients with requests of the same sizes at the same time. Distinct by (route, machine, counter, parameters).", c19)
	register("C20", "every route x every cause of failure (unknown machine, duplicate, each kind of malformed creation, exhausted KSN, each kind of rejected parameter, malformed JSON, storage faults) and hostile random parameters whose success is decided by a twin call at the service; status, JSON shape, error text and absence of results are checked. Distinct by (route, cause, parameters).", c20)
	register("C21", "hostile requests as raw bytes over TCP (methods, encoded and huge paths, headers, broken, truncated, nested and wrongly typed bodies, chunking, pipelining, half-closed connections) and at the handler with failing bodies, while well-formed requests run on the same server; the server program is sent requests that announce up to 2^63 bytes or bring tens of MiB of one thing (nesting, escapes, digits, ...) beside well-formed ones and must survive; every request must get a complete response, the server error log must show no panic, and well-formed requests must stay correct. Distinct by request bytes.", c21)
	register("C27", "allowed and not allowed origins (near misses of both prefixes, letter case, credentials, controls, missing, two of them) x pre-flight of arbitrary paths, ping, every API operation executed with success and with failure, malformed requests and unknown routes; Access-Control-Allow-Origin is compared with the rule. Distinct by (origin, request, status).", c27)
}

// site is one running instance of the HTTP API with a model of its machines
type site struct {
	what string
	do   func(method, path string, header map[string]string, body []byte) (reply, error)
	s    server.Service
	done func()
}

// body of a request as a client may send it: of known or unknown length, in pieces
func bodyReader(kind int, body []byte) io.Reader {
	switch kind {
	case 1: // unknown length
		return io.MultiReader(bytes.NewReader(body))
	case 2:
		return iotest.OneByteReader(bytes.NewReader(body))
	case 3:
		return iotest.DataErrReader(iotest.HalfReader(bytes.NewReader(body)))
	case 4:
		return io.MultiReader(bytes.NewReader(body[:len(body)/2]), bytes.NewReader(nil), bytes.NewReader(body[len(body)/2:]))
	}
	return bytes.NewReader(body)
}

// nextValue separates the values of a header that is sent more than once
const nextValue = "\x00;\x00"

// setHeader sets headers, some of them more than once

func setHeader(h http.Header, header map[string]string) {
	for k, v := range header {
		h[http.CanonicalHeaderKey(k)] = strings.Split(v, nextValue)
	}
}

func newSite(i int, s server.Service) *site {
	h := server.MakeHTTPHandler(s)
	var sent atomic.Uint64 // how the next body is sent; every second one plainly
	kind := func() int {
		if n := int(sent.Add(1)) + i; n%2 == 0 {
			return n / 2 % 5
		}
		return 0
	}
	if i%4 != 3 {
		return &site{"handler", func(method, path string, header map[string]string, body []byte) (reply, error) {
			req := surroundings(httptest.NewRequest(method, path, bodyReader(kind(), body)), int(sent.Load())+i)
			setHeader(req.Header, header)
			w := httptest.NewRecorder()
			h.ServeHTTP(w, req)
			return reply{w.Code, w.Header(), w.Body.Bytes()}, nil
		}, s, func() {}}
	}
	srv := httptest.NewUnstartedServer(h)
	if i/4%3 == 1 { // the other loopback address, if there is one
		if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
			srv.Listener.Close()
			srv.Listener = l
		}
	}
	srv.Start()
	if i/4%3 == 2 { // an old client: HTTP/1.0, a connection for each request
		return &site{"HTTP/1.0", func(method, path string, header map[string]string, body []byte) (reply, error) {
			return oldRequest(srv.Listener.Addr().String(), method, path, header, body)
		}, s, srv.Close}
	}
	c := srv.Client()
	c.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	return &site{"tcp", func(method, path string, header map[string]string, body []byte) (reply, error) {
		req, err := http.NewRequest(method, srv.URL+path, bodyReader(kind(), body))
		if err != nil {
			return reply{}, err
		}
		setHeader(req.Header, header)
		resp, err := c.Do(req)
		if err != nil {
			return reply{}, err
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		return reply{resp.StatusCode, resp.Header, b}, err
	}, s, func() { c.CloseIdleConnections(); srv.Close() }}
}

// oldRequest sends a request as HTTP/1.0 clients do
func oldRequest(addr, method, path string, header map[string]string, body []byte) (reply, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return reply{}, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(100 * time.Second))
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.0\r\n", method, path)
	for k, v := range header {
		for _, v := range strings.Split(v, nextValue) {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
	}
	if len(body) > 0 || method == "POST" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	if len(body) > 1000 { // the server is then to read what it does not want, too
		b.WriteString("Connection: keep-alive\r\n")
	}
	b.WriteString("\r\n")
	b.Write(body)
	if _, err := c.Write(b.Bytes()); err != nil {
		return reply{}, err
	}
	return readReply(bufio.NewReader(c), method)
}

// oddJSON writes an object in an unusual but equivalent way
func oddJSON(g rng, m map[string]any) []byte {
	if g.IntN(3) > 0 {
		return jsonBody(m)
	}
	var b bytes.Buffer
	b.WriteString(strings.Repeat(" \n\t", g.IntN(3)) + "{")
	n := 0
	for k, v := range m {
		if n > 0 {
			b.WriteString(" ,\r\n")
		}
		n++
		s := v.(string)
		b.WriteString(`"` + k + `" : "`)
		for _, c := range s {
			if c < 0x80 && g.IntN(3) > 0 && c >= 32 && c != '"' && c != '\\' {
				b.WriteRune(c)
			} else if c < 0x10000 {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				b.WriteRune(c)
			}
		}
		b.WriteString(`"`)
	}
	if g.IntN(2) == 0 {
		if n > 0 {
			b.WriteString(",")
		}
		b.WriteString(`"note":{"x":[1,2,{"y":null}]},"unused":12.5e3`)
	}
	b.WriteString("}" + strings.Repeat("\n ", g.IntN(3)))
	return b.Bytes()
}

// percent spells some characters of a path segment by their codes
func percent(g rng, s string) string {
	var b strings.Builder
	all := g.IntN(3) == 0
	for i := 0; i < len(s); i++ {
		if all || g.IntN(4) == 0 {
			fmt.Fprintf(&b, []string{"%%%02x", "%%%02X"}[g.IntN(2)], s[i])
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func utf8Text(g rng, n int) string {
	var b strings.Builder
	for b.Len() < n {
		switch g.IntN(5) {
		case 0:
			b.WriteString([]string{"é", "日本", "😀", "\u0000", "\u2028", "<&>", `"`, `\`, "\n", "\u007f"}[g.IntN(10)])
		default:
			b.WriteByte(byte(32 + g.IntN(95)))
		}
	}
	return b.String()
}

// okJSON checks status 200, a JSON object and a null error; it returns the fields
func okJSON(rep reply) (map[string]json.RawMessage, error) {
	if rep.Status != 200 {
		return nil, fmt.Errorf("status %d, body %q", rep.Status, clip(rep.Body))
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(rep.Body, &m); err != nil {
		return nil, fmt.Errorf("status 200 with body %q", clip(rep.Body))
	}
	if e, ok := m["error"]; ok && string(e) != "null" {
		return nil, fmt.Errorf("status 200 with error %s", e)
	}
	return m, nil
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func field[T any](m map[string]json.RawMessage, name string) (v T, err error) {
	raw, ok := m[name]
	if !ok {
		return v, fmt.Errorf("no field %q", name)
	}
	return v, json.Unmarshal(raw, &v)
}

func c19(r *mon.Run) {
	extraRequests(r)
	r.Parallel(r.Pick(400, 12000), func(i int) {
		g := r.Rng("requests", i)
		st := newSite(i, newService())
		defer st.done()
		devs := newDevs(g, 2+g.IntN(2))
		cur := map[string]uint32{}
		start := map[string]server.BaseKey{}
		var last string
		fail := func(sig, format string, a ...any) {
			r.Violate(sig+":"+st.what, fmt.Sprintf(format, a...), map[string]any{"request": last})
		}
		send := func(method, path string, body []byte) (map[string]json.RawMessage, bool) {
			if k := strings.LastIndexByte(path, '/'); k > 0 && g.IntN(4) == 0 { // the initial key in another spelling of the same path
				path = path[:k+1] + percent(g, path[k+1:])
				r.Count("percent-encoded paths", 1)
			}
			if g.IntN(6) == 0 {
				path += "?q=1&ik=ffff&pin=0000"
			}
			hd := map[string]string{}
			if g.IntN(2) == 0 {
				hd["Content-Type"] = []string{"application/json", "text/plain", "application/x-www-form-urlencoded"}[g.IntN(3)]
			}
			if g.IntN(4) == 0 {
				hd["X-Request-Id"] = hx(rbytes(g, 4))
			}
			last = fmt.Sprintf("%s %s %q", method, path, body)
			rep, err := st.do(method, path, hd, body)
			r.Eval(1)
			r.Count("requests "+st.what, 1)
			r.Distinct(method, path, body, i)
			if err != nil {
				fail("transport", "%v", err)
				return nil, false
			}
			m, err := okJSON(rep)
			if err != nil {
				fail("status:"+strings.SplitN(path[1:], "/", 2)[0], "%v", err)
				return nil, false
			}
			if r.WantSample(method + " " + strings.SplitN(strings.SplitN(path[1:], "/", 2)[0], "?", 2)[0]) {
				r.Sample(method+" "+strings.SplitN(strings.SplitN(path[1:], "/", 2)[0], "?", 2)[0], map[string]any{"request": last, "response": string(clip(rep.Body))})
			}
			return m, true
		}
		machine := func(route string, d *dev, m *server.Machine) bool {
			c := cur[d.ik()]
			b := start[d.ik()]
			want := server.Machine{BaseKey: b, InitialKey: d.ik(), CurrentKSN: hx(d.ksnAt(c)), TransactionKey: hx(d.tk(c))}
			if m == nil {
				fail("machine:"+route, "no machine")
				return false
			}
			want.CreatedAt = m.CreatedAt
			if !same(*m, want) {
				fail("machine:"+route, "got %+v, want %+v", *m, want)
				return false
			}
			return true
		}
		r.Guard(func() any { return last }, func() {
			for _, d := range devs {
				c := startAt(g, d)
				b := d.base(c)
				b.BaseDerivativeKey, b.KeySerialNumber = hexCaseS(g, b.BaseDerivativeKey), hexCaseS(g, b.KeySerialNumber)
				m, ok := send("POST", "/machine", oddJSON(g, map[string]any{"Algorithm": b.Algorithm, "AlgorithmKey": b.AlgorithmKey, "BaseDerivativeKey": b.BaseDerivativeKey, "KeySerialNumber": b.KeySerialNumber}))
				if !ok {
					return
				}
				cur[d.ik()], start[d.ik()] = c, b
				ik, err := field[string](m, "ik")
				if err != nil || ik != d.ik() {
					fail("ik:machine", "ik is %q (%v), want %q", ik, err, d.ik())
					return
				}
				mm, err := field[*server.Machine](m, "machine")
				if err != nil {
					fail("machine:create", "%v", err)
					return
				}
				if !machine("create", d, mm) {
					return
				}
			}
			for n := 0; n < 14; n++ {
				d := devs[g.IntN(len(devs))]
				ik := d.ik()
				c := cur[ik]
				switch y := g.IntN(12); {
				case y < 1:
					m, ok := send("GET", "/machine/"+ik, nil)
					if !ok {
						return
					}
					mm, err := field[*server.Machine](m, "machine")
					if err != nil {
						fail("machine:get", "%v", err)
						return
					}
					machine("get", d, mm)
				case y < 2:
					m, ok := send("GET", "/machines", nil)
					if !ok {
						return
					}
					ms, err := field[[]*server.Machine](m, "machines")
					if err != nil || len(ms) != len(devs) {
						fail("machines", "%d machines (%v)", len(ms), err)
						return
					}
					for _, mm := range ms {
						k := -1
						if mm != nil {
							k = findDev(devs, mm.InitialKey)
						}
						if k < 0 {
							fail("machines", "unknown machine %+v", mm)
							return
						}
						machine("list", devs[k], mm)
					}
				case y < 4:
					nc, more := d.next(c)
					if !more {
						continue
					}
					m, ok := send("POST", "/generate_ksn/"+ik, [][]byte{nil, []byte("{}"), []byte("not json")}[g.IntN(3)])
					if !ok {
						return
					}
					cur[ik] = nc
					k, err := field[string](m, "ksn")
					if err != nil || !sameHex(k, hx(d.ksnAt(nc))) {
						fail("ksn", "ksn is %q (%v), want %s", k, err, hx(d.ksnAt(nc)))
						return
					}
				default:
					fn := machineOps[g.IntN(len(machineOps))]
					p := d.genOp(g, fn, c)
					switch fn {
					case "generate_mac":
						p.Data = utf8Text(g, 1+g.IntN(100))
						if d.aes() && g.IntN(4) == 0 {
							p.Data = "" // the MAC of an empty message
						}
					case "encrypt_data":
						p.Data = utf8Text(g, g.IntN(100))
					case "decrypt_data": // of something encrypted over HTTP
						plain := utf8Text(g, 1+g.IntN(100))
						m, ok := send("POST", "/encrypt_data/"+ik, oddJSON(g, opBody("encrypt_data", opParams{Data: plain, Action: p.Action, IV: p.IV})))
						if !ok {
							return
						}
						ct, err := field[string](m, "encrypted")
						if err != nil {
							fail("field:encrypt_data", "%v", err)
							return
						}
						p.Data = ct
						if m, ok = send("POST", "/decrypt_data/"+ik, oddJSON(g, opBody("decrypt_data", p))); !ok {
							return
						}
						got, err := field[string](m, "data")
						if err != nil || strings.TrimRight(got, "\x00") != strings.TrimRight(plain, "\x00") || len(got) != len(ct)/2 {
							fail("roundtrip:data", "decrypted %q (%v), encrypted %q", got, err, plain)
							return
						}
						r.Count("round trips over HTTP", 1)
						continue
					case "decrypt_pin":
						if d.aes() || g.IntN(2) == 0 {
							m, ok := send("POST", "/encrypt_pin/"+ik, oddJSON(g, opBody("encrypt_pin", opParams{Pin: p.Pin, Pan: p.Pan, Format: isoIfFull(d, p)})))
							if !ok {
								return
							}
							ct, err := field[string](m, "encrypted")
							if err != nil {
								fail("field:encrypt_pin", "%v", err)
								return
							}
							q := p
							q.Format, q.Data = isoIfFull(d, p), ct
							if m, ok = send("POST", "/decrypt_pin/"+ik, oddJSON(g, opBody("decrypt_pin", q))); !ok {
								return
							}
							got, err := field[string](m, "decrypted")
							if err != nil || got != p.Pin {
								fail("roundtrip:pin", "decrypted %q (%v), encrypted %q", got, err, p.Pin)
								return
							}
							r.Count("round trips over HTTP", 1)
						}
					}
					m, ok := send("POST", "/"+fn+"/"+ik, oddJSON(g, withEmpty(g, fn, opBody(fn, p))))
					if !ok {
						return
					}
					got, err := field[string](m, opField(fn))
					if err == nil {
						err = d.judgeOp(d.tk(c), c, fn, p, got, true)
					}
					if err != nil {
						fail("result:"+fn, "%v (device %v, counter %#x)", err, d.show(), c)
						return
					}
				}
			}
		})
	})
	r.Require("percent-encoded paths", 500)
	// clients with requests of the same sizes at the same time, each for a machine of its own: nothing of
	// one may come into that of another
	for round := 0; round < r.Pick(12, 120) && !r.Violated(); round++ {
		size := []int{1100, 4096, 300, 20000, 70000, 1 << 18}[round%6] &^ 15
		each := min(r.Pick(300, 1000), r.Pick(4, 16)<<20/size)
		s := newService()
		h := server.MakeHTTPHandler(s)
		overTCP := round%12 >= 8
		var srv *httptest.Server
		if overTCP {
			srv = httptest.NewServer(h)
			srv.Client().Transport.(*http.Transport).MaxIdleConnsPerHost = 32
		}
		var wg sync.WaitGroup
		for w := 0; w < 16; w++ {
			g := r.Rng("together", round*100+w+50)
			d := ownDev(g, algOf(w))
			if err := s.CreateMachine(server.NewMachine(d.base(7))); err != nil {
				r.Violate("create", err.Error(), d.show())
				break
			}
			type request struct {
				fn, path string
				p        opParams
				body     []byte
				want     string
			}
			var reqs []*request
			for x := 0; x < 4; x++ {
				fn := []string{"generate_mac", "encrypt_data", "decrypt_data", machineOps[g.IntN(len(machineOps))]}[x]
				p := d.genOp(g, fn, 7)
				for fn == "decrypt_pin" && len(p.Pin) < 7 {
					p = d.genOp(g, fn, 7)
				}
				if fn == "generate_mac" || fn == "encrypt_data" || fn == "decrypt_data" {
					p.Data = word(g, size/(1+x/2))
					if fn == "decrypt_data" {
						p.Data = hx(rbytes(g, size/32*16))
					}
				}
				p.forJSON()
				reqs = append(reqs, &request{fn, "/" + fn + "/" + d.ik(), p, jsonBody(opBody(fn, p)), ""})
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard(func() any { return d.show() }, func() {
					for n := 0; n < each && !r.Violated(); n++ {
						q := reqs[g.IntN(len(reqs))]
						var rep reply
						if overTCP {
							resp, err := srv.Client().Post(srv.URL+q.path, "application/json", bytes.NewReader(q.body))
							if err != nil {
								r.Violate("together:transport", err.Error(), nil)
								return
							}
							b, err := io.ReadAll(resp.Body)
							resp.Body.Close()
							if err != nil {
								r.Violate("together:transport", err.Error(), nil)
								return
							}
							rep = reply{resp.StatusCode, resp.Header, b}
						} else {
							w := httptest.NewRecorder()
							h.ServeHTTP(w, httptest.NewRequest("POST", q.path, bytes.NewReader(q.body)))
							rep = reply{w.Code, w.Header(), w.Body.Bytes()}
						}
						m, err := okJSON(rep)
						var got string
						if err == nil {
							got, err = field[string](m, opField(q.fn))
						}
						switch {
						case err != nil:
						case q.want != "" && got != q.want:
							err = fmt.Errorf("another answer than before: %q, before %q", clip([]byte(got)), clip([]byte(q.want)))
						case q.want == "":
							if err = d.judgeOp(d.tk(7), 7, q.fn, q.p, got, true); q.fn != "encrypt_pin" {
								q.want = got
							}
						}
						if err != nil {
							r.Violate("together:"+q.fn, fmt.Sprintf("beside requests of the same size: %v", err), map[string]any{"device": d.show(), "size": size, "tcp": overTCP, "body": string(clip(q.body)), "response": string(clip(rep.Body))})
							return
						}
						r.Eval(1)
						r.Count("requests beside others of the same size", 1)
						if n%64 == 0 {
							r.Progress()
						}
					}
				})
			}()
			r.Distinct("together", size, overTCP, d.ik())
		}
		wg.Wait()
		if srv != nil {
			srv.Close()
		}
	}
	r.Require("requests beside others of the same size", 10000)
	// many requests in progress at the same time: all have arrived in part before any is completed
	for round := 0; round < r.Pick(2, 12); round++ {
		g := r.Rng("crowd", round)
		n := []int{600, 1500}[round%2]
		s := newService()
		srv := httptest.NewServer(server.MakeHTTPHandler(s))
		srv.Config.ErrorLog = log.New(io.Discard, "", 0)
		d := newDev(g, algOf(round))
		if err := s.CreateMachine(server.NewMachine(d.base(7))); err != nil {
			r.Violate("create", err.Error(), d.show())
			break
		}
		var arrived, done sync.WaitGroup
		release := make(chan struct{})
		for x := 0; x < n; x++ {
			g := r.Rng("crowd", round*10000+x)
			fn := machineOps[x%len(machineOps)]
			p := d.genOp(g, fn, 7)
			p.forJSON()
			body := jsonBody(opBody(fn, p))
			arrived.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				var once sync.Once
				here := func() { once.Do(arrived.Done) }
				defer here()
				info := map[string]any{"device": d.show(), "route": fn, "requests in progress": n, "body": string(clip(body))}
				r.Guard(func() any { return info }, func() {
					c, err := net.Dial("tcp", srv.Listener.Addr().String())
					if err != nil {
						r.Count("connections the system refused", 1)
						return
					}
					defer c.Close()
					c.SetDeadline(time.Now().Add(120 * time.Second))
					cut := g.IntN(len(body))
					fmt.Fprintf(c, "POST /%s/%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", fn, d.ik(), len(body), body[:cut])
					here()
					<-release
					var rep reply
					_, werr := c.Write(body[cut:])
					resp, err := http.ReadResponse(bufio.NewReader(c), nil)
					if err != nil {
						r.Violate("crowd:no response", fmt.Sprintf("%v, %v", werr, err), info)
						return
					}
					rep.Status, rep.Header = resp.StatusCode, resp.Header
					if rep.Body, err = io.ReadAll(resp.Body); err == nil {
						var m map[string]json.RawMessage
						var got string
						if m, err = okJSON(rep); err == nil {
							if got, err = field[string](m, opField(fn)); err == nil {
								err = d.judgeOp(d.tk(7), 7, fn, p, got, true)
							}
						}
					}
					if err != nil {
						r.Violate("crowd:"+fn, string(clip([]byte(err.Error()))), info)
					}
					r.Eval(1)
					r.Count("requests in a crowd", 1)
					r.Distinct("crowd", round, x)
				})
			}()
		}
		arrived.Wait()
		time.Sleep(300 * time.Millisecond) // the server has read them
		close(release)
		done.Wait()
		srv.Close()
	}
	r.Require("requests in a crowd", 100)
	// large bodies
	var sizes []int
	for _, n := range bigSizes(r.Pick(1<<20, 1<<23)) {
		if n > 1<<14 {
			sizes = append(sizes, n)
		}
	}
	r.Parallel(len(sizes), func(i int) {
		n := sizes[len(sizes)-1-i]
		g := r.Rng("large", n)
		st := newSite(i, newService())
		defer st.done()
		d := newDev(g, algOf(i/4))
		if err := st.s.CreateMachine(server.NewMachine(d.base(3))); err != nil {
			r.Violate("create", err.Error(), d.show())
			return
		}
		for _, fn := range []string{"generate_mac", "encrypt_data", "decrypt_data"} {
			p := d.genOp(g, fn, 3)
			if fn == "decrypt_data" {
				p.Data = hx(rbytes(g, n/2/16*16))
			} else {
				p.Data = utf8Text(g, n)
			}
			p.forJSON()
			info := map[string]any{"device": d.show(), "route": fn, "characters": len(p.Data), "boundary": st.what}
			r.Guard(func() any { return info }, func() {
				rep, err := st.do("POST", "/"+fn+"/"+d.ik(), nil, jsonBody(opBody(fn, p)))
				var m map[string]json.RawMessage
				if err == nil {
					m, err = okJSON(rep)
				}
				var got string
				if err == nil {
					got, err = field[string](m, opField(fn))
				}
				if err == nil {
					err = d.judgeOp(d.tk(3), 3, fn, p, got, true)
				}
				if err != nil {
					r.Violate("large:"+fn, string(clip([]byte(err.Error()))), info)
				}
			})
			r.Eval(1)
			r.Count("requests with large bodies", 1)
			r.Distinct("large", fn, n)
		}
	})
	// a long life of one site
	r.Parallel(4, func(i int) {
		g := r.Rng("long", i)
		st := newSite(i, newService())
		defer st.done()
		devs := newDevs(g, 3)
		cur := map[string]uint32{}
		for _, d := range devs {
			if err := st.s.CreateMachine(server.NewMachine(d.base(1))); err != nil {
				r.Violate("create", err.Error(), d.show())
				return
			}
			cur[d.ik()] = 1
		}
		a := httpAPI{func(method, path string, body []byte) (reply, error) { return st.do(method, path, nil, body) }}
		for n := r.Pick(1500, 60000); n > 0; n-- {
			d := devs[g.IntN(3)]
			c := cur[d.ik()]
			if n%5 == 0 {
				if nc, more := d.next(c); more {
					if k, _, err := a.Next(d.ik()); err != nil || !sameHex(k, hx(d.ksnAt(nc))) {
						r.Violate("long:ksn", fmt.Sprintf("ksn %q (%v), want %x", k, err, d.ksnAt(nc)), d.show())
						return
					}
					cur[d.ik()] = nc
				}
				continue
			}
			fn := machineOps[g.IntN(5)]
			p := d.genOp(g, fn, c)
			p.forJSON()
			got, err := a.Op(fn, d.ik(), p)
			if err == nil {
				err = d.judgeOp(d.tk(c), c, fn, p, got, true)
			}
			if err != nil {
				r.Violate("long:"+fn, err.Error(), map[string]any{"device": d.show(), "parameters": fmt.Sprintf("%+q", p), "counter": c})
				return
			}
			r.Eval(1)
			r.Count("requests in long lives", 1)
		}
	})
	r.Require("requests with large bodies", 300)
	r.Require("requests in long lives", 4000)
	r.Require("requests tcp", 500)
	r.Require("requests handler", 2000)
	r.Require("round trips over HTTP", 300)
}

// isoIfFull is a format that carries the whole PIN
func isoIfFull(d *dev, p opParams) string {
	if d.aes() || len(p.Pin) > 9 {
		return map[bool]string{true: "", false: "ISO-2"}[d.aes()]
	}
	return []string{"", "ISO-0", "iso-1", "ISO-2", "iso-3", "ANSI"}[len(p.Pan)%6]
}

var resultFields = []string{"ik", "machine", "machines", "ksn", "encrypted", "decrypted", "generated", "data"}

// failureShape checks that a response reports a failure and nothing else
func failureShape(rep reply) error {
	if rep.Status < 400 {
		return fmt.Errorf("status %d, body %q", rep.Status, clip(rep.Body))
	}
	var m map[string]any
	if err := json.Unmarshal(rep.Body, &m); err != nil {
		return fmt.Errorf("status %d, body is not a JSON object: %q", rep.Status, clip(rep.Body))
	}
	if e, ok := m["error"].(string); !ok || e == "" {
		return fmt.Errorf("status %d without error text: %q", rep.Status, clip(rep.Body))
	}
	for k, v := range m {
		for _, f := range resultFields {
			if !strings.EqualFold(k, f) || v == nil || v == "" {
				continue
			}
			if l, ok := v.([]any); ok && len(l) == 0 {
				continue
			}
			return fmt.Errorf("status %d carries a result %s=%v", rep.Status, k, v)
		}
	}
	return nil
}

func successShape(rep reply, fields ...string) error {
	m, err := okJSON(rep)
	if err != nil {
		return err
	}
	if _, ok := m["error"]; !ok {
		return fmt.Errorf("status 200 without an error field: %q", clip(rep.Body))
	}
	for _, f := range fields {
		if _, ok := m[f]; !ok {
			return fmt.Errorf("status 200 without %s: %q", f, clip(rep.Body))
		}
	}
	return nil
}

func c20(r *mon.Run) {
	r.Parallel(r.Pick(500, 15000), func(i int) {
		g := r.Rng("failures", i)
		repo := &faultRepo{Repository: server.NewRepositoryInMemory(quietLog())}
		s := server.NewService(repo)
		st := newSite(i, s)
		defer st.done()
		alg := algOf(i)
		d, gone, spent := newDev(g, alg), newDev(g, alg), newDev(g, alg)
		start := uint32(1)
		for _, x := range []*dev{d, spent} {
			c := start
			if x == spent {
				c = x.nearEnd(0)
			}
			if err := s.CreateMachine(server.NewMachine(x.base(c))); err != nil {
				r.Violate("create", err.Error(), x.show())
				return
			}
		}
		judge := func(method, path string, body []byte, cause string, want int) {
			route := strings.SplitN(path[1:], "/", 2)[0]
			info := map[string]any{"request": fmt.Sprintf("%s %s %q", method, path, clip(body)), "cause": cause, "boundary": st.what}
			r.Guard(func() any { return info }, func() {
				rep, err := st.do(method, path, nil, body)
				if err != nil {
					r.Violate("transport:"+route, err.Error(), info)
					return
				}
				info["status"], info["body"] = rep.Status, string(clip(rep.Body))
				if cause == "" {
					err = successShape(rep)
				} else {
					err = failureShape(rep)
				}
				if err == nil && want != 0 && rep.Status != want {
					err = fmt.Errorf("status %d, want %d", rep.Status, want)
				}
				if err != nil {
					r.Violate("report:"+route+":"+cause, err.Error(), info)
				}
				r.Eval(1)
				if cause == "" {
					r.Count("successes "+route, 1)
				} else {
					r.Count("failures "+route, 1)
				}
				r.Distinct(method, path, body)
				if r.WantSample(route + ": " + cause) {
					r.Sample(route+": "+cause, info)
				}
			})
		}
		base := func(b server.BaseKey) []byte { return jsonBody(b) }
		// unknown machines
		unknown := []string{gone.ik(), "00", "x", strings.ToUpper(gone.ik()), d.ik()[2:], d.ik() + "00"}[g.IntN(6)]
		if i%2 == 1 && len(dictStrings) > 0 { // any name is an unknown machine, also the words the code itself uses
			if w := dictStrings[i/2%len(dictStrings)]; !strings.Contains(w, "/") && strings.Trim(w, ".") != "" {
				unknown = url.PathEscape(w)
				r.Count("unknown machines named like a word of the code", 1)
			}
		}
		judge("GET", "/machine/"+unknown, nil, "unknown machine", 404)
		judge("POST", "/generate_ksn/"+unknown, nil, "unknown machine", 404)
		for _, fn := range machineOps {
			judge("POST", "/"+fn+"/"+unknown, jsonBody(opBody(fn, d.genOp(g, fn, start))), "unknown machine", 404)
			p, why := d.badOp(g, fn, d.genOp(g, fn, start))
			judge("POST", "/"+fn+"/"+unknown, jsonBody(opBody(fn, p)), "unknown machine and "+why, 0)
		}
		// creation
		judge("POST", "/machine", base(d.base(start+1)), "duplicate", 400)
		for x := 0; x < 3; x++ {
			b, why := badBase(g, gone.base(start))
			judge("POST", "/machine", base(b), why, 0)
		}
		judge("POST", "/machine", base(gone.base(start)), "", 200)
		judge("POST", "/machine", base(gone.base(start)), "duplicate", 400)
		judge("GET", "/machine/"+gone.ik(), nil, "", 200)
		judge("GET", "/machines", nil, "", 200)
		s.DeleteMachine(gone.ik())
		judge("GET", "/machine/"+gone.ik(), nil, "deleted machine", 404)
		judge("POST", "/generate_ksn/"+gone.ik(), nil, "deleted machine", 404)
		// exhausted
		judge("POST", "/generate_ksn/"+spent.ik(), nil, "exhausted", 0)
		judge("GET", "/machine/"+spent.ik(), nil, "", 200)
		judge("POST", "/generate_ksn/"+d.ik(), nil, "", 200)
		m, err := s.GetMachine(d.ik())
		if err != nil {
			r.Violate("get", err.Error(), d.show())
			return
		}
		c, _ := d.ctrOf(m.CurrentKSN)
		// operations: rejected, successful, hostile
		for _, fn := range machineOps {
			path := "/" + fn + "/" + d.ik()
			p := d.genOp(g, fn, c)
			p.forJSON()
			judge("POST", path, jsonBody(opBody(fn, p)), "", 200)
			q, why := d.badOp(g, fn, d.genOp(g, fn, c))
			q.forJSON()
			if _, err := (svcAPI{s}).Op(fn, d.ik(), q); err == nil {
				why = "" // the service accepts it
			}
			judge("POST", path, jsonBody(opBody(fn, q)), why, 0)
			for x := 0; x < 4; x++ { // the service decides whether the operation fails
				h := d.genOp(g, fn, c)
				for _, f := range []*string{&h.Pin, &h.Pan, &h.Format, &h.Data, &h.Action, &h.MacType, &h.IV} {
					if g.IntN(4) == 0 {
						*f = hostileString(g)
					}
				}
				for _, f := range []*string{&h.Pin, &h.Pan, &h.Format, &h.Data, &h.Action, &h.MacType, &h.IV} {
					*f = throughJSON(*f)
				}
				cause := ""
				r.Guard(func() any { return fmt.Sprintf("%q", h) }, func() {
					if _, err := (svcAPI{s}).Op(fn, d.ik(), h); err != nil {
						cause = "hostile parameters"
					}
				})
				judge("POST", path, jsonBody(opBody(fn, h)), cause, 0)
			}
			full := string(jsonBody(opBody(fn, p)))
			for _, b := range []string{full[:len(full)-1], full + "}", full + full, full + "\x00", "\ufeff" + full, "(" + full + ")", strings.Replace(full, ":", "=", 1), strings.ReplaceAll(full, `"`, "'"), full[1:], "[" + full + "]", full[:len(full)-1] + ",}"} {
				if full != "{}" && g.IntN(4) == 0 {
					judge("POST", path, []byte(b), "valid parameters in malformed JSON", 0)
				}
			}
			for _, b := range []string{"", "{", "[]", "null x", `{"pin":1234,"encrypted":1,"data":5}`, `"text"`, "\xff\xfe", `{"pan":{"a":1},"iv":[],"data":{}}`} {
				if g.IntN(3) == 0 {
					judge("POST", path, []byte(b), "malformed JSON", 0)
				}
			}
		}
		full := string(base(gone.base(start)))
		for _, b := range []string{full[:len(full)-1], full + "}", full + full, full + " x", "[" + full + "]", "\ufeff" + full, full[1:]} {
			judge("POST", "/machine", []byte(b), "valid creation in malformed JSON", 0)
			judge("GET", "/machine/"+gone.ik(), nil, "machine of a failed creation", 404)
		}
		for _, b := range []string{"", "{", "[]", "nul", `{"Algorithm":5}`, `{}`, `null`, `{"Algorithm":"des"}`} {
			judge("POST", "/machine", []byte(b), "malformed or empty creation", 0)
		}
		// storage faults
		repo.failStore.Store(true)
		judge("POST", "/machine", base(gone.base(start)), "storage fault", 0)
		repo.failStore.Store(false)
		repo.failFind.Store(true)
		judge("GET", "/machine/"+d.ik(), nil, "storage fault", 0)
		judge("POST", "/generate_ksn/"+d.ik(), nil, "storage fault", 0)
		for _, fn := range machineOps {
			judge("POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, d.genOp(g, fn, c))), "storage fault", 0)
		}
		repo.failFind.Store(false)
	})
	for _, fn := range append([]string{"machine", "generate_ksn"}, machineOps...) {
		r.Require("failures "+fn, 500)
		r.Require("successes "+fn, 300)
	}
}

// knownAnswers are well-formed requests with their expected values
type knownAnswers struct {
	devs []*dev
	iks  []string
	tks  [][]byte

	victims []string // machines that other requests may change
}

// targets are the machines hostile requests name; only victims may be advanced
func (k *knownAnswers) targets(route string) []string {
	if route == "generate_ksn" {
		return k.victims
	}
	return append(append([]string{}, k.iks...), k.victims...)
}

func newKnown(g rng, s server.Service) *knownAnswers {
	k := &knownAnswers{}
	for x := 0; x < 2; x++ {
		d := newDev(g, algOf(x))
		m := server.NewMachine(d.base(7))
		if err := s.CreateMachine(m); err != nil {
			panic(err)
		}
		k.devs, k.iks, k.tks = append(k.devs, d), append(k.iks, d.ik()), append(k.tks, d.tk(7))
		v := newDev(g, algOf(x))
		if err := s.CreateMachine(server.NewMachine(v.base(v.nearEnd(x * 5)))); err != nil {
			panic(err)
		}
		k.victims = append(k.victims, v.ik())
	}
	return k
}

func (k *knownAnswers) ask(g rng, do func(method, path string, body []byte) (reply, error)) error {
	x := g.IntN(len(k.devs))
	d := k.devs[x]
	fn := []string{"generate_mac", "encrypt_data", "encrypt_pin", "decrypt_pin"}[g.IntN(4)]
	p := d.genOp(g, fn, 7)
	p.forJSON()
	rep, err := do("POST", "/"+fn+"/"+k.iks[x], jsonBody(opBody(fn, p)))
	if err != nil {
		return err
	}
	m, err := okJSON(rep)
	if err != nil {
		return err
	}
	got, err := field[string](m, opField(fn))
	if err != nil {
		return err
	}
	return d.judgeOp(k.tks[x], 7, fn, p, got, true)
}

// hostile bodies
func hostileBody(g rng) []byte {
	switch g.IntN(18) {
	case 8: // what is no JSON from its first character on
		return []byte(pickS(g, []string{"<xml>&</xml>", "&amp;", "<", ">", "&", "é", "\u2028", "pin=1234&pan=1", "--x\r\nContent-Disposition: form-data\r\n", "\x00", "\x7f", "'", "{'pin':1}", "{\"pin\":<}", "{\"pin\"&", "%7B%7D", "\xff", "{\"pin\":\"1\" é}", "{\"pin\":\\}", "{\t\"pin\":\"\t\"}", "nul", "NaN", "{\"pin\":0x12}"}) + pickS(g, []string{"", "", "1", "{}", "\n"}))
	case 9: // a member of another type, another nesting, another spelling
		b := jsonBody(map[string]any{"pin": "1234", "pan": "4012345678909", "format": "ISO-0", "data": "abc", "action": "request"})
		switch g.IntN(4) {
		case 0:
			b = append([]byte("["), append(b, ']')...)
		case 1:
			b = jsonBody(map[string]any{"request": json.RawMessage(b)})
		case 2:
			b = bytes.ToUpper(b)
		default:
			b = jsonBody(string(b))
		}
		return b
	case 0:
		return nil
	case 1:
		return []byte(strings.Repeat("[", 1+g.IntN(20000)))
	case 2:
		return []byte(strings.Repeat(`{"pin":`, 1+g.IntN(12000)))
	case 3:
		return []byte(`{"pin":null,"pan":null,"format":null,"data":null,"encrypted":null,"iv":null,"action":null,"macType":null}`)
	case 4:
		return []byte([]string{"null", "true", "0", "-", "\"", "{}", "[]", "[{}]", "\xef\xbb\xbf{}", "{\"pin\":\"\\ud800\"}", "{\"a\":1}{\"b\":2}"}[g.IntN(11)])
	case 5:
		return rbytes(g, g.IntN(3000))
	case 6:
		return jsonBody(map[string]any{"data": strings.Repeat("A", g.IntN(300000)), "pin": strings.Repeat("1", g.IntN(3000)), "iv": strings.Repeat("0", g.IntN(3000))})
	case 7:
		b := jsonBody(map[string]any{"pin": "1234", "pan": "4012345678909", "data": "abc", "encrypted": "00"})
		return b[:g.IntN(len(b))]
	}
	m := map[string]any{}
	for _, f := range []string{"pin", "pan", "format", "data", "encrypted", "iv", "action", "macType", "Algorithm", "AlgorithmKey", "BaseDerivativeKey", "KeySerialNumber"} {
		switch g.IntN(7) {
		case 0:
			m[f] = hostileString(g)
		case 1:
			m[f] = hx(hostileBytes(g))
		case 2:
			m[f] = []any{nil, 1, -0.5, true, []any{}, map[string]any{}, "x"}[g.IntN(7)]
		case 3:
			m[f] = pickS(g, nastyStrings)
		}
	}
	switch g.IntN(3) {
	case 0:
		m["Algorithm"] = pickS(g, []string{"des", "aes"})
	}
	return jsonBody(m)
}

func hostilePath(g rng, k *knownAnswers) string {
	routes := []string{"machine", "machines", "generate_ksn", "encrypt_pin", "decrypt_pin", "generate_mac", "encrypt_data", "decrypt_data", "ping", "nothing", ""}
	route := pickS(g, routes)
	iks := k.targets(route)
	p := "/" + route
	switch g.IntN(8) {
	case 0:
		return p
	case 1:
		return p + "/" + []string{"%00", "%2e%2e", "..%2f..", "%ff%fe", "a%20b", "%F0%9F%98%80", "x;y=z", "%25", "~", "%2F"}[g.IntN(10)]
	case 2:
		return p + "/" + strings.Repeat("a", g.IntN(5000))
	case 3:
		return p + "?" + strings.Repeat("ik=1&", g.IntN(300)) + "%zz"
	case 4:
		return p + "//" + pickS(g, iks) + "/"
	}
	return p + "/" + pickS(g, iks)
}

type badReader struct {
	b   []byte
	err error
}

func (x *badReader) Read(p []byte) (int, error) {
	if len(x.b) == 0 {
		return 0, x.err
	}
	n := copy(p, x.b)
	x.b = x.b[n:]
	return n, nil
}

// many adds many headers, of the same name or of different ones
func many(g rng, add func(name, value string)) {
	n := []int{2, 3, 5, 9, 17, 33, 65, 129, 257}[g.IntN(9)]
	h := knownHeaders[g.IntN(len(knownHeaders))]
	if name, v := dictPair(g); g.IntN(4) == 0 && plainHeader(name, v) {
		h = []string{name, v}
	}
	switch g.IntN(4) {
	case 0:
		for x := 0; x < n; x++ {
			add(fmt.Sprintf("X-%d", x), "1")
		}
	case 1:
		add(h[0], strings.TrimSuffix(strings.Repeat(h[1]+pickS(g, []string{", ", ",", "; ", ";"}), n), ", "))
	default:
		for x := 0; x < n; x++ {
			add(h[0], h[1+g.IntN(len(h)-1)])
		}
	}
}

func c21(r *mon.Run) {
	// at the handler: panics surface directly
	r.Parallel(r.Pick(6000, 300000), func(i int) {
		g := r.Rng("handler", i)
		s := newService()
		h := server.MakeHTTPHandler(s)
		k := newKnown(g, s)
		for x := 0; x < 6; x++ {
			method := pickS(g, []string{"GET", "POST", "POST", "POST", "POST", "OPTIONS", "PUT", "HEAD", "BREW"})
			path, body := hostilePath(g, k), hostileBody(g)
			if x < 2 { // a machine with odd but accepted parameters, for the following requests
				method, path = "POST", "/machine"
			}
			show := func() any { return fmt.Sprintf("%s %q body %q", method, path, clip(body)) }
			r.Guard(show, func() {
				var rd io.Reader = bytes.NewReader(body)
				if g.IntN(6) == 0 {
					rd = &badReader{body, []error{io.ErrUnexpectedEOF, errors.New("reset"), io.EOF}[g.IntN(3)]}
				}
				req, err := http.NewRequest(method, "http://h"+path, io.NopCloser(rd))
				if err != nil {
					return
				}
				req.RequestURI = path
				surroundings(req, g.IntN(1<<20))
				for y := g.IntN(4); y > 0; y-- {
					req.Header.Set(hostileHeader(g))
				}
				if g.IntN(8) == 0 { // many headers, of one name or of many
					many(g, req.Header.Add)
					r.Count("requests with many headers", 1)
				}
				w := httptest.NewRecorder()
				h.ServeHTTP(w, req)
				r.Eval(1)
				r.Count(fmt.Sprintf("handler status %d", w.Code), 1)
				r.Distinct(method, path, body)
				var c struct{ IK string }
				if w.Code == 200 && path == "/machine" && json.Unmarshal(w.Body.Bytes(), &c) == nil && c.IK != "" {
					k.victims = append(k.victims, c.IK)
				}
				if r.WantSample("handler " + method) {
					r.Sample("handler "+method, show())
				}
			})
		}
		r.Guard(nil, func() {
			if err := k.ask(g, handlerAPI(h).do); err != nil {
				r.Violate("disturbed:handler", "a well-formed request after hostile ones: "+err.Error(), nil)
			}
		})
	})

	// over TCP
	var errLog syncBuffer
	s := newService()
	h := server.MakeHTTPHandler(s)
	srv := httptest.NewUnstartedServer(h)
	srv.Config.ErrorLog = log.New(&errLog, "", 0)
	srv.Start()
	defer srv.Close()
	addrs := []string{srv.Listener.Addr().String()}
	// the other kinds of addresses that a client may have
	for _, x := range [][2]string{{"tcp", "[::1]:0"}, {"unix", *scratch + "/c21.sock"}} {
		if l, err := net.Listen(x[0], x[1]); err == nil {
			other := &http.Server{Handler: h, ErrorLog: srv.Config.ErrorLog}
			go other.Serve(l)
			defer other.Close()
			addrs = append(addrs, l.Addr().String())
		}
	}
	g0 := r.Rng("tcp", -1)
	k := newKnown(g0, s)
	client := srv.Client()
	good := clientAPI(client, srv.URL)
	r.Parallel(r.Pick(4000, 150000), func(i int) {
		g := r.Rng("tcp", i)
		if i%8 == 7 { // somebody else's well-formed request
			if err := k.ask(g, good.do); err != nil {
				r.Violate("disturbed:tcp", "a well-formed request beside hostile ones: "+err.Error(), nil)
			}
			r.Count("well-formed requests beside hostile ones", 1)
			return
		}
		raw, n, half := rawRequest(g, k)
		to := addrs[g.IntN(len(addrs))]
		got, err := exchange(to, raw, n, half)
		for try := 0; try < 8 && (errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE)); try++ {
			// a server that closes a connection whose last body it did not want can lose its answer
			r.Count("connections reset", 1)
			time.Sleep(time.Duration(try*10) * time.Millisecond)
			got, err = exchange(to, raw, n, half)
		}
		r.Eval(1)
		r.Count("raw requests", n)
		r.Distinct("raw", raw)
		if err != nil {
			r.Violate("no response", fmt.Sprintf("%d of %d responses: %v", len(got), n, err), map[string]any{"bytes": fmt.Sprintf("%q", clip(raw)), "half_closed": half, "length": len(raw)})
		}
		for _, st := range got {
			r.Count(fmt.Sprintf("raw status %d", st), 1)
		}
		if r.WantSample("raw") {
			r.Sample("raw", map[string]any{"bytes": fmt.Sprintf("%q", clip(raw)), "statuses": got})
		}
	})
	for x := 0; x < 50; x++ {
		if err := k.ask(g0, good.do); err != nil {
			r.Violate("disturbed:tcp", "a well-formed request after hostile ones: "+err.Error(), nil)
		}
	}
	client.CloseIdleConnections()
	if l := errLog.String(); strings.Contains(l, "panic") {
		i := strings.Index(l, "panic")
		r.Violate("panic:server log", "the server recovered a panic", l[i:min(len(l), i+3000)])
	}
	excessive(r)
	r.Require("raw requests", 2000)
	r.Require("excessive requests", 60)
	r.Require("raw status 200", 50)
	r.Require("well-formed requests beside hostile ones", 300)
}

// excessive sends requests to the server program (which they may bring down) that announce more
// than they bring, or bring very much of one thing
func excessive(r *mon.Run) {
	g := r.Rng("excessive", 0)
	p, err := startServer(r, g, nil)
	if err != nil {
		r.Violate("start", err.Error(), nil)
		return
	}
	if p == nil {
		return
	}
	defer p.stop()
	hc := p.client(nil, false)
	a := clientAPI(hc, p.url())
	s := newService()
	k := newKnown(g, s)
	for x, d := range k.devs {
		if _, err := a.Create(d.base(7)); err != nil {
			r.Violate("disturbed:program", err.Error(), nil)
			return
		}
		k.iks[x] = d.ik()
	}
	info := func(what string) any {
		o, e := p.output()
		return map[string]any{"request": what, "server": p.describe, "stdout": truncEnd(o), "stderr": truncEnd(e)}
	}
	ask := func(what string) bool {
		if err := k.ask(g, a.do); err != nil {
			r.Violate("disturbed:program", fmt.Sprintf("a well-formed request beside %s: %v (ended: %v)", what, err, p.hasExited()), info(what))
			return false
		}
		r.Count("well-formed requests beside excessive ones", 1)
		return true
	}
	deep := r.Pick(24<<20, 64<<20)
	rep := func(s string) []byte { return bytes.Repeat([]byte(s), deep/len(s)) }
	type request struct {
		what   string
		length string // announced
		body   []byte
	}
	var all []request
	for _, n := range []string{"100000", "10000000", "4294967295", "4294967296", "17179869184", "1099511627776", "281474976710656", "4611686018427387904", "9223372036854775807"} {
		all = append(all, request{"an announced length of " + n, n, []byte(`{"data":"`)}, request{"an announced length of " + n + " and nothing", n, nil})
	}
	for _, b := range []struct{ what, unit, before string }{
		{"arrays in arrays", "[", ""}, {"objects in objects", `{"a":`, ""}, {"both in turn", `[{"a":`, ""}, {"arrays in a member", "[", `{"data":`}, {"arrays in an unknown member", "[", `{"x":`},
		{"blanks", " ", ""}, {"quotes", `"`, ""}, {"backslashes", `\\`, `{"data":"`}, {"escapes", `\u0000`, `{"data":"`}, {"digits", "9", `{"data":`}, {"nulls", "null,", `[`},
		{"closing brackets", "]", "{"}, {"members", `"data":"",`, "{"}, {"empty arrays", "[],", "["}, {"zero bytes", "\x00", ""}, {"commas", ",", "["}, {"minus", "-", ""}, {"bad UTF-8", "\xff", `{"data":"`},
	} {
		all = append(all, request{fmt.Sprintf("%d MiB of %s", deep>>20, b.what), "", append([]byte(b.before), rep(b.unit)...)})
	}
	routes := []string{"machine", "generate_ksn/none"}
	for _, fn := range machineOps {
		routes = append(routes, fn+"/"+k.iks[0])
	}
	lanesN := 3
	ch := make(chan int)
	var wg sync.WaitGroup
	for range lanesN {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				q := all[i%len(all)]
				route := routes[(i/len(all)+i)%len(routes)]
				what := q.what + " to /" + route
				length := q.length
				if length == "" {
					length = fmt.Sprint(len(q.body))
				}
				got, err := exchange(p.addr, append([]byte(fmt.Sprintf("POST /%s HTTP/1.1\r\nHost: x\r\nContent-Length: %s\r\n\r\n", route, length)), q.body...), 1, true)
				r.Eval(1)
				r.Count("excessive requests", 1)
				r.Distinct("excessive", q.what, route)
				r.Progress()
				if p.hasExited() {
					r.Violate("crash:program", "the server ends at "+what, info(what))
					return
				}
				if err != nil && !errors.Is(err, syscall.ECONNRESET) && !errors.Is(err, syscall.EPIPE) {
					r.Violate("no response", fmt.Sprintf("%s: %d of 1 responses: %v", what, len(got), err), info(what))
				}
			}
		}()
	}
	for i := 0; i < len(all)*r.Pick(2, 6) && !p.hasExited(); i++ {
		select {
		case ch <- i:
		case <-time.After(100 * time.Second):
			r.Violate("no response", "excessive requests are not answered", info(""))
		}
		if !ask("excessive requests") {
			break
		}
	}
	close(ch)
	wg.Wait()
	if !p.hasExited() && ask("excessive requests") {
		r.Count("programs that survived", 1)
	}
	if _, e := p.output(); strings.Contains(e, "panic") {
		r.Violate("panic:server log", "the server recovered a panic", info(""))
	}
	p.stop()
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}
func (s *syncBuffer) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// rawRequest makes the bytes of n requests of which all deserve a response; half: the client
// closes its side after sending
func rawRequest(g rng, k *knownAnswers) (raw []byte, n int, half bool) {
	var b bytes.Buffer
	iks := k.targets("")
	one := func(last bool) {
		method := pickS(g, []string{"GET", "POST", "POST", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO"})
		path := hostilePath(g, k)
		body := hostileBody(g)
		if len(body) > 4000 {
			body = body[:4000]
		}
		conn := ""
		if last = last && len(path)+len(body) < 3000; last { // see lastOr
			conn = "Connection: close\r\n"
		}
		proto := "HTTP/1.1"
		if last && g.IntN(5) == 0 {
			proto = "HTTP/1.0"
		}
		hdr := "Host: x\r\n" + conn
		for y := g.IntN(4); y > 0; y-- {
			name, v := hostileHeader(g)
			v = strings.Map(func(c rune) rune {
				if c < 32 || c == 127 {
					return '.'
				}
				return c
			}, v)
			if len(v) > 2000 {
				v = v[:2000]
			}
			switch strings.ToLower(name) { // these would change the framing
			case "host", "connection", "content-length", "transfer-encoding", "expect", "upgrade", "trailer":
				name = "X-A"
			}
			hdr += name + ": " + v + "\r\n"
		}
		if g.IntN(12) == 0 {
			many(g, func(name, v string) {
				if plainHeader(name, v) && len(hdr) < 30000 {
					hdr += name + ": " + v + "\r\n"
				}
			})
		}
		if proto == "HTTP/1.1" && g.IntN(4) == 0 { // chunked
			fmt.Fprintf(&b, "%s %s HTTP/1.1\r\n%sTransfer-Encoding: chunked\r\n\r\n", method, path, hdr)
			for len(body) > 0 {
				c := 1 + g.IntN(len(body))
				fmt.Fprintf(&b, "%x\r\n%s\r\n", c, body[:c])
				body = body[c:]
			}
			b.WriteString("0\r\n\r\n")
		} else {
			fmt.Fprintf(&b, "%s %s %s\r\n%sContent-Length: %d\r\n\r\n%s", method, path, proto, hdr, len(body), body)
		}
	}
	switch g.IntN(10) {
	case 0: // malformed at the protocol level: the server answers 4xx and closes
		b.WriteString([]string{"GET\r\n\r\n", "POST /machine HTTP/9.9\r\nHost: x\r\n\r\n", "GET /machines HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\nbad header\r\n\r\n",
			"POST /machine HTTP/1.1\r\nHost: x\r\nContent-Length: abc\r\n\r\n", "GET machines HTTP/1.1\r\nHost: x\r\n\r\n", "\x16\x03\x01\x00\xa5\x01\x00\x00\xa1\x03\x03\r\n\r\n",
			"POST /machine HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: gzip\r\n\r\n"}[g.IntN(8)])
		return b.Bytes(), 1, true
	case 1: // body shorter than announced, then the client stops sending
		body := hostileBody(g)
		if len(body) > 4000 {
			body = body[:4000]
		}
		route := pickS(g, []string{"machine", "encrypt_pin/" + pickS(g, iks), "decrypt_pin/" + pickS(g, iks), "generate_mac/" + pickS(g, iks), "encrypt_data/" + pickS(g, iks), "decrypt_data/" + pickS(g, iks)})
		fmt.Fprintf(&b, "POST /%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", route, len(body)+1+g.IntN(50), body)
		return b.Bytes(), 1, true
	case 2: // broken chunking
		fmt.Fprintf(&b, "POST /encrypt_data/%s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n%s", pickS(g, iks), []string{"zz\r\n", "5\r\nab", "-1\r\n\r\n", "ffffffffffffffff\r\nab\r\n"}[g.IntN(4)])
		return b.Bytes(), 1, true
	case 3: // pipelined
		n = 2 + g.IntN(4)
		for x := 0; x < n; x++ {
			fmt.Fprintf(&b, "GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n", "/machine/"+pickS(g, iks), map[bool]string{true: "Connection: close\r\n"}[x == n-1])
		}
		return b.Bytes(), n, false
	}
	one(true)
	return b.Bytes(), 1, false
}

// exchange sends raw bytes and reads n complete responses
func exchange(addr string, raw []byte, n int, half bool) (statuses []int, err error) {
	network := "tcp"
	if strings.HasPrefix(addr, "/") {
		network = "unix"
	}
	c, err := net.Dial(network, addr)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(100 * time.Second))
	go func() {
		c.Write(raw)
		if half {
			c.(interface{ CloseWrite() error }).CloseWrite()
		}
	}()
	br := bufio.NewReader(c)
	method := "POST"
	if bytes.HasPrefix(raw, []byte("HEAD ")) {
		method = "HEAD"
	}
	for i := 0; i < n; i++ {
		resp, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			return statuses, err
		}
		if _, err = io.ReadAll(resp.Body); err != nil {
			return statuses, fmt.Errorf("incomplete body: %w", err)
		}
		resp.Body.Close()
		statuses = append(statuses, resp.StatusCode)
	}
	return statuses, nil
}

func c27(r *mon.Run) {
	allowed := func(o string) bool {
		return strings.HasPrefix(o, "http://localhost:") || strings.HasPrefix(o, "https://")
	}
	origin := func(g rng) (string, bool) {
		host := fmt.Sprintf("%s.example-%d.com", hx(rbytes(g, 2)), g.IntN(1000))
		switch g.IntN(10) {
		case 0:
			return "", false
		case 1, 2, 3:
			return "https://" + []string{host, host + ":8443", "localhost", "localhost:3000", "a", "moov.io", "xn--e1afmkfd.example"}[g.IntN(7)], true
		case 4, 5:
			return fmt.Sprintf("http://localhost:%d", g.IntN(65536)), true
		}
		return []string{"http://" + host, "http://localhost", "http://localhostevil.com", "http://localhost.evil.com:80", "http://127.0.0.1:3000", "null", "*", "ftp://" + host, "ws://localhost:3000",
			"https:/" + host, "https:" + host, "http//localhost:80", " https://x"[1:3], "file://", "chrome-extension://abc", "evil https://" + host, "http://" + host + "/https://x", "xhttps://a", "localhost:3000", "http://LOCALHOST:3000", "HTTPS://" + host, "Http://localhost:1"}[g.IntN(22)], true
	}
	r.Parallel(r.Pick(500, 15000), func(i int) {
		g := r.Rng("origins", i)
		s := newService()
		st := newSite(i, s)
		defer st.done()
		d, fresh, spent := newDev(g, algOf(i)), newDev(g, algOf(g.IntN(2))), newDev(g, algOf(g.IntN(2)))
		if err := s.CreateMachine(server.NewMachine(d.base(3))); err != nil {
			r.Violate("create", err.Error(), d.show())
			return
		}
		s.CreateMachine(server.NewMachine(spent.base(spent.nearEnd(0))))
		ask := func(kind, method, path string, body []byte) {
			o, has := origin(g)
			hd := map[string]string{}
			several := has && g.IntN(12) == 0
			if has {
				hd["Origin"] = o
			}
			if several { // more than one origin
				var second string
				if second, several = origin(g); several {
					hd["Origin"] += nextValue + second
					if g.IntN(4) == 0 {
						hd["Origin"] = strings.Replace(hd["Origin"], nextValue, pickS(g, []string{", ", ",", " "}), 1)
					}
					o = hd["Origin"]
					r.Count("requests with two origins", 1)
				}
			}
			if method == "OPTIONS" {
				if g.IntN(5) > 0 {
					hd["Access-Control-Request-Method"] = pickS(g, []string{"POST", "POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "post", "get", "TRACE", "FOO", "*", " ", "GET, POST"})
				}
				if g.IntN(2) == 0 {
					hd["Access-Control-Request-Headers"] = pickS(g, []string{"x-evil", "content-type", "Content-Type, X-User-Id", "authorization", "*", "", "x-a,x-b,x-c"})
				}
				if g.IntN(4) == 0 {
					hd["Access-Control-Request-Private-Network"] = "true"
				}
			}
			if g.IntN(4) == 0 {
				hd["Referer"], hd["X-Forwarded-Host"] = "https://other.example/", "https://other.example"
			}
			info := map[string]any{"request": fmt.Sprintf("%s %s %q", method, path, clip(body)), "origin": o, "boundary": st.what}
			r.Guard(func() any { return info }, func() {
				rep, err := st.do(method, path, hd, body)
				if err != nil {
					r.Violate("transport", err.Error(), info)
					return
				}
				got := rep.Header.Values("Access-Control-Allow-Origin")
				info["status"], info["allow_origin"] = rep.Status, got
				r.Eval(1)
				r.Distinct(o, method, path, rep.Status)
				switch {
				case several: // any of them may count, as it is
					for _, v := range got {
						sent := v == hd["Origin"]
						for _, x := range strings.Split(hd["Origin"], nextValue) {
							sent = sent || v == x
						}
						if !sent || !allowed(v) || strings.Contains(v, nextValue) {
							r.Violate("granted:"+kind, fmt.Sprintf("a request with the origins %q gets Access-Control-Allow-Origin %q", strings.Split(hd["Origin"], nextValue), got), info)
						}
					}
					if len(got) > 1 {
						r.Violate("granted:"+kind, fmt.Sprintf("a request with the origins %q gets several: %q", strings.Split(hd["Origin"], nextValue), got), info)
					}
				case !allowed(o):
					if len(got) > 0 {
						r.Violate("granted:"+kind, fmt.Sprintf("origin %q gets Access-Control-Allow-Origin %q", o, got), info)
					}
					r.Count("not allowed: "+kind, 1)
				case kind != "other":
					if len(got) != 1 || got[0] != o {
						r.Violate("not granted:"+kind, fmt.Sprintf("origin %q gets Access-Control-Allow-Origin %q", o, got), info)
					}
					r.Count("allowed: "+kind, 1)
				default:
					for _, v := range got {
						if v != o {
							r.Violate("granted:other", fmt.Sprintf("origin %q gets Access-Control-Allow-Origin %q", o, got), info)
						}
					}
				}
				if r.WantSample(kind) {
					r.Sample(kind, info)
				}
			})
		}
		paths := []string{"/machine", "/machines", "/ping", "/machine/" + d.ik(), "/generate_ksn/x", "/encrypt_pin/" + d.ik(), "/", "/no/such/route", "/a-b_c.d", "/machine/x/y?z=1"}
		for x := 0; x < 4; x++ {
			ask("pre-flight", "OPTIONS", pickS(g, paths), nil)
		}
		ask("ping", "GET", "/ping", nil)
		ask("ping", "GET", "/ping?x=1", nil)
		ask("machines", "GET", "/machines", nil)
		ask("machine", "GET", "/machine/"+d.ik(), nil)
		ask("machine (failing)", "GET", "/machine/x", nil)
		ask("create", "POST", "/machine", jsonBody(fresh.base(1)))
		ask("create (failing)", "POST", "/machine", jsonBody(fresh.base(1)))
		bad, _ := badBase(g, fresh.base(1))
		ask("create (failing)", "POST", "/machine", jsonBody(bad))
		ask("generate_ksn (failing)", "POST", "/generate_ksn/"+spent.ik(), nil)
		ask("generate_ksn (failing)", "POST", "/generate_ksn/x", nil)
		for _, fn := range machineOps {
			p := d.genOp(g, fn, 3)
			p.forJSON()
			ask(fn, "POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, p)))
			q, _ := d.badOp(g, fn, p)
			q.forJSON()
			ask(fn+" (failing)", "POST", "/"+fn+"/"+d.ik(), jsonBody(opBody(fn, q)))
			ask(fn+" (failing)", "POST", "/"+fn+"/x", jsonBody(opBody(fn, p)))
			ask("other", "POST", "/"+fn+"/"+d.ik(), []byte("{"))
		}
		ask("generate_ksn", "POST", "/generate_ksn/"+d.ik(), nil)
		ask("other", "POST", "/machine", []byte("no json"))
		ask("other", "GET", "/nothing", nil)
		ask("other", "PUT", "/machine", nil)
		ask("other", "DELETE", "/machine/"+d.ik(), nil)
		ask("other", "GET", "//machines", nil)
	})
	for _, k := range append([]string{"pre-flight", "ping", "machines", "machine", "create", "generate_ksn", "machine (failing)", "create (failing)", "generate_ksn (failing)"}, machineOps...) {
		r.Require("allowed: "+k, 100)
		r.Require("not allowed: "+k, 100)
	}
}

// extraRequests sends every operation with headers and queries that say nothing about it: the answers are the same
func extraRequests(r *mon.Run) {
	xs := extras()
	r.Parallel(len(xs), func(i int) {
		g := r.Rng("extras", i)
		h := dressed(server.MakeHTTPHandler(newService()), xs[i])
		devs := newDevs(g, 2)
		at := make([]uint32, len(devs))
		step := ""
		fail := func(format string, a ...any) {
			r.Violate("extras:"+strings.SplitN(step, " ", 2)[0], fmt.Sprintf(format, a...), map[string]any{"extra": xs[i].String(), "operation": step})
		}
		done := func() {
			r.Eval(1)
			r.Count("requests with extra headers and queries", 1)
			r.Distinct("extras", xs[i].String(), step)
		}
		r.Guard(func() any { return map[string]any{"extra": xs[i].String(), "operation": step} }, func() {
			for k, d := range devs {
				at[k] = uint32(3 + g.IntN(50))
				step = "create " + d.Alg
				m, err := h.Create(d.base(at[k]))
				if err == nil {
					err = d.checkDesc(m)
				}
				if err != nil {
					fail("%v", err)
					return
				}
				done()
			}
			for x := 0; x < 14; x++ {
				k := g.IntN(len(devs))
				d := devs[k]
				var err error
				switch {
				case x < 5:
					fn := machineOps[x]
					step = fn + " " + d.Alg
					p := d.genOp(g, fn, at[k])
					p.forJSON()
					var got string
					if got, err = h.Op(fn, d.ik(), p); err == nil {
						err = d.judgeOp(d.tk(at[k]), at[k], fn, p, got, true)
					}
				case x%3 == 0:
					step = "next " + d.Alg
					var ksn string
					n, more := d.next(at[k])
					ksn, _, err = h.Next(d.ik())
					if !more {
						return
					}
					if err == nil && !sameHex(ksn, hx(d.ksnAt(n))) {
						err = fmt.Errorf("the next KSN is %s, want %x", ksn, d.ksnAt(n))
					}
					at[k] = n
				case x%3 == 1:
					step = "get " + d.Alg
					var m *server.Machine
					if m, err = h.Get(d.ik()); err == nil {
						if err = d.checkDesc(m); err == nil && !sameHex(m.CurrentKSN, hx(d.ksnAt(at[k]))) {
							err = fmt.Errorf("the current KSN is %s, want %x", m.CurrentKSN, d.ksnAt(at[k]))
						}
					}
				default:
					step = "list"
					var ms []*server.Machine
					if ms, err = h.List(); err == nil && len(ms) != len(devs) {
						err = fmt.Errorf("%d machines are listed instead of %d", len(ms), len(devs))
					}
					for _, m := range ms {
						if y := findDev(devs, m.InitialKey); err == nil && (y < 0 || devs[y].checkDesc(m) != nil || !sameHex(m.CurrentKSN, hx(devs[y].ksnAt(at[y])))) {
							err = fmt.Errorf("listed is %+v", *m)
						}
					}
				}
				if err != nil {
					fail("%v", err)
					return
				}
				done()
			}
		})
	})
	r.Require("requests with extra headers and queries", 1000)
}
