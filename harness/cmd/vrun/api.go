package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
)

// api is the machine API at one of its boundaries: service, HTTP handler, or HTTP over TCP
type api interface {
	Create(b server.BaseKey) (*server.Machine, error)
	Get(ik string) (*server.Machine, error)
	List() ([]*server.Machine, error)
	Next(ik string) (string, *server.Machine, error)
	Op(fn, ik string, p opParams) (string, error)
}

type opParams struct {
	Pin, Pan, Format, Data, Action, MacType, IV string
}

var machineOps = []string{"encrypt_pin", "decrypt_pin", "generate_mac", "encrypt_data", "decrypt_data"}

var errTransport = errors.New("transport")

type svcAPI struct{ s server.Service }

func (a svcAPI) Create(b server.BaseKey) (*server.Machine, error) {
	m := server.NewMachine(b)
	if err := a.s.CreateMachine(m); err != nil {
		return nil, err
	}
	return m, nil
}
func (a svcAPI) Get(ik string) (*server.Machine, error) { return a.s.GetMachine(ik) }
func (a svcAPI) List() ([]*server.Machine, error)       { return a.s.GetMachines(), nil }
func (a svcAPI) Next(ik string) (string, *server.Machine, error) {
	m, err := a.s.MakeNextKSN(ik)
	if err != nil {
		return "", nil, err
	}
	return m.CurrentKSN, m, nil
}
func (a svcAPI) Op(fn, ik string, p opParams) (string, error) {
	switch fn {
	case "encrypt_pin":
		return a.s.EncryptPin(ik, p.Pin, p.Pan, p.Format)
	case "decrypt_pin":
		return a.s.DecryptPin(ik, p.Data, p.Pan, p.Format)
	case "generate_mac":
		return a.s.GenerateMac(ik, p.Data, p.Action, p.MacType)
	case "encrypt_data":
		return a.s.EncryptData(ik, p.Data, p.Action, p.IV)
	case "decrypt_data":
		return a.s.DecryptData(ik, p.Data, p.Action, p.IV)
	}
	panic(fn)
}

// reply is a complete HTTP response
type reply struct {
	Status int
	Header http.Header
	Body   []byte
}

// httpAPI drives the HTTP API through do
type httpAPI struct {
	do func(method, path string, body []byte) (reply, error)
}

// sameHeaders are headers that a client may send with each of its requests alike; they say
// nothing about the operation
func sameHeaders(i int) map[string]string {
	switch i % 3 {
	case 0:
		return nil
	case 1:
		return map[string]string{"X-Request-Id": "c0ffee", "Idempotency-Key": "c0ffee", "X-User-Id": "terminal", "Authorization": "Bearer abc", "Cookie": "session=1", "Content-Type": "application/json"}
	}
	return map[string]string{"X-Request-Id": "", "If-None-Match": "*", "If-Modified-Since": "Mon, 02 Jan 2006 15:04:05 GMT", "Cache-Control": "only-if-cached", "X-Correlation-Id": "1", "X-Forwarded-For": "10.0.0.1", "X-Http-Method-Override": "GET", "Range": "bytes=0-3"}
}

// surroundings gives a request to a handler what a server may know about it besides: where it
// comes from, over which protocol, and whether TLS was used; none of it says anything about the operation
func surroundings(req *http.Request, n int) *http.Request {
	from := []string{"192.0.2.1:1234", "[::1]:4711", "127.0.0.1:80", "", "@", "[fe80::1%eth0]:1", "192.0.2.1", "10.0.0.1:65535", "::1", "[2001:db8::1]:443", "pipe", "localhost:1"}
	req.RemoteAddr = from[n%len(from)]
	if n = n / len(from); n%4 == 1 {
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/1.0", 1, 0
	} else if n%4 == 2 {
		req.Proto, req.ProtoMajor, req.ProtoMinor = "HTTP/2.0", 2, 0
	}
	if n%3 == 1 {
		req.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "localhost"}
	}
	req.Host = []string{"example.com", "", "localhost:8080", "[::1]:8080", "127.0.0.1", "h"}[n%6]
	return req
}

var surroundingsSeq atomic.Int64

func handlerAPI(h http.Handler, header ...map[string]string) httpAPI {
	return httpAPI{func(method, path string, body []byte) (reply, error) {
		req := surroundings(httptest.NewRequest(method, path, bytes.NewReader(body)), int(surroundingsSeq.Add(1)))
		for _, hd := range header {
			for k, v := range hd {
				req.Header.Set(k, v)
			}
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		return reply{w.Code, w.Header(), w.Body.Bytes()}, nil
	}}
}

func clientAPI(c *http.Client, url string, header ...map[string]string) httpAPI {
	return httpAPI{func(method, path string, body []byte) (reply, error) {
		req, err := http.NewRequest(method, url+path, bytes.NewReader(body))
		if err != nil {
			return reply{}, err
		}
		for _, hd := range header {
			for k, v := range hd {
				req.Header.Set(k, v)
			}
		}
		resp, err := c.Do(req)
		if err != nil {
			return reply{}, fmt.Errorf("%w: %v", errTransport, err)
		}
		defer resp.Body.Close()
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return reply{}, fmt.Errorf("%w: %v", errTransport, err)
		}
		return reply{resp.StatusCode, resp.Header, b}, nil
	}}
}

// again separates the values of a header that is sent several times
const again = "\x00again\x00"

// handlerRequest gives any request to a handler, as a server that accepts everything would
func handlerRequest(h http.Handler, method, path string, header map[string]string, body []byte) (rep reply, ok bool) {
	u, err := url.ParseRequestURI(path)
	if err != nil {
		return rep, false
	}
	req := surroundings(httptest.NewRequest("POST", "/", bytes.NewReader(body)), int(surroundingsSeq.Add(1)))
	req.Method, req.URL, req.RequestURI = method, u, path
	for k, v := range header {
		for n, x := range strings.Split(v, again) {
			if n == 0 {
				req.Header.Set(k, x)
			} else {
				req.Header.Add(k, x)
			}
		}
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, req)
	return reply{w.Code, w.Header(), w.Body.Bytes()}, true
}

// httpError is a failure reported over HTTP
type httpError struct {
	Status int
	Msg    string
}

func (e *httpError) Error() string { return fmt.Sprintf("HTTP %d: %s", e.Status, e.Msg) }
func (e *httpError) Is(t error) bool {
	return (t == server.ErrNotFound && e.Status == 404) || (t == server.ErrAlreadyExists && e.Status == 400)
}

func jsonBody(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func (a httpAPI) call(method, path string, body any, out any) error {
	var b []byte
	if body != nil {
		b = jsonBody(body)
	}
	rep, err := a.do(method, path, b)
	if err != nil {
		return err
	}
	if rep.Status != 200 {
		var e struct{ Error string }
		json.Unmarshal(rep.Body, &e)
		return &httpError{rep.Status, e.Error}
	}
	if err := json.Unmarshal(rep.Body, out); err != nil {
		return fmt.Errorf("status 200 with body %q: %v", rep.Body, err)
	}
	return nil
}

func (a httpAPI) Create(b server.BaseKey) (*server.Machine, error) {
	var out struct{ Machine *server.Machine }
	err := a.call("POST", "/machine", b, &out)
	return out.Machine, err
}
func (a httpAPI) Get(ik string) (*server.Machine, error) {
	var out struct{ Machine *server.Machine }
	err := a.call("GET", "/machine/"+ik, nil, &out)
	return out.Machine, err
}
func (a httpAPI) List() ([]*server.Machine, error) {
	var out struct{ Machines []*server.Machine }
	err := a.call("GET", "/machines", nil, &out)
	return out.Machines, err
}
func (a httpAPI) Next(ik string) (string, *server.Machine, error) {
	var out struct{ Ksn string }
	err := a.call("POST", "/generate_ksn/"+ik, nil, &out)
	return out.Ksn, nil, err
}

func opBody(fn string, p opParams) map[string]any {
	b := map[string]any{}
	set := func(k, v string) {
		if v != "" {
			b[k] = v
		}
	}
	switch fn {
	case "encrypt_pin":
		set("pin", p.Pin)
		set("pan", p.Pan)
		set("format", p.Format)
	case "decrypt_pin":
		set("encrypted", p.Data)
		set("pan", p.Pan)
		set("format", p.Format)
	case "generate_mac":
		set("action", p.Action)
		set("data", p.Data)
		set("macType", p.MacType)
	case "encrypt_data", "decrypt_data":
		set("action", p.Action)
		set("data", p.Data)
		set("iv", p.IV)
	}
	return b
}

// withEmpty adds left out parameters as empty strings
func withEmpty(g rng, fn string, b map[string]any) map[string]any {
	if g.IntN(3) > 0 {
		return b
	}
	for _, k := range map[string][]string{"encrypt_pin": {"format"}, "decrypt_pin": {"format"}, "generate_mac": {"action", "data", "macType"}, "encrypt_data": {"action", "data", "iv"}, "decrypt_data": {"action", "data", "iv"}}[fn] {
		if _, ok := b[k]; !ok && g.IntN(2) == 0 {
			b[k] = ""
		}
	}
	return b
}

// field of the result in a response
func opField(fn string) string {
	return map[string]string{"encrypt_pin": "encrypted", "decrypt_pin": "decrypted", "generate_mac": "generated", "encrypt_data": "encrypted", "decrypt_data": "data"}[fn]
}

func (a httpAPI) Op(fn, ik string, p opParams) (string, error) {
	var out map[string]any
	if err := a.call("POST", "/"+fn+"/"+ik, opBody(fn, p), &out); err != nil {
		return "", err
	}
	s, ok := out[opField(fn)].(string)
	if !ok {
		return "", fmt.Errorf("status 200 without %s: %v", opField(fn), out)
	}
	return s, nil
}

// pause widens interleavings; it uses no synchronisation that could hide a race
func pause() {
	switch x := rand.IntN(16); {
	case x < 5:
	case x < 10:
		runtime.Gosched()
	case x < 13:
		for n := rand.IntN(2000); n > 0; n-- {
			_ = n
		}
	case x < 15:
		time.Sleep(time.Duration(rand.IntN(40)) * time.Microsecond)
	default:
		time.Sleep(time.Duration(rand.IntN(300)) * time.Microsecond)
	}
}

// slowRepo delays the calls of a repository before and after they happen
type slowRepo struct{ server.Repository }

func (s slowRepo) StoreMachine(m *server.Machine) error {
	pause()
	defer pause()
	return s.Repository.StoreMachine(m)
}
func (s slowRepo) FindMachine(ik string) (*server.Machine, error) {
	pause()
	defer pause()
	return s.Repository.FindMachine(ik)
}
func (s slowRepo) FindAllMachines() []*server.Machine {
	pause()
	defer pause()
	return s.Repository.FindAllMachines()
}
func (s slowRepo) DeleteMachine(ik string) error {
	pause()
	defer pause()
	return s.Repository.DeleteMachine(ik)
}

var errStorage = errors.New("storage failed")

// faultRepo fails the next calls on demand
type faultRepo struct {
	server.Repository
	failStore, failFind, failDelete atomic.Bool
	hits                            atomic.Int64
}

func (f *faultRepo) StoreMachine(m *server.Machine) error {
	if f.failStore.Load() {
		f.hits.Add(1)
		return errStorage
	}
	return f.Repository.StoreMachine(m)
}
func (f *faultRepo) FindMachine(ik string) (*server.Machine, error) {
	if f.failFind.Load() {
		f.hits.Add(1)
		return nil, errStorage
	}
	return f.Repository.FindMachine(ik)
}
func (f *faultRepo) DeleteMachine(ik string) error {
	if f.failDelete.Load() {
		f.hits.Add(1)
		return errStorage
	}
	return f.Repository.DeleteMachine(ik)
}
