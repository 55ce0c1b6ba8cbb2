package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C17", "random operation sequences on several machines (TDES and AES, some exhausted) at the service and the HTTP handler: successful, rejected (duplicates, malformed keys, KSNs, PINs, formats, MAC types, IVs, ciphertexts, unknown machines, exhausted KSNs) and with storage faults injected into store, find and delete. After every operation the full stored state (repository and service view) is compared with a model that only creation, deletion and next-KSN may change, and only for the machine they name; repositories that hold records which no creation makes (empty, hostile and differently spelled fields) are compared after every read, deletion and operation; streaks of 400 operations of one kind on one machine (mostly failing ones) are compared alike; requests of every method, known or not, to every route and near misses of them are compared alike, except those that may create or advance; every operation is repeated with query parameters and headers of the names the code looks up and of those that clients send. Distinct by (boundary, operation, outcome, fault, state of the named machine) and sequence.", c17)
	register("C18", "one TDES machine is driven through the service from counter 1 to exhaustion while every (KSN, transaction key) pair is logged: strictly increasing KSNs, no repeated key, 1,048,575 pairs, then only errors; AES machines are driven through segments all over their life and across exhaustion, two of them for 200,000 pairs (their whole life has about 2^31 pairs and is not enumerated); families of key identifiers that differ in single bits get machines of the same base key whose initial and transaction keys must all differ. Distinct by (device, KSN).", c18)
	register("C29", "valid parameters for every unified function x algorithm x key size and every machine operation at random counters (after creation and after next-KSN), with arbitrary values in unused fields; results compared with the independent reference model as exact text. Distinct by (function, parameters).", c29)
	register("C30", "every field of machines passed to create and returned by create, get, list and next-KSN is overwritten (also the list itself), in random sequences over several machines (lists also over HTTP; lists of up to 4,000 machines) and concurrently with other operations in the race build; later results are compared with a model, and descriptions obtained earlier must stay as they were. Distinct by operation sequence.", c30)
}

// world is a service whose complete state can be compared with a model
type world struct {
	r     *mon.Run
	what  string
	repo  *faultRepo
	s     server.Service
	a     api
	json  bool
	model map[string]server.Machine
	log   []string
}

func newWorld(r *mon.Run, http bool) *world {
	w := &world{r: r, what: "service", repo: &faultRepo{Repository: server.NewRepositoryInMemory(quietLog())}, model: map[string]server.Machine{}}
	w.s = server.NewService(w.repo)
	w.a = svcAPI{w.s}
	if http {
		w.what, w.a, w.json = "http handler", handlerAPI(server.MakeHTTPHandler(w.s)), true
	}
	return w
}

func (w *world) say(f string, a ...any) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
}

func (w *world) show() any { return map[string]any{"boundary": w.what, "sequence": w.log} }

// same compares descriptions; KSNs may be written in any letter case
func same(a, b server.Machine) bool {
	a.CurrentKSN, b.CurrentKSN = strings.ToLower(a.CurrentKSN), strings.ToLower(b.CurrentKSN)
	at, bt := a.CreatedAt, b.CreatedAt
	a.CreatedAt, b.CreatedAt = bt, bt
	return a == b && at.Equal(bt)
}

// compare the stored state with the model
func (w *world) compare(after string) bool {
	views := map[string][]*server.Machine{"repository": w.repo.FindAllMachines(), "service": w.s.GetMachines()}
	for name, ms := range views {
		got := map[string]server.Machine{}
		for _, m := range ms {
			if m == nil {
				w.r.Violate("state:"+w.what+":"+name, "a nil machine is listed after "+after, w.show())
				return false
			}
			got[m.InitialKey] = *m
		}
		if len(got) != len(ms) {
			w.r.Violate("state:"+w.what+":"+name, "a machine is listed twice after "+after, w.show())
			return false
		}
		for ik, want := range w.model {
			m, ok := got[ik]
			if !ok {
				w.r.Violate("state:"+w.what+":"+name+":lost", fmt.Sprintf("machine %s is gone after %s", ik, after), w.show())
				return false
			}
			if !same(m, want) {
				w.r.Violate("state:"+w.what+":"+name+":changed", fmt.Sprintf("machine %s is %+v, expected %+v after %s", ik, m, want, after), w.show())
				return false
			}
		}
		for ik := range got {
			if _, ok := w.model[ik]; !ok {
				w.r.Violate("state:"+w.what+":"+name+":extra", fmt.Sprintf("machine %s exists after %s", ik, after), w.show())
				return false
			}
		}
	}
	w.r.Count("complete state comparisons", 1)
	return true
}

// badBase makes a base key that creation must reject
func badBase(g rng, b server.BaseKey) (server.BaseKey, string) {
	switch g.IntN(7) {
	case 0:
		b.Algorithm = []string{"", "DES", "3des", "rsa", "aes128", " aes"}[g.IntN(6)]
		return b, "unknown algorithm"
	case 1:
		b.BaseDerivativeKey = "zz" + b.BaseDerivativeKey[2:]
		return b, "key not hexadecimal"
	case 2:
		b.BaseDerivativeKey = b.BaseDerivativeKey[2:]
		return b, "short key"
	case 3:
		b.KeySerialNumber = b.KeySerialNumber[1:]
		return b, "KSN with odd digits"
	case 4:
		b.KeySerialNumber = b.KeySerialNumber + strings.Repeat("00", 9)
		return b, "long KSN"
	case 5:
		b.KeySerialNumber = ""
		return b, "no KSN"
	}
	b.KeySerialNumber = b.KeySerialNumber[:4]
	return b, "short KSN"
}

// badOp makes parameters that the operation must reject
func (d *dev) badOp(g rng, fn string, p opParams) (opParams, string) {
	switch fn {
	case "encrypt_pin":
		if g.IntN(2) == 0 || d.aes() {
			p.Pin = []string{"12a4", "", "123", "1234567890123", "12 4"}[g.IntN(5)]
			return p, "bad pin"
		}
		p.Format = []string{"ISO-9", "iso", "VISA5", "ANSI "}[g.IntN(4)]
		return p, "unknown format"
	case "decrypt_pin":
		p.Data = []string{"zz", "00", p.Data + "00", p.Data[:len(p.Data)-2], ""}[g.IntN(5)]
		return p, "bad ciphertext"
	case "generate_mac":
		if d.aes() {
			p.MacType = []string{"", "CMAC", "md5"}[g.IntN(3)]
			return p, "unknown mac type"
		}
		p.Data = ""
		return p, "empty message"
	case "encrypt_data":
		p.IV = []string{"zz", "123", "0x00"}[g.IntN(3)]
		return p, "bad iv"
	}
	if g.IntN(2) == 0 {
		p.IV = "zz"
		return p, "bad iv"
	}
	p.Data = []string{"zz", p.Data + "00", "123", p.Data[:len(p.Data)-2]}[g.IntN(4)]
	return p, "bad ciphertext"
}

func c17(r *mon.Run) {
	r.Parallel(r.Pick(1200, 30000), func(i int) {
		g := r.Rng("sequence", i)
		w := newWorld(r, i%4 == 3)
		devs := newDevs(g, 2+g.IntN(3))
		unknown := newDev(g, "des")
		for n := 0; n < 30; n++ {
			d := devs[g.IntN(len(devs))]
			ik := d.ik()
			if g.IntN(8) == 0 {
				ik = []string{unknown.ik(), "00", strings.ToUpper(d.ik()) + "00", "x"}[g.IntN(4)]
			}
			old, exists := w.model[ik]
			// a storage fault during this operation
			fault := ""
			if g.IntN(6) == 0 {
				fault = []string{"store", "find", "delete"}[g.IntN(3)]
			}
			w.repo.failStore.Store(fault == "store")
			w.repo.failFind.Store(fault == "find")
			w.repo.failDelete.Store(fault == "delete")
			hits := w.repo.hits.Load()
			kind, desc := "", ""
			var err error
			r.Guard(w.show, func() {
				switch y := g.IntN(12); {
				case y < 3:
					kind = "create"
					ik, old, exists = d.ik(), w.model[d.ik()], false
					_, exists = w.model[ik]
					b := d.base(startAt(g, d))
					if g.IntN(3) == 0 {
						b, desc = badBase(g, b)
					}
					b.KeySerialNumber = hexCaseS(g, b.KeySerialNumber)
					var m *server.Machine
					m, err = w.a.Create(b)
					if err == nil {
						if desc != "" {
							r.Violate("accepts:create:"+desc, fmt.Sprintf("creation with %s succeeds: %+v", desc, b), w.show())
						}
						want := server.Machine{BaseKey: b, InitialKey: ik, CurrentKSN: b.KeySerialNumber, TransactionKey: m.TransactionKey, CreatedAt: m.CreatedAt}
						if exists {
							r.Violate("accepts:create:duplicate", "a second creation of the same machine succeeds", w.show())
						} else {
							w.model[ik] = want
						}
					}
				case y < 5:
					kind = "next"
					var m *server.Machine
					var ksn string
					ksn, m, err = w.a.Next(ik)
					if err == nil && exists {
						nm := old
						nm.CurrentKSN = ksn
						if m != nil {
							nm.TransactionKey = m.TransactionKey
						} else if sm, e := w.repo.Repository.FindMachine(ik); e == nil {
							nm.TransactionKey = sm.TransactionKey
						}
						w.model[ik] = nm
						if sameHex(ksn, old.CurrentKSN) {
							r.Violate("next:same", "next KSN succeeds without a new KSN", w.show())
						}
					}
				case y < 6:
					kind = "delete"
					err = w.s.DeleteMachine(ik)
					if err == nil {
						delete(w.model, ik)
					}
				case y < 7:
					kind = "get"
					_, err = w.a.Get(ik)
				case y < 8:
					kind = "list"
					_, err = w.a.List()
				default:
					kind = machineOps[g.IntN(len(machineOps))]
					var c uint32
					if exists {
						c, _ = d.ctrOf(old.CurrentKSN)
					}
					p := d.genOp(g, kind, c)
					if g.IntN(2) == 0 {
						p, desc = d.badOp(g, kind, p)
					}
					if w.json {
						p.forJSON()
					}
					_, err = w.a.Op(kind, ik, p)
				}
			})
			w.repo.failStore.Store(false)
			w.repo.failFind.Store(false)
			w.repo.failDelete.Store(false)
			out, msg := codeOf(err)
			if w.repo.hits.Load() > hits {
				r.Count("operations hit by a storage fault", 1)
			} else {
				fault = ""
			}
			if err != nil {
				r.Count("failed operations", 1)
			} else {
				r.Count("successful operations", 1)
			}
			w.say("%s %s %s fault=%q -> %s %s", kind, ik, desc, fault, out, msg)
			r.Eval(1)
			r.Distinct(w.what, kind, desc, out, fault, exists, i, n)
			if !w.compare(kind) {
				return
			}
			if err == nil && !exists && kind != "create" && kind != "delete" && kind != "list" {
				r.Violate("unknown:"+kind, "an operation on an unknown machine succeeds", w.show())
			}
		}
		if r.WantSample(w.what) {
			r.Sample(w.what, w.log)
		}
	})
	// whatever a repository holds, also records that no creation makes: reading and failing leave it alone
	r.Parallel(r.Pick(400, 8000), func(i int) {
		g := r.Rng("records", i)
		repo := server.NewRepositoryInMemory(nil)
		s := server.NewService(repo)
		a := []api{svcAPI{s}, handlerAPI(server.MakeHTTPHandler(s))}[i&1]
		var log []string
		model := map[string]server.Machine{}
		var iks []string
		info := func() any { return map[string]any{"steps": log} }
		check := func(kind string) bool {
			all := repo.FindAllMachines()
			if len(all) != len(model) {
				r.Violate("records:"+kind, fmt.Sprintf("%d machines stored after %s, %d expected", len(all), kind, len(model)), info())
				return false
			}
			for pass := 0; pass < 2; pass++ { // reading is one of the operations
				for ik, want := range model {
					got, err := repo.FindMachine(ik)
					if err != nil || !same(*got, want) {
						r.Violate("records:"+kind, fmt.Sprintf("after %s the record is %+v (%v), stored was %+v", kind, got, err, want), info())
						return false
					}
				}
				for _, m := range repo.FindAllMachines() {
					if want, ok := model[m.InitialKey]; !ok || !same(*m, want) {
						r.Violate("records:"+kind, fmt.Sprintf("after %s the listed record is %+v, stored was %+v", kind, *m, want), info())
						return false
					}
				}
			}
			return true
		}
		for n := 0; n < 24; n++ {
			kind := "store"
			step := func(format string, x ...any) { log = append(log, fmt.Sprintf(format, x...)) }
			var ik string
			if len(iks) > 0 {
				ik = iks[g.IntN(len(iks))]
			}
			ok := true
			r.Guard(info, func() {
				switch y := g.IntN(10); {
				case y < 4 || ik == "":
					d := newDev(g, algOf(g.IntN(2)))
					c := startAt(g, d)
					m := server.Machine{BaseKey: d.base(c), InitialKey: d.ik(), CurrentKSN: hx(d.ksnAt(c)), TransactionKey: hx(d.tk(c)), CreatedAt: time.Unix(int64(g.IntN(1<<31)), int64(g.IntN(1e9))).UTC()}
					for _, f := range []*string{&m.Algorithm, &m.AlgorithmKey, &m.BaseDerivativeKey, &m.KeySerialNumber, &m.CurrentKSN, &m.TransactionKey} {
						switch g.IntN(8) {
						case 0:
							*f = ""
						case 1:
							*f = hostileString(g)
						case 2:
							*f = strings.ToUpper(*f)
						}
					}
					if g.IntN(6) == 0 {
						m.InitialKey = pickS(g, []string{"x", "a b", strings.ToUpper(d.ik()), "\u00e9", d.ik() + " ", "k" + dictWord(g)})
					}
					if g.IntN(6) == 0 {
						m.CreatedAt = time.Time{}
					}
					_, known := model[m.InitialKey]
					step("store %+v", m)
					rec := m
					err := repo.StoreMachine(&rec)
					if known && err == nil {
						r.Violate("records:duplicate", "a second record of the same name is taken", info())
						ok = false
						return
					} else if !known && err != nil {
						r.Violate("records:store", fmt.Sprintf("a record is not taken: %v", err), info())
						ok = false
						return
					}
					if !known {
						model[m.InitialKey] = m
						iks = append(iks, m.InitialKey)
					}
				case y < 5:
					kind = "delete"
					step("delete %q", ik)
					if repo.DeleteMachine(ik) == nil {
						delete(model, ik)
					}
				case y < 6:
					kind = "list"
					step("list")
					a.List()
				case y < 7:
					kind = "get"
					step("get %q", ik)
					if i&1 == 0 || !strings.ContainsFunc(ik, func(c rune) bool {
						return c <= 32 || c > 126 || c == '%' || c == '?' || c == '#' || c == '/' || c == '.'
					}) {
						a.Get(ik)
					}
				default: // operations that fail on a record like this, or succeed
					kind = machineOps[g.IntN(len(machineOps))]
					if i&1 == 1 && strings.ContainsFunc(ik, func(c rune) bool {
						return c <= 32 || c > 126 || c == '%' || c == '?' || c == '#' || c == '/' || c == '.'
					}) {
						return
					}
					d := newDev(g, algOf(g.IntN(2)))
					p := d.genOp(g, kind, 3)
					p.forJSON()
					_, err := a.Op(kind, ik, p)
					step("%s %q %+v: %v", kind, ik, p, err)
				}
			})
			r.Eval(1)
			r.Count("operations on arbitrary records", 1)
			r.Distinct("records", i, n, kind)
			if !ok || !check(kind) {
				return
			}
		}
	})
	r.Require("operations on arbitrary records", 5000)
	// over HTTP nothing but POST /machine and POST /generate_ksn/{ik} may change a machine
	methods := []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "CONNECT", "LINK", "PURGE", "get", "post", "Post", "delete", ""}
	routes := append([]string{"machine", "machines", "generate_ksn", "ping", "", "nothing", "delete_machine", "reset", "admin", "debug", "import", "export"}, machineOps...)
	r.Parallel(len(methods)*len(routes), func(i int) {
		method, route := methods[i%len(methods)], routes[i/len(methods)]
		g := r.Rng("methods", i)
		w := newWorld(r, true)
		h := server.MakeHTTPHandler(w.s)
		devs := newDevs(g, 3)
		for _, d := range devs[:2] {
			m, err := w.a.Create(d.base(startAt(g, d)))
			if err != nil {
				r.Violate("methods:create", err.Error(), d.show())
				return
			}
			w.model[d.ik()] = *m
		}
		for n := 0; n < r.Pick(60, 900); n++ {
			d := devs[g.IntN(3)]
			path := []string{"/" + route + "/" + d.ik(), "/" + route, "/" + route + "/", "/" + route + "/" + d.ik() + "/", "//" + route + "/" + d.ik(), "/x/../" + route + "/" + d.ik(), "/" + strings.ToUpper(route) + "/" + d.ik(), "/" + route + "/" + d.ik() + "/" + pickS(g, routes), "/" + route + "?ik=" + d.ik(), "/" + route + "/" + strings.ToUpper(d.ik()), "/" + dictWord(g) + "/" + d.ik()}[g.IntN(11)]
			if g.IntN(3) == 0 {
				path += hostileQuery(g)
			} else if g.IntN(3) == 0 {
				path += pickS(g, []string{"?", "&"}) + pickS(g, []string{"_method=POST", "method=DELETE", "action=delete", "reset=1", "ksn=ffff", "delete", "next=true"})
			}
			if method == "POST" && (strings.Contains(path, "generate_ksn") || strings.HasPrefix(path, "/machine?") || strings.HasPrefix(path, "/machine&") || path == "/machine") {
				continue // these may
			}
			b := d.base(uint32(1 + g.IntN(9)))
			p := d.genOp(g, machineOps[g.IntN(len(machineOps))], 3)
			p.forJSON()
			body := [][]byte{nil, []byte("{}"), jsonBody(b), jsonBody(opBody("encrypt_data", p)), jsonBody(map[string]any{"ik": d.ik(), "InitialKey": d.ik(), "CurrentKSN": hx(d.ksnAt(9)), "TransactionKey": hx(d.tk(9))})}[g.IntN(5)]
			if opField(route) != "" && g.IntN(3) > 0 { // as the route wants it
				c := uint32(3)
				if m, ok := w.model[d.ik()]; ok {
					c, _ = d.ctrOf(m.CurrentKSN)
				}
				p := d.genOp(g, route, c)
				p.forJSON()
				path = "/" + route + "/" + d.ik() + hostileQuery(g)
				body = jsonBody(opBody(route, p))
			}
			hd := map[string]string{}
			for x := g.IntN(3); x > 0; x-- {
				k, v := hostileHeader(g)
				hd[k] = v
			}
			if g.IntN(4) == 0 {
				hd["X-Http-Method-Override"] = pickS(g, []string{"POST", "DELETE", "PUT"})
			}
			w.say("%s %s %v %s", method, path, hd, body)
			r.Guard(w.show, func() {
				handlerRequest(h, method, path, hd, body)
			})
			r.Eval(1)
			r.Count("requests that may not change anything", 1)
			r.Distinct("methods", method, path, body)
			if !w.compare(method + " " + path) {
				return
			}
		}
	})
	// the same operations with something that comes along
	xs := extras()
	r.Parallel(len(xs), func(i int) {
		g := r.Rng("extras", i)
		w := newWorld(r, true)
		h := dressed(server.MakeHTTPHandler(w.s), xs[i])
		devs := newDevs(g, 2)
		for _, d := range devs {
			m, err := w.a.Create(d.base(5))
			if err != nil {
				r.Violate("extras:create", err.Error(), d.show())
				return
			}
			w.model[d.ik()] = *m
		}
		w.say("with %s", xs[i])
		for _, d := range devs {
			for _, route := range append([]string{"get", "list", "duplicate", "unknown"}, machineOps...) {
				r.Guard(w.show, func() {
					switch route {
					case "get":
						h.Get(d.ik())
					case "list":
						h.List()
					case "duplicate":
						h.Create(d.base(9))
					case "unknown":
						h.Next("00")
						h.Get("00")
					default:
						p := d.genOp(g, route, 5)
						p.forJSON()
						h.Op(route, d.ik(), p)
						h.Op(route, "00", p)
						p, _ = d.badOp(g, route, p)
						p.forJSON()
						h.Op(route, d.ik(), p)
					}
				})
				r.Eval(1)
				r.Distinct("extras", xs[i].String(), route, d.Alg)
				r.Count("operations with extra headers and queries", 1)
				if !w.compare(route) {
					return
				}
			}
		}
	})
	r.Require("operations with extra headers and queries", 1000)
	// long streaks of one kind of operation on one machine
	streaks := append([]string{"duplicate", "bad creation", "exhausted", "unknown", "get", "list", "storage fault"}, machineOps...)
	r.Parallel(len(streaks)*4, func(i int) {
		g := r.Rng("streak", i)
		w := newWorld(r, i/len(streaks)%2 == 1)
		kind := streaks[i%len(streaks)]
		d, o := newDev(g, algOf(i/len(streaks)/2)), newDev(g, "aes")
		for _, x := range []*dev{d, o} {
			c := uint32(5)
			if kind == "exhausted" {
				c = x.nearEnd(0)
			}
			m, err := w.a.Create(x.base(c))
			if err != nil {
				r.Violate("streak:create", err.Error(), x.show())
				return
			}
			w.model[x.ik()] = *m
		}
		n := r.Pick(400, 20000)
		r.Guard(w.show, func() {
			for x := 0; x < n; x++ {
				var err error
				bad := true
				switch kind {
				case "duplicate":
					_, err = w.a.Create(d.base(startAt(g, d)))
				case "bad creation":
					b, _ := badBase(g, d.base(9))
					_, err = w.a.Create(b)
				case "exhausted":
					_, _, err = w.a.Next(d.ik())
				case "unknown":
					_, err = w.a.Get("00" + d.ik()[2:])
					w.a.Next(d.ik() + "00")
				case "get":
					_, err = w.a.Get(d.ik())
					bad = false
				case "list":
					_, err = w.a.List()
					bad = false
				case "storage fault":
					if x%2 == 0 {
						w.repo.failFind.Store(true)
						_, _, err = w.a.Next(d.ik())
					} else {
						w.repo.failStore.Store(true)
						_, err = w.a.Create(newDev(g, d.Alg).base(3))
					}
					w.repo.failFind.Store(false)
					w.repo.failStore.Store(false)
				default:
					p := d.genOp(g, kind, 5)
					if bad = x < n*3/4; bad { // then again successes
						p, _ = d.badOp(g, kind, p)
					}
					if w.json {
						p.forJSON()
					}
					if _, err = w.a.Op(kind, d.ik(), p); bad && err == nil {
						bad = false // some doubtful parameters are accepted
					}
				}
				if bad != (err != nil) {
					w.say("%d times %s", x, kind)
					r.Violate("streak:"+kind, fmt.Sprintf("number %d of a streak of %s: error %v", x+1, kind, err), w.show())
					return
				}
				if err != nil {
					r.Count("failures in streaks", 1)
				}
				if x%20 == 19 || x < 3 {
					if !w.compare(fmt.Sprintf("%d times %s", x+1, kind)) {
						return
					}
				}
			}
			w.compare(fmt.Sprintf("%d times %s", n, kind))
		})
		r.Eval(n)
		r.Count("streaks on one machine", 1)
		r.Distinct("streak", kind, i)
	})
	r.Require("failures in streaks", 5000)
	r.Require("operations hit by a storage fault", 1000)
	r.Require("failed operations", 3000)
	r.Require("successful operations", 3000)
}

func hexCaseS(g rng, s string) string {
	switch g.IntN(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return mixCase(g, strings.ToUpper(s))
	}
	return s
}

// pairLog watches the (KSN, transaction key) pairs of one machine
type pairLog struct {
	d    *dev
	last uint32
	n    int
	keys map[string]uint32
}

func (l *pairLog) add(ksn, tk string) error {
	c, err := l.d.ctrOf(ksn)
	if err != nil {
		return err
	}
	if l.n > 0 && c <= l.last {
		return fmt.Errorf("KSN counter %#x after %#x", c, l.last)
	}
	tk = strings.ToLower(tk)
	if o, ok := l.keys[tk]; ok {
		return fmt.Errorf("counters %#x and %#x have the same transaction key %s", o, c, tk)
	}
	if len(tk) != len(l.d.IK)*2 {
		return fmt.Errorf("counter %#x has transaction key %q", c, tk)
	}
	l.keys[tk] = c
	l.last = c
	l.n++
	return nil
}

// live drives a machine for at most limit steps; it tells whether the machine was exhausted
func live(r *mon.Run, what string, s server.Service, l *pairLog, start uint32, limit int) (exhausted bool) {
	d := l.d
	m := server.NewMachine(d.base(start))
	info := func() any { return map[string]any{"device": d.show(), "start": start, "pairs": l.n} }
	if err := s.CreateMachine(m); err != nil {
		r.Violate("life:create:"+what, err.Error(), info())
		return
	}
	if err := l.add(m.CurrentKSN, m.TransactionKey); err != nil {
		r.Violate("life:"+what, err.Error(), info())
		return
	}
	lastKSN, lastTK := m.CurrentKSN, m.TransactionKey
	for x := 0; x < limit; x++ {
		n, err := s.MakeNextKSN(d.ik())
		if err != nil {
			exhausted = true
			break
		}
		if e := l.add(n.CurrentKSN, n.TransactionKey); e != nil {
			r.Violate("life:"+what, e.Error(), info())
			return
		}
		lastKSN, lastTK = n.CurrentKSN, n.TransactionKey
		if x%4096 == 0 {
			r.Progress()
			if r.Stop() {
				return
			}
		}
	}
	if exhausted {
		for x := 0; x < 300; x++ {
			if n, err := s.MakeNextKSN(d.ik()); err == nil {
				r.Violate("life:after the end:"+what, fmt.Sprintf("a KSN is issued after exhaustion: %+v", n), info())
				return
			}
		}
		r.Count("machines driven to exhaustion", 1)
	}
	n, err := s.GetMachine(d.ik())
	if err != nil || !sameHex(n.CurrentKSN, lastKSN) || n.TransactionKey != lastTK {
		r.Violate("life:last pair:"+what, fmt.Sprintf("the current pair is %+v (%v), the last issued one (%s, %s)", n, err, lastKSN, lastTK), info())
	}
	r.Eval(l.n)
	r.Count("pairs logged: "+what, l.n)
	return
}

func c18(r *mon.Run) {
	var wg sync.WaitGroup
	// whole lives
	for i := 0; i < r.Pick(1, 6); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Guard(nil, func() {
				g := r.Rng("life", i)
				d := newDev(g, "des")
				if i > 0 {
					d.KSN = desKSN(g, 3+i)
					d.IK = ref.DESInitialKey(d.BDK, d.KSN)
				}
				l := &pairLog{d: d, keys: make(map[string]uint32, 1<<20)}
				s := newService()
				if !live(r, "whole TDES life", s, l, 1, 1<<21) && !r.Violated() {
					r.Violate("life:endless", "no exhaustion after 2^21 requests", d.show())
				}
				if l.n != 1048575 && !r.Violated() {
					r.Violate("life:count", fmt.Sprintf("%d pairs instead of 1048575", l.n), d.show())
				}
				r.Sample("whole TDES life", map[string]any{"device": d.show(), "pairs": l.n, "last_counter": l.last})
			})
		}()
	}
	// long AES segments, far longer than anything that may be counted in 16 bits
	for i := 0; i < r.Pick(2, 8); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Guard(nil, func() {
				g := r.Rng("long aes", i)
				d := newDev(g, "aes")
				steps := r.Pick(200_000, 2_000_000)
				l := &pairLog{d: d, keys: make(map[string]uint32, steps)}
				start := uint32(1)
				if i%2 == 1 {
					start = 1 + g.Uint32()>>3&0x0FFF0FF0
				}
				if live(r, "long AES segment", newService(), l, start, steps) && !r.Violated() {
					r.Violate("life:ended", fmt.Sprintf("no KSN is issued after %d pairs", l.n), map[string]any{"device": d.show(), "start": start})
				}
				r.Distinct("long aes", hx(d.KSN), d.BDK, start)
			})
		}()
	}
	// AES segments: low counters, all over, and across exhaustion
	r.Parallel(r.Pick(60, 1500), func(i int) {
		g := r.Rng("aes", i)
		d := newDev(g, "aes")
		l := &pairLog{d: d, keys: map[string]uint32{}}
		steps := r.Pick(1500, 20000)
		start := uint32(1)
		switch i % 4 {
		case 1:
			start = ones(g, 32, 16)
		case 2:
			start = d.nearEnd(g.IntN(12))
		case 3:
			start = uint32(0xFFFF0000) &^ (3 << 16) // two ones free: some hundred left
		}
		s := newService()
		ended := live(r, "AES segment", s, l, start, steps)
		if i%4 >= 2 && !ended && !r.Violated() {
			r.Violate("life:endless", "no exhaustion of an AES machine near its end", map[string]any{"device": d.show(), "start": start})
		}
		r.Distinct("aes", hx(d.KSN), d.BDK, start)
	})
	// TDES segments of other devices and KSN lengths
	r.Parallel(r.Pick(60, 1500), func(i int) {
		g := r.Rng("des", i)
		d := newDev(g, "des")
		l := &pairLog{d: d, keys: map[string]uint32{}}
		start := ones(g, 21, 10)
		if i%3 == 0 {
			start = 0x1FF000
		}
		s := newService()
		live(r, "TDES segment", s, l, start, r.Pick(700, 20000))
		r.Distinct("des", hx(d.KSN), d.BDK, start)
	})
	// key identifiers
	r.Parallel(r.Pick(60, 2500), func(i int) {
		g := r.Rng("identifiers", i)
		alg := algOf(i)
		n := 16
		if alg == "aes" {
			n = aesSize(g)
		}
		bdk := key(g, n)
		var base []byte
		bits := 64
		if alg == "des" {
			base, bits = desKSN(g, 10), 59
		} else {
			base = aesKSN(g)
		}
		ctr := uint32(1 + g.IntN(3))
		if alg == "des" {
			base = ref.DESWithCounter(base, ctr)
		} else {
			base = ref.AESWithCounter(base[:8], ctr)
		}
		ids := [][]byte{base}
		for b := 0; b < bits; b++ {
			k := clone(base)
			k[b/8] ^= 0x80 >> (b % 8)
			ids = append(ids, k)
		}
		for x := 0; x < 20; x++ {
			k := clone(base)
			copy(k, rbytes(g, 1+g.IntN(7)))
			ids = append(ids, k)
		}
		if alg == "des" { // shorter KSNs: identifiers that start with FF
			for l := 3; l < 10; l++ {
				ids = append(ids, ref.DESWithCounter(desKSN(g, l), ctr))
			}
		}
		s := newService()
		seen := map[string]bool{}
		keys := map[string]string{}
		for _, id := range ids {
			p := strings.Repeat("ff", 12)[:0] + hx(id)
			if alg == "des" && len(id) < 10 {
				p = strings.Repeat("ff", 10-len(id)) + p
			}
			if seen[p] {
				continue
			}
			seen[p] = true
			m := server.NewMachine(server.BaseKey{Algorithm: alg, AlgorithmKey: aesType(n), BaseDerivativeKey: hx(bdk), KeySerialNumber: hx(id)})
			info := map[string]any{"algorithm": alg, "bdk": hx(bdk), "ksn": hx(id)}
			if err := s.CreateMachine(m); err != nil {
				r.Violate("identifiers:create:"+alg, err.Error(), info)
				return
			}
			all := []string{"initial key " + m.InitialKey, "transaction key " + m.TransactionKey}
			for x := 0; x < 2; x++ {
				if nx, err := s.MakeNextKSN(m.InitialKey); err == nil {
					all = append(all, "transaction key "+nx.TransactionKey)
				}
			}
			for _, k := range all {
				v := k[strings.LastIndexByte(k, ' ')+1:]
				if o, ok := keys[v]; ok {
					r.Violate("identifiers:shared:"+alg, fmt.Sprintf("%s of KSN %s is also the %s", k, hx(id), o), info)
					return
				}
				keys[v] = k + " of KSN " + hx(id)
			}
			r.Eval(1)
			r.Distinct("id", alg, bdk, id)
			r.Count("key identifiers", 1)
		}
	})
	wg.Wait()
	if !r.Violated() {
		r.Require("pairs logged: whole TDES life", 1048575)
	}
	r.Require("machines driven to exhaustion", 20)
	r.Require("key identifiers", 2000)
}

func c29(r *mon.Run) {
	for _, alg := range []string{"des", "aes"} {
		for _, fn := range unifiedNames {
			r.Parallel(r.Pick(1500, 60000), func(i int) {
				g := r.Rng("unified/"+alg+fn, i)
				u := genUnified(g, fn, alg)
				r.Guard(func() any { return u.show() }, func() {
					got, err := unifiedFns[fn](u.P)
					if e := u.judge(got, err); e != nil {
						r.Violate("unified:"+alg+":"+fn, e.Error(), u.show())
					}
				})
				r.Eval(1)
				r.Count("unified "+fn, 1)
				r.Distinct(fn, fmt.Sprintf("%q", u.P))
				if r.WantSample(alg+" "+fn) && i < 1 {
					r.Sample(alg+" "+fn, u.show())
				}
			})
		}
	}
	r.Parallel(r.Pick(1500, 60000), func(i int) {
		g := r.Rng("service", i)
		d := newDev(g, algOf(i))
		s := newService()
		c := startAt(g, d)
		b := d.base(c)
		b.BaseDerivativeKey, b.KeySerialNumber = hexCaseS(g, b.BaseDerivativeKey), hexCaseS(g, b.KeySerialNumber)
		m := server.NewMachine(b)
		if err := s.CreateMachine(m); err != nil {
			r.Violate("service:create", err.Error(), d.show())
			return
		}
		if m.InitialKey != d.ik() {
			r.Violate("service:create", fmt.Sprintf("initial key %s, want %s", m.InitialKey, d.ik()), d.show())
			return
		}
		others := []*dev{}
		for x := 0; x < g.IntN(3); x++ { // other machines must not matter
			o := newDev(g, algOf(g.IntN(2)))
			if g.IntN(2) == 0 {
				o = nearDev(g, d)
			}
			s.CreateMachine(server.NewMachine(o.base(startAt(g, o))))
			others = append(others, o)
		}
		for step := 0; step < 3; step++ {
			tk := d.tk(c)
			for _, fn := range machineOps {
				p := d.genOp(g, fn, c)
				info := func() any {
					return map[string]any{"device": d.show(), "counter": c, "operation": fn, "parameters": fmt.Sprintf("%+q", p)}
				}
				r.Guard(info, func() {
					got, err := svcAPI{s}.Op(fn, d.ik(), p)
					if err == nil {
						err = d.judgeOp(tk, c, fn, p, got, false)
					}
					if err != nil {
						r.Violate("service:"+d.Alg+":"+fn, err.Error(), info())
					}
				})
				r.Eval(1)
				r.Count("service "+fn, 1)
				r.Distinct(d.ik(), c, fn, fmt.Sprintf("%q", p))
				if r.WantSample("service "+d.Alg+" "+fn) && i < 4 {
					r.Sample("service "+d.Alg+" "+fn, info())
				}
			}
			for _, o := range others {
				s.MakeNextKSN(o.ik())
			}
			n, ok := d.next(c)
			if !ok {
				break
			}
			if _, err := s.MakeNextKSN(d.ik()); err != nil {
				r.Violate("service:next", err.Error(), d.show())
				return
			}
			c = n
		}
	})
	r.Require("service decrypt_pin", 2000)
}

// scribble overwrites every field of a machine
func scribble(m *server.Machine, g rng) {
	junk := func() string { return []string{"", "junk", hx(rbytes(g, 12)), "des", "aes", "AES128"}[g.IntN(6)] }
	m.Algorithm, m.AlgorithmKey, m.BaseDerivativeKey, m.KeySerialNumber = junk(), junk(), junk(), junk()
	m.InitialKey, m.CurrentKSN, m.TransactionKey = junk(), junk(), junk()
	m.CreatedAt = m.CreatedAt.AddDate(1, 2, 3)
}

func c30(r *mon.Run) {
	r.Parallel(r.Pick(500, 15000), func(i int) {
		g := r.Rng("isolation", i)
		s := newService()
		h := handlerAPI(server.MakeHTTPHandler(s))
		devs := newDevs(g, 3)
		cur := map[string]server.Machine{} // model
		ctr := map[string]uint32{}
		type held struct {
			m    *server.Machine
			want server.Machine
			from string
		}
		var hold []held
		var log []string
		show := func() any { return map[string]any{"sequence": log} }
		obtained := func(m *server.Machine, from string) {
			if m == nil {
				return
			}
			if want, ok := cur[m.InitialKey]; !ok || !same(*m, want) {
				r.Violate("isolation:"+from, fmt.Sprintf("%s returns %+v, expected %+v", from, *m, want), show())
			}
			if g.IntN(2) == 0 {
				scribble(m, g)
				log = append(log, "  and overwrite it")
				r.Count("overwritten machines", 1)
			} else {
				hold = append(hold, held{m, *m, from})
			}
		}
		r.Guard(show, func() {
			for n := 0; n < 25; n++ {
				d := devs[g.IntN(len(devs))]
				ik := d.ik()
				_, exists := cur[ik]
				switch y := g.IntN(10); {
				case y < 3:
					c := startAt(g, d)
					m := server.NewMachine(d.base(c))
					if g.IntN(3) == 0 { // a used machine of another device is passed again
						for _, h := range hold {
							m = h.m
							m.BaseKey = d.base(c)
							break
						}
						if len(hold) > 0 {
							hold = hold[1:]
						}
					}
					log = append(log, fmt.Sprintf("create %s", ik))
					err := s.CreateMachine(m)
					if (err == nil) == exists {
						r.Violate("isolation:create", fmt.Sprintf("exists=%v, error %v", exists, err), show())
						return
					}
					if err == nil {
						cur[ik] = server.Machine{BaseKey: d.base(c), InitialKey: ik, CurrentKSN: hx(d.ksnAt(c)), TransactionKey: hx(d.tk(c)), CreatedAt: m.CreatedAt}
						ctr[ik] = c
						obtained(m, "create")
					} else {
						scribble(m, g)
						log = append(log, "  (exists) and overwrite the argument")
					}
				case y < 5:
					log = append(log, "get "+ik)
					m, err := s.GetMachine(ik)
					if (err == nil) != exists {
						r.Violate("isolation:get", fmt.Sprintf("exists=%v, error %v", exists, err), show())
						return
					}
					if err == nil {
						obtained(m, "get")
					}
				case y < 7:
					log = append(log, "list")
					ms := s.GetMachines()
					if g.IntN(2) == 0 { // the same over HTTP: it shows and changes nothing else
						log = append(log, "  over HTTP")
						var err error
						if g.IntN(4) == 0 {
							h.Get(ik)
							ms, err = h.List()
						} else {
							ms, err = h.List()
						}
						if err != nil {
							r.Violate("isolation:list", err.Error(), show())
							return
						}
						r.Count("lists over HTTP", 1)
					}
					if len(ms) != len(cur) {
						r.Violate("isolation:list", fmt.Sprintf("%d machines instead of %d", len(ms), len(cur)), show())
						return
					}
					for _, m := range ms {
						obtained(m, "list")
					}
					for x := range ms[:cap(ms)] {
						ms[:cap(ms)][x] = nil
					}
				case y < 9:
					log = append(log, "next "+ik)
					m, err := s.MakeNextKSN(ik)
					nc, more := d.next(ctr[ik])
					if (err == nil) != (exists && more) {
						r.Violate("isolation:next", fmt.Sprintf("exists=%v more=%v, error %v", exists, more, err), show())
						return
					}
					if err == nil {
						nm := cur[ik]
						nm.CurrentKSN, nm.TransactionKey = hx(d.ksnAt(nc)), hx(d.tk(nc))
						cur[ik], ctr[ik] = nm, nc
						obtained(m, "next")
					}
				default:
					fn := machineOps[g.IntN(len(machineOps))]
					log = append(log, fn+" "+ik)
					p := d.genOp(g, fn, ctr[ik])
					got, err := svcAPI{s}.Op(fn, ik, p)
					if exists {
						if err == nil {
							err = d.judgeOp(d.tk(ctr[ik]), ctr[ik], fn, p, got, false)
						}
						if err != nil {
							r.Violate("isolation:"+fn, err.Error(), show())
							return
						}
					}
				}
				for _, h := range hold {
					if *h.m != h.want {
						r.Violate("isolation:held:"+h.from, fmt.Sprintf("a description obtained earlier changed from %+v to %+v", h.want, *h.m), show())
						return
					}
					r.Count("comparisons of descriptions obtained earlier", 1)
				}
				r.Eval(1)
			}
		})
		r.Distinct(strings.Join(log, ";"))
		if r.WantSample("sequence") {
			r.Sample("sequence", log)
		}
	})
	// many machines: long lists are copies too
	r.Parallel(r.Pick(4, 40), func(i int) {
		g := r.Rng("many", i)
		s := newService()
		var a api = svcAPI{s}
		bdk := key(g, 16)
		cur := map[string]server.Machine{}
		for n, most := 0, []int{1500, 300, 700, 4000}[i%4]; n < most; n++ {
			m := server.NewMachine(server.BaseKey{Algorithm: "des", BaseDerivativeKey: hx(bdk), KeySerialNumber: fmt.Sprintf("%010x%04x200001", n, i)})
			if err := s.CreateMachine(m); err != nil {
				r.Violate("isolation:many:create", err.Error(), m)
				return
			}
			cur[m.InitialKey] = *m
			scribble(m, g)
		}
		check := func(after string) (ms []*server.Machine, ok bool) {
			ms, err := a.List()
			if err != nil || len(ms) != len(cur) {
				r.Violate("isolation:many:list", fmt.Sprintf("%s: %d of %d machines are listed (error %v)", after, len(ms), len(cur), err), nil)
				return nil, false
			}
			for _, m := range ms {
				if !same(*m, cur[m.InitialKey]) {
					r.Violate("isolation:many:list", fmt.Sprintf("%s one of %d machines is listed as %+v instead of %+v", after, len(cur), *m, cur[m.InitialKey]), nil)
					return nil, false
				}
			}
			r.Eval(len(ms))
			return ms, true
		}
		ms, ok := check("after the creations")
		if !ok {
			return
		}
		kept := make([]server.Machine, len(ms))
		for k, m := range ms { // half are kept, half overwritten
			if k%2 == 0 {
				scribble(m, g)
			}
			kept[k] = *m
		}
		if _, ok = check("after every second entry of a list was overwritten"); !ok {
			return
		}
		n := 0
		for ik := range cur { // some advance
			if n++; n%5 == 0 {
				m, err := s.MakeNextKSN(ik)
				if err != nil {
					r.Violate("isolation:many:next", err.Error(), ik)
					return
				}
				cur[ik] = *m
			}
		}
		for k, m := range ms {
			if *m != kept[k] {
				r.Violate("isolation:many:held", fmt.Sprintf("an entry of a list of %d machines changed from %+v to %+v", len(ms), kept[k], *m), nil)
				return
			}
		}
		check("after every fifth machine advanced")
		r.Count("machines of long lists", len(ms))
		r.Distinct("many", i)
	})
	r.Require("machines of long lists", 5000)
	// concurrently: overwriting what was obtained must not race with the service
	lanes(r, r.Pick(60, 2000), func(i int) {
		g := r.Rng("concurrent", i)
		s := server.NewService(slowRepo{server.NewRepositoryInMemory(quietLog())})
		devs := newDevs(g, 2)
		for _, d := range devs {
			m := server.NewMachine(d.base(0))
			s.CreateMachine(m)
			scribble(m, g)
		}
		gs := make([]rng, 5)
		for c := range gs {
			gs[c] = r.Rng("concurrent client", i*10+c)
		}
		h := clients(r, 5, func(c int, rec func(ev)) {
			g := gs[c]
			for x := 0; x < 8; x++ {
				k := g.IntN(len(devs))
				d := devs[k]
				var ms []*server.Machine
				switch g.IntN(4) {
				case 0:
					m, err := s.GetMachine(d.ik())
					if err == nil {
						ms = append(ms, m)
					}
				case 1:
					ms = s.GetMachines()
				case 2:
					m, err := s.MakeNextKSN(d.ik())
					if err == nil {
						ms = append(ms, m)
					}
				case 3: // a creation that fails
					m := server.NewMachine(d.base(1))
					if err := s.CreateMachine(m); err == nil {
						r.Violate("isolation:create", "a duplicate creation succeeds", d.show())
					}
					scribble(m, g)
				}
				for _, m := range ms {
					c := *m
					rec(ev{Kind: "get", K: k, M: &c, Out: hout{Code: "ok"}})
					scribble(m, g)
				}
			}
		})
		sort.Slice(h, func(i, j int) bool { return h[i].Client < h[j].Client })
		for _, e := range h {
			k := findDev(devs, e.M.InitialKey)
			if k < 0 {
				r.Violate("isolation:concurrent", fmt.Sprintf("the service returned %+v", *e.M), nil)
				continue
			}
			if err := devs[k].checkDesc(e.M); err != nil {
				r.Violate("isolation:concurrent", err.Error(), *e.M)
			}
			r.Count("descriptions obtained under concurrency", 1)
		}
		r.Eval(len(h))
	})
	r.Require("overwritten machines", 1000)
	r.Require("comparisons of descriptions obtained earlier", 5000)
}
