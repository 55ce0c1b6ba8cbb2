package main

import (
	"bytes"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C10", "hostile arguments for every exported operation: valid calls with one to all arguments replaced by nil, wrong lengths, arbitrary or non-hexadecimal text, unknown names and ciphertexts of other keys, for the library, the unified functions and the machine service; the monitor catches panics. Non-trivial: at least one argument is hostile. Distinct by (operation, arguments).", c10)
	register("C11", "enumeration of malformed key material: for every operation every key length 0..48, every KSN length 0..24, every key type x key length pair, unknown formats, algorithms and MAC types, and in the unified functions and the service every key, KSN, IV and ciphertext parameter made non-hexadecimal in several ways (wrong digits, grouped, marked, quoted, encoded otherwise); each must give an error and no result. Distinct by (operation, malformed argument).", c11)
	register("C12", "every operation with arguments placed in canary arenas with spare capacity (valid and hostile arguments): arenas are compared before and after, results are scribbled over up to their capacity and the call is repeated, earlier results are watched during later calls, and thousands of them through garbage collections. Distinct by (operation, arguments).", c12)
}

// corrupt replaces some arguments by hostile ones and tells which
func corrupt(g rng, a *args) {
	n := 1 + g.IntN(3)
	if g.IntN(6) == 0 {
		n = 12
	}
	for ; n > 0; n-- {
		switch g.IntN(11) {
		case 0:
			a.Key = hostileBytes(g)
		case 1:
			a.KSN = hostileBytes(g)
		case 2:
			a.IV = hostileBytes(g)
		case 3:
			a.CT = hostileBytes(g)
		case 4:
			a.Pin = hostileString(g)
		case 5:
			a.Pan = hostileString(g)
		case 6:
			a.Format = hostileString(g)
		case 7:
			a.KeyType = hostileString(g)
		case 8:
			a.Action = hostileString(g)
		case 9:
			a.Text = hostileString(g)
		case 10: // well-formed ciphertext of another key
			switch {
			case len(a.CT) > 0:
				a.CT = rbytes(g, len(a.CT))
			default:
				a.CT = rbytes(g, 16)
			}
		}
	}
}

func quietLog() log.Logger { return log.NewNopLogger() }

func newService() server.Service { return server.NewService(server.NewRepositoryInMemory(quietLog())) }

func c10(r *mon.Run) {
	per := r.Pick(4000, 200000)
	for _, o := range ops {
		r.Parallel(per, func(i int) {
			g := r.Rng(o.Name, i)
			a := o.Gen(g)
			corrupt(g, a)
			in := a.clone()
			r.Guard(func() any { return map[string]any{"operation": o.Name, "arguments": a.show()} }, func() {
				res := o.Call(in)
				if res.Err != nil {
					r.Count("calls that returned an error", 1)
				} else {
					r.Count("calls that returned a result", 1)
				}
			})
			r.Eval(1)
			r.Distinct(o.Name, a.Key, a.KSN, a.IV, a.CT, a.Pin, a.Pan, a.Format, a.KeyType, a.Text)
			if r.WantSample("library") {
				r.Sample("library", map[string]any{"operation": o.Name, "arguments": a.show()})
			}
		})
		r.Count("operations driven", 1)
	}
	// decryption of random PIN blocks under every format: any clear block may come out
	r.Parallel(r.Pick(40000, 1000000), func(i int) {
		g := r.Rng("blocks", i)
		o := opByName("des.DecryptPin")
		f := append([]string{"ISO-4"}, ref.DESFormats...)[i%14]
		clear := rbytes(g, 8)
		switch g.IntN(4) {
		case 0: // right control nibble, any length nibble
			clear[0] = byte(g.IntN(4))<<4 | byte(g.IntN(16))
		case 1:
			clear[0] = byte(g.IntN(16))
		case 2:
			copy(clear, mustHex(digits(g, 16)))
		}
		pan := digits(g, 13+g.IntN(7))
		if ref.IsIso0Family(f) && g.IntN(2) == 0 {
			b := mustHex("0000" + pan[len(pan)-13:len(pan)-1])
			for j := range clear {
				clear[j] ^= b[j]
			}
		}
		k := key(g, 16)
		a := &args{Key: k, Format: f, Pan: pan, CT: ref.DESPinEnc(k, clear)}
		r.Guard(func() any { return map[string]any{"operation": o.Name, "arguments": a.show(), "clear": hx(clear)} }, func() { o.Call(a) })
		r.Eval(1)
		r.Count("arbitrary clear PIN blocks decoded", 1)
		r.Distinct("block", f, clear, pan)
	})
	r.Parallel(r.Pick(20000, 500000), func(i int) {
		g := r.Rng("aesblocks", i)
		o := opByName("aes.DecryptPin")
		a := genAesPin(g)
		// any clear PIN field
		field := rbytes(g, 16)
		if g.IntN(2) == 0 {
			field[0] = 0x40 | byte(g.IntN(16))
		}
		k := ref.AESWorkKey(a.Key, a.KSN, ref.UsePin)
		if len(a.Pan) >= 12 {
			blk := ref.AESEnc(k, field)
			p := mustHex(fmt.Sprintf("%X", len(a.Pan)-12) + a.Pan + strings.Repeat("0", 31-len(a.Pan)))
			for j := range blk {
				blk[j] ^= p[j]
			}
			a.CT = ref.AESEnc(k, blk)
		}
		r.Guard(func() any { return map[string]any{"operation": o.Name, "arguments": a.show(), "clear": hx(field)} }, func() { o.Call(a.clone()) })
		r.Eval(1)
		r.Count("arbitrary clear PIN blocks decoded", 1)
	})
	// unified functions
	per = r.Pick(4000, 150000)
	for _, fn := range unifiedNames {
		r.Parallel(per, func(i int) {
			g := r.Rng("unified"+fn, i)
			u := genUnified(g, fn, []string{"des", "aes"}[i%2])
			fields := []*string{&u.P.Algorithm, &u.P.AlgorithmKey, &u.P.BKD, &u.P.KSN, &u.P.IK, &u.P.TK, &u.P.PIN, &u.P.PAN, &u.P.Format, &u.P.MacType, &u.P.Plaintext, &u.P.Ciphertext, &u.P.Action, &u.P.IV}
			n := 1 + g.IntN(4)
			if g.IntN(8) == 0 {
				n = 30
			}
			for ; n > 0; n-- {
				f := fields[g.IntN(len(fields))]
				if f == &u.P.Algorithm && g.IntN(3) > 0 {
					continue
				}
				*f = hostileString(g)
			}
			r.Guard(func() any { return u.show() }, func() {
				_, err := unifiedFns[fn](u.P)
				u.P.ValidateAlgorithm()
				if err != nil {
					r.Count("calls that returned an error", 1)
				} else {
					r.Count("calls that returned a result", 1)
				}
			})
			r.Eval(1)
			r.Distinct("unified", fn, fmt.Sprint(u.P))
			if r.WantSample("unified") {
				r.Sample("unified", u.show())
			}
		})
		r.Count("operations driven", 1)
	}
	// the service
	r.Parallel(r.Pick(600, 20000), func(i int) {
		g := r.Rng("service", i)
		s := newService()
		var iks []string
		var script []string
		r.Guard(func() any { return map[string]any{"calls": script} }, func() {
			say := func(f string, a ...any) { script = append(script, fmt.Sprintf(f, a...)) }
			arg := func() string { return hostileString(g) }
			ik := func() string {
				if len(iks) > 0 && g.IntN(4) > 0 {
					return iks[g.IntN(len(iks))]
				}
				return arg()
			}
			for n := 0; n < 40; n++ {
				switch g.IntN(12) {
				case 0, 1, 2:
					var m *server.Machine
					switch g.IntN(8) {
					case 0:
						m = nil
					case 1:
						m = &server.Machine{}
					default:
						u := genUnified(g, "InitialKey", []string{"des", "aes"}[g.IntN(2)])
						b := server.BaseKey{Algorithm: u.P.Algorithm, AlgorithmKey: u.P.AlgorithmKey, BaseDerivativeKey: u.P.BKD, KeySerialNumber: u.P.KSN}
						for _, f := range []*string{&b.Algorithm, &b.AlgorithmKey, &b.BaseDerivativeKey, &b.KeySerialNumber} {
							if g.IntN(6) == 0 {
								*f = arg()
							}
						}
						m = server.NewMachine(b)
						if g.IntN(5) == 0 {
							m.CurrentKSN, m.InitialKey, m.TransactionKey = arg(), arg(), arg()
						}
					}
					say("CreateMachine(%+v)", m)
					if err := s.CreateMachine(m); err == nil {
						iks = append(iks, m.InitialKey)
						r.Count("machines created", 1)
					}
				case 3:
					k := ik()
					say("GetMachine(%q)", k)
					s.GetMachine(k)
				case 4:
					say("GetMachines()")
					s.GetMachines()
				case 5:
					k := ik()
					say("MakeNextKSN(%q)", k)
					s.MakeNextKSN(k)
				case 6:
					if g.IntN(4) == 0 {
						k := ik()
						say("DeleteMachine(%q)", k)
						s.DeleteMachine(k)
					}
				case 7:
					k, a, b, c := ik(), arg(), arg(), arg()
					say("EncryptPin(%q,%q,%q,%q)", k, a, b, c)
					s.EncryptPin(k, a, b, c)
				case 8:
					k, a, b, c := ik(), hexCase(g, hostileBytes(g)), digits(g, 12+g.IntN(9)), append([]string{"ISO-4", "", arg()}, ref.DESFormats...)[g.IntN(16)]
					say("DecryptPin(%q,%q,%q,%q)", k, a, b, c)
					s.DecryptPin(k, a, b, c)
				case 9:
					k, a, b, c := ik(), arg(), arg(), []string{"cmac", "hmac", arg()}[g.IntN(3)]
					say("GenerateMac(%q,%q,%q,%q)", k, a, b, c)
					s.GenerateMac(k, a, b, c)
				case 10:
					k, a, b, c := ik(), arg(), arg(), arg()
					say("EncryptData(%q,%q,%q,%q)", k, a, b, c)
					s.EncryptData(k, a, b, c)
				case 11:
					k, a, b, c := ik(), hexCase(g, hostileBytes(g)), arg(), arg()
					say("DecryptData(%q,%q,%q,%q)", k, a, b, c)
					s.DecryptData(k, a, b, c)
				}
				r.Eval(1)
			}
			r.Distinct("service", strings.Join(script, "|"))
			if r.WantSample("service") {
				r.Sample("service", script[:6])
			}
		})
		r.Count("service scripts", 1)
	})
	// the repository
	r.Guard(nil, func() {
		repo := server.NewRepositoryInMemory(nil)
		repo.StoreMachine(nil)
		repo.StoreMachine(&server.Machine{})
		repo.FindMachine("")
		repo.FindMachine("\xff")
		repo.DeleteMachine("nothing")
		repo.FindAllMachines()
		server.NewService(repo).GetMachines()
		r.Count("operations driven", 5)
	})
	r.Require("machines created", 100)
	r.Require("calls that returned a result", 1000)
	r.Require("calls that returned an error", 1000)
}

func has(set []int, n int) bool {
	for _, s := range set {
		if s == n {
			return true
		}
	}
	return false
}

func c11(r *mon.Run) {
	reject := func(what, opName string, a *args, res result) {
		if res.Err == nil {
			r.Violate(opName+":"+what, "malformed input is accepted", map[string]any{"arguments": a.show(), "result": res.show()})
		} else if len(res.B) > 0 || res.S != "" {
			r.Violate(opName+":"+what+":result", "an error together with a result", map[string]any{"arguments": a.show(), "result": res.show()})
		}
		r.Eval(1)
	}
	reps := r.Pick(3, 60)
	for _, o := range ops {
		if o.Fam == "ecb" || strings.HasPrefix(o.Name, "pkg.Hex") || strings.HasPrefix(o.Name, "pkg.Get") || strings.HasPrefix(o.Name, "pkg.IsValid") {
			continue
		}
		keyLens, ksnLens := []int{16}, []int{3, 4, 5, 6, 7, 8, 9, 10}
		if o.Fam == "aes" {
			keyLens, ksnLens = []int{16, 24, 32}, []int{12}
		}
		switch o.Name {
		case "aes.DerivationOfInitialKey":
			ksnLens = []int{8, 12}
		case "pkg.GenerateNextAesKsn":
			ksnLens = []int{12}
		}
		usesKSN := o.Fam == "ksn" || o.Fam == "aes" || strings.HasPrefix(o.Name, "des.Deriv")
		call := func(what string, a *args) {
			in := a.clone()
			r.Guard(func() any { return map[string]any{"operation": o.Name, "arguments": a.show()} }, func() {
				reject(what, o.Name, a, o.Call(in))
			})
			r.Distinct(o.Name, what, a.Key, a.KSN, a.KeyType, a.Format)
		}
		r.Parallel(49, func(n int) {
			g := r.Rng(o.Name, n)
			for k := 0; k < reps; k++ {
				if o.Fam != "ksn" && !has(keyLens, n) {
					a := o.Gen(g)
					// both a prefix/extension of a good key and any bytes
					good := key(g, 48)
					copy(good, a.Key)
					a.Key = good[:n:n]
					if k == 1 {
						a.Key = make([]byte, n)
					}
					if n == 0 && k == 2 {
						a.Key = nil
					}
					call(fmt.Sprintf("keylen%d", n), a)
					// also with every key type that exists
					if o.Fam == "aes" {
						for _, t := range []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256", "TDES2", "TDES3", ""} {
							b := *a
							b.KeyType = t
							call(fmt.Sprintf("keylen%d", n), &b)
						}
					}
				}
				if usesKSN && n <= 24 && !has(ksnLens, n) {
					a := o.Gen(g)
					good := rbytes(g, 48)
					copy(good, a.KSN)
					a.KSN = good[:n:n]
					if k == 1 {
						a.KSN = make([]byte, n)
					}
					if n == 0 && k == 2 {
						a.KSN = nil
					}
					call(fmt.Sprintf("ksnlen%d", n), a)
				}
			}
		})
		g := r.Rng(o.Name+"names", 0)
		if o.Fam == "aes" && !strings.HasPrefix(o.Name, "aes.Deriv") {
			good := map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}
			if strings.Contains(o.Name, "HMAC") {
				good = map[int]string{16: "HMAC128", 24: "HMAC192", 32: "HMAC256"}
			}
			types := []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256", "TDES2", "TDES3", "", "AES", "AES512", "aes-128", "AES128 ", "DES", "AES1280", "\x00", "AES12８"}
			for k := 0; k < reps; k++ {
				for _, n := range []int{16, 24, 32} {
					for _, t := range types {
						if good[n] == t {
							continue
						}
						a := o.Gen(g)
						a.Key = key(g, n)
						a.KeyType = t
						call(fmt.Sprintf("keytype:%q:%d", t, n), a)
					}
				}
			}
			r.Parallel(r.Pick(400, 20000), func(i int) {
				g := r.Rng(o.Name+"nearnames", i)
				a := o.Gen(g)
				a.KeyType = nearName(g, []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256"})
				call(fmt.Sprintf("keytype:%q:%d", a.KeyType, len(a.Key)), a)
				r.Count("near-miss names", 1)
			})
		}
		if strings.HasPrefix(o.Name, "des.") && strings.HasSuffix(o.Name, "Pin") {
			for _, f := range []string{"", " ", "ISO", "ISO0", "ISO-5", "ISO-9", "ISO_0", "ISO-0 ", "ISO-00", "ECI", "ECI0", "ECI5", "VISA", "VISA0", "VISA5", "ANSI2", "OEM1", "ISO-4", "iso-4", "\x00", "ISO-０", "0"} {
				for k := 0; k < reps; k++ {
					a := o.Gen(g)
					a.Format = f
					call(fmt.Sprintf("format:%q", f), a)
				}
			}
			r.Parallel(r.Pick(1500, 60000), func(i int) {
				g := r.Rng(o.Name+"nearnames", i)
				a := o.Gen(g)
				a.Format = nearName(g, ref.DESFormats)
				call(fmt.Sprintf("format:%q", a.Format), a)
				r.Count("near-miss names", 1)
			})
		}
		r.Count("library operations", 1)
	}
	r.Sample("library", "key lengths 0..48, KSN lengths 0..24, 17 key types x 3 key lengths, 22 formats per operation")

	// unified functions: one used parameter made bad at a time
	nonHex := func(g rng, s string) []string {
		b := []byte(s)
		out := []string{}
		if len(b) > 0 {
			c := append([]byte{}, b...)
			c[g.IntN(len(c))] = "gGzZ -.\x00\xffOxX"[g.IntN(12)]
			out = append(out, string(c), s+"0", s[:len(s)-1], "0x"+s, s+" ", " "+s, s+"zz", "zz"+s)
			for _, x := range []string{"\n", "\r\n", "\r", "\t", "\x00", "\u00a0", "\ufeff", "\v", ";", ",", "h", "\\n", "=", "\""} {
				out = append(out, s+x, x+s)
			}
			if n := len(s) / 2; n > 0 {
				out = append(out, s[:n]+"\n"+s[n:], s[:n]+" "+s[n:], s[:n]+":"+s[n:], s[:n]+"-"+s[n:], s[:n]+"_"+s[n:], s[:2]+" "+s[2:])
			}
			out = append(out, otherForms(g, s)...)
		}
		return append(out, "zz", "hello world", "z", "٠١٢٣", "0")
	}
	type used struct{ fn, alg, field string }
	get := func(p *server.UnifiedParams, f string) *string {
		return map[string]*string{"Algorithm": &p.Algorithm, "AlgorithmKey": &p.AlgorithmKey, "BKD": &p.BKD, "KSN": &p.KSN, "IK": &p.IK, "TK": &p.TK, "PIN": &p.PIN, "IV": &p.IV, "Ciphertext": &p.Ciphertext, "Format": &p.Format, "MacType": &p.MacType}[f]
	}
	var list []used
	for _, alg := range []string{"des", "aes"} {
		list = append(list, used{"InitialKey", alg, "BKD"}, used{"InitialKey", alg, "KSN"}, used{"TransactionKey", alg, "IK"}, used{"TransactionKey", alg, "KSN"})
		for _, fn := range []string{"EncryptPin", "DecryptPin", "GenerateMac", "EncryptData", "DecryptData"} {
			list = append(list, used{fn, alg, "TK"})
			if alg == "aes" {
				list = append(list, used{fn, alg, "KSN"}, used{fn, alg, "AlgorithmKey"})
			}
		}
		list = append(list, used{"DecryptPin", alg, "PIN"}, used{"EncryptData", alg, "IV"}, used{"DecryptData", alg, "IV"}, used{"DecryptData", alg, "Ciphertext"})
	}
	list = append(list, used{"GenerateMac", "aes", "MacType"}, used{"EncryptPin", "des", "Format"}, used{"DecryptPin", "des", "Format"})
	for _, fn := range unifiedNames {
		list = append(list, used{fn, "des", "Algorithm"}, used{fn, "aes", "Algorithm"})
	}
	r.Parallel(len(list), func(i int) {
		x := list[i]
		for k := 0; k < r.Pick(40, 2000); k++ {
			g := r.Rng("unified", i*100000+k)
			u := genUnified(g, x.fn, x.alg)
			var bads []string
			cur := *get(&u.P, x.field)
			switch x.field {
			case "Algorithm":
				bads = []string{"", "DES", "AES", "Aes", "aes ", "tdes", "3des", "aes128", "\x00", hostileString(g) + "?"}
				for n := 0; n < 12; n++ {
					bads = append(bads, nearName(g, []string{"des", "aes"}))
				}
			case "AlgorithmKey":
				bads = []string{"", "AES", "AES512", "TDES2", "TDES3", "HMAC", "AES128x", hostileString(g) + "?"}
				for n := 0; n < 12; n++ {
					bads = append(bads, nearName(g, []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256"}))
				}
				for _, t := range []string{"AES128", "AES192", "AES256", "HMAC128", "HMAC192", "HMAC256"} {
					if t != cur {
						bads = append(bads, t)
					}
				}
			case "MacType":
				bads = []string{"", "CMAC", "HMAC", "mac", "cmac ", "hmac256", hostileString(g) + "?"}
				for n := 0; n < 12; n++ {
					bads = append(bads, nearName(g, []string{"cmac", "hmac"}))
				}
			case "Format":
				bads = []string{"", "ISO", "ISO-5", "ISO-4", "VISA5", "OEM1", hostileString(g) + "?"}
				for n := 0; n < 12; n++ {
					bads = append(bads, nearName(g, ref.DESFormats))
				}
			default:
				bads = nonHex(g, cur)
				if x.field != "IV" && x.field != "Ciphertext" {
					bads = append(bads, "", strings.Repeat(cur, 13))
				}
			}
			for _, b := range bads {
				v := *u
				*get(&v.P, x.field) = b
				r.Guard(func() any { return v.show() }, func() {
					got, err := unifiedFns[x.fn](v.P)
					if err == nil {
						r.Violate("unified:"+x.fn+":"+x.alg+":"+x.field, fmt.Sprintf("%s = %q is accepted and gives %q", x.field, b, got), v.show())
					} else if got != "" {
						r.Violate("unified:"+x.fn+":"+x.alg+":"+x.field+":result", "an error together with a result", v.show())
					}
				})
				r.Eval(1)
				r.Distinct("unified", x.fn, x.alg, x.field, b)
			}
			if k == 0 && i%7 == 0 {
				r.Sample("unified", map[string]any{"function": x.fn, "algorithm": x.alg, "field": x.field, "values": fmt.Sprintf("%q", bads)})
			}
		}
		r.Count("unified (function, algorithm, parameter) triples", 1)
	})
	// service: creation with malformed base keys, operations with malformed parameters
	r.Parallel(r.Pick(400, 10000), func(i int) {
		g := r.Rng("service", i)
		s := newService()
		alg := []string{"des", "aes"}[i%2]
		good := genUnified(g, "InitialKey", alg)
		b := server.BaseKey{Algorithm: alg, AlgorithmKey: good.P.AlgorithmKey, BaseDerivativeKey: good.P.BKD, KeySerialNumber: good.P.KSN}
		if alg == "aes" && len(b.KeySerialNumber) == 16 {
			b.KeySerialNumber += "00000001"
		}
		okLens := []int{3, 4, 5, 6, 7, 8, 9, 10}
		keyLens := []int{16}
		if alg == "aes" {
			okLens, keyLens = []int{12}, []int{16, 24, 32}
		}
		bad := b
		var why string
		switch i / 2 % 5 {
		case 0:
			n := g.IntN(40)
			for has(keyLens, n) {
				n = g.IntN(40)
			}
			bad.BaseDerivativeKey, why = hx(rbytes(g, n)), "base key length"
		case 1:
			n := g.IntN(20)
			for has(okLens, n) {
				n = g.IntN(20)
			}
			bad.KeySerialNumber, why = hx(rbytes(g, n)), "KSN length"
		case 2:
			l := nonHex(g, b.BaseDerivativeKey)
			bad.BaseDerivativeKey, why = l[g.IntN(len(l))], "base key not hexadecimal"
		case 3:
			l := nonHex(g, b.KeySerialNumber)
			bad.KeySerialNumber, why = l[g.IntN(len(l))], "KSN not hexadecimal"
		case 4:
			bad.Algorithm, why = []string{"", "DES", "AES", "rsa", "aes128", nearName(g, []string{"des", "aes"})}[g.IntN(6)], "algorithm"
		}
		show := func() any { return map[string]any{"base key": fmt.Sprintf("%+q", bad), "why": why} }
		r.Guard(show, func() {
			if err := s.CreateMachine(server.NewMachine(bad)); err == nil {
				r.Violate("service:create:"+alg+":"+why, "a malformed base key is accepted", show())
			}
			if n := len(s.GetMachines()); n != 0 {
				r.Violate("service:create:"+alg+":"+why+":stored", fmt.Sprintf("%d machines are stored", n), show())
			}
			r.Eval(1)
			r.Distinct("service", fmt.Sprint(bad))
			m := server.NewMachine(b)
			if err := s.CreateMachine(m); err != nil {
				r.Violate("service:create:"+alg+":good", err.Error(), map[string]any{"base key": fmt.Sprintf("%+v", b)})
				return
			}
			ik := m.InitialKey
			tries := map[string]func() (string, error){
				"EncryptData iv": func() (string, error) {
					return s.EncryptData(ik, "data", "request", pickS(g, nonHex(g, "0011223344556677")))
				},
				"DecryptData iv": func() (string, error) {
					return s.DecryptData(ik, hx(make([]byte, 16)), "request", pickS(g, nonHex(g, "00112233")))
				},
				"DecryptData ct": func() (string, error) {
					return s.DecryptData(ik, pickS(g, nonHex(g, hx(rbytes(g, 16)))), "request", "")
				},
				"DecryptPin ct": func() (string, error) {
					return s.DecryptPin(ik, pickS(g, nonHex(g, hx(rbytes(g, 16)))), "4012345678909", "ISO-0")
				},
			}
			if alg == "aes" {
				tries["mac type"] = func() (string, error) {
					return s.GenerateMac(ik, "data", "request", pickS(g, []string{"", "CMAC", "mac", "sha", nearName(g, []string{"cmac", "hmac"})}))
				}
			} else {
				tries["EncryptPin format"] = func() (string, error) {
					return s.EncryptPin(ik, "1234", "4012345678909", pickS(g, []string{"ISO-4", "X", "ISO", " ", nearName(g, ref.DESFormats), nearName(g, ref.DESFormats)}))
				}
				tries["DecryptPin format"] = func() (string, error) {
					return s.DecryptPin(ik, hx(rbytes(g, 8)), "4012345678909", pickS(g, []string{"ISO-4", "X", "ISO", " ", nearName(g, ref.DESFormats), nearName(g, ref.DESFormats)}))
				}
			}
			for n, f := range tries {
				got, err := f()
				if err == nil || got != "" {
					r.Violate("service:"+alg+":"+n, fmt.Sprintf("malformed parameter gives %q, error %v", got, err), map[string]any{"base key": fmt.Sprintf("%+v", b)})
				}
				r.Eval(1)
			}
		})
		r.Count("service rejections", 1)
	})
}

// otherForms writes hexadecimal digits as people and programs do elsewhere: none of these is hexadecimal
func otherForms(g rng, s string) (out []string) {
	group := func(sep string, sizes ...int) string {
		var parts []string
		rest := s
		for i := 0; len(rest) > 0; i++ {
			n := min(sizes[i%len(sizes)], len(rest))
			parts, rest = append(parts, rest[:n]), rest[n:]
		}
		return strings.Join(parts, sep)
	}
	for _, sep := range []string{" ", "-", ":", "_", ".", ",", ", ", "  ", "\n", "\t", "'", "/", "+", "\u2009", "\u00ad", "\u200b"} {
		for _, n := range []int{2, 4, 8, 16, len(s) / 2} {
			if n > 0 && n < len(s) {
				out = append(out, group(sep, n))
			}
		}
	}
	if len(s) > 20 {
		out = append(out, group("-", 8, 4, 4, 4, 12))
	}
	if len(s) > 2 {
		out = append(out, group("\\x", 2), "\\x"+group("\\x", 2), "%"+group("%", 2), "0x"+group(" 0x", 2), "0x"+group(",0x", 2), group("h ", 2)+"h", group("\x00", 1))
	}
	for _, x := range [][2]string{{"{", "}"}, {"[", "]"}, {"(", ")"}, {"<", ">"}, {"\"", "\""}, {"'", "'"}, {"`", "`"}, {"x'", "'"}, {"X'", "'"}, {"hex:", ""}, {"HEX:", ""}, {"0X", ""}, {"#", ""}, {"$", ""}, {"U", ""}, {"T", ""}, {"X", ""}, {"Y", ""}, {"S", ""}, {"K", ""}, {"16#", ""}, {"16#", "#"}, {"", "h"}, {"", "H"}, {"\\", ""}, {"=", ""}, {"+", ""}, {"-", ""}, {"key=", ""}, {"hex(", ")"}, {"0h", ""}, {"&H", ""}, {"", "_16"}} {
		out = append(out, x[0]+s+x[1])
	}
	if b, err := hex.DecodeString(s); err == nil && len(b) > 0 {
		out = append(out, base64.StdEncoding.EncodeToString(b), base64.RawStdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), base64.StdEncoding.EncodeToString([]byte(s)), base32.StdEncoding.EncodeToString(b), string(b), "base64:"+base64.StdEncoding.EncodeToString(b))
	}
	full := ""
	for _, c := range s {
		if c >= '0' && c <= '9' {
			c += '０' - '0'
		} else if c >= 'A' && c <= 'F' {
			c += 'Ａ' - 'A'
		} else if c >= 'a' && c <= 'f' {
			c += 'ａ' - 'a'
		}
		full += string(c)
	}
	out = append(out, full, s[:len(s)-1]+full[len(full)-3:])
	out = slices.DeleteFunc(out, func(t string) bool {
		_, err := hex.DecodeString(t)
		return err == nil
	})
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:min(len(out), 40)]
}

func pickS(g rng, l []string) string { return l[g.IntN(len(l))] }

// nearName derives an unknown name from the known ones: one or two edits, decorations and joins. None of the
// results is a known name in any letter case.
func nearName(g rng, known []string) string {
	seps := []string{":", "-", "_", " ", "/", ".", ",", ";", "+", "#", "=", "(", "\x00", "\t", "\n", "\r", "'", "\"", "\\", "*", "%", "@", "|", "\u00a0", "\u200b", "\ufeff", "\u2010"}
	for {
		s := hexCaseS(g, pickS(g, known))
		other := pickS(g, known)
		i := g.IntN(len(s) + 1)
		ch := string(rune(33 + g.IntN(94)))
		for n := 1 + g.IntN(2); n > 0; n-- {
			switch g.IntN(12) {
			case 0:
				s += pickS(g, seps)
			case 1:
				s = pickS(g, seps) + s
			case 2:
				s += pickS(g, seps) + other
			case 3:
				s += pickS(g, seps) + ch
			case 4:
				s += ch
			case 5:
				s = ch + s
			case 6:
				s += other
			case 7:
				i = min(i, len(s))
				s = s[:i] + ch + s[i:]
			case 8:
				if len(s) > 0 {
					i = g.IntN(len(s))
					s = s[:i] + s[i+1:]
				}
			case 9:
				if len(s) > 0 {
					i = g.IntN(len(s))
					s = s[:i] + ch + s[i+1:]
				}
			case 10:
				s += pickS(g, seps) + digits(g, 1+g.IntN(4))
			case 11:
				i = min(i, len(s))
				s = s[:i] + pickS(g, seps) + s[i:]
			}
		}
		if !knownName(s, known) {
			return s
		}
	}
}

func knownName(s string, known []string) bool {
	for _, k := range known {
		if strings.EqualFold(k, s) || strings.ToUpper(s) == strings.ToUpper(k) {
			return true
		}
	}
	return false
}

// arena holds one argument inside a larger allocation
type arena struct {
	name   string
	mem    []byte
	before []byte
	slice  []byte
}

func newArena(g rng, name string, b []byte) *arena {
	a := &arena{name: name}
	if b == nil {
		return a
	}
	off, spareCap := 8+g.IntN(8), 40
	a.mem = rbytes(g, off+len(b)+spareCap+16)
	copy(a.mem[off:], b)
	a.before = append([]byte(nil), a.mem...)
	a.slice = a.mem[off : off+len(b) : off+len(b)+spareCap]
	return a
}

func (a *arena) check() error {
	if !bytes.Equal(a.mem, a.before) {
		for i := range a.mem {
			if a.mem[i] != a.before[i] {
				return fmt.Errorf("argument %s (or memory behind it) was changed at arena offset %d", a.name, i)
			}
		}
	}
	return nil
}

func c12(r *mon.Run) {
	per := r.Pick(1500, 60000)
	// results that are kept while garbage is collected
	type kept struct {
		op   string
		a    *args
		b, c []byte
	}
	var keptMu sync.Mutex
	var keeping []kept
	defer func() {
		for n := 0; n < 6; n++ { // finalizers, clean-ups and pools
			runtime.GC()
			time.Sleep(30 * time.Millisecond)
			for i := 0; i < 200; i++ {
				_ = make([]byte, 16<<(i%8))
			}
		}
		for _, k := range keeping {
			if !bytes.Equal(k.b, k.c) {
				r.Violate("aliases:"+k.op+":kept", "a result changed while it was kept", map[string]any{"operation": k.op, "arguments": k.a.show(), "result": hx(k.c), "later": hx(k.b)})
			}
		}
		r.Eval(len(keeping))
		r.Count("results kept through garbage collections", len(keeping))
	}()
	for _, o := range ops {
		randomised := strings.HasSuffix(o.Name, "EncryptPin")
		probe := o.Gen(r.Rng(o.Name+"probe", 0))
		data := o.Fam != "ecb" && !strings.HasSuffix(o.Name, "Pin") && (probe.CT != nil || probe.Text != "" || strings.HasSuffix(o.Name, "Data") || strings.Contains(o.Name, "MAC") || strings.HasSuffix(o.Name, "Mac"))
		r.Parallel(per, func(i int) {
			g := r.Rng(o.Name, i)
			a := o.Gen(g)
			valid := i%3 != 2
			if !valid {
				corrupt(g, a)
			}
			if data && i%8 == 1 { // long messages, around powers of two and anywhere
				n := []int{1 << (8 + g.IntN(10)), 1<<(8+g.IntN(10)) + g.IntN(33) - 16, 256 + g.IntN(100000)}[g.IntN(3)]
				if strings.HasPrefix(o.Name, "aes.Decrypt") || g.IntN(2) == 0 {
					n = (n + 15) / 16 * 16
				}
				if a.CT != nil {
					a.CT = rbytes(g, n)
				}
				if a.Text != "" {
					a.Text = text(g, n)
				}
				r.Count("long messages", 1)
			}
			if o.Fam == "ksn" && i%5 == 0 { // near and at exhaustion
				if strings.Contains(o.Name, "Aes") {
					a.KSN = append(rbytes(g, 8), be32(0xFFFF0000-uint32(g.IntN(2)))...)
				} else if strings.Contains(o.Name, "Des") {
					a.KSN = ref.DESWithCounter(rbytes(g, 10), 0x1FF800-uint32(g.IntN(2)))
				}
			}
			ars := []*arena{newArena(g, "key", a.Key), newArena(g, "ksn", a.KSN), newArena(g, "iv", a.IV), newArena(g, "input", a.CT)}
			in := *a
			in.Key, in.KSN, in.IV, in.CT = ars[0].slice, ars[1].slice, ars[2].slice, ars[3].slice
			if a.Key != nil && in.Key == nil {
				in.Key = []byte{}
			}
			show := func() any { return map[string]any{"operation": o.Name, "arguments": a.show()} }
			if i%10 == 0 {
				if res := o.Call(a.clone()); len(res.B) > 0 {
					keptMu.Lock()
					keeping = append(keeping, kept{o.Name, a.clone(), res.B, clone(res.B)})
					keptMu.Unlock()
				}
			}
			checkArgs := func(when string) bool {
				for _, ar := range ars {
					if err := ar.check(); err != nil {
						r.Violate("mutates:"+o.Name+":"+ar.name, when+": "+err.Error(), show())
						return false
					}
				}
				return true
			}
			r.Guard(show, func() {
				res1 := o.Call(&in)
				if !checkArgs("after the call") {
					return
				}
				r.Eval(1)
				if res1.Err != nil {
					r.Count("failing calls", 1)
				} else {
					r.Count("successful calls", 1)
				}
				keep1 := append([]byte(nil), res1.B...)
				res2 := o.Call(&in)
				if !bytes.Equal(res1.B, keep1) {
					r.Violate("aliases:"+o.Name+":later-call", "a later call changed an earlier result", show())
					return
				}
				keep2 := append([]byte(nil), res2.B...)
				if (res1.Err == nil) != (res2.Err == nil) || (!randomised && (!bytes.Equal(keep1, keep2) || res1.S != res2.S)) {
					r.Violate("repeat:"+o.Name, "the same call gives another result", show())
					return
				}
				// scribble over the first result up to its capacity
				full := res1.B[:cap(res1.B)]
				for x := range full {
					full[x] ^= 0x5A
				}
				if !checkArgs("after writing into the result") {
					return
				}
				if !bytes.Equal(res2.B, keep2) {
					r.Violate("aliases:"+o.Name+":results", "two results share memory", show())
					return
				}
				// writing into the arguments must not reach the results
				for _, ar := range ars {
					for x := range ar.mem {
						ar.mem[x] ^= 0xA5
					}
				}
				if !bytes.Equal(res2.B, keep2) {
					r.Violate("aliases:"+o.Name+":argument", "a result shares memory with an argument", show())
					return
				}
				for _, ar := range ars {
					for x := range ar.mem {
						ar.mem[x] ^= 0xA5
					}
				}
				// shared internal state: the call still gives the same after the scribbling
				res3 := o.Call(&in)
				if !randomised && (!bytes.Equal(res3.B, keep2) || res3.S != res2.S) {
					r.Violate("aliases:"+o.Name+":internal", "writing into a result changes later results", show())
				}
				checkArgs("after repeated calls")
				r.Eval(2)
				r.Distinct(o.Name, a.Key, a.KSN, a.IV, a.CT, a.Pin, a.Text)
				if r.WantSample(o.Name) && i < 2 {
					r.Sample(o.Name, a.show())
				}
			})
		})
		r.Count("operations", 1)
	}
	// cipher objects: several results of one object
	r.Parallel(r.Pick(3000, 100000), func(i int) {
		g := r.Rng("objects", i)
		kind := []string{"aes", "des", "tdes"}[i%3]
		bs := map[string]int{"aes": 16, "des": 8, "tdes": 8}[kind]
		k := newArena(g, "key", key(g, map[string]int{"aes": 32, "des": 8, "tdes": 24}[kind]))
		r.Guard(func() any { return map[string]any{"cipher": kind} }, func() {
			c, err := newECB(kind, k.slice)
			if err != nil {
				r.Violate("cipher:"+kind, err.Error(), nil)
				return
			}
			var outs, keeps [][]byte
			for n := 0; n < 6; n++ {
				b := newArena(g, "block", rbytes(g, bs))
				var out []byte
				if n%2 == 0 {
					out, err = c.Encrypt(b.slice)
				} else {
					out, err = c.Decrypt(b.slice)
				}
				if err != nil {
					r.Violate("cipher:"+kind, err.Error(), nil)
					return
				}
				if e := b.check(); e != nil {
					r.Violate("mutates:"+kind+" cipher", e.Error(), nil)
				}
				outs, keeps = append(outs, out), append(keeps, append([]byte(nil), out...))
				for x := range b.mem {
					b.mem[x] ^= 0xFF
				}
			}
			for n := range outs {
				if !bytes.Equal(outs[n], keeps[n]) {
					r.Violate("aliases:"+kind+" cipher", "a result changed later", nil)
				}
			}
			if e := k.check(); e != nil {
				r.Violate("mutates:"+kind+" cipher:key", e.Error(), nil)
			}
			r.Eval(6)
			r.Count("cipher objects", 1)
		})
	})
	// HexDecode/HexEncode results
	_ = pkg.HexDecode
	r.Require("failing calls", 1000)
	r.Require("successful calls", 10000)
	r.Require("long messages", 500)
}
