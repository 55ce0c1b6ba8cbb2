package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/mon"
	"verifharness/ref"
)

func init() {
	register("C22", "the dukptcli program run with valid random parameters for every operation x algorithm x key type x MAC type x action x PIN format (flags in any order and in all spellings, defaults left out, several operations selected at once), under environments with variables named like whatever the code looks up and like its flags, printing to pipes, sockets and terminals, with something on the standard input and with texts as data that other programs take for files, options or the standard input, and among files of the names that it asks for (strace) or knows, with other settings in them; exit status and exact standard output are compared with the reference model. Distinct by command line.", c22)
	register("C23", "the dukptcli program run without operation, with every subset of the required flags missing, with one of them missing for every PIN format, and with every option value that the operation uses made invalid in several ways, for every operation and algorithm, with values of all kinds waiting on the standard input, printing to pipes, sockets and terminals; exit status, message, absence of RESULT and of a crash are checked. Distinct by command line.", c23)
}

type cliRes struct {
	Code     int
	Out, Err string
}

func runCLI(args []string) (cliRes, error) { return runCLIIn(args, nil, nil) }

// runCLIIn runs it with more environment variables and with something on its standard input
func runCLIIn(args, env []string, stdin io.Reader) (cliRes, error) {
	return runCLIOn("", args, env, stdin)
}

// runCLIOn runs it with outputs of that kind: pipes of this package or what sink knows
func runCLIOn(kind string, args, env []string, stdin io.Reader) (cliRes, error) {
	return runCLIAt(*scratch, kind, args, env, stdin)
}

// runCLIAt runs it with that working and home directory
func runCLIAt(dir, kind string, args, env []string, stdin io.Reader) (cliRes, error) {
	c := exec.Command(*binCli, args...)
	var o, e bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = stdin, &o, &e
	var wait []func()
	if kind != "" {
		for _, w := range []struct {
			b *bytes.Buffer
			w *io.Writer
		}{{&o, &c.Stdout}, {&e, &c.Stderr}} {
			f, done, err := sink(kind, w.b)
			if err != nil {
				return cliRes{}, err
			}
			defer f.Close()
			*w.w, wait = f, append(wait, done)
		}
	}
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, env...)
	err := c.Start()
	if err != nil {
		return cliRes{}, err
	}
	var wg sync.WaitGroup
	for _, f := range wait {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	err = c.Wait()
	wg.Wait()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		return cliRes{}, err
	}
	return cliRes{c.ProcessState.ExitCode(), o.String(), e.String()}, nil
}

// cliOutputs are the kinds of outputs that there are here
func cliOutputs(r *mon.Run) []string {
	outputs := []string{"pipe", "socket"}
	m, s, err := openTerminal()
	if err != nil {
		r.Count("no terminals here: "+err.Error(), 1)
		return outputs
	}
	m.Close()
	s.Close()
	return append(outputs, "terminal")
}

// cliInput is a standard input: nothing, a file, a pipe, or a terminal at which nobody types
func cliInput(g rng, on string) (io.Reader, func()) {
	nothing := func() {}
	switch g.IntN(4) {
	case 0:
		if f, err := os.Open(os.Args[0]); err == nil {
			return f, func() { f.Close() }
		}
	case 1:
		return strings.NewReader(hx(rbytes(g, 16)) + "\n" + hx(rbytes(g, 12)) + "\n"), nothing
	case 2:
		if on == "terminal" {
			if m, s, err := openTerminal(); err == nil {
				m.Write([]byte(hx(rbytes(g, 16)) + "\n\n\x04"))
				return s, func() {
					m.Close()
					s.Close()
				}
			}
		}
	}
	return nil, nothing
}

// call of one operation: the flags it needs and those it may take
type cliCall struct {
	op   string // ik tk ep dp gm en de
	u    *up
	need map[string]string // required
	opt  map[string]string // may be left out (the value is the default) or given
	glob map[string]string // algorithm flags
}

var cliOps = []string{"ik", "tk", "ep", "dp", "gm", "en", "de"}

var cliFn = map[string]string{"ik": "InitialKey", "tk": "TransactionKey", "ep": "EncryptPin", "dp": "DecryptPin", "gm": "GenerateMac", "en": "EncryptData", "de": "DecryptData"}

func argText(g rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + g.IntN(95))
	}
	if g.IntN(4) == 0 {
		return string(b) + "é日本"
	}
	return string(b)
}

func genCLI(g rng, op, alg string) *cliCall {
	c := &cliCall{op: op, u: genUnified(g, cliFn[op], alg), need: map[string]string{}, opt: map[string]string{}, glob: map[string]string{}}
	p := &c.u.P
	n := 16
	if alg == "aes" {
		for _, k := range []string{p.TK, p.BKD, p.IK} {
			if l := len(k) / 2; l == 16 || l == 24 || l == 32 {
				n = l
			}
		}
	}
	if op == "ik" {
		n = len(p.BKD) / 2
	} else if op == "tk" {
		n = len(p.IK) / 2
	} else {
		n = len(p.TK) / 2
	}
	if alg == "aes" || g.IntN(2) == 0 {
		c.glob["algorithm"] = alg
	}
	if alg == "aes" && (n != 16 || g.IntN(2) == 0) {
		c.glob["algorithm.key_type"] = strings.ToLower(aesType(n))
	}
	ksn := func() {
		if alg == "aes" {
			c.need[op+".ksn"] = p.KSN
		} else if g.IntN(4) == 0 {
			c.opt[op+".ksn"] = hx(rbytes(g, 10))
		}
	}
	act := func() {
		p.Action = []string{"request", "response"}[g.IntN(2)]
		if p.Action == "response" || g.IntN(2) == 0 {
			c.opt[op+".action"] = p.Action
		}
	}
	bs := 8
	if alg == "aes" {
		bs = 16
	}
	switch op {
	case "ik":
		c.need["ik.bdk"], c.need["ik.ksn"] = p.BKD, p.KSN
	case "tk":
		c.need["tk.ik"], c.need["tk.ksn"] = p.IK, p.KSN
	case "ep", "dp":
		c.need[op+".tk"], c.need[op+".pin"], c.need[op+".pan"] = p.TK, p.PIN, p.PAN
		ksn()
		if alg == "des" {
			c.need[op+".format"] = p.Format
		} else if g.IntN(3) == 0 {
			c.opt[op+".format"] = "ISO-4"
		}
	case "gm":
		p.Plaintext = argText(g, 1+g.IntN(200))
		c.need["gm.tk"], c.need["gm.data"] = p.TK, p.Plaintext
		ksn()
		act()
		if alg == "aes" && (p.MacType != "cmac" || g.IntN(2) == 0) {
			c.opt["gm.type"] = p.MacType
		}
	case "en", "de":
		iv := rbytes(g, 1+g.IntN(bs+8))
		if g.IntN(2) == 0 {
			iv = rbytes(g, bs)
		}
		p.IV = hexCase(g, iv)
		act()
		p.Plaintext = argText(g, 1+g.IntN(200))
		data := p.Plaintext
		if op == "de" {
			resp := isResponse(p.Action)
			if alg == "aes" {
				p.Ciphertext = hexCase(g, ref.AESDataEnc(mustHex(p.TK), mustHex(p.KSN), iv, []byte(p.Plaintext), resp))
			} else {
				p.Ciphertext = hexCase(g, ref.DESDataEnc(mustHex(p.TK), iv, []byte(p.Plaintext), resp))
			}
			data = p.Ciphertext
		}
		c.need[op+".tk"], c.need[op+".data"], c.need[op+".iv"] = p.TK, data, p.IV
		ksn()
	}
	return c
}

// cliNoise gives flags of operations that are not selected, they must not matter
func cliNoise(g rng, op, alg string) map[string]string {
	m := map[string]string{}
	if g.IntN(2) == 0 {
		return m
	}
	if op == "" {
		op = "none"
	}
	for _, o := range cliOps {
		if o == op || g.IntN(3) == 0 {
			continue
		}
		a := alg
		if g.IntN(4) == 0 {
			a = algOf(g.IntN(2))
		}
		c := genCLI(g, o, a)
		for _, x := range []map[string]string{c.need, c.opt} {
			for _, k := range sortedKeys(x) {
				switch g.IntN(8) {
				case 0, 1:
				case 2:
					m[k] = pickS(g, []string{"", "zz", "00", "reply", "request", "response", "none"})
				default:
					m[k] = x[k]
				}
			}
		}
		if o != "ik" && o != "tk" && g.IntN(2) == 0 {
			if _, ok := c.need[o+".ksn"]; !ok {
				m[o+".ksn"] = hx(rbytes(g, 12))
			}
		}
		if (o == "gm" || o == "en" || o == "de") && g.IntN(2) == 0 {
			m[o+".action"] = pickS(g, []string{"request", "response"})
		}
	}
	return m
}

// args spells the flags in a random order and style
func (c *cliCall) args(g rng, also ...map[string]string) []string {
	var fl [][]string
	add := func(k, v string) {
		d := []string{"-", "--"}[g.IntN(2)]
		if g.IntN(2) == 0 {
			fl = append(fl, []string{d + k + "=" + v})
		} else {
			fl = append(fl, []string{d + k, v})
		}
	}
	for _, m := range append([]map[string]string{c.need, c.opt, c.glob}, also...) {
		for _, k := range sortedKeys(m) {
			add(k, m[k])
		}
	}
	if c.op != "" {
		fl = append(fl, []string{[]string{"-" + c.op, "--" + c.op, "-" + c.op + "=true", "-" + c.op + "=1"}[g.IntN(4)]})
	}
	g.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	var out []string
	for _, f := range fl {
		out = append(out, f...)
	}
	return out
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func c22(r *mon.Run) {
	if *binCli == "" {
		r.Inconclusive("no dukptcli")
		return
	}
	// the program prints the result and nothing else
	judgeAt := func(dir, on string, c *cliCall, args []string, kind string, env []string, stdin io.Reader) {
		res, err := runCLIAt(dir, on, args, env, stdin)
		if err != nil {
			r.Inconclusive("cannot run dukptcli: %v", err)
			return
		}
		info := map[string]any{"arguments": args, "environment": env, "output to": on, "exit": res.Code, "stdout": res.Out, "stderr": string(clip([]byte(res.Err)))}
		r.Eval(1)
		r.Distinct(strings.Join(args, "\x00"))
		sig := kind + ":" + c.op + ":" + c.u.P.Algorithm
		r.Count("runs "+c.op+" "+c.u.P.Algorithm, 1)
		if res.Code != 0 || !strings.HasPrefix(res.Out, "RESULT: ") || !strings.HasSuffix(res.Out, "\n") {
			r.Violate(sig, fmt.Sprintf("exit status %d, stdout %q", res.Code, res.Out), info)
			return
		}
		got := strings.TrimSuffix(strings.TrimPrefix(res.Out, "RESULT: "), "\n")
		if e := c.u.judge(got, nil); e != nil {
			r.Violate(sig, e.Error(), info)
		}
		if r.WantSample(sig) {
			r.Sample(sig, info)
		}
	}
	judgeOn := func(on string, c *cliCall, args []string, kind string, env []string, stdin io.Reader) {
		judgeAt(*scratch, on, c, args, kind, env, stdin)
	}
	judgeIn := func(c *cliCall, args []string, kind string, env []string, stdin io.Reader) {
		judgeOn("", c, args, kind, env, stdin)
	}
	judge := func(c *cliCall, args []string, kind string) { judgeIn(c, args, kind, nil, nil) }
	// wherever it prints to
	outputs := cliOutputs(r)
	r.Parallel(len(outputs)*r.Pick(200, 4000), func(i int) {
		g := r.Rng("output", i)
		on := outputs[i%len(outputs)]
		i /= len(outputs)
		c := genCLI(g, cliOps[i%7], algOf(i/7))
		var env []string
		if g.IntN(2) == 0 {
			env = append(env, "TERM="+pickS(g, []string{"xterm-256color", "dumb", "linux", ""}))
		}
		in, done := cliInput(g, on)
		defer done()
		judgeOn(on, c, c.args(g), "output", env, in)
		r.Count("runs that print to: "+on, 1)
	})
	// the command line alone tells what is computed: not the environment, the standard input or files that are named like the data
	input := []string{"", "\n", "1234", "other input\n", strings.Repeat("00", 4000), "\x00\xff"}
	os.WriteFile(*scratch+"/data.txt", []byte("content of a file"), 0o600)
	specials := []string{"-", "--", "@-", "@", "@data.txt", "<data.txt", "data.txt", "./data.txt", "file:data.txt", "file://" + *scratch + "/data.txt", "stdin", "/dev/stdin", "&0", "$HOME", "${PATH}", "$(id)", "%HOME%", "~", "*", "?", "help", "-h", "--help", "-v", "-version", "true", "false", "nil", "null", "0", "0x00", "hex:00", "base64:AAAA", "`id`", "\"quoted\"", "'quoted'", "\\n", "\\x00", "%s", "%d%v%!", "a\nb", "a\tb", " ", "  padded  ", "=", "==", "a=b", ",", "RESULT: "}
	r.Parallel(len(specials)*r.Pick(8, 60), func(i int) {
		g := r.Rng("special", i)
		op := []string{"gm", "en"}[i/len(specials)%2]
		alg := algOf(i / len(specials) / 2)
		c := genCLI(g, op, alg)
		c.u.P.Plaintext = specials[i%len(specials)]
		c.need[op+".data"] = c.u.P.Plaintext
		var in io.Reader
		if g.IntN(4) > 0 {
			in = strings.NewReader(pickS(g, input))
		}
		judgeIn(c, c.args(g), "special data", nil, in)
		r.Count("texts that programs take for something else", 1)
	})
	var flags []string // what a variable may be named after
	for _, op := range cliOps {
		c := genCLI(r.Rng("flags"+op, 0), op, "aes")
		for _, m := range []map[string]string{c.need, {op + ".type": "", op + ".format": "", op + ".action": "", op: ""}} {
			flags = append(flags, sortedKeys(m)...)
		}
	}
	flags = append(flags, "algorithm", "algorithm.key_type")
	variable := func(g rng, c *cliCall, i int) string {
		names := append([]string{}, dictNames...)
		for _, f := range flags {
			u := strings.ToUpper(strings.ReplaceAll(f, ".", "_"))
			names = append(names, f, u, "DUKPT_"+u, "DUKPTCLI_"+u)
		}
		names = append(names, "DEBUG", "VERBOSE", "GODEBUG", "LANG", "LC_ALL", "LOG_FORMAT", "NO_COLOR", "TERM", "TZ", "CI", "DUKPT_DEBUG", "DUKPT_CONFIG", "CONFIG")
		n := names[i%len(names)]
		v := []string{"aes", "des", "aes128", "aes192", "aes256", "AES256", "1", "true", "0", "response", "request", "ISO-0", "ISO-4", "hmac", "cmac", "json", "debug", "text", hx(rbytes(g, 16)), hx(rbytes(g, 12)), "de", "C", "data.txt"}
		v = append(v, dictNear[n]...)
		if len(v) > 30 { // those of the same function first
			v = append(v[:20:20], dictNear[n]...)
		}
		if n == "GODEBUG" {
			return n + "=http2client=0"
		}
		return n + "=" + strings.ReplaceAll(pickS(g, v), "\x00", "")
	}
	r.Parallel(r.Pick(900, 20000), func(i int) {
		g := r.Rng("environment", i)
		c := genCLI(g, cliOps[i%7], algOf(i/7))
		env := []string{variable(g, c, g.IntN(1<<20))}
		for k := range dictNames { // every variable the code may look up, in most runs
			if g.IntN(3) > 0 {
				env = append(env, variable(g, c, k))
			}
		}
		var in io.Reader
		if g.IntN(2) == 0 {
			in = strings.NewReader(pickS(g, input))
		}
		judgeIn(c, c.args(g), "environment", env, in)
		r.Count("runs with other environments", 1)
	})
	// files that it was not told of
	places := r.Pick(16, 200)
	looked := filepath.Join(*scratch, "looked")
	os.MkdirAll(looked, 0o755)
	var sought []string
	for i := 0; i < 14; i++ {
		g := r.Rng("looked", i)
		names, seen := soughtFiles(looked, nil, 20*time.Second, *binCli, genCLI(g, cliOps[i%7], algOf(i/7)).args(g)...)
		r.Count("names of files that it asked for", seen)
		for _, n := range names {
			if !slices.Contains(sought, n) {
				sought = append(sought, n)
			}
		}
	}
	r.Count("names of files", len(sought))
	r.Parallel(places, func(i int) {
		g := r.Rng("files", i)
		dir := filepath.Join(*scratch, fmt.Sprintf("files%d", i))
		defer os.RemoveAll(dir)
		settings := map[string]string{}
		for _, op := range cliOps {
			c := genCLI(g, op, algOf(i))
			for _, m := range []map[string]string{c.need, c.opt, c.glob} {
				for k, v := range m {
					if g.IntN(2) == 0 && !strings.ContainsAny(v, " \n") {
						settings[k] = v
					}
				}
			}
			if g.IntN(4) == 0 {
				settings[op] = "true"
			}
		}
		settings["algorithm"] = algOf(i)
		how := putFiles(g, dir, sought, settings, pickS(g, []string{"", "DUKPT_", "DUKPTCLI_"}))
		for x := 0; x < 14; x++ {
			c := genCLI(g, cliOps[x%7], algOf(i+1+x/7))
			judgeAt(dir, "", c, c.args(g), "files around", nil, nil)
			r.Count("runs beside files that nobody named", 1)
		}
		r.Distinct("files", how, i)
	})
	r.Require("runs beside files that nobody named", 150)
	r.Parallel(r.Pick(1400, 60000), func(i int) {
		g := r.Rng("valid", i)
		c := genCLI(g, cliOps[i%7], algOf(i/7))
		noise := cliNoise(g, c.op, c.u.P.Algorithm)
		if len(noise) > 0 {
			r.Count("with flags of operations that are not selected", 1)
		}
		judge(c, c.args(g, noise), "valid")
	})
	// data of any size that a command line takes
	r.Parallel(r.Pick(200, 5000), func(i int) {
		g := r.Rng("long", i)
		op := []string{"gm", "en", "de"}[i%3]
		c := genCLI(g, op, algOf(i/3))
		n := []int{255, 256, 500, 511, 512, 999, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 4000, 4095, 4096, 4097, 8191, 8192, 10000, 16384, 32768, 50000, 60000}[i/6%24]
		if g.IntN(2) == 0 {
			n = 200 + g.IntN(1<<uint(9+g.IntN(7)))
		}
		p := &c.u.P
		p.Plaintext = argText(g, n)
		c.need[op+".data"] = p.Plaintext
		if op == "de" {
			resp := isResponse(p.Action)
			if p.Algorithm == "aes" {
				p.Ciphertext = hexCase(g, ref.AESDataEnc(mustHex(p.TK), mustHex(p.KSN), mustHex(p.IV), []byte(p.Plaintext), resp))
			} else {
				p.Ciphertext = hexCase(g, ref.DESDataEnc(mustHex(p.TK), mustHex(p.IV), []byte(p.Plaintext), resp))
			}
			c.need["de.data"] = p.Ciphertext
		}
		judge(c, c.args(g), "long data")
		r.Count("data of more than 200 bytes", 1)
	})
	r.Require("data of more than 200 bytes", 100)
	// several operations selected: only the first one is executed
	r.Parallel(r.Pick(400, 15000), func(i int) {
		g := r.Rng("several", i)
		a := g.IntN(6)
		alg := algOf(g.IntN(2))
		c := genCLI(g, cliOps[a], alg)
		more := map[string]string{}
		for x := a + 1; x < 7; x++ {
			if g.IntN(2) == 0 {
				continue
			}
			o := genCLI(g, cliOps[x], alg)
			more[cliOps[x]] = "true"
			if g.IntN(3) > 0 { // with or without its own parameters
				for k, v := range o.need {
					more[k] = v
				}
			}
		}
		var flags []string
		vals := map[string]string{}
		for k, v := range more {
			if v == "true" {
				flags = append(flags, k)
			} else {
				vals[k] = v
			}
		}
		args := c.args(g, vals)
		for _, f := range flags {
			if g.IntN(2) == 0 {
				args = append(args, "-"+f)
			} else {
				args = append([]string{"-" + f}, args...)
			}
		}
		if a > 0 && g.IntN(2) == 0 { // not selected
			args = append(args, "-"+cliOps[g.IntN(a)]+"=false")
		}
		judge(c, args, "several")
		r.Count("several operations selected", 1)
	})
	for _, op := range cliOps {
		r.Require("runs "+op+" des", 50)
		r.Require("runs "+op+" aes", 50)
	}
	r.Require("with flags of operations that are not selected", 200)
	r.Require("texts that programs take for something else", 200)
	r.Require("runs with other environments", 500)
}

func c23(r *mon.Run) {
	if *binCli == "" {
		r.Inconclusive("no dukptcli")
		return
	}
	outputs := append(cliOutputs(r), "", "", "")
	// with something on the standard input: keys, KSNs, PINs and other values
	inputs := func(g rng) io.Reader {
		var b strings.Builder
		for n := g.IntN(7); n > 0; n-- {
			b.WriteString(pickS(g, []string{hx(rbytes(g, 16)), hx(rbytes(g, 16)), hx(rbytes(g, 12)), hx(rbytes(g, 10)), hx(rbytes(g, 8)), "1234", "4111111111111111", "ISO-0", "request", "cmac", "aes128", "y", "yes", ""}) + "\n")
		}
		return strings.NewReader(b.String())
	}
	var nth atomic.Int64
	judge := func(args []string, kind, op, alg string) {
		g := r.Rng("surroundings", int(nth.Add(1)))
		on := outputs[g.IntN(len(outputs))]
		var in io.Reader
		switch g.IntN(4) {
		case 0, 1:
			in = inputs(g)
		case 2:
			var done func()
			in, done = cliInput(g, on)
			defer done()
		}
		res, err := runCLIOn(on, args, nil, in)
		if err != nil {
			r.Inconclusive("cannot run dukptcli: %v", err)
			return
		}
		r.Count("outputs: "+on, 1)
		info := map[string]any{"arguments": args, "output to": on, "exit": res.Code, "stdout": string(clip([]byte(res.Out))), "stderr": string(clip([]byte(res.Err)))}
		r.Eval(1)
		r.Distinct(strings.Join(args, "\x00"))
		r.Count("runs: "+kind, 1)
		sig := kind + ":" + op + ":" + alg
		all := res.Out + res.Err
		switch {
		case strings.Contains(res.Err, "goroutine ") || strings.Contains(res.Err, "panic:"):
			r.Violate("crash:"+sig, "the program panics", info)
		case res.Code == 0:
			r.Violate("exit:"+sig, "exit status 0", info)
		case res.Code < 0:
			r.Violate("crash:"+sig, "the program was ended by a signal", info)
		case strings.Contains(all, "RESULT"):
			r.Violate("result:"+sig, "a RESULT line is printed", info)
		case strings.TrimSpace(all) == "":
			r.Violate("silent:"+sig, "no message", info)
		}
		if r.WantSample(kind) {
			r.Sample(kind, info)
		}
	}
	// no operation
	g0 := r.Rng("none", 0)
	for x := 0; x < 30; x++ {
		c := genCLI(g0, cliOps[x%7], algOf(x/7))
		op := c.op
		c.op = ""
		args := c.args(g0, cliNoise(g0, op, c.u.P.Algorithm))
		if x%2 == 0 {
			args = append(args, "-"+op+"=false")
		}
		judge(args, "no operation", op, c.u.P.Algorithm)
	}
	judge(nil, "no operation", "", "")
	judge([]string{"-nosuchflag"}, "unknown flag", "", "")
	judge([]string{"-algorithm", "aes"}, "no operation", "", "aes")
	// every subset of missing required flags
	type miss struct {
		op, alg string
		mask    int
	}
	var ms []miss
	for _, op := range cliOps {
		for _, alg := range []string{"des", "aes"} {
			n := len(genCLI(r.Rng("count"+op+alg, 0), op, alg).need)
			for mask := 1; mask < 1<<n; mask++ {
				ms = append(ms, miss{op, alg, mask})
			}
		}
	}
	r.Parallel(len(ms)*r.Pick(2, 20), func(i int) {
		m := ms[i%len(ms)]
		g := r.Rng("missing", i)
		c := genCLI(g, m.op, m.alg)
		for b, k := range sortedKeys(c.need) {
			if m.mask>>b&1 == 1 {
				if g.IntN(4) == 0 {
					c.need[k] = "" // given but empty
				} else {
					delete(c.need, k)
				}
			}
		}
		judge(c.args(g, cliNoise(g, m.op, m.alg)), "missing", m.op, m.alg)
	})
	r.Extra("missing_flag_subsets_enumerated", len(ms))
	// one required flag missing, of a command that is complete otherwise: with every format, type and action
	r.Parallel(r.Pick(900, 20000), func(i int) {
		g := r.Rng("one missing", i)
		op, alg := cliOps[i%7], algOf(i/7)
		if i%3 == 0 {
			op, alg = []string{"ep", "dp"}[i/3%2], "des"
		}
		c := genCLI(g, op, alg)
		if i%3 == 0 { // a format does not always need all of them
			for want := ref.DESFormats[i/6%len(ref.DESFormats)]; !strings.EqualFold(c.u.P.Format, want); {
				c = genCLI(g, op, alg)
			}
		}
		ks := sortedKeys(c.need)
		k := ks[g.IntN(len(ks))]
		if i%3 == 0 && g.IntN(2) == 0 {
			k = op + ".pan"
		}
		if g.IntN(2) == 0 {
			c.need[k] = ""
		} else {
			delete(c.need, k)
		}
		judge(c.args(g, cliNoise(g, op, alg)), "one missing", op, alg)
	})
	r.Require("runs: one missing", 500)
	// invalid values
	nothex := func(g rng, v string) string {
		switch g.IntN(11) {
		case 9, 10:
			return strings.ReplaceAll(otherForms(g, v)[0], "\x00", "-")
		case 5:
			return v + pickS(g, []string{"\n", "\r\n", "\t", " ", ";", "h", "\u00a0", "="})
		case 6:
			return pickS(g, []string{"\n", "\t", " ", "#", "\ufeff", "0X"}) + v
		case 7:
			return v[:len(v)/2] + pickS(g, []string{":", "-", "_", "\n", ","}) + v[len(v)/2:]
		case 8:
			return v + v[:1]
		case 0:
			return "zz" + v
		case 1:
			return v[:len(v)-1] + "g"
		case 2:
			return v[:len(v)-1] // odd number of digits
		case 3:
			return "0x" + v
		}
		return v[:len(v)/2] + " " + v[len(v)/2:]
	}
	wrongLen := func(g rng, v string, bad []int) string { return hx(rbytes(g, bad[g.IntN(len(bad))])) }
	r.Parallel(r.Pick(1500, 60000), func(i int) {
		g := r.Rng("invalid", i)
		op, alg := cliOps[i%7], algOf(i/7)
		isAes := alg == "aes"
		c := genCLI(g, op, alg)
		kind := ""
		for kind == "" {
			switch g.IntN(9) {
			case 0:
				kind = "unknown algorithm"
				c.glob["algorithm"] = pickS(g, []string{"", "3des", "DES", "AES", "rsa", "aes128", "des ", "none"})
			case 1:
				if isAes && op != "ik" && op != "tk" {
					kind = "unknown key type"
					c.glob["algorithm.key_type"] = pickS(g, []string{"", "aes", "aes512", "tdes2", "des", "128", "aes-128", "hmac1"})
				}
			case 2:
				if isAes && op != "ik" && op != "tk" {
					kind = "key type of another length"
					n := len(c.need[op+".tk"]) / 2
					c.glob["algorithm.key_type"] = strings.ToLower(aesType(map[int]int{16: 24, 24: 32, 32: 16}[n]))
				}
			case 3:
				if op == "gm" {
					kind = "unknown mac action"
					c.opt["gm.action"] = pickS(g, []string{"", "reply", "Request", "RESPONSE", "x"})
				}
			case 4:
				if op == "gm" && isAes {
					kind = "unknown mac type"
					c.opt["gm.type"] = pickS(g, []string{"", "CMAC", "md5", "sha256", "hmac256"})
				}
			case 5:
				if (op == "ep" || op == "dp") && !isAes {
					kind = "unknown pin format"
					c.need[op+".format"] = pickS(g, []string{"ISO-5", "ISO0", "iso", "VISA5", "ECI0", "ANSI X9.8", "0", "ISO-0 "})
				}
			case 6:
				kind = "malformed key"
				f := map[string]string{"ik": "ik.bdk", "tk": "tk.ik"}[op]
				if f == "" {
					f = op + ".tk"
				}
				if g.IntN(2) == 0 {
					c.need[f] = nothex(g, c.need[f])
				} else {
					bad := []int{1, 7, 8, 15, 17, 20, 23, 31, 33, 48, 64}
					if !isAes {
						bad = append(bad, 24, 32)
					}
					c.need[f] = wrongLen(g, c.need[f], bad)
				}
			case 7:
				if isAes || op == "ik" || op == "tk" {
					kind = "malformed KSN"
					f := op + ".ksn"
					if g.IntN(2) == 0 {
						c.need[f] = nothex(g, c.need[f])
					} else if isAes {
						c.need[f] = wrongLen(g, "", []int{1, 7, 9, 10, 11, 13, 16, 20})
					} else {
						c.need[f] = wrongLen(g, "", []int{1, 2, 11, 12, 16, 20})
					}
				}
			case 8:
				switch op {
				case "en", "de":
					if g.IntN(2) == 0 || op == "en" {
						kind = "malformed iv"
						c.need[op+".iv"] = nothex(g, c.need[op+".iv"])
					} else {
						kind = "malformed ciphertext"
						c.need["de.data"] = nothex(g, c.need["de.data"])
					}
				case "dp":
					kind = "malformed ciphertext"
					if g.IntN(2) == 0 {
						c.need["dp.pin"] = nothex(g, c.need["dp.pin"])
					} else {
						c.need["dp.pin"] = wrongLen(g, "", []int{1, 4, 7, 9, 12, 15, 17, 24})
					}
				}
			}
		}
		judge(c.args(g, cliNoise(g, op, alg)), kind, op, alg)
	})
	for _, k := range []string{"unknown algorithm", "unknown key type", "key type of another length", "unknown mac action", "unknown mac type", "unknown pin format", "malformed key", "malformed KSN", "malformed iv", "malformed ciphertext", "no operation"} {
		r.Require("runs: "+k, 10)
	}
	r.Require("runs: missing", 200)
}
