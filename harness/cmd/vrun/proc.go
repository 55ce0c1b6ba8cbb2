package main

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/mon"
)

// proc is a running server process under test
type proc struct {
	r        *mon.Run
	cmd      *exec.Cmd
	dir      string
	exited   chan struct{}
	state    *os.ProcessState
	addr     string // of the API, to dial
	admin    string
	dead     []string // addresses given by flags that were overridden
	describe map[string]any
	tls      *tls.Config // nil: plain
	stdout   string      // what kind of file the standard output is, see launchOn
}

var procSeq atomic.Int64

var ports struct {
	sync.Mutex
	next int
}

// freePort gives a port below the ephemeral range that nobody listens on
func freePort() int {
	ports.Lock()
	defer ports.Unlock()
	if ports.next == 0 {
		ports.next = 12000 + os.Getpid()%8000
	}
	for {
		ports.next++
		if ports.next > 31000 {
			ports.next = 12000
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", ports.next))
		if err != nil {
			continue
		}
		l.Close()
		return ports.next
	}
}

// launch starts the server binary
func launch(r *mon.Run, g rng, env ...string) (*proc, error) {
	return launchAt(r, g, "", "", env...)
}

// launchAt starts the server binary with addresses that are given or chosen here
func launchAt(r *mon.Run, g rng, httpAddr, adminAddr string, env ...string) (*proc, error) {
	n := procSeq.Add(1)
	p := &proc{r: r, exited: make(chan struct{}), dir: filepath.Join(*scratch, fmt.Sprintf("proc%d", n))}
	if err := os.MkdirAll(p.dir, 0o755); err != nil {
		return nil, err
	}
	vars := []string{"PATH=/usr/bin:/bin", "HOME=" + p.dir, "GOTRACEBACK=all"}
	if v := os.Getenv("GORACE"); v != "" {
		vars = append(vars, "GORACE="+v)
	}
	var args []string
	bindTo := func(port int) string {
		return []string{"127.0.0.1:%d", "127.0.0.1:%d", ":%d", "localhost:%d"}[g.IntN(4)]
	}
	place := func(flag, variable, fixed string) string {
		port := freePort()
		a := fmt.Sprintf(bindTo(port), port)
		if fixed != "" {
			a = fixed
		}
		dash := []string{"-", "--"}[g.IntN(2)]
		switch g.IntN(3) {
		case 0: // flag only
			if g.IntN(2) == 0 {
				args = append(args, dash+flag+"="+a)
			} else {
				args = append(args, dash+flag, a)
			}
		case 1: // variable only
			vars = append(vars, variable+"="+a)
		default: // the variable wins
			other := freePort()
			args = append(args, fmt.Sprintf("%s%s=127.0.0.1:%d", dash, flag, other))
			vars = append(vars, variable+"="+a)
			p.dead = append(p.dead, fmt.Sprintf("127.0.0.1:%d", other))
		}
		if fixed != "" {
			return fixed
		}
		return fmt.Sprintf("127.0.0.1:%d", port)
	}
	p.addr = place("http.addr", "HTTP_BIND_ADDRESS", httpAddr)
	p.admin = place("admin.addr", "HTTP_ADMIN_BIND_ADDRESS", adminAddr)
	switch g.IntN(5) {
	case 0:
		args = append(args, "-log.format=json")
	case 1:
		vars = append(vars, "LOG_FORMAT=json")
	case 2:
		args = append(args, "-log.format", "plain")
	case 3:
		args, vars = append(args, "-log.format=json"), append(vars, "LOG_FORMAT=plain")
	}
	if g.IntN(3) == 0 {
		vars = append(vars, "GOMAXPROCS="+pickS(g, []string{"1", "2", "3", "5", "7"}))
	}
	vars = append(vars, env...) // the last value counts
	p.describe = map[string]any{"arguments": args, "environment": vars[2:], "api": p.addr, "admin": p.admin}
	p.cmd = exec.Command(*binServer, args...)
	p.cmd.Env, p.cmd.Dir = vars, p.dir
	for _, f := range []struct {
		name string
		w    *io.Writer
	}{{"stdout", &p.cmd.Stdout}, {"stderr", &p.cmd.Stderr}} {
		fh, err := os.Create(filepath.Join(p.dir, f.name))
		if err != nil {
			return nil, err
		}
		defer fh.Close()
		*f.w = fh
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.cmd.Wait()
		p.state = p.cmd.ProcessState
		close(p.exited)
	}()
	return p, nil
}

func (p *proc) output() (out, err string) {
	a, _ := os.ReadFile(filepath.Join(p.dir, "stdout"))
	b, _ := os.ReadFile(filepath.Join(p.dir, "stderr"))
	return string(a), string(b)
}

func (p *proc) hasExited() bool {
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

// stop kills what is left and removes the files
func (p *proc) stop() {
	if !p.hasExited() {
		p.cmd.Process.Kill()
		<-p.exited
	}
	os.RemoveAll(p.dir)
}

// poll calls f until it is true; n counts polls of about 10 ms
func (p *proc) poll(n int, f func() bool) bool {
	for i := 0; i < n; i++ {
		if f() {
			return true
		}
		p.r.Progress()
		time.Sleep(10 * time.Millisecond)
	}
	return f()
}

const manyPolls = 9000 // about 90 s when nothing slows the polls down

var errInUse = errors.New("address already in use")

// ready waits until the API answers
func (p *proc) ready() error {
	ok := p.poll(manyPolls, func() bool {
		if p.hasExited() {
			return true
		}
		rep, err := p.one(p.tls, "GET", "/ping", nil)
		return err == nil && rep.Status == 200
	})
	out, stderr := p.output()
	if strings.Contains(out+stderr, "address already in use") {
		return errInUse
	}
	if p.hasExited() {
		return fmt.Errorf("the server ended: %v\n%s\n%s", p.state, truncEnd(out), truncEnd(stderr))
	}
	if !ok {
		return fmt.Errorf("the server does not answer GET /ping with 200 at %s\n%s\n%s", p.addr, truncEnd(out), truncEnd(stderr))
	}
	return nil
}

func truncEnd(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

// start launches and waits; a port taken by someone else is tried again
func startServer(r *mon.Run, g rng, conf *tls.Config, env ...string) (*proc, error) {
	for try := 0; ; try++ {
		p, err := launch(r, g, env...)
		if err != nil {
			r.Inconclusive("launch: %v", err)
			return nil, nil
		}
		p.tls = conf
		err = p.ready()
		if err == nil {
			return p, nil
		}
		d := p.describe
		p.stop()
		if err == errInUse && try < 5 {
			continue
		}
		if err == errInUse {
			r.Inconclusive("no free port: %v", d)
			return nil, nil
		}
		return nil, fmt.Errorf("%w (%v)", err, d)
	}
}

// nudge sends signals that say nothing about the end of a server. What they do is not judged,
// only what is seen of the server besides.
func (p *proc) nudge(g rng, most int) (sent []string) {
	all := []syscall.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH, syscall.SIGURG, syscall.SIGCONT, syscall.SIGCHLD, syscall.SIGALRM, syscall.SIGIO, syscall.SIGPIPE, syscall.SIGPWR, syscall.Signal(40)}
	for n := g.IntN(most + 1); n > 0; n-- {
		s := all[g.IntN(len(all))]
		p.cmd.Process.Signal(s)
		sent = append(sent, s.String())
		p.r.Count("other signals sent", 1)
		time.Sleep(time.Duration(1+g.IntN(30)) * time.Millisecond)
	}
	return sent
}

// hangup sends what a terminal or a supervisor may send and waits for what it does
func (p *proc) hangup(g rng) {
	p.cmd.Process.Signal([]os.Signal{syscall.SIGHUP, syscall.SIGHUP, syscall.SIGQUIT, syscall.SIGABRT}[g.IntN(4)])
	p.r.Count("hangups", 1)
	p.poll(60, p.hasExited)
}

func (p *proc) dial(conf *tls.Config, rcvbuf int) (net.Conn, error) {
	d := net.Dialer{Timeout: 60 * time.Second}
	if rcvbuf > 0 {
		d.Control = func(_, _ string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, rcvbuf) })
		}
	}
	c, err := d.Dial("tcp", p.addr)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(140 * time.Second))
	if conf == nil {
		return c, nil
	}
	t := tls.Client(c, conf)
	if err := t.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	return t, nil
}

// onlyHTTP1 leaves HTTP/2 out of the negotiation
func onlyHTTP1(conf *tls.Config) *tls.Config {
	if conf != nil && slices.Contains(conf.NextProtos, "h2") {
		conf = conf.Clone()
		conf.NextProtos = []string{"http/1.1"}
	}
	return conf
}

// lastOr tells whether to ask for the end of the connection: a server that then does not want
// a large body may reset the connection before its answer has arrived
func lastOr(body []byte) string {
	if len(body) > 1000 {
		return "keep-alive"
	}
	return "close"
}

// one request on a connection of its own
func (p *proc) one(conf *tls.Config, method, path string, body []byte) (reply, error) {
	c, err := p.dial(onlyHTTP1(conf), 0)
	if err != nil {
		return reply{}, err
	}
	defer c.Close()
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: %s\r\nContent-Length: %d\r\n\r\n%s", method, path, lastOr(body), len(body), body)
	return readReply(bufio.NewReader(c), method)
}

func readReply(br *bufio.Reader, method string) (reply, error) {
	resp, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		return reply{}, err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return reply{resp.StatusCode, resp.Header, b}, &partial{fmt.Errorf("the response with status %d breaks off after %d bytes: %w", resp.StatusCode, len(b), err)}
	}
	return reply{resp.StatusCode, resp.Header, b}, nil
}

// partial is a response that began but did not end
type partial struct{ error }

func (p *partial) Unwrap() error { return p.error }

// client is an HTTP client of the server
func (p *proc) client(conf *tls.Config, h2 bool) *http.Client {
	t := &http.Transport{TLSClientConfig: conf, ForceAttemptHTTP2: h2, MaxIdleConnsPerHost: 16}
	if !h2 {
		t.TLSClientConfig = onlyHTTP1(conf)
		t.TLSNextProto = map[string]func(string, *tls.Conn) http.RoundTripper{}
	}
	return &http.Client{Transport: t, Timeout: 140 * time.Second}
}

func (p *proc) url() string {
	if p.tls != nil {
		return "https://" + p.addr
	}
	return "http://" + p.addr
}

func get(url string) (int, string, error) {
	c := &http.Client{Timeout: 140 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := c.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

// crashed tells whether the process died of a Go panic or fatal error
func (p *proc) crashed() string {
	_, e := p.output()
	for _, l := range strings.Split(e, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "unexpected fault") {
			return l + "\n" + truncEnd(e)
		}
	}
	return ""
}

// credentials are a certificate with its key
type credentials struct {
	kind      string
	cert, key string // files
	leaf      []byte
	chain     int
	odd       bool
	pool      *x509.CertPool
	pair      tls.Certificate
}

// oddKinds are those of certificates that careful clients refuse
var oddKinds = []string{"expired", "not yet valid", "long expired", "other names", "no names", "other use", "no use", "authority"}

// makeCredentials writes a certificate for 127.0.0.1 and its key
func makeCredentials(kind, dir, name string) (*credentials, error) {
	c := &credentials{kind: kind, cert: filepath.Join(dir, name+".crt"), key: filepath.Join(dir, name+".key"), pool: x509.NewCertPool(), chain: 1}
	newKey := func() (crypto.Signer, error) {
		switch kind {
		case "rsa":
			return rsa.GenerateKey(crand.Reader, 2048)
		case "p384":
			return ecdsa.GenerateKey(elliptic.P384(), crand.Reader)
		case "ed25519":
			_, k, err := ed25519.GenerateKey(crand.Reader)
			return k, err
		}
		return ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	}
	serial, _ := crand.Int(crand.Reader, big.NewInt(1<<62))
	tmpl := func(cn string, ca bool) *x509.Certificate {
		t := &x509.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(4800 * time.Hour),
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
		if ca {
			t.IsCA, t.KeyUsage, t.ExtKeyUsage = true, x509.KeyUsageCertSign, nil
		} else {
			t.IPAddresses, t.DNSNames = []net.IP{net.IPv4(127, 0, 0, 1)}, []string{"localhost", "x"}
		}
		return t
	}
	key, err := newKey()
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	leafT := tmpl("leaf "+name, false)
	switch kind { // what a client may refuse is none of the server's business
	case "expired":
		leafT.NotAfter = time.Now().Add(-time.Hour)
	case "not yet valid":
		leafT.NotBefore = time.Now().Add(24 * time.Hour)
	case "long expired":
		leafT.NotBefore, leafT.NotAfter = time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)
	case "other names":
		leafT.IPAddresses, leafT.DNSNames, leafT.Subject = nil, []string{"*.bank.example"}, pkix.Name{}
	case "no names":
		leafT.IPAddresses, leafT.DNSNames = nil, nil
	case "other use":
		leafT.ExtKeyUsage, leafT.KeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}, x509.KeyUsageDigitalSignature
	case "no use":
		leafT.ExtKeyUsage, leafT.KeyUsage, leafT.BasicConstraintsValid = nil, 0, false
	case "authority":
		leafT.IsCA, leafT.KeyUsage, leafT.ExtKeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature, nil
	}
	c.odd = slices.Contains(oddKinds, kind)
	parent, signer := leafT, key
	var inter []byte
	if kind == "chain" {
		rootKey, err := newKey()
		if err != nil {
			return nil, err
		}
		rootT := tmpl("root "+name, true)
		rootDER, err := x509.CreateCertificate(crand.Reader, rootT, rootT, rootKey.Public(), rootKey)
		if err != nil {
			return nil, err
		}
		root, _ := x509.ParseCertificate(rootDER)
		c.pool.AddCert(root)
		interKey, err := newKey()
		if err != nil {
			return nil, err
		}
		interT := tmpl("intermediate "+name, true)
		if inter, err = x509.CreateCertificate(crand.Reader, interT, rootT, interKey.Public(), rootKey); err != nil {
			return nil, err
		}
		parent, signer, c.chain = interT, interKey, 2
	}
	if c.leaf, err = x509.CreateCertificate(crand.Reader, leafT, parent, key.Public(), signer); err != nil {
		return nil, err
	}
	pem.Encode(&out, &pem.Block{Type: "CERTIFICATE", Bytes: c.leaf})
	if inter != nil {
		pem.Encode(&out, &pem.Block{Type: "CERTIFICATE", Bytes: inter})
	} else {
		x, _ := x509.ParseCertificate(c.leaf)
		c.pool.AddCert(x)
	}
	k, err := x509.MarshalPKCS8PrivateKey(key)
	if err != nil {
		return nil, err
	}
	kp := pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k})
	if err := os.WriteFile(c.cert, out.Bytes(), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(c.key, kp, 0o600); err != nil {
		return nil, err
	}
	c.pair, err = tls.X509KeyPair(out.Bytes(), kp)
	return c, err
}

// conf is a client configuration that trusts the certificate
func (c *credentials) conf(min, max uint16, protos ...string) *tls.Config {
	conf := &tls.Config{RootCAs: c.pool, ServerName: "localhost", MinVersion: min, MaxVersion: max, NextProtos: protos}
	if c.odd { // such a client knows the certificate
		conf.InsecureSkipVerify = true
		conf.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
			if len(raw) == 0 || !bytes.Equal(raw[0], c.leaf) {
				return errors.New("another certificate")
			}
			return nil
		}
	}
	return conf
}

func (c *credentials) env() []string {
	return []string{"HTTPS_CERT_FILE=" + c.cert, "HTTPS_KEY_FILE=" + c.key}
}

// forms writes the certificate and the key again in one of the forms that such files have, and
// returns the variables that name them for a process whose working directory is below dir, and
// what removes the files again
func (c *credentials) forms(g rng, dir string, n int) (env []string, what string, gone func() error, err error) {
	cert, err := os.ReadFile(c.cert)
	if err != nil {
		return nil, "", nil, err
	}
	key, err := os.ReadFile(c.key)
	if err != nil {
		return nil, "", nil, err
	}
	var says []string
	if g.IntN(2) == 0 {
		var b *pem.Block
		switch k := c.pair.PrivateKey.(type) {
		case *rsa.PrivateKey:
			b = &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}
		case *ecdsa.PrivateKey:
			der, err := x509.MarshalECPrivateKey(k)
			if err != nil {
				return nil, "", nil, err
			}
			b = &pem.Block{Type: "EC PRIVATE KEY", Bytes: der}
		}
		if b != nil {
			says = append(says, "key as "+b.Type)
			key = pem.EncodeToMemory(b)
			if b.Type[0] == 'E' && g.IntN(2) == 0 { // as openssl ecparam -genkey writes it
				says = append(says, "after EC parameters")
				key = append(pem.EncodeToMemory(&pem.Block{Type: "EC PARAMETERS", Bytes: []byte{6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}}), key...)
			}
		}
	}
	one := false
	switch g.IntN(6) {
	case 0:
		says, key = append(says, "certificate and key in both files"), append(slices.Clone(cert), key...)
		cert, one = key, g.IntN(2) == 0
	case 1:
		says, key = append(says, "key and certificate in both files"), append(slices.Clone(key), cert...)
		cert, one = key, g.IntN(2) == 0
	case 2:
		says, key = append(says, "certificate before the key"), append(slices.Clone(cert), key...)
	}
	switch g.IntN(6) {
	case 0:
		says = append(says, "comments")
		cert = append([]byte("Bag Attributes\n    friendlyName: server\nsubject=CN = x\n\n"), cert...)
		key = append([]byte("Bag Attributes\n    localKeyID: 01\nKey Attributes: <No Attributes>\n"), key...)
	case 1:
		says = append(says, "CR LF")
		cert, key = bytes.ReplaceAll(cert, []byte("\n"), []byte("\r\n")), bytes.ReplaceAll(key, []byte("\n"), []byte("\r\n"))
	case 2:
		says = append(says, "no line break at the end")
		cert, key = bytes.TrimSpace(cert), bytes.TrimSpace(key)
	case 3:
		says = append(says, "blank lines")
		cert, key = append(append([]byte("\n\n"), cert...), "\n\n\n"...), append(append([]byte("\n"), key...), "\n\n"...)
	}
	sub := fmt.Sprintf("forms%d", n) + pickS(g, []string{"", "", " with blanks", "-ü", ".d", "=x", "'s"})
	if err := os.MkdirAll(filepath.Join(dir, sub), 0o755); err != nil {
		return nil, "", nil, err
	}
	names := [][2]string{{"tls.crt", "tls.key"}, {"cert.pem", "key.pem"}, {"server.CRT", "server.KEY"}, {"certificate", "key"}, {"a.p.em", ".key"}, {strings.Repeat("c", 200), strings.Repeat("k", 200)}, {"0", "1"}, {"-c", "-k"}}[g.IntN(8)]
	files := []string{filepath.Join(dir, sub, names[0]), filepath.Join(dir, sub, names[1])}
	for i, b := range [][]byte{cert, key} {
		f := files[i]
		if g.IntN(3) == 0 { // as orchestrators mount them
			says = append(says, "link")
			f = filepath.Join(dir, sub, fmt.Sprintf("..data%d", i))
			if err := os.Symlink(filepath.Base(f), files[i]); err != nil {
				return nil, "", nil, err
			}
		}
		if err := os.WriteFile(f, b, []os.FileMode{0o644, 0o600, 0o400}[g.IntN(3)]); err != nil {
			return nil, "", nil, err
		}
	}
	if one {
		files[1] = files[0]
		says = append(says, "one file")
	}
	if g.IntN(2) == 0 {
		says = append(says, "relative names")
		for i, f := range files {
			files[i] = pickS(g, []string{"../", "./../", "..//"}) + sub + "/" + filepath.Base(f)
		}
	}
	return []string{"HTTPS_CERT_FILE=" + files[0], "HTTPS_KEY_FILE=" + files[1]}, strings.Join(says, ", "), func() error { return os.RemoveAll(filepath.Join(dir, sub)) }, nil
}
