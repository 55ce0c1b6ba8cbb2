package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/ref"
)

// dev is a device identity: base key and key identifier
type dev struct {
	Alg     string
	KeyType string
	BDK     []byte
	KSN     []byte // any counter
	IK      []byte
}

func newDev(g rng, alg string) *dev {
	d := &dev{Alg: alg}
	if alg == "aes" {
		n := aesSize(g)
		d.BDK, d.KSN, d.KeyType = key(g, n), aesKSN(g), aesType(n)
		d.IK = ref.AESInitialKey(d.BDK, d.KSN[:8])
	} else {
		d.BDK, d.KSN, d.KeyType = key(g, 16), desKSNAny(g), "TDES2"
		d.IK = ref.DESInitialKey(d.BDK, d.KSN)
	}
	return d
}

func algOf(i int) string { return []string{"des", "aes"}[i&1] }

func (d *dev) aes() bool { return d.Alg == "aes" }

func (d *dev) ik() string { return hx(d.IK) }

func (d *dev) ksnAt(c uint32) []byte {
	if d.aes() {
		return ref.AESWithCounter(d.KSN[:8], c)
	}
	return ref.DESWithCounter(d.KSN, c)
}

func (d *dev) counter(ksn []byte) uint32 {
	if d.aes() {
		return ref.AESCounter(ksn)
	}
	return ref.DESCounter(ksn)
}

func (d *dev) next(c uint32) (uint32, bool) {
	w, m := uint(21), 10
	if d.aes() {
		w, m = 32, 16
	}
	n, ok := ref.NextCounter(uint64(c), w, m)
	return uint32(n), ok
}

// nearEnd gives the n-th last admissible counter (0: the last one), n at most 12
func (d *dev) nearEnd(n int) uint32 {
	w, m := 21, 10
	if d.aes() {
		w, m = 32, 16
	}
	top := uint32((uint64(1)<<m - 1) << (w - m))
	if n == 0 {
		return top
	}
	// the last one is preceded by those whose lowest one moved right or is missing
	c := top &^ (1 << (w - m))
	if n <= w-m {
		c |= 1 << (w - m - n)
	}
	return c
}

func (d *dev) tk(c uint32) []byte {
	if d.aes() {
		return ref.AESTxKey(d.IK, d.ksnAt(c))
	}
	return ref.DESTxKey(d.IK, d.ksnAt(c))
}

func (d *dev) base(c uint32) server.BaseKey {
	return server.BaseKey{Algorithm: d.Alg, AlgorithmKey: d.KeyType, BaseDerivativeKey: hx(d.BDK), KeySerialNumber: hx(d.ksnAt(c))}
}

func (d *dev) show() map[string]any {
	return map[string]any{"algorithm": d.Alg, "key_type": d.KeyType, "bdk": hx(d.BDK), "ksn": hx(d.KSN), "ik": d.ik()}
}

func sameHex(a, b string) bool { return strings.EqualFold(a, b) }

// ctrOf reads the counter of a KSN of this device
func (d *dev) ctrOf(ksn string) (uint32, error) {
	b, err := hex.DecodeString(ksn)
	if err != nil || len(b) != len(d.KSN) {
		return 0, fmt.Errorf("%q is not a KSN of the device", ksn)
	}
	c := d.counter(b)
	if !sameHex(hx(d.ksnAt(c)), ksn) {
		return 0, fmt.Errorf("KSN %q does not belong to device %s", ksn, hx(d.KSN))
	}
	return c, nil
}

// checkKSN checks that the KSNs of a description belong to the device
func (d *dev) checkKSN(m *server.Machine) error {
	if m == nil {
		return fmt.Errorf("no machine")
	}
	if _, err := d.ctrOf(m.KeySerialNumber); err != nil {
		return fmt.Errorf("KeySerialNumber: %w", err)
	}
	if _, err := d.ctrOf(m.CurrentKSN); err != nil {
		return fmt.Errorf("CurrentKSN: %w", err)
	}
	return nil
}

// checkDesc checks that a machine description is consistent: keys belong to base key and current KSN
func (d *dev) checkDesc(m *server.Machine) error {
	if m == nil {
		return fmt.Errorf("no machine")
	}
	if m.Algorithm != d.Alg || m.AlgorithmKey != d.KeyType || !sameHex(m.BaseDerivativeKey, hx(d.BDK)) {
		return fmt.Errorf("base key fields %+v do not match the device", m.BaseKey)
	}
	if _, err := d.ctrOf(m.KeySerialNumber); err != nil {
		return fmt.Errorf("KeySerialNumber: %w", err)
	}
	c, err := d.ctrOf(m.CurrentKSN)
	if err != nil {
		return fmt.Errorf("CurrentKSN: %w", err)
	}
	if m.InitialKey != d.ik() {
		return fmt.Errorf("InitialKey %q, want %q", m.InitialKey, d.ik())
	}
	if want := hx(d.tk(c)); m.TransactionKey != want {
		return fmt.Errorf("TransactionKey %q does not belong to CurrentKSN %q (want %q)", m.TransactionKey, m.CurrentKSN, want)
	}
	return nil
}

// genOp gives valid parameters of a machine operation; ciphertexts to decrypt belong to counter c
func (d *dev) genOp(g rng, fn string, c uint32) opParams {
	bs := 8
	if d.aes() {
		bs = 16
	}
	var p opParams
	switch fn {
	case "encrypt_pin", "decrypt_pin":
		p.Pan = digits(g, 13+g.IntN(7))
		if d.aes() && g.IntN(8) == 0 {
			p.Pan = digits(g, 12)
		}
		p.Pin = pin(g, 4, 12)
		f := ref.DESFormats[g.IntN(len(ref.DESFormats))]
		if g.IntN(4) == 0 {
			f = "" // ISO-0
		}
		if !d.aes() {
			p.Format = mixCase(g, f)
		} else if g.IntN(3) == 0 {
			p.Format = "ISO-4"
		}
		if f == "" {
			f = "ISO-0"
		}
		if fn == "decrypt_pin" {
			tk := d.tk(c)
			if d.aes() {
				p.Data = hexCase(g, ref.AESPinEnc(tk, d.ksnAt(c), p.Pin, p.Pan, rbytes(g, 8)))
			} else {
				if ref.IsIso0Family(f) && len(p.Pin) > 9 {
					p.Pin = p.Pin[:9] // longer ones: C08
				}
				p.Data = hexCase(g, ref.DESPinEnc(tk, ref.PinBlock(f, p.Pin, p.Pan, fillFn(g))))
				p.Pin = ref.Carried(f, p.Pin)
			}
		}
	case "generate_mac":
		p.Data = text(g, 1+msgLen(g)%400)
		p.Action = action(g)
		if d.aes() {
			p.MacType = []string{"cmac", "hmac"}[g.IntN(2)]
			if g.IntN(8) == 0 {
				p.Data = "" // the MAC of an empty message
			}
		}
	case "encrypt_data":
		p.Data = text(g, msgLen(g)%400)
		p.Action = action(g)
		p.IV = hexCase(g, ivAny(g, bs))
	case "decrypt_data":
		p.Data = hexCase(g, rbytes(g, bs*(1+msgLen(g)%400/bs)))
		p.Action = action(g)
		p.IV = hexCase(g, ivAny(g, bs))
	}
	return p
}

// judgeOp compares the result of a machine operation with the standard's value under transaction key and counter
// json: the result came through JSON, which replaces bytes that are not UTF-8
func (d *dev) judgeOp(tk []byte, c uint32, fn string, p opParams, got string, json bool) error {
	ksn := d.ksnAt(c)
	resp := isResponse(p.Action)
	var want string
	switch fn {
	case "encrypt_pin":
		return checkPinHex(d.aes(), tk, hx(ksn), p.Format, got, p.Pin, p.Pan)
	case "decrypt_pin":
		want = p.Pin
	case "generate_mac":
		switch {
		case d.aes() && p.MacType == "cmac":
			want = hx(ref.AESCMAC(tk, ksn, []byte(p.Data), resp))
		case d.aes():
			want = hx(ref.AESHMAC(tk, ksn, []byte(p.Data), resp))
		default:
			want = hx(ref.DESMac(tk, []byte(p.Data), resp))
		}
	case "encrypt_data":
		if d.aes() {
			want = hx(ref.AESDataEnc(tk, ksn, mustHex(p.IV), []byte(p.Data), resp))
		} else {
			want = hx(ref.DESDataEnc(tk, mustHex(p.IV), []byte(p.Data), resp))
		}
	case "decrypt_data":
		if d.aes() {
			want = string(ref.AESDataDec(tk, ksn, mustHex(p.IV), mustHex(p.Data), resp))
		} else {
			want = string(ref.DESDataDec(tk, mustHex(p.IV), mustHex(p.Data), resp))
		}
	}
	if json {
		want = throughJSON(want)
	}
	if got != want {
		return fmt.Errorf("got %q, want %q", got, want)
	}
	return nil
}

// throughJSON is what arrives when a text is sent as a JSON string
func throughJSON(s string) string {
	var out string
	if err := json.Unmarshal(jsonBody(s), &out); err != nil {
		panic(err)
	}
	return out
}

// forJSON makes the plain texts of the parameters representable in JSON
func (p *opParams) forJSON() { p.Data = throughJSON(p.Data) }
