package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/moov-io/dukpt/pkg/server"
	"verifharness/ref"
)

// up is a call of a unified string-parameter function
type up struct {
	Fn   string
	P    server.UnifiedParams
	Pin  string // PIN the generated block carries
	Used []string
}

var unifiedFns = map[string]server.WrapperCall{
	"InitialKey": server.InitialKey, "TransactionKey": server.TransactionKey,
	"EncryptPin": server.EncryptPin, "DecryptPin": server.DecryptPin,
	"GenerateMac": server.GenerateMac, "EncryptData": server.EncryptData, "DecryptData": server.DecryptData,
}

var unifiedNames = []string{"InitialKey", "TransactionKey", "EncryptPin", "DecryptPin", "GenerateMac", "EncryptData", "DecryptData"}

func mustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func (u *up) show() map[string]any {
	m := map[string]any{"function": u.Fn}
	p := u.P
	for n, s := range map[string]string{"Algorithm": p.Algorithm, "AlgorithmKey": p.AlgorithmKey, "BKD": p.BKD, "KSN": p.KSN, "IK": p.IK, "TK": p.TK,
		"PIN": p.PIN, "PAN": p.PAN, "Format": p.Format, "MacType": p.MacType, "Plaintext": p.Plaintext, "Ciphertext": p.Ciphertext, "Action": p.Action, "IV": p.IV} {
		if s != "" {
			m[n] = fmt.Sprintf("%q", s)
		}
	}
	return m
}

// genUnified gives valid parameters and arbitrary values in fields that the function does not use
func genUnified(g rng, fn, alg string) *up {
	u := &up{Fn: fn}
	p := &u.P
	if g.IntN(3) == 0 { // noise in unused fields, overwritten below where used
		for _, f := range []*string{&p.AlgorithmKey, &p.BKD, &p.KSN, &p.IK, &p.TK, &p.PIN, &p.PAN, &p.Format, &p.MacType, &p.Plaintext, &p.Ciphertext, &p.Action, &p.IV} {
			*f = hostileString(g)
		}
	}
	p.Algorithm = alg
	n, bs := 16, 8
	ksn := desKSNAny(g)
	if alg == "aes" {
		n, bs = aesSize(g), 16
		ksn = aesKSN(g)
		p.AlgorithmKey = aesType(n)
	}
	k := key(g, n)
	ks := hexCase(g, k)
	if alg == "aes" || fn == "InitialKey" || fn == "TransactionKey" {
		p.KSN = hexCase(g, ksn)
	}
	iv := ivAny(g, bs)
	switch fn {
	case "InitialKey":
		p.BKD = ks
		if alg == "aes" && g.IntN(2) == 0 {
			p.KSN = hexCase(g, ksn[:8])
		}
	case "TransactionKey":
		p.IK = ks
	case "EncryptPin", "DecryptPin":
		p.TK = ks
		f := ref.DESFormats[g.IntN(len(ref.DESFormats))]
		maxPin := 12
		if alg == "des" && fn == "DecryptPin" && ref.IsIso0Family(f) {
			maxPin = 9 // longer ones: C08
		}
		u.Pin = pin(g, 4, maxPin)
		p.PAN = digits(g, 13+g.IntN(7))
		if alg == "aes" && g.IntN(8) == 0 {
			p.PAN = digits(g, 12)
		}
		if alg == "des" {
			p.Format = mixCase(g, f)
		}
		p.PIN = u.Pin
		if fn == "DecryptPin" {
			if alg == "des" {
				p.PIN = hexCase(g, ref.DESPinEnc(k, ref.PinBlock(f, u.Pin, p.PAN, fillFn(g))))
				u.Pin = ref.Carried(f, u.Pin)
			} else {
				p.PIN = hexCase(g, ref.AESPinEnc(k, ksn, u.Pin, p.PAN, rbytes(g, 8)))
			}
		}
	case "GenerateMac":
		p.TK = ks
		p.Plaintext = text(g, 1+msgLen(g))
		p.Action = action(g)
		if alg == "aes" {
			p.MacType = "cmac"
			if g.IntN(2) == 0 {
				p.MacType, p.AlgorithmKey = "hmac", hmacType(n)
			}
			if g.IntN(6) == 0 {
				p.Plaintext = ""
			}
		}
	case "EncryptData":
		p.TK = ks
		p.Plaintext = text(g, msgLen(g))
		p.Action = action(g)
		p.IV = hexCase(g, iv)
	case "DecryptData":
		p.TK = ks
		p.Ciphertext = hexCase(g, rbytes(g, bs*(msgLen(g)/bs)))
		p.Action = action(g)
		p.IV = hexCase(g, iv)
	}
	return u
}

// judge compares a result with the model
func (u *up) judge(got string, err error) error {
	if err != nil {
		return fmt.Errorf("error %q", err)
	}
	p := u.P
	isAes := p.Algorithm == "aes"
	resp := isResponse(p.Action)
	var want string
	switch u.Fn {
	case "InitialKey":
		if isAes {
			want = hx(ref.AESInitialKey(mustHex(p.BKD), mustHex(p.KSN)))
		} else {
			want = hx(ref.DESInitialKey(mustHex(p.BKD), mustHex(p.KSN)))
		}
	case "TransactionKey":
		if isAes {
			want = hx(ref.AESTxKey(mustHex(p.IK), mustHex(p.KSN)))
		} else {
			want = hx(ref.DESTxKey(mustHex(p.IK), mustHex(p.KSN)))
		}
	case "EncryptPin":
		return checkPinHex(isAes, mustHex(p.TK), p.KSN, p.Format, got, u.Pin, p.PAN)
	case "DecryptPin":
		want = u.Pin
	case "GenerateMac":
		switch {
		case isAes && p.MacType == "cmac":
			want = hx(ref.AESCMAC(mustHex(p.TK), mustHex(p.KSN), []byte(p.Plaintext), resp))
		case isAes:
			want = hx(ref.AESHMAC(mustHex(p.TK), mustHex(p.KSN), []byte(p.Plaintext), resp))
		default:
			want = hx(ref.DESMac(mustHex(p.TK), []byte(p.Plaintext), resp))
		}
	case "EncryptData":
		if isAes {
			want = hx(ref.AESDataEnc(mustHex(p.TK), mustHex(p.KSN), mustHex(p.IV), []byte(p.Plaintext), resp))
		} else {
			want = hx(ref.DESDataEnc(mustHex(p.TK), mustHex(p.IV), []byte(p.Plaintext), resp))
		}
	case "DecryptData":
		if isAes {
			want = string(ref.AESDataDec(mustHex(p.TK), mustHex(p.KSN), mustHex(p.IV), mustHex(p.Ciphertext), resp))
		} else {
			want = string(ref.DESDataDec(mustHex(p.TK), mustHex(p.IV), mustHex(p.Ciphertext), resp))
		}
	}
	if got != want {
		return fmt.Errorf("got %q, want %q", got, want)
	}
	return nil
}

// checkPinHex checks an encrypted PIN given as lower case hexadecimal
func checkPinHex(isAes bool, tk []byte, ksn, format, got, pin, pan string) error {
	ct, err := hex.DecodeString(got)
	if err != nil || got != strings.ToLower(got) {
		return fmt.Errorf("%q is not lower case hexadecimal", got)
	}
	if isAes {
		_, err := ref.AESPinCheck(tk, mustHex(ksn), ct, pin, pan)
		return err
	}
	if len(ct) != 8 {
		return fmt.Errorf("%d bytes", len(ct))
	}
	if format == "" {
		format = "ISO-0"
	}
	return ref.CheckPinBlock(strings.ToUpper(format), ref.DESPinDec(tk, ct), pin, pan)
}
