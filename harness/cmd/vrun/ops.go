package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"verifharness/ref"
)

// args are the arguments of one library call
type args struct {
	Key, KSN, IV, CT                        []byte
	Pin, Pan, Format, KeyType, Action, Text string
	WantPin                                 string // PIN the generated block carries
}

type result struct {
	B   []byte
	S   string
	Err error
}

func (a *args) show() map[string]any {
	m := map[string]any{}
	for n, b := range map[string][]byte{"key": a.Key, "ksn": a.KSN, "iv": a.IV, "input": a.CT} {
		if b != nil {
			m[n] = briefHex(b)
		}
	}
	for n, s := range map[string]string{"pin": a.Pin, "pan": a.Pan, "format": a.Format, "keyType": a.KeyType, "action": a.Action, "wantPin": a.WantPin} {
		if s != "" {
			m[n] = s
		}
	}
	if a.Text != "" {
		m["text"] = brief(a.Text)
	}
	return m
}

func (r result) show() map[string]any {
	m := map[string]any{}
	if r.Err != nil {
		m["error"] = r.Err.Error()
	}
	if r.B != nil {
		m["bytes"] = briefHex(r.B)
	}
	if r.S != "" {
		m["text"] = brief(r.S)
	}
	return m
}

func (a *args) clone() *args {
	c := *a
	c.Key, c.KSN, c.IV, c.CT = clone(a.Key), clone(a.KSN), clone(a.IV), clone(a.CT)
	return &c
}

// op is one library operation: a generator of valid arguments, the call and the oracle
type op struct {
	Name  string
	Fam   string // des, aes, ksn, ecb
	Gen   func(g rng) *args
	Call  func(a *args) result
	Judge func(a *args, r result) error // nil: as the standard prescribes
	Slow  bool
}

func eqB(r result, want []byte) error {
	if r.Err != nil {
		return fmt.Errorf("error %q instead of %s", r.Err, briefHex(want))
	}
	if !bytes.Equal(r.B, want) {
		return fmt.Errorf("got %s, want %s", briefHex(r.B), briefHex(want))
	}
	return nil
}

func eqS(r result, want string) error {
	if r.Err != nil {
		return fmt.Errorf("error %q instead of %s", r.Err, brief(want))
	}
	if r.S != want {
		return fmt.Errorf("got %s, want %s", brief(r.S), brief(want))
	}
	return nil
}

func rb(b []byte, err error) result { return result{B: b, Err: err} }
func rs(s string, err error) result { return result{S: s, Err: err} }

// PINs of the ISO-0 family are kept at 4 to 9 digits for decryption here; longer ones are
// decided by C08 (known finding of the pin block dependency)
func genDesPinBlock(g rng) *args {
	f := ref.DESFormats[g.IntN(len(ref.DESFormats))]
	max := 12
	if ref.IsIso0Family(f) {
		max = 9
	}
	a := &args{Key: key(g, 16), Pan: digits(g, 13+g.IntN(7)), Pin: pin(g, 4, max)}
	a.CT = ref.DESPinEnc(a.Key, ref.PinBlock(f, a.Pin, a.Pan, fillFn(g)))
	a.Format = mixCase(g, f)
	a.WantPin = ref.Carried(f, a.Pin)
	return a
}

func genDesData(g rng) *args {
	return &args{Key: key(g, 16), IV: ivAny(g, 8), Text: text(g, msgLen(g)), Action: action(g)}
}

func genAesData(g rng) *args {
	n := aesSize(g)
	return &args{Key: key(g, n), KSN: aesKSN(g), IV: ivAny(g, 16), Text: text(g, msgLen(g)), Action: action(g), KeyType: aesType(n)}
}

func genAesPin(g rng) *args {
	n := aesSize(g)
	a := &args{Key: key(g, n), KSN: aesKSN(g), Pin: pin(g, 4, 12), Pan: digits(g, 12+g.IntN(8)), KeyType: aesType(n)}
	a.WantPin = a.Pin
	a.CT = ref.AESPinEnc(a.Key, a.KSN, a.Pin, a.Pan, rbytes(g, 8))
	return a
}

func ecbArgs(size int, keys ...int) func(g rng) *args {
	return func(g rng) *args { return &args{Key: key(g, keys[g.IntN(len(keys))]), CT: rbytes(g, size)} }
}

type ecb interface {
	Encrypt([]byte) ([]byte, error)
	Decrypt([]byte) ([]byte, error)
}

func newECB(kind string, k []byte) (ecb, error) {
	switch kind {
	case "aes":
		c, err := encryption.NewAesECB(k)
		if err != nil {
			return nil, err
		}
		return c, nil
	case "tdes":
		c, err := encryption.NewTripleDesECB(k)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	c, err := encryption.NewDesECB(k)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func ecbCall(kind string, dec bool) func(a *args) result {
	return func(a *args) result {
		c, err := newECB(kind, a.Key)
		if err != nil {
			return result{Err: err}
		}
		if dec {
			return rb(c.Decrypt(a.CT))
		}
		return rb(c.Encrypt(a.CT))
	}
}

var ecbRef = map[string][2]func(k, b []byte) []byte{
	"aes":  {ref.AESEnc, ref.AESDec},
	"des":  {ref.DEAEnc, ref.DEADec},
	"tdes": {ref.TDEAEnc, ref.TDEADec},
}

func ecbJudge(kind string, dec int) func(a *args, r result) error {
	return func(a *args, r result) error { return eqB(r, ecbRef[kind][dec](a.Key, a.CT)) }
}

var ops = []*op{
	{Name: "des.DerivationOfInitialKey", Fam: "des",
		Gen:   func(g rng) *args { return &args{Key: key(g, 16), KSN: desKSNAny(g)} },
		Call:  func(a *args) result { return rb(des.DerivationOfInitialKey(a.Key, a.KSN)) },
		Judge: func(a *args, r result) error { return eqB(r, ref.DESInitialKey(a.Key, a.KSN)) }},
	{Name: "des.DeriveCurrentTransactionKey", Fam: "des",
		Gen:   func(g rng) *args { return &args{Key: key(g, 16), KSN: desKSNAny(g)} },
		Call:  func(a *args) result { return rb(des.DeriveCurrentTransactionKey(a.Key, a.KSN)) },
		Judge: func(a *args, r result) error { return eqB(r, ref.DESTxKey(a.Key, a.KSN)) }},
	{Name: "des.EncryptPin", Fam: "des",
		Gen: func(g rng) *args {
			return &args{Key: key(g, 16), Pin: pin(g, 4, 12), Pan: digits(g, 13+g.IntN(7)), Format: mixCase(g, ref.DESFormats[g.IntN(len(ref.DESFormats))])}
		},
		Call: func(a *args) result { return rb(des.EncryptPin(a.Key, a.Pin, a.Pan, a.Format)) },
		Judge: func(a *args, r result) error {
			if r.Err != nil {
				return fmt.Errorf("error %q", r.Err)
			}
			if len(r.B) != 8 {
				return fmt.Errorf("%d bytes", len(r.B))
			}
			return ref.CheckPinBlock(strings.ToUpper(a.Format), ref.DESPinDec(a.Key, r.B), a.Pin, a.Pan)
		}},
	{Name: "des.DecryptPin", Fam: "des", Gen: genDesPinBlock,
		Call:  func(a *args) result { return rs(des.DecryptPin(a.Key, a.CT, a.Pan, a.Format)) },
		Judge: func(a *args, r result) error { return eqS(r, a.WantPin) }},
	{Name: "des.GenerateMac", Fam: "des",
		Gen: func(g rng) *args {
			return &args{Key: key(g, 16), Text: text(g, 1+msgLen(g)), Action: action(g)}
		},
		Call:  func(a *args) result { return rb(des.GenerateMac(a.Key, a.Text, a.Action)) },
		Judge: func(a *args, r result) error { return eqB(r, ref.DESMac(a.Key, []byte(a.Text), isResponse(a.Action))) }},
	{Name: "des.EncryptData", Fam: "des", Gen: genDesData,
		Call: func(a *args) result { return rb(des.EncryptData(a.Key, a.IV, a.Text, a.Action)) },
		Judge: func(a *args, r result) error {
			return eqB(r, ref.DESDataEnc(a.Key, a.IV, []byte(a.Text), isResponse(a.Action)))
		}},
	{Name: "des.DecryptData", Fam: "des",
		Gen: func(g rng) *args {
			a := genDesData(g)
			a.Text = ""
			a.CT = rbytes(g, 8*(msgLen(g)/8))
			return a
		},
		Call: func(a *args) result { return rs(des.DecryptData(a.Key, a.CT, a.IV, a.Action)) },
		Judge: func(a *args, r result) error {
			return eqS(r, string(ref.DESDataDec(a.Key, a.IV, a.CT, isResponse(a.Action))))
		}},

	{Name: "aes.DerivationOfInitialKey", Fam: "aes",
		Gen: func(g rng) *args {
			a := &args{Key: key(g, aesSize(g)), KSN: aesKSN(g)}
			if g.IntN(2) == 0 {
				a.KSN = a.KSN[:8:8]
			}
			return a
		},
		Call:  func(a *args) result { return rb(aes.DerivationOfInitialKey(a.Key, a.KSN)) },
		Judge: func(a *args, r result) error { return eqB(r, ref.AESInitialKey(a.Key, a.KSN)) }},
	{Name: "aes.DeriveCurrentTransactionKey", Fam: "aes",
		Gen:   func(g rng) *args { return &args{Key: key(g, aesSize(g)), KSN: aesKSN(g)} },
		Call:  func(a *args) result { return rb(aes.DeriveCurrentTransactionKey(a.Key, a.KSN)) },
		Judge: func(a *args, r result) error { return eqB(r, ref.AESTxKey(a.Key, a.KSN)) }},
	{Name: "aes.EncryptPin", Fam: "aes", Gen: genAesPin,
		Call: func(a *args) result { return rb(aes.EncryptPin(a.Key, a.KSN, a.Pin, a.Pan, a.KeyType)) },
		Judge: func(a *args, r result) error {
			if r.Err != nil {
				return fmt.Errorf("error %q", r.Err)
			}
			_, err := ref.AESPinCheck(a.Key, a.KSN, r.B, a.Pin, a.Pan)
			return err
		}},
	{Name: "aes.DecryptPin", Fam: "aes", Gen: genAesPin,
		Call:  func(a *args) result { return rs(aes.DecryptPin(a.Key, a.KSN, a.CT, a.Pan, a.KeyType)) },
		Judge: func(a *args, r result) error { return eqS(r, a.WantPin) }},
	{Name: "aes.GenerateCMAC", Fam: "aes", Gen: genAesData,
		Call: func(a *args) result { return rb(aes.GenerateCMAC(a.Key, a.KSN, a.Text, a.KeyType, a.Action)) },
		Judge: func(a *args, r result) error {
			return eqB(r, ref.AESCMAC(a.Key, a.KSN, []byte(a.Text), isResponse(a.Action)))
		}},
	{Name: "aes.GenerateHMAC", Fam: "aes",
		Gen: func(g rng) *args {
			a := genAesData(g)
			a.KeyType = hmacType(len(a.Key))
			return a
		},
		Call: func(a *args) result { return rb(aes.GenerateHMAC(a.Key, a.KSN, a.Text, a.KeyType, a.Action)) },
		Judge: func(a *args, r result) error {
			return eqB(r, ref.AESHMAC(a.Key, a.KSN, []byte(a.Text), isResponse(a.Action)))
		}},
	{Name: "aes.EncryptData", Fam: "aes", Gen: genAesData,
		Call: func(a *args) result { return rb(aes.EncryptData(a.Key, a.KSN, a.IV, a.Text, a.KeyType, a.Action)) },
		Judge: func(a *args, r result) error {
			return eqB(r, ref.AESDataEnc(a.Key, a.KSN, a.IV, []byte(a.Text), isResponse(a.Action)))
		}},
	{Name: "aes.DecryptData", Fam: "aes",
		Gen: func(g rng) *args {
			a := genAesData(g)
			a.Text = ""
			a.CT = rbytes(g, 16*(msgLen(g)/16))
			return a
		},
		Call: func(a *args) result { return rs(aes.DecryptData(a.Key, a.KSN, a.CT, a.IV, a.KeyType, a.Action)) },
		Judge: func(a *args, r result) error {
			return eqS(r, string(ref.AESDataDec(a.Key, a.KSN, a.IV, a.CT, isResponse(a.Action))))
		}},

	{Name: "pkg.GenerateNextDesKsn", Fam: "ksn",
		Gen:   func(g rng) *args { return &args{KSN: desKSNAny(g)} },
		Call:  func(a *args) result { return rb(pkg.GenerateNextDesKsn(a.KSN)) },
		Judge: func(a *args, r result) error { return judgeNext(r, ref.DESNext(a.KSN)) }},
	{Name: "pkg.GenerateNextAesKsn", Fam: "ksn",
		Gen:   func(g rng) *args { return &args{KSN: aesKSN(g)} },
		Call:  func(a *args) result { return rb(pkg.GenerateNextAesKsn(a.KSN)) },
		Judge: func(a *args, r result) error { return judgeNext(r, ref.AESNext(a.KSN)) }},
	{Name: "pkg.IsValidAesKsn", Fam: "ksn",
		Gen:   func(g rng) *args { return &args{KSN: ref.AESWithCounter(rbytes(g, 8), ones(g, 32, 32))} },
		Call:  func(a *args) result { return rs(fmt.Sprint(pkg.IsValidAesKsn(a.KSN)), nil) },
		Judge: func(a *args, r result) error { return eqS(r, fmt.Sprint(ref.AESValid(a.KSN))) }},
	{Name: "pkg.GetAesTcFromKsn", Fam: "ksn",
		Gen:   func(g rng) *args { return &args{KSN: aesKSN(g)} },
		Call:  func(a *args) result { return rs(fmt.Sprint(pkg.GetAesTcFromKsn(a.KSN)), nil) },
		Judge: func(a *args, r result) error { return eqS(r, fmt.Sprint(ref.AESCounter(a.KSN))) }},
	{Name: "pkg.GetDesTcFromKsn", Fam: "ksn",
		Gen:   func(g rng) *args { return &args{KSN: desKSNAny(g)} },
		Call:  func(a *args) result { return rs(fmt.Sprint(pkg.GetDesTcFromKsn(a.KSN)), nil) },
		Judge: func(a *args, r result) error { return eqS(r, fmt.Sprint(ref.DESCounter(a.KSN))) }},
	{Name: "pkg.HexEncode", Fam: "ksn",
		Gen:   func(g rng) *args { return &args{CT: rbytes(g, 1+g.IntN(40))} },
		Call:  func(a *args) result { return rs(pkg.HexEncode(a.CT), nil) },
		Judge: func(a *args, r result) error { return eqS(r, hx(a.CT)) }},
	{Name: "pkg.HexDecode", Fam: "ksn",
		Gen: func(g rng) *args {
			b := rbytes(g, 1+g.IntN(40))
			return &args{CT: b, Text: hexCase(g, b)}
		},
		Call:  func(a *args) result { return rb(pkg.HexDecode(a.Text), nil) },
		Judge: func(a *args, r result) error { return eqB(r, a.CT) }},

	{Name: "encryption.AesECB.Encrypt", Fam: "ecb", Gen: ecbArgs(16, 16, 24, 32), Call: ecbCall("aes", false), Judge: ecbJudge("aes", 0)},
	{Name: "encryption.AesECB.Decrypt", Fam: "ecb", Gen: ecbArgs(16, 16, 24, 32), Call: ecbCall("aes", true), Judge: ecbJudge("aes", 1)},
	{Name: "encryption.DesECB.Encrypt", Fam: "ecb", Gen: ecbArgs(8, 8), Call: ecbCall("des", false), Judge: ecbJudge("des", 0)},
	{Name: "encryption.DesECB.Decrypt", Fam: "ecb", Gen: ecbArgs(8, 8), Call: ecbCall("des", true), Judge: ecbJudge("des", 1)},
	{Name: "encryption.TripleDesECB.Encrypt", Fam: "ecb", Gen: ecbArgs(8, 16, 24), Call: ecbCall("tdes", false), Judge: ecbJudge("tdes", 0)},
	{Name: "encryption.TripleDesECB.Decrypt", Fam: "ecb", Gen: ecbArgs(8, 16, 24), Call: ecbCall("tdes", true), Judge: ecbJudge("tdes", 1)},
}

func judgeNext(r result, want []byte) error {
	if want == nil {
		if r.Err == nil {
			return fmt.Errorf("got %x instead of exhaustion", r.B)
		}
		if r.B != nil {
			return fmt.Errorf("exhaustion with a KSN %x", r.B)
		}
		return nil
	}
	return eqB(r, want)
}
