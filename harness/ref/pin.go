package ref

import (
	"fmt"
	"strings"
)

// PIN blocks as strings of upper case hexadecimal digits

// Formats usable with the 8-byte TDES block
var DESFormats = []string{"ISO-0", "ISO-1", "ISO-2", "ISO-3", "ANSI", "ECI1", "ECI2", "ECI3", "ECI4", "VISA1", "VISA2", "VISA3", "VISA4"}

// Iso0Like: control nibble 0, length, PIN, F fill, XOR with PAN
var iso0Like = map[string]bool{"ISO-0": true, "ANSI": true, "ECI1": true, "VISA1": true, "VISA4": true}
var iso1Like = map[string]bool{"ISO-1": true, "ECI4": true}

// IsIso0Family: PAN-bound formats
func IsIso0Family(f string) bool { return iso0Like[f] || f == "ISO-3" }

const hexUp = "0123456789ABCDEF"

func toHex(b []byte) string { return fmt.Sprintf("%X", b) }

func nib(c byte) int { return strings.IndexByte(hexUp, c) }

func unHex(s string) []byte {
	out := make([]byte, len(s)/2)
	for i := range out {
		h, l := nib(s[2*i]), nib(s[2*i+1])
		if h < 0 || l < 0 {
			panic("ref: not hex: " + s)
		}
		out[i] = byte(h<<4 | l)
	}
	return out
}

func allDigits(s string) bool {
	for i := range s {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func panField(pan string) []byte {
	return unHex("0000" + pan[len(pan)-13:len(pan)-1])
}

// Carried is the part of the PIN that a format carries
func Carried(format, pin string) string {
	n := len(pin)
	switch format {
	case "ECI2":
		n = 4
	case "ECI3", "VISA2":
		n = 6
	}
	if n > len(pin) {
		n = len(pin)
	}
	return pin[:n]
}

// PinBlock builds the clear 8-byte block of a format; fill(alphabet) supplies fill nibbles
func PinBlock(format, pin, pan string, fill func(alphabet string) byte) []byte {
	rep := func(n int, alphabet string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = fill(alphabet)
		}
		return string(b)
	}
	n := len(pin)
	switch {
	case iso0Like[format]:
		return xorb(unHex("0"+string(hexUp[n])+pin+strings.Repeat("F", 14-n)), panField(pan))
	case format == "ISO-3":
		return xorb(unHex("3"+string(hexUp[n])+pin+rep(14-n, "ABCDEF")), panField(pan))
	case iso1Like[format]:
		return unHex("1" + string(hexUp[n]) + pin + rep(14-n, hexUp))
	case format == "ISO-2":
		return unHex("2" + string(hexUp[n]) + pin + strings.Repeat("F", 14-n))
	case format == "ECI2":
		return unHex(pin[:4] + rep(12, hexUp))
	case format == "ECI3", format == "VISA2":
		p := Carried(format, pin)
		a := hexUp
		if format == "VISA2" {
			a = "0123456789"
		}
		return unHex(string(hexUp[len(p)]) + p + strings.Repeat("0", 6-len(p)) + rep(9, a))
	case format == "VISA3":
		c := fill("ABCDEF")
		return unHex(pin + "F" + strings.Repeat(string(c), 15-n))
	}
	panic("ref: format " + format)
}

// CheckPinBlock says whether a clear block is a valid encoding of pin in the format
func CheckPinBlock(format string, block []byte, pin, pan string) error {
	if len(block) != 8 {
		return fmt.Errorf("block of %d bytes", len(block))
	}
	expect := func(ok bool, what string) error {
		if ok {
			return nil
		}
		return fmt.Errorf("%s block %X does not encode the PIN: %s", format, block, what)
	}
	n := len(pin)
	head := func(ctl string) string { return ctl + string(hexUp[n]) + pin }
	switch {
	case iso0Like[format]:
		s := toHex(xorb(block, panField(pan)))
		return expect(s == head("0")+strings.Repeat("F", 14-n), s)
	case format == "ISO-3":
		s := toHex(xorb(block, panField(pan)))
		return expect(strings.HasPrefix(s, head("3")) && strings.Trim(s[2+n:], "ABCDEF") == "", s)
	case iso1Like[format]:
		s := toHex(block)
		return expect(strings.HasPrefix(s, head("1")), s)
	case format == "ISO-2":
		s := toHex(block)
		return expect(s == head("2")+strings.Repeat("F", 14-n), s)
	case format == "ECI2":
		s := toHex(block)
		return expect(strings.HasPrefix(s, pin[:4]), s)
	case format == "ECI3", format == "VISA2":
		p := Carried(format, pin)
		s := toHex(block)
		ok := strings.HasPrefix(s, string(hexUp[len(p)])+p+strings.Repeat("0", 6-len(p)))
		if format == "VISA2" {
			ok = ok && allDigits(s)
		}
		return expect(ok, s)
	case format == "VISA3":
		s := toHex(block)
		return expect(strings.HasPrefix(s, pin+"F"), s)
	}
	return fmt.Errorf("format %s", format)
}

// DESPinEnc encrypts a clear block
func DESPinEnc(tk, block []byte) []byte { return TDEAEnc(DESPinKey(tk), block) }
func DESPinDec(tk, ct []byte) []byte    { return TDEADec(DESPinKey(tk), ct) }

// ISO 9564 format 4

func iso4Pan(pan string) []byte {
	return unHex(string(hexUp[len(pan)-12]) + pan + strings.Repeat("0", 31-len(pan)))
}

// AESPinEnc: tail are the 8 random bytes of the plain text PIN field
func AESPinEnc(tk, ksn []byte, pin, pan string, tail []byte) []byte {
	k := AESWorkKey(tk, ksn, UsePin)
	n := len(pin)
	field := append(unHex("4"+string(hexUp[n])+pin+strings.Repeat("A", 14-n)), tail...)
	return AESEnc(k, xorb(AESEnc(k, field), iso4Pan(pan)))
}

// AESPinCheck says whether ct is a valid format 4 encryption of the PIN, and returns its random tail
func AESPinCheck(tk, ksn, ct []byte, pin, pan string) ([]byte, error) {
	if len(ct) != 16 {
		return nil, fmt.Errorf("format 4 block of %d bytes", len(ct))
	}
	k := AESWorkKey(tk, ksn, UsePin)
	field := AESDec(k, xorb(AESDec(k, ct), iso4Pan(pan)))
	n := len(pin)
	want := "4" + string(hexUp[n]) + pin + strings.Repeat("A", 14-n)
	if got := toHex(field[:8]); got != want {
		return nil, fmt.Errorf("format 4 PIN field is %s, want %s", got, want)
	}
	return field[8:], nil
}

// RandomFill: the TDES formats whose clear block holds random fill, and the probability that two
// fills agree in one character (random bytes are reduced modulo the alphabet's size)
var RandomFill = map[string]float64{
	"ISO-1": 0.1001, "ECI4": 0.1001, "VISA2": 0.1001,
	"ECI2": 0.0625, "ECI3": 0.0625,
	"ISO-3": 0.1667, "VISA3": 0.1667,
}

// Fill gives the fill characters of a clear block that encodes the PIN (VISA3: the one repeated letter)
func Fill(format string, block []byte, pin, pan string) string {
	n := len(pin)
	switch format {
	case "ISO-3":
		return toHex(xorb(block, panField(pan)))[2+n:]
	case "ISO-1", "ECI4":
		return toHex(block)[2+n:]
	case "ECI2":
		return toHex(block)[4:]
	case "ECI3", "VISA2":
		return toHex(block)[7:]
	case "VISA3":
		return toHex(block)[n+1 : n+2]
	}
	panic("ref: fill of " + format)
}
