// Package ref is an independent executable model of ANSI X9.24-1 (TDES) and
// ANSI X9.24-3 (AES) DUKPT and of the PIN block formats. It is written from the
// standards, shares no code with the repository under test and is built on the
// block ciphers of the Go standard library only.
package ref

import (
	"crypto/des"
	"math/bits"
)

func must[T any](v T, err error) T {
	if err != nil {
		panic("ref: " + err.Error())
	}
	return v
}

func xorb(a, b []byte) []byte {
	out := make([]byte, len(a))
	for i := range a {
		out[i] = a[i] ^ b[i]
	}
	return out
}

func desEnc(key, in []byte) []byte {
	out := make([]byte, 8)
	must(des.NewCipher(key)).Encrypt(out, in)
	return out
}

func desDec(key, in []byte) []byte {
	out := make([]byte, 8)
	must(des.NewCipher(key)).Decrypt(out, in)
	return out
}

// keyed single DEA: the key is scheduled once
func desWith(key []byte) (enc, dec func([]byte) []byte) {
	c := must(des.NewCipher(key))
	run := func(f func(dst, src []byte)) func([]byte) []byte {
		return func(in []byte) []byte {
			out := make([]byte, 8)
			f(out, in)
			return out
		}
	}
	return run(c.Encrypt), run(c.Decrypt)
}

// TDEA with two or three keys as explicit E-D-E composition of single DEA
func TDEAEnc(key, in []byte) []byte {
	k3 := key[:8]
	if len(key) == 24 {
		k3 = key[16:24]
	}
	return desEnc(k3, desDec(key[8:16], desEnc(key[:8], in)))
}

func TDEADec(key, in []byte) []byte {
	k3 := key[:8]
	if len(key) == 24 {
		k3 = key[16:24]
	}
	return desDec(key[:8], desEnc(key[8:16], desDec(k3, in)))
}

func DEAEnc(key, in []byte) []byte { return desEnc(key, in) }
func DEADec(key, in []byte) []byte { return desDec(key, in) }

var c0mask = []byte{0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0, 0xC0, 0xC0, 0xC0, 0xC0, 0, 0, 0, 0}

// pad a TDES key serial number on the left with FF to ten bytes
func padKSN(ksn []byte) [10]byte {
	var r [10]byte
	for i := range r {
		r[i] = 0xFF
	}
	copy(r[10-len(ksn):], ksn)
	return r
}

// DESInitialKey: X9.24-1 A.6
func DESInitialKey(bdk, ksn []byte) []byte {
	k := padKSN(ksn)
	k[7] &= 0xE0
	in := k[:8]
	return append(TDEAEnc(bdk, in), TDEAEnc(xorb(bdk, c0mask), in)...)
}

// nrkgp is the non-reversible key generation process (X9.24-1 A.2): the new key for the
// crypto register r (the right 64 bits of the key serial number register)
func nrkgp(key [16]byte, r [8]byte) (out [16]byte) {
	half := func(k []byte) []byte {
		return xorb(desEnc(k[:8], xorb(r[:], k[8:])), k[8:])
	}
	copy(out[8:], half(key[:]))
	copy(out[:8], half(xorb(key[:], c0mask)))
	return out
}

// DESCounter is the 21-bit transaction counter of a KSN
func DESCounter(ksn []byte) uint32 {
	n := len(ksn)
	return (uint32(ksn[n-3])<<16 | uint32(ksn[n-2])<<8 | uint32(ksn[n-1])) & 0x1FFFFF
}

// desReg is the right 64 bits of the padded KSN with its counter replaced
func desReg(ksn []byte, tc uint32) (r [8]byte) {
	k := padKSN(ksn)
	copy(r[:], k[2:])
	r[5] = r[5]&0xE0 | byte(tc>>16)
	r[6] = byte(tc >> 8)
	r[7] = byte(tc)
	return r
}

// DESWithCounter returns the KSN with another counter
func DESWithCounter(ksn []byte, tc uint32) []byte {
	out := append([]byte(nil), ksn...)
	n := len(out)
	out[n-3] = out[n-3]&0xE0 | byte(tc>>16)&0x1F
	out[n-2] = byte(tc >> 8)
	out[n-1] = byte(tc)
	return out
}

// DESTxKey: the key of a counter comes from the key of the counter without its
// lowest one bit
func DESTxKey(ik, ksn []byte) []byte {
	var base [16]byte
	copy(base[:], ik)
	var rec func(tc uint32) [16]byte
	rec = func(tc uint32) [16]byte {
		if tc == 0 {
			return base
		}
		return nrkgp(rec(tc&(tc-1)), desReg(ksn, tc))
	}
	k := rec(DESCounter(ksn))
	return k[:]
}

// DESWalk visits every counter of at most maxOnes one bits whose highest bits are
// tc (depth first), giving the transaction key of each. Used for exhaustive comparison.
func DESWalk(ksn []byte, key [16]byte, tc uint32, maxOnes int, visit func(tc uint32, key [16]byte)) {
	visit(tc, key)
	if bits.OnesCount32(tc) >= maxOnes {
		return
	}
	low := 21
	if tc != 0 {
		low = bits.TrailingZeros32(tc)
	}
	for p := 0; p < low; p++ {
		t := tc | 1<<p
		DESWalk(ksn, nrkgp(key, desReg(ksn, t)), t, maxOnes, visit)
	}
}

// Key variants, X9.24-1 A.4.1 table A-1
const (
	VarPin      = 7
	VarMacReq   = 6
	VarMacResp  = 4
	VarDataReq  = 5
	VarDataResp = 3
)

func DESVariant(tk []byte, pos int) []byte {
	out := append([]byte(nil), tk...)
	out[pos] ^= 0xFF
	out[pos+8] ^= 0xFF
	return out
}

func DESPinKey(tk []byte) []byte { return DESVariant(tk, VarPin) }

func zeroPad(in []byte, block int) []byte {
	n := (len(in) + block - 1) / block * block
	out := make([]byte, n)
	copy(out, in)
	return out
}

func fitIV(iv []byte, block int) []byte {
	out := make([]byte, block)
	copy(out, iv)
	return out
}

func cbcEnc(enc func([]byte) []byte, block int, iv, in []byte) []byte {
	prev := fitIV(iv, block)
	var out []byte
	in = zeroPad(in, block)
	for i := 0; i < len(in); i += block {
		prev = enc(xorb(in[i:i+block], prev))
		out = append(out, prev...)
	}
	return out
}

func cbcDec(dec func([]byte) []byte, block int, iv, in []byte) []byte {
	prev := fitIV(iv, block)
	var out []byte
	for i := 0; i+block <= len(in); i += block {
		out = append(out, xorb(dec(in[i:i+block]), prev)...)
		prev = in[i : i+block]
	}
	return out
}

// DESMac: CBC with the left half, final D with the right and E with the left half
func DESMac(tk, msg []byte, response bool) []byte {
	pos := VarMacReq
	if response {
		pos = VarMacResp
	}
	k := DESVariant(tk, pos)
	enc1, _ := desWith(k[:8])
	st := make([]byte, 8)
	in := zeroPad(msg, 8)
	for i := 0; i < len(in); i += 8 {
		st = enc1(xorb(st, in[i:i+8]))
	}
	return enc1(desDec(k[8:], st))
}

func DESDataKey(tk []byte, response bool) []byte {
	pos := VarDataReq
	if response {
		pos = VarDataResp
	}
	k := DESVariant(tk, pos)
	return append(TDEAEnc(k, k[:8]), TDEAEnc(k, k[8:])...)
}

func DESDataEnc(tk, iv, msg []byte, response bool) []byte {
	k := DESDataKey(tk, response)
	e1, _ := desWith(k[:8])
	_, d2 := desWith(k[8:])
	return cbcEnc(func(b []byte) []byte { return e1(d2(e1(b))) }, 8, iv, msg)
}

// DESDataDec decrypts whole blocks
func DESDataDec(tk, iv, ct []byte, response bool) []byte {
	k := DESDataKey(tk, response)
	_, d1 := desWith(k[:8])
	e2, _ := desWith(k[8:])
	return cbcDec(func(b []byte) []byte { return d1(e2(d1(b))) }, 8, iv, ct)
}

// NextCounter is the smallest value greater than t, below 2^width, with at most maxOnes
// one bits: if t+1 has too many, keep its maxOnes highest ones and add one at the place of
// the lowest of them.
func NextCounter(t uint64, width uint, maxOnes int) (uint64, bool) {
	x := t + 1
	if x>>width != 0 {
		return 0, false
	}
	if n := bits.OnesCount64(x); n > maxOnes {
		y := x
		for bits.OnesCount64(y) > maxOnes {
			y &^= 1 << bits.TrailingZeros64(y)
		}
		p := bits.TrailingZeros64(y)
		x = y + 1<<p
	}
	if x>>width != 0 {
		return 0, false
	}
	return x, true
}

// DESNext is the successor of a TDES KSN, nil if there is none
func DESNext(ksn []byte) []byte {
	tc, ok := NextCounter(uint64(DESCounter(ksn)), 21, 10)
	if !ok {
		return nil
	}
	return DESWithCounter(ksn, uint32(tc))
}
