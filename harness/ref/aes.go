package ref

import (
	"crypto/aes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"math/bits"
)

func AESEnc(key, in []byte) []byte {
	out := make([]byte, 16)
	must(aes.NewCipher(key)).Encrypt(out, in)
	return out
}

func AESDec(key, in []byte) []byte {
	out := make([]byte, 16)
	must(aes.NewCipher(key)).Decrypt(out, in)
	return out
}

// Key usages of X9.24-3 table 3
const (
	UsePin      = 0x1000
	UseMacReq   = 0x2000
	UseMacResp  = 0x2001
	UseDataReq  = 0x3000
	UseDataResp = 0x3001
	useDerive   = 0x8000
	useInitial  = 0x8001
)

// aesDerive is X9.24-3 6.3.1: generate n bytes under key from the derivation data
func aesDerive(key []byte, usage, alg uint16, n int, tail [8]byte) []byte {
	var out []byte
	for c := byte(1); len(out) < n; c++ {
		var d [16]byte
		d[0] = 1
		d[1] = c
		binary.BigEndian.PutUint16(d[2:], usage)
		binary.BigEndian.PutUint16(d[4:], alg)
		binary.BigEndian.PutUint16(d[6:], uint16(n*8))
		copy(d[8:], tail[:])
		out = append(out, AESEnc(key, d[:])...)
	}
	return out[:n]
}

func algOf(n int) uint16 {
	switch n {
	case 16:
		return 2
	case 24:
		return 3
	case 32:
		return 4
	}
	panic("ref: key length")
}

// AESInitialKey from a BDK and an initial key ID of 8 bytes
func AESInitialKey(bdk, ikid []byte) []byte {
	var t [8]byte
	copy(t[:], ikid[:8])
	return aesDerive(bdk, useInitial, algOf(len(bdk)), len(bdk), t)
}

func aesTail(ksn []byte, tc uint32) (t [8]byte) {
	copy(t[:4], ksn[4:8])
	binary.BigEndian.PutUint32(t[4:], tc)
	return t
}

func AESCounter(ksn []byte) uint32 { return binary.BigEndian.Uint32(ksn[8:12]) }

func AESWithCounter(ksn []byte, tc uint32) []byte {
	out := append([]byte(nil), ksn[:8]...)
	return binary.BigEndian.AppendUint32(out, tc)
}

// AESTxKey: the key of a counter comes from the key of the counter without its lowest one bit
func AESTxKey(ik, ksn []byte) []byte {
	var rec func(tc uint32) []byte
	rec = func(tc uint32) []byte {
		if tc == 0 {
			return append([]byte(nil), ik...)
		}
		return aesDerive(rec(tc&(tc-1)), useDerive, algOf(len(ik)), len(ik), aesTail(ksn, tc))
	}
	return rec(AESCounter(ksn))
}

// AESWorkKey for PIN, CMAC and data
func AESWorkKey(tk, ksn []byte, usage uint16) []byte {
	return aesDerive(tk, usage, algOf(len(tk)), len(tk), aesTail(ksn, AESCounter(ksn)))
}

func macUse(response bool) uint16 {
	if response {
		return UseMacResp
	}
	return UseMacReq
}

func dataUse(response bool) uint16 {
	if response {
		return UseDataResp
	}
	return UseDataReq
}

// CMAC is NIST SP 800-38B
func CMAC(key, msg []byte) []byte {
	dbl := func(b []byte) []byte {
		out := make([]byte, 16)
		for i := range b {
			out[i] = b[i] << 1
			if i < 15 {
				out[i] |= b[i+1] >> 7
			}
		}
		if b[0]&0x80 != 0 {
			out[15] ^= 0x87
		}
		return out
	}
	k1 := dbl(AESEnc(key, make([]byte, 16)))
	k2 := dbl(k1)
	st := make([]byte, 16)
	for len(msg) > 16 {
		st = AESEnc(key, xorb(st, msg[:16]))
		msg = msg[16:]
	}
	last := make([]byte, 16)
	copy(last, msg)
	if len(msg) == 16 {
		last = xorb(last, k1)
	} else {
		last[len(msg)] = 0x80
		last = xorb(last, k2)
	}
	return AESEnc(key, xorb(st, last))
}

func AESCMAC(tk, ksn, msg []byte, response bool) []byte {
	return CMAC(AESWorkKey(tk, ksn, macUse(response)), msg)
}

func AESHMAC(tk, ksn, msg []byte, response bool) []byte {
	k := aesDerive(tk, macUse(response), 5, len(tk), aesTail(ksn, AESCounter(ksn)))
	h := hmac.New(sha256.New, k)
	h.Write(msg)
	return h.Sum(nil)
}

func AESDataEnc(tk, ksn, iv, msg []byte, response bool) []byte {
	k := AESWorkKey(tk, ksn, dataUse(response))
	return cbcEnc(func(b []byte) []byte { return AESEnc(k, b) }, 16, iv, msg)
}

func AESDataDec(tk, ksn, iv, ct []byte, response bool) []byte {
	k := AESWorkKey(tk, ksn, dataUse(response))
	return cbcDec(func(b []byte) []byte { return AESDec(k, b) }, 16, iv, ct)
}

// AESNext is the successor of an AES KSN, nil if there is none
func AESNext(ksn []byte) []byte {
	tc, ok := NextCounter(uint64(AESCounter(ksn)), 32, 16)
	if !ok {
		return nil
	}
	return AESWithCounter(ksn, uint32(tc))
}

func AESValid(ksn []byte) bool {
	tc := AESCounter(ksn)
	return tc != 0 && bits.OnesCount32(tc) <= 16
}
