package ref

import (
	"bytes"
	"fmt"
	"math/bits"
)

// SelfTest compares the model with published vectors of the standards, so that a broken
// model is reported as an error of the machinery and never as a violation.
func SelfTest() error {
	eq := func(name string, got []byte, want string) error {
		if toHex(got) != want {
			return fmt.Errorf("reference model: %s is %X, want %s", name, got, want)
		}
		return nil
	}
	ksn := unHex("FFFF9876543210E00001")
	ik := DESInitialKey(unHex("0123456789ABCDEFFEDCBA9876543210"), ksn)
	tk := DESTxKey(ik, ksn)
	abdk := unHex("FEDCBA9876543210F1F1F1F1F1F1F1F1")
	aksn := unHex("123456789012345600000001")
	aik := AESInitialKey(abdk, aksn[:8])
	atk := AESTxKey(aik, aksn)
	cases := []error{
		eq("TDES initial key", ik, "6AC292FAA1315B4D858AB3A3D7D5933A"),
		eq("TDES transaction key 1", tk, "042666B49184CFA368DE9628D0397BC9"),
		eq("TDES PIN", DESPinEnc(tk, PinBlock("ISO-0", "1234", "4012345678909", nil)), "1B9C1845EB993A7A"),
		eq("TDES MAC", DESMac(tk, []byte("4012345678909D987"), false), "9CCC78173FC4FB64"),
		eq("AES-128 initial key", aik, "1273671EA26AC29AFA4D1084127652A1"),
		eq("AES-128 transaction key 1", atk, "4F21B565BAD9835E112B6465635EAE44"),
		eq("AES-128 PIN key 1", AESWorkKey(atk, aksn, UsePin), "AF8CB133A78F8DC2D1359F18527593FB"),
		eq("CMAC empty", CMAC(unHex("2B7E151628AED2A6ABF7158809CF4F3C"), nil), "BB1D6929E95937287FA37D129B756746"),
		eq("CMAC 40", CMAC(unHex("2B7E151628AED2A6ABF7158809CF4F3C"), unHex("6BC1BEE22E409F96E93D7E117393172AAE2D8A571E03AC9C9EB76FAC45AF8E5130C81C46A35CE411")), "DFA66747DE9AE63030CA32611497C827"),
	}
	for _, e := range cases {
		if e != nil {
			return e
		}
	}
	// the successor against brute force on a small width
	for w := uint(1); w <= 10; w++ {
		for k := 1; k <= int(w); k++ {
			for t := uint64(0); t < 1<<w; t++ {
				var want uint64
				ok := false
				for x := t + 1; x < 1<<w; x++ {
					if bits.OnesCount64(x) <= k {
						want, ok = x, true
						break
					}
				}
				if got, gok := NextCounter(t, w, k); got != want || gok != ok {
					return fmt.Errorf("reference model: NextCounter(%d,%d,%d)", t, w, k)
				}
			}
		}
	}
	tail := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	ct := AESPinEnc(atk, aksn, "123456", "4012345678909", tail)
	if got, err := AESPinCheck(atk, aksn, ct, "123456", "4012345678909"); err != nil || !bytes.Equal(got, tail) {
		return fmt.Errorf("reference model: format 4: %v", err)
	}
	return nil
}
