package main

import (
	"encoding/binary"
	"encoding/hex"
	"math/bits"
	"math/rand/v2"
	"net/url"
	"strconv"
	"strings"

	"verifharness/ref"
)

type rng = *rand.Rand

func rbytes(g rng, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(g.Uint32())
	}
	return out
}

// key gives random and structured keys of n bytes
func key(g rng, n int) []byte {
	k := rbytes(g, n)
	if n < 2 {
		return k
	}
	switch g.IntN(16) {
	case 9: // a number of the code somewhere
		v := binary.BigEndian.AppendUint64(nil, uint64(dictInt(g)))
		for len(v) > 1 && v[0] == 0 {
			v = v[1:]
		}
		copy(k[g.IntN(n):], v)
	case 5: // zeros in front
		clear(k[:1+g.IntN(n)])
	case 6: // zeros behind
		clear(k[g.IntN(n):])
	case 7: // DES weak and semi-weak keys among the parts
		for p := 0; p+8 <= n; p += 8 {
			if g.IntN(2) == 0 {
				w := [][2]byte{{0x01, 0x01}, {0xFE, 0xFE}, {0xE0, 0xF1}, {0x1F, 0x0E}, {0x01, 0xFE}, {0x1F, 0xE0}, {0x01, 0xE0}, {0xFE, 0x1F}}[g.IntN(8)]
				for x := 0; x < 8; x++ {
					k[p+x] = w[x/4]
				}
			}
		}
	case 8: // leading ones
		for i := 0; i <= g.IntN(n); i++ {
			k[i] = 0xFF
		}
	case 0: // all bytes equal
		for i := range k {
			k[i] = k[0]
		}
	case 1: // equal halves
		copy(k[n/2:], k[:n/2])
	case 2: // complemented halves
		for i := 0; i < n/2; i++ {
			k[n/2+i] = ^k[i]
		}
	case 3: // one bit
		for i := range k {
			k[i] = 0
		}
		b := g.IntN(n * 8)
		k[b/8] = 1 << (b % 8)
	case 4: // parity adjusted
		for i := range k {
			b := k[i] &^ 1
			p := byte(1)
			for x := b; x != 0; x &= x - 1 {
				p ^= 1
			}
			k[i] = b | p
		}
	}
	return k
}

// ones gives a counter of width bits with at most maxOnes ones, all weights alike
func ones(g rng, width, maxOnes int) uint32 {
	if g.IntN(12) == 0 {
		v := uint32(dictInt(g)) & uint32(1<<width-1)
		if bits.OnesCount32(v) <= maxOnes {
			return v
		}
	}
	var t uint32
	n := g.IntN(maxOnes + 1)
	for n > 0 {
		b := uint32(1) << g.IntN(width)
		if t&b == 0 {
			t |= b
			n--
		}
	}
	return t
}

func desKSN(g rng, n int) []byte {
	k := rbytes(g, n)
	if g.IntN(4) == 0 {
		for i := 0; i < n-3; i++ {
			k[i] = 0xFF
		}
	} else if g.IntN(6) == 0 {
		clear(k[:1+g.IntN(n)])
	}
	return ref.DESWithCounter(k, ones(g, 21, 10))
}

func desKSNAny(g rng) []byte {
	n := 10
	if g.IntN(3) == 0 {
		n = 3 + g.IntN(8)
	}
	return desKSN(g, n)
}

func aesKSN(g rng) []byte {
	return ref.AESWithCounter(keyID(g), ones(g, 32, 16))
}

// keyID is an AES key identifier, random or with zeros or ones at its ends
func keyID(g rng) []byte {
	id := rbytes(g, 8)
	switch g.IntN(8) {
	case 0:
		clear(id[:1+g.IntN(8)])
	case 1:
		clear(id[g.IntN(8):])
	case 2:
		for i := g.IntN(8); i < 8; i++ {
			id[i] = 0xFF
		}
	}
	return id
}

func aesSize(g rng) int { return []int{16, 24, 32}[g.IntN(3)] }

func digits(g rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.IntN(10))
	}
	switch g.IntN(12) {
	case 0:
		for i := range b {
			b[i] = b[0]
		}
	case 1:
		for i := range b {
			b[i] = "09"[g.IntN(2)]
		}
	case 2: // a number of the code at an end
		if d := strconv.FormatInt(dictInt(g), 10); d[0] != '-' && n > 0 {
			if g.IntN(2) == 0 {
				copy(b, d)
			} else {
				copy(b[max(0, n-len(d)):], d)
			}
		}
	}
	return string(b)
}

func pin(g rng, min, max int) string { return digits(g, min+g.IntN(max-min+1)) }

// length of messages: small ones, block boundaries and a few large ones
func msgLen(g rng) int {
	if g.IntN(16) == 0 {
		if n, ok := dictSize(g, 70000); ok {
			return n
		}
	}
	switch g.IntN(10) {
	case 0:
		return g.IntN(4)
	case 1, 2, 3:
		return g.IntN(40)
	case 4, 5:
		return max(0, 8*g.IntN(40)+g.IntN(3)-1)
	case 6, 7, 8:
		return g.IntN(300)
	}
	return g.IntN(4000)
}

func text(g rng, n int) string {
	b := rbytes(g, n)
	switch g.IntN(4) {
	case 0: // printable
		for i := range b {
			b[i] = 32 + b[i]%95
		}
	case 1: // trailing zeros and repetition
		for i := range b {
			b[i] = b[i] % 3
		}
	case 2:
		for i := range b {
			b[i] = "0123456789D=^"[int(b[i])%13]
		}
	}
	if d := dictString(g); g.IntN(10) == 0 && len(d) <= n { // a string of the code somewhere, or at an end
		copy(b[[]int{0, n - len(d), g.IntN(n - len(d) + 1)}[g.IntN(3)]:], d)
	}
	return string(b)
}

func ivAny(g rng, block int) []byte {
	switch g.IntN(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return rbytes(g, g.IntN(block))
	case 3:
		return rbytes(g, block+1+g.IntN(40))
	case 4:
		return make([]byte, block)
	}
	return rbytes(g, block)
}

var actions = []string{"request", "response", "request", "response", "", "Response", "REQUEST", "reply", "respons", "response "}

func action(g rng) string {
	if g.IntN(12) == 0 {
		return dictString(g)
	}
	return actions[g.IntN(len(actions))]
}

func isResponse(a string) bool { return a == "response" }

func mixCase(g rng, s string) string {
	b := []byte(s)
	for i := range b {
		if g.IntN(2) == 0 {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

func fillFn(g rng) func(string) byte {
	return func(alphabet string) byte { return alphabet[g.IntN(len(alphabet))] }
}

func hx(b []byte) string { return hex.EncodeToString(b) }

// hexCase gives hexadecimal digits in lower, upper or mixed case
func hexCase(g rng, b []byte) string {
	s := hex.EncodeToString(b)
	switch g.IntN(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return mixCase(g, strings.ToUpper(s))
	}
	return s
}

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

func aesType(n int) string { return map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}[n] }

func hmacType(n int) string { return map[int]string{16: "HMAC128", 24: "HMAC192", 32: "HMAC256"}[n] }

// hostile byte strings
func hostileBytes(g rng) []byte {
	switch g.IntN(12) {
	case 10:
		if n, ok := dictSize(g, 20000); ok {
			return rbytes(g, n)
		}
	case 11:
		return []byte(dictString(g))
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return make([]byte, g.IntN(40))
	case 3:
		b := make([]byte, g.IntN(40))
		for i := range b {
			b[i] = 0xFF
		}
		return b
	case 4:
		return rbytes(g, []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33}[g.IntN(21)])
	case 5:
		return rbytes(g, g.IntN(2000))
	}
	return rbytes(g, g.IntN(36))
}

var nastyStrings = []string{"", " ", "\x00", "zz", "0", "g0", "0x12", "１２３４", "ISO-0", "iso-4", "ISO-4", "AES128", "aes128", "HMAC256", "TDES2", "TDES3", "des", "aes", "cmac", "hmac",
	"response", "request", "-1", "12 34", "1234\n", "\xff\xfe", "4012345678909", "%s%n", "null", "../..", "\u202e1234", "999999999999999999999999999999", "A", "ABCDEF", "abcdefabcdef", "12345678901234567890"}

func hostileString(g rng) string {
	switch g.IntN(10) {
	case 8:
		return dictString(g)
	case 9:
		if s := dictString(g); s != "" {
			return nearName(g, []string{s})
		}
	case 0, 1, 2:
		return nastyStrings[g.IntN(len(nastyStrings))]
	case 3:
		return hexCase(g, hostileBytes(g))
	case 4:
		return digits(g, g.IntN(30))
	case 5:
		return string(hostileBytes(g))
	case 6:
		b := make([]byte, g.IntN(24))
		for i := range b {
			b[i] = "0123456789ABCDEFabcdefGg -"[g.IntN(26)]
		}
		return string(b)
	}
	return strings.Repeat(nastyStrings[g.IntN(len(nastyStrings))], 1+g.IntN(50))
}

// knownHeaders are headers with values, some of them plausible
var knownHeaders = [][]string{
	{"Origin", "https://example.org", "http://localhost:3000", "http://example.org", "https:", "https:x", "https:/x", "https://", "http:", "http://", "//", "null", "localhost", "file:///x", "https://[::1", "https://a b", "http://localhost", "://", "*"},
	{"X-Request-Id", "c0ffee", "1"},
	{"Content-Type", "application/json", "text/plain", "application/json; charset=utf-8", "application/json; charset=\"", "multipart/form-data; boundary=x", "application/x-www-form-urlencoded", "/", ";", "application/json;;=", "application/"},
	{"Accept", "application/json", "*/*", "text/html;q=0.5", ";q=", "application/json;q=x,", "text/event-stream", "application/octet-stream", "application/xml", "text/csv", "application/x-ndjson", "application/problem+json", "application/vnd.api+json", "application/cbor", "image/png"},
	{"Accept-Encoding", "gzip", "identity;q=0", "br, gzip;q=1.0", "*;q="},
	{"Accept-Language", "en", "de-DE,de;q=0.9", "-", ";q="},
	{"Content-Encoding", "gzip", "identity", "deflate"},
	{"Authorization", "Bearer abc", "Basic dTpw", "Basic", "Bearer", "Basic !", "Basic dQ==", "Basic dTo=", "Basic OnA=", "Basic Og==", "Basic dTpwOnE=", "basic dTpw", "Digest"},
	{"Cookie", "session=1", "session=", "=", ";", "a=b; c", "a=\"b"},
	{"If-None-Match", "*", "\"x\"", "W/", "\""},
	{"If-Modified-Since", "Mon, 02 Jan 2006 15:04:05 GMT", "yesterday", "0"},
	{"Range", "bytes=0-3", "bytes=-", "bytes=", "bytes=9-1", "0-1"},
	{"Forwarded", "for=10.0.0.1", "for=\"[", "for", ";"},
	{"X-Forwarded-For", "10.0.0.1", "192.0.2.7", "localhost", "10.0.0.1, ", ",", "[::1", ":"},
	{"X-Forwarded-Proto", "https", "http"},
	{"X-Forwarded-Host", "example.org", "example.org:80:80", ":", "[::1"},
	{"Via", "1.1 proxy", "1.1 127.0.0.1:9 (x)", ","},
	{"X-Real-Ip", "10.0.0.1", "::1", "x"},
	{"X-Http-Method-Override", "GET", "DELETE", ""},
	{"X-User-Id", "terminal", ""},
	{"User-Agent", "curl/8", "", "Mozilla/5.0 (", "/"},
	{"Referer", "https://example.org/a", "%zz", "https:", ":"},
	{"Access-Control-Request-Method", "POST", "", "*"},
	{"Access-Control-Request-Headers", "content-type", ",", "x,,y"},
	{"Idempotency-Key", "1", ""},
	{"Timeout", "1s", "-1", "x", "99999999999999999999"},
	{"X-Request-Timeout", "1s", "-1", "x"},
	{"X-Api-Version", "1", "v1", "1.0", ".", "-1"},
	{"Traceparent", "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01", "00", "-", "00-0-0-0"},
	{"X-B3-Traceid", "4bf92f3577b34da6", "x"},
	{"Max-Forwards", "0", "-1", "x"},
	{"X-Callback-Url", "http://127.0.0.1:9/x", "x", ":"},
	{"X-Webhook", "http://127.0.0.1:9/x"},
	{"Link", "<http://127.0.0.1:9/x>; rel=next", "<", "x"},
	{"From", "a@127.0.0.1", "@"},
	{"X-Original-Url", "/machines", "http://127.0.0.1:9/x", ":"},
	{"X-Client-Ip", "192.0.2.7", "x"},
	{"Cf-Connecting-Ip", "192.0.2.7", "x"},
	{"True-Client-Ip", "192.0.2.7", ""},
	{"Prefer", "return=minimal", "respond-async", "handling=strict", "wait=1"},
	{"Content-Md5", "x", ""},
	{"Digest", "sha-256=x", "x", ""},
	{"Content-Language", "en", "-"},
	{"X-Csrf-Token", "x", ""},
	{"Priority", "u=1", "u="},
	{"Te", "trailers"},
	{"Save-Data", "on"},
	{"Dnt", "1"},
	{"Sec-Fetch-Mode", "no-cors", "navigate", "websocket"},
	{"Sec-Fetch-Site", "cross-site", "none"},
	{"Sec-Fetch-Dest", "document", "script", "image"},
	{"Cache-Control", "no-cache", "max-age=0", "only-if-cached", "no-transform"},
	{"Pragma", "no-cache"},
	{"X-Requested-With", "XMLHttpRequest"},
	{"Accept-Charset", "iso-8859-1", "utf-16", "*;q=0"},
	{"Accept-Datetime", "Thu, 31 May 2007 20:35:00 GMT"},
	{"Want-Digest", "sha-256"},
	{"Expect-Ct", "x"},
	{"Early-Data", "1"},
	{"Upgrade-Insecure-Requests", "1"},
	{"Access-Control-Request-Private-Network", "true"},
	{"X-Pretty", "1", "true"},
	{"X-Debug", "1", "true"},
}

// mediaType is a media type with parameters, character sets most of all
func mediaType(g rng) string {
	t := pickS(g, []string{"application/json", "application/json", "application/json", "text/plain", "text/json", "application/x-www-form-urlencoded", "application/octet-stream", "application/xml", "*/*"})
	for n := 1 + g.IntN(2); n > 0; n-- {
		name := pickS(g, []string{"charset", "charset", "charset", "Charset", "CHARSET", "encoding", "version", "profile", "boundary", "q", "indent", "compression", "format"})
		v := pickS(g, []string{"utf-8", "iso-8859-1", "ISO-8859-1", "latin1", "us-ascii", "utf-16", "utf-16le", "utf-16be", "utf-32", "utf-7", "windows-1252", "cp1252", "iso-8859-15", "cp037", "ebcdic", "ibm1047", "gbk", "shift_jis", "koi8-r", "hex", "base64", "binary", "1", "0.5", "pretty", "x"})
		if g.IntN(4) == 0 {
			v = `"` + v + `"`
		}
		t += pickS(g, []string{"; ", ";", " ; "}) + name + "=" + v
	}
	return t
}

// hostileHeader is a header with a plausible, nearly plausible or arbitrary value
func hostileHeader(g rng) (name, value string) {
	defer func() {
		if strings.EqualFold(name, "te") { // HTTP/2 knows no other
			value = "trailers"
		}
	}()
	known := knownHeaders
	if g.IntN(8) == 0 {
		if name, value = dictPair(g); name != "" && !strings.ContainsAny(name, "_.") {
			return name, value
		}
	}
	e := known[g.IntN(len(known))]
	if g.IntN(3) == 0 {
		e = known[0]
	}
	name, value = e[0], e[1+g.IntN(len(e)-1)]
	if g.IntN(12) == 0 {
		return pickS(g, []string{"Content-Type", "Content-Type", "Content-Type", "Accept", "Accept-Charset"}), mediaType(g)
	}
	switch g.IntN(8) {
	case 0:
		value = hostileString(g)
	case 1, 2:
		value = nearName(g, []string{value + " "})
	case 3:
		value = dictString(g)
	case 4:
		value = value[:g.IntN(len(value)+1)]
	}
	if g.IntN(16) == 0 {
		n := strings.Map(func(c rune) rune {
			if c < 128 && (c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-') {
				return c
			}
			return -1
		}, dictString(g))
		if n != "" {
			name = n
		}
	}
	return name, value
}

// hostileQuery is the query of a URL, often none
func hostileQuery(g rng) string {
	if g.IntN(2) == 0 {
		return ""
	}
	q := []string{}
	for n := 1 + g.IntN(3); n > 0; n-- {
		name := pickS(g, []string{"callback", "jsonp", "pretty", "indent", "format", "fields", "verbose", "debug", "trace", "limit", "offset", "page", "sort", "filter", "envelope", "_method", "lang", "v", "api_key", "token", "alt", "embed", "download", "raw", "ik", "pin", "_"})
		value := pickS(g, []string{"", "1", "0", "-1", "true", "x", "json", "xml", "csv", "asc", "IK", "ik", "all", "2", "%22", "%0A", "a%26b"})
		if g.IntN(3) == 0 {
			if a, b := dictPair(g); a != "" {
				name, value = a, b
			}
		} else if g.IntN(4) == 0 {
			value = dictString(g)
		} else if g.IntN(6) == 0 {
			name = dictString(g)
		}
		q = append(q, url.QueryEscape(name)+"="+url.QueryEscape(value))
	}
	return "?" + strings.Join(q, "&")
}
