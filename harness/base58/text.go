package base58

import (
	"bytes"
	"encoding/json"
	"testing"
)

var vChars = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz" + "0OIl +\x00\x80\xff\xc3-_")

func TestVerifBase58(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	vCases(t, func(line []byte) {
		var c struct {
			T     []int  `json:"t"`
			Bytes []int  `json:"bytes"`
			V     string `json:"v"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		text, want := make([]byte, len(c.T)), make([]byte, len(c.Bytes))
		for i, d := range c.T {
			if d >= len(vChars) {
				d = len(vChars) - 1
			}
			text[i] = vChars[d]
		}
		for i, b := range c.Bytes {
			want[i] = byte(b)
		}
		s := string(text)
		rep.trace()
		rep.eval(s)
		var got []byte
		var err error
		if p := vTry(func() { got, err = Decode(s) }); p != "" {
			rep.violation("panic", s, "decoding %q panics: %s", s, p)
			return
		}
		if c.V == "refused" {
			if err == nil {
				rep.violation("accepted", s, "%q is no encoding, but is decoded to %x", s, got)
			}
			return
		}
		if err != nil || !bytes.Equal(got, want) {
			rep.violation("decode", s, "%q is decoded to %x (%v), not to %x", s, got, err, want)
		}
		var enc string
		in := append([]byte(nil), want...)
		if p := vTry(func() { enc = Encode(in) }); p != "" || enc != s || !bytes.Equal(in, want) {
			rep.violation("encode", s, "%x is encoded to %q, not to %q %s", want, enc, s, p)
		}
		rep.sample(map[string]interface{}{"text": s, "bytes": vHex(want)})
	})
}
