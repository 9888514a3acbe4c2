package harness

import (
	"bytes"
	lebin "encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"
)

// kvT is a type of the specification.
type kvT struct {
	K   string `json:"k"`
	Tag byte   `json:"tag"`
	W   int    `json:"w"`
	El  int    `json:"el"`
	N   int    `json:"n"`
	Of  *kvT   `json:"of"`
	F   []kvF  `json:"f"`
}

type kvF struct {
	N   kvBytes `json:"n"`
	T   kvT     `json:"t"`
	Opt bool    `json:"opt"`
}

type kvBytes []byte

func (b *kvBytes) UnmarshalJSON(d []byte) error {
	var x []int
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*b = make([]byte, len(x))
	for i, v := range x {
		(*b)[i] = byte(v)
	}
	return nil
}

var kvPrims = map[byte]reflect.Type{
	1: reflect.TypeOf(int64(0)), 2: reflect.TypeOf(int32(0)), 3: reflect.TypeOf(int16(0)), 4: reflect.TypeOf(int8(0)),
	5: reflect.TypeOf(uint64(0)), 6: reflect.TypeOf(uint32(0)), 7: reflect.TypeOf(uint16(0)), 8: reflect.TypeOf(uint8(0)),
	9: reflect.TypeOf(float64(0)), 11: reflect.TypeOf(false),
}

type kvPair struct {
	A uint32
	B uint64
}

var kvBlobs = map[int]reflect.Type{1: reflect.TypeOf([]byte{}), 2: reflect.TypeOf([]uint16{}), 4: reflect.TypeOf([]uint32{}),
	8: reflect.TypeOf([]int64{}), 12: reflect.TypeOf([]kvPair{}), 32: reflect.TypeOf([][32]byte{})}

// kvType builds the Go type of a type of the specification.
func kvType(t *kvT) reflect.Type {
	switch t.K {
	case "prim":
		return kvPrims[t.Tag]
	case "str":
		return reflect.TypeOf("")
	case "blob":
		return kvBlobs[t.El]
	case "fix":
		return reflect.ArrayOf(t.N, reflect.TypeOf(byte(0)))
	case "arr":
		return reflect.SliceOf(kvType(t.Of))
	case "obj":
		fs := []reflect.StructField{}
		for i := range t.F {
			f := &t.F[i]
			tag := string(f.N)
			if f.T.K == "arr" {
				tag += ",array"
			}
			if f.Opt {
				tag += ",omitempty"
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: kvType(&f.T), Tag: reflect.StructTag(fmt.Sprintf("binary:%q", tag))})
		}
		return reflect.StructOf(fs)
	}
	panic("unknown type " + t.K)
}

func kvField(v reflect.Value, t *kvT, i int, names map[string]string) reflect.Value {
	if names == nil {
		return v.Field(i)
	}
	for _, n := range strings.Split(names[string(t.F[i].N)], "|") {
		if f := v.FieldByName(n); f.IsValid() {
			return f
		}
	}
	panic(fmt.Sprintf("no field %s in %s", t.F[i].N, v.Type()))
}

// kvSet stores a value of the specification in a Go value.
func kvSet(v reflect.Value, t *kvT, val json.RawMessage, names map[string]string) {
	var b kvBytes
	switch t.K {
	case "prim", "str", "blob", "fix":
		if err := json.Unmarshal(val, &b); err != nil {
			panic(err)
		}
	}
	switch t.K {
	case "prim", "fix":
		if err := lebin.Read(bytes.NewReader(b), lebin.LittleEndian, v.Addr().Interface()); err != nil {
			panic(err)
		}
	case "str":
		v.SetString(string(b))
	case "blob":
		if len(b) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), len(b)/t.El, len(b)/t.El)
		if err := lebin.Read(bytes.NewReader(b), lebin.LittleEndian, s.Interface()); err != nil {
			panic(err)
		}
		v.Set(s)
	case "arr":
		var xs []json.RawMessage
		if err := json.Unmarshal(val, &xs); err != nil {
			panic(err)
		}
		if len(xs) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), len(xs), len(xs))
		for i := range xs {
			kvSet(s.Index(i), t.Of, xs[i], names)
		}
		v.Set(s)
	case "obj":
		var xs []json.RawMessage
		if err := json.Unmarshal(val, &xs); err != nil {
			panic(err)
		}
		for i := range t.F {
			kvSet(kvField(v, t, i, names), &t.F[i].T, xs[i], names)
		}
	}
}

// kvEqual tells whether two Go values are equal: floats by their bits, and
// nil and empty sequences alike.
func kvEqual(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !kvEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !kvEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	}
	return a.Interface() == b.Interface()
}

type kvCase struct {
	M   string          `json:"m"`
	T   kvT             `json:"t"`
	Val json.RawMessage `json:"val"`
	B   kvBytes         `json:"b"`
	Es  []struct {
		E struct {
			At  int     `json:"at"`
			Del int     `json:"del"`
			Ins kvBytes `json:"ins"`
		} `json:"e"`
		D struct {
			V   string          `json:"v"`
			Val json.RawMessage `json:"val"`
		} `json:"d"`
	} `json:"es"`
}

// kvRun replays the cases.
func kvRun(t *testing.T, marshal func(interface{}) ([]byte, error), unmarshal func([]byte, interface{}) error,
	typ func(c *kvCase) (reflect.Type, map[string]string)) {
	rep := vNewRep()
	defer rep.save(t)
	var p struct {
		What string `json:"what"`
	}
	vParams(&p)
	rnd := vRand()
	vCases(t, func(line []byte) {
		var c kvCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		if len(line) < 100000 {
			vCur(json.RawMessage(line))
		}
		rt, names := typ(&c)
		want := reflect.New(rt)
		kvSet(want.Elem(), &c.T, c.Val, names)
		rep.trace()
		info := func(b []byte) interface{} {
			if len(b) > 2000 {
				b = b[:2000]
			}
			return map[string]interface{}{"type": rt.String(), "bytes": vHex(b)}
		}
		// decode gives the value read, or nil when it was refused
		decode := func(b []byte) (res *reflect.Value, stop bool) {
			got := reflect.New(rt)
			var err error
			var panicked string
			var m0, m1 runtime.MemStats
			in := append([]byte(nil), b...)
			runtime.ReadMemStats(&m0)
			if !vWithin(20*time.Second, func() { panicked = vTry(func() { err = unmarshal(in, got.Interface()) }) }) {
				rep.violation("hang", info(b), "decoding does not end")
				rep.save(t)
				os.Exit(0) // what does not end cannot be stopped otherwise
			}
			runtime.ReadMemStats(&m1)
			if panicked != "" {
				rep.violation("panic", info(b), "decoding panics: %s", panicked)
				return nil, true
			}
			if d := m1.TotalAlloc - m0.TotalAlloc; d > uint64(400000+600*len(b)) {
				rep.violation("memory", info(b), "decoding %d bytes allocates %d bytes", len(b), d)
			}
			if !bytes.Equal(in, b) {
				rep.violation("modified", info(b), "decoding changes the payload")
			}
			if err != nil {
				return nil, false
			}
			e := got.Elem()
			return &e, false
		}
		if p.What == "roundtrip" {
			var enc []byte
			var err error
			if s := vTry(func() { enc, err = marshal(want.Elem().Interface()) }); s != "" || err != nil {
				rep.violation("encode", info(c.B), "%s cannot be encoded: %v %s", rt, err, s)
				return
			}
			rep.eval("enc:" + vHex(c.B))
			if !bytes.Equal(enc, c.B) {
				rep.violation("bytes", map[string]interface{}{"want": info(c.B), "got": info(enc)}, "%s is encoded differently", rt)
			}
			got, stop := decode(c.B)
			if stop {
				return
			}
			if got == nil || !kvEqual(*got, want.Elem()) {
				rep.violation("value", info(c.B), "%s is not read back as it was written (refused: %v)", rt, got == nil)
			}
		}
		for _, e := range c.Es {
			if (e.D.V == "accepted") != (p.What == "roundtrip") {
				continue
			}
			b := append([]byte(nil), c.B[:e.E.At-1]...)
			b = append(b, e.E.Ins...)
			b = append(b, c.B[e.E.At-1+e.E.Del:]...)
			got, stop := decode(b)
			if stop {
				return
			}
			rep.eval(vHex(b))
			switch e.D.V {
			case "refused":
				if got != nil {
					rep.violation("accepted", info(b), "%s: malformed payload is accepted (edit at %d)", rt, e.E.At)
				}
			case "accepted":
				w := reflect.New(rt)
				kvSet(w.Elem(), &c.T, e.D.Val, names)
				if got == nil || !kvEqual(*got, w.Elem()) {
					rep.violation("reading", info(b), "%s: valid payload is not read as its value (refused: %v, edit at %d)", rt, got == nil, e.E.At)
				}
			}
		}
		// payloads nobody decided: they must only be survived
		if p.What != "roundtrip" && len(c.B) < 1000 {
			for k := 0; k < 60; k++ {
				b := append([]byte(nil), c.B...)
				for j := 1 + rnd.Intn(4); j > 0 && len(b) > 9; j-- {
					q := 9 + rnd.Intn(len(b)-9)
					switch rnd.Intn(4) {
					case 0:
						b[q] = byte(rnd.Intn(256))
					case 1:
						b = append(b[:q], b[q+1:]...)
					case 2:
						b = append(b[:q], append([]byte{byte(rnd.Intn(256))}, b[q:]...)...)
					case 3:
						z := q + rnd.Intn(len(b)-q)
						b = append(b[:q], append(append([]byte(nil), b[q:z]...), b[q:]...)...)
					}
				}
				if _, stop := decode(b); stop {
					return
				}
				rep.eval(vHex(b))
			}
		}
		rep.sample(info(c.B))
	})
}
