package harness

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"
)

type aCase struct {
	Q struct {
		Op string    `json:"op"`
		A  big.Int   `json:"a"`
		B  big.Int   `json:"b"`
		C  big.Int   `json:"c"`
		L  []big.Int `json:"l"`
	} `json:"q"`
	R struct {
		X  big.Int   `json:"x"`
		Y  big.Int   `json:"y"`
		L  []big.Int `json:"l"`
		Ok bool      `json:"ok"`
	} `json:"r"`
}

func aWords(l []big.Int) []uint64 {
	r := []uint64{}
	for i := range l {
		r = append(r, l[i].Uint64())
	}
	return r
}

func aIndexes(l []big.Int) []uint32 {
	r := []uint32{}
	for i := range l {
		r = append(r, uint32(l[i].Uint64()))
	}
	return r
}

func TestVerifArith(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	n := 0
	vCases(t, func(line []byte) {
		var c aCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		rep.trace()
		n++
		if n%2001 == 1 {
			rep.sample(json.RawMessage(append([]byte{}, line...)))
		}
		q, want := c.Q, ""
		got := ""
		one := func(x *big.Int) string { return x.String() }
		p := vTry(func() {
			switch q.Op {
			case "mul":
				lo, hi := Mul128(q.A.Uint64(), q.B.Uint64())
				got, want = fmt.Sprint(lo, hi), one(&c.R.X)+" "+one(&c.R.Y)
			case "div":
				lo, hi := Div128p32(q.A.Uint64(), q.B.Uint64(), uint32(q.C.Uint64()))
				got, want = fmt.Sprint(lo, hi), one(&c.R.X)+" "+one(&c.R.Y)
			case "median":
				got, want = fmt.Sprint(MedianSlice(aWords(q.L))), one(&c.R.X)
			case "clamp":
				got, want = fmt.Sprint(ClampInt64(q.A.Int64(), q.B.Int64(), q.C.Int64())), one(&c.R.X)
			case "min":
				got, want = fmt.Sprint(MinInt64(q.A.Int64(), q.B.Int64())), one(&c.R.X)
			case "max":
				got, want = fmt.Sprint(MaxInt64(q.A.Int64(), q.B.Int64())), one(&c.R.X)
			case "minu":
				got, want = fmt.Sprint(MinUint64(q.A.Uint64(), q.B.Uint64())), one(&c.R.X)
			case "maxu":
				got, want = fmt.Sprint(MaxUint64(q.A.Uint64(), q.B.Uint64())), one(&c.R.X)
			case "unique":
				l := aIndexes(q.L)
				got, want = fmt.Sprint(SliceIsUniqueUint32(&l), l), fmt.Sprint(c.R.Ok, aIndexes(q.L))
			case "sorted":
				l := aIndexes(q.L)
				got, want = fmt.Sprint(SliceIsSortedUint32(&l), l), fmt.Sprint(c.R.Ok, aIndexes(q.L))
			case "reverse":
				got, want = fmt.Sprint(SliceReverse(aWords(q.L))), fmt.Sprint(aWords(c.R.L))
			default:
				rep.fail("operation %q", q.Op)
			}
		})
		if p != "" {
			rep.violation("panic:"+q.Op, json.RawMessage(append([]byte{}, line...)), "%s panics: %s", q.Op, p)
		} else if got != want {
			rep.violation(q.Op, json.RawMessage(append([]byte{}, line...)), "%s gives %s, expected %s", q.Op, got, want)
		}
	})
}
