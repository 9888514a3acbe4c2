package harness

import (
	"encoding/json"
	"math/big"
	"testing"
)

type eCase struct {
	Q struct {
		Op string  `json:"op"`
		A  big.Int `json:"a"`
		B  big.Int `json:"b"`
		C  big.Int `json:"c"`
		S  big.Int `json:"s"`
		T  big.Int `json:"t"`
	} `json:"q"`
	Ok bool    `json:"ok"`
	R  big.Int `json:"r"`
}

func eBytes(n *big.Int) (b [32]byte) {
	be := n.Bytes()
	for i := range be {
		b[len(be)-1-i] = be[i]
	}
	return
}

func eInt(b [32]byte) *big.Int {
	var be [32]byte
	for i := range b {
		be[31-i] = b[i]
	}
	return new(big.Int).SetBytes(be[:])
}

// ePoint must be able to decode: the specification only asks about points here.
func ePoint(n *big.Int) *ExtendedGroupElement {
	b := eBytes(n)
	p, err := GeFromBytes(&b)
	if err != nil {
		panic("a point of the curve is refused")
	}
	return p
}

func eCompleted(c *CompletedGroupElement) *big.Int {
	var e ExtendedGroupElement
	var p ProjectiveGroupElement
	c.ToExtended(&e)
	c.ToProjective(&p)
	a, b := e.ToBytes(), p.ToBytes()
	if a != b {
		panic("extended and projective coordinates differ")
	}
	// the fourth coordinate shows only in the next addition
	var o ExtendedGroupElement
	o.Zero()
	var q CachedGroupElement
	var r CompletedGroupElement
	e.ToCached(&q)
	GeAdd(&r, &o, &q)
	r.ToProjective(&p)
	if p.ToBytes() != a {
		panic("adding the identity changes the point")
	}
	return eInt(a)
}

func TestVerifPoints(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	n := 0
	vCases(t, func(line []byte) {
		var c eCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		raw := json.RawMessage(append([]byte{}, line...))
		rep.eval(string(line))
		rep.trace()
		n++
		if n%401 == 1 {
			rep.sample(raw)
		}
		q := &c.Q
		got, ok := new(big.Int), true
		a, b, s, u := eBytes(&q.A), eBytes(&q.B), eBytes(&q.S), eBytes(&q.T)
		k := eBytes(&q.C)
		p := vTry(func() {
			switch q.Op {
			case "dec":
				pt, err := GeFromBytes(&a)
				ok = err == nil
				var e ExtendedGroupElement
				if e.FromBytes(&a) != ok {
					panic("two ways to decode disagree")
				}
				if ok {
					got = eInt(pt.ToBytes())
				}
			case "add", "sub":
				var cc CachedGroupElement
				var r CompletedGroupElement
				ePoint(&q.B).ToCached(&cc)
				if q.Op == "add" {
					GeAdd(&r, ePoint(&q.A), &cc)
				} else {
					GeSub(&r, ePoint(&q.A), &cc)
				}
				got = eCompleted(&r)
			case "dbl":
				var r, r2 CompletedGroupElement
				var pp ProjectiveGroupElement
				x := ePoint(&q.A)
				x.Double(&r)
				x.ToProjective(&pp)
				pp.Double(&r2)
				got = eCompleted(&r)
				if got.Cmp(eCompleted(&r2)) != 0 {
					panic("doubling depends on the coordinates")
				}
			case "mul8":
				var r CompletedGroupElement
				var pp ProjectiveGroupElement
				ePoint(&q.A).ToProjective(&pp)
				GeMul8(&r, &pp)
				got = eCompleted(&r)
			case "base":
				var r ExtendedGroupElement
				GeScalarMultBase(&r, &s)
				got = eInt(r.ToBytes())
			case "mul":
				r := GeScalarMult(&s, ePoint(&q.A))
				got = eInt(r.ToBytes())
			case "two":
				var r ProjectiveGroupElement
				GeDoubleScalarMultBaseVartime(&r, &s, ePoint(&q.A), &u)
				got = eInt(r.ToBytes())
			case "pre":
				var r ProjectiveGroupElement
				GeDoubleScalarMultPrecompVartime(&r, &s, ePoint(&q.A), &u, GeDSMPreComp(ePoint(&q.B)))
				got = eInt(r.ToBytes())
			case "sub8":
				ok = GeCheckSubGroupPreCompVartime(GeDSMPreComp(ePoint(&q.A))) == 0
			case "hash", "hash8":
				var pp ProjectiveGroupElement
				if err := pp.FromBytes(&a); err != nil {
					ok = false
					return
				}
				got = eInt(pp.ToBytes())
				if q.Op == "hash8" {
					var r CompletedGroupElement
					GeMul8(&r, &pp)
					got = eCompleted(&r)
				}
			case "reduce":
				var w [64]byte
				copy(w[:32], a[:])
				copy(w[32:], b[:])
				got = eInt(ScReduce(w))
			case "reduce32":
				got = eInt(ScReduce32(a))
			case "check":
				ok = ScCheck(a)
				if ScMinimal(&a) != ok {
					panic("ScCheck and ScMinimal disagree")
				}
			case "nonzero":
				ok = ScIsNonZero(a)
			case "scadd":
				got = eInt(ScAdd(&a, &b))
			case "scsub":
				got = eInt(ScSub(a, b))
			case "muladd":
				var r [32]byte
				ScMulAdd(&r, &a, &b, &k)
				got = eInt(r)
			case "mulsub":
				got = eInt(ScMulSub(a, b, k))
			default:
				rep.fail("operation %q", q.Op)
			}
		})
		if p != "" {
			rep.violation("panic:"+q.Op, raw, "%s panics: %s", q.Op, p)
		} else if ok != c.Ok {
			rep.violation("verdict:"+q.Op, raw, "%s says %v, expected %v", q.Op, ok, c.Ok)
		} else if got.Cmp(&c.R) != 0 {
			rep.violation(q.Op, raw, "%s gives %s, expected %s", q.Op, got, &c.R)
		}
	})
}
