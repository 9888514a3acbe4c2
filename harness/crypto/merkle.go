package crypto

import (
	"encoding/json"
	"fmt"
	"testing"
)

// mEval evaluates a term of Merkle.tla.
func mEval(s string, leaf func(string) Hash) Hash {
	i := 0
	var rec func() Hash
	rec = func() Hash {
		if s[i] == '(' {
			i++
			l := rec()
			i++
			r := rec()
			i++
			var h Hash
			copy(h[:], Keccak(append(append([]byte{}, l[:]...), r[:]...)))
			return h
		}
		j := i
		for i < len(s) && s[i] != ',' && s[i] != ')' {
			i++
		}
		return leaf(s[j:i])
	}
	return rec()
}

func TestVerifMerkle(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	vCases(t, func(line []byte) {
		var c struct {
			N int
			E struct {
				K    string
				I, J int
			}
			R string
			B bool
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		rep.trace()
		salt := rnd.Int63()
		leaf := func(s string) (h Hash) {
			if s == "zero" {
				return
			}
			copy(h[:], Keccak([]byte(fmt.Sprint(s, salt))))
			return
		}
		// the list sits inside a larger array
		back := make(HashList, c.N+5)
		for i := range back {
			back[i] = leaf(fmt.Sprint("l", i))
		}
		hl := back[1 : c.N+1]
		want := mEval(c.R, leaf)
		if c.B {
			for i := range hl {
				if c.E.K == "zero" && c.E.I <= i+1 && i+1 <= c.E.J {
					hl[i] = Hash{}
				}
				if c.E.K == "leaf" && c.E.I == i+1 {
					hl[i] = leaf("l0")
				}
			}
			keep := append(HashList{}, back...)
			for k := 0; k < 2; k++ {
				var got Hash
				if e := vTry(func() { got = hl.TreeHashFromBranch(leaf("l0")) }); e != "" || got != want {
					rep.violation("branch", c, "a leaf is not folded with a branch of %d into the root %s", c.N, e)
				}
				rep.eval(vHex(got[:]))
			}
			for i := range back {
				if back[i] != keep[i] {
					rep.violation("altered", c, "folding a branch of %d alters it", c.N)
				}
			}
			return
		}
		base := hl.MerkleRootHash()
		switch c.E.K {
		case "append":
			hl = append(append(HashList{}, hl...), leaf("new"))
		case "change":
			hl[c.E.I-1] = leaf("new")
		case "zero":
			for i := c.E.I - 1; i < c.E.J; i++ {
				hl[i] = Hash{}
			}
		case "copy":
			hl[c.E.I-1] = hl[c.E.J-1]
		case "swap":
			hl[c.E.I-1], hl[c.E.J-1] = hl[c.E.J-1], hl[c.E.I-1]
		case "drop":
			hl = append(append(HashList{}, hl[:c.E.I-1]...), hl[c.E.I:]...)
		case "double":
			hl = append(append(HashList{}, hl[:c.E.I]...), hl[c.E.I-1:]...)
		}
		keep, keepBack := append(HashList{}, hl...), append(HashList{}, back...)
		var first *Hash
		for k := 0; k < 2; k++ {
			var got *Hash
			if e := vTry(func() { got = hl.MerkleRootHash() }); e != "" || got == nil || *got != want {
				rep.violation("root", c, "the root of %d hashes (%s) is wrong %s", len(hl), c.E.K, e)
				return
			}
			rep.eval(vHex(got[:]))
			if k == 0 {
				first = got
			}
		}
		for i := range hl {
			if hl[i] != keep[i] {
				rep.violation("altered", c, "computing the root of %d hashes alters hash %d", len(hl), i)
			}
		}
		for i := range back {
			if back[i] != keepBack[i] {
				rep.violation("altered", c, "computing the root of %d hashes alters what is next to them", len(hl))
			}
		}
		// nor does the result change with the list
		hl[0][0] ^= 1
		if *first != want {
			rep.violation("aliased", c, "the root of %d hashes changes with them afterwards", len(hl))
		}
		if base == nil || (*base == want) != (c.E.K == "none") {
			rep.violation("commit", c, "the root of %d hashes does not show the change %v", c.N, c.E)
		}
		rep.sample(map[string]interface{}{"n": c.N, "edit": c.E, "root": vHex(want[:])})
	})
}
