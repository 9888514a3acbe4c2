package harness

import (
	"encoding/json"
	"math/rand"
	"sync"
	"testing"
)

// pureOp is a function of the code: it makes its own arguments, with the help of what was prepared for all, calls the
// code and tells everything the call has returned, or changed.
type pureOp struct {
	name string
	f    func(arg int) string
}

type pureCase struct {
	Calls [][2]int `json:"calls"` // the function and the argument, from 1
}

// pureRun makes the calls of each case at the same moment and compares them with the same calls made alone.
func pureRun(t *testing.T, ops []pureOp, args int) {
	rep := vNewRep()
	defer rep.save(t)
	var prm struct {
		Ops    int `json:"ops"`
		Copies int `json:"copies"`
		Rounds int `json:"rounds"`
	}
	vParams(&prm)
	if prm.Ops != len(ops) {
		rep.fail("the harness has %d functions, the specification %d", len(ops), prm.Ops)
		return
	}
	alone := map[[2]int]string{}
	for i, op := range ops {
		for a := 1; a <= args; a++ {
			c := [2]int{i + 1, a}
			vCur(map[string]interface{}{"alone": op.name, "arg": a})
			alone[c] = op.f(a)
			if again := op.f(a); again != alone[c] {
				rep.violation("alone", op.name, "%s (argument %d) gives %s, and then %s", op.name, a, pureCut(alone[c]), pureCut(again))
				return
			}
		}
	}
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c pureCase
		if err := json.Unmarshal(line, &c); err != nil {
			rep.fail("%s: %s", err, line)
			return
		}
		vCur(c)
		rep.trace()
		names := []string{}
		for _, x := range c.Calls {
			names = append(names, ops[x[0]-1].name)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < prm.Copies; k++ {
			for _, x := range c.Calls {
				wg.Add(1)
				go func(x [2]int) {
					defer wg.Done()
					<-start
					for i := 0; i < prm.Rounds; i++ {
						got := ""
						if p := vTry(func() { got = ops[x[0]-1].f(x[1]) }); p != "" {
							got = "panic: " + p
						}
						if got != alone[x] {
							rep.violation("shared", map[string]interface{}{"calls": names, "args": c.Calls}, "%s (argument %d) gives %s alone and %s while %v are called", ops[x[0]-1].name, x[1], pureCut(alone[x]), pureCut(got), names)
							return
						}
					}
				}(x)
			}
		}
		close(start)
		wg.Wait()
		rep.eval(string(line))
		if rand.Intn(200) == 0 {
			rep.sample(map[string]interface{}{"calls": names, "args": c.Calls})
		}
	})
}

func pureCut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
