package harness

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"
)

// vRep collects what a harness run covered and every mismatch it found.
type vRep struct {
	mu         sync.Mutex
	Evaluated  int                    `json:"evaluated"`
	Distinct   int                    `json:"distinct"`
	Traces     int                    `json:"traces"`
	Samples    []interface{}          `json:"samples"`
	Violations []vViolation           `json:"violations"`
	Extra      map[string]interface{} `json:"extra"`
	Error      string                 `json:"error,omitempty"`
	seen       map[string]bool
}

type vViolation struct {
	Key  string      `json:"key"`
	What string      `json:"what"`
	Case interface{} `json:"case"`
}

func vNewRep() *vRep {
	return &vRep{Extra: map[string]interface{}{}, seen: map[string]bool{}}
}

// eval counts one evaluation; key tells distinct cases apart.
func (r *vRep) eval(key string) {
	r.mu.Lock()
	r.Evaluated++
	if !r.seen[key] {
		r.seen[key] = true
		r.Distinct++
	}
	r.mu.Unlock()
}

func (r *vRep) trace() {
	r.mu.Lock()
	r.Traces++
	r.mu.Unlock()
}

func (r *vRep) count(key string, n int) {
	r.mu.Lock()
	v, _ := r.Extra[key].(int)
	r.Extra[key] = v + n
	r.mu.Unlock()
}

func (r *vRep) sample(s interface{}) {
	r.mu.Lock()
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

func (r *vRep) violation(key string, cas interface{}, format string, args ...interface{}) {
	r.mu.Lock()
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, vViolation{key, fmt.Sprintf(format, args...), cas})
	}
	r.mu.Unlock()
}

func (r *vRep) full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations) >= 20
}

func (r *vRep) fail(format string, args ...interface{}) {
	r.mu.Lock()
	if r.Error == "" {
		r.Error = fmt.Sprintf(format, args...)
	}
	r.mu.Unlock()
}

func (r *vRep) save(t *testing.T) {
	r.mu.Lock()
	defer r.mu.Unlock()
	b, err := json.Marshal(r)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("VERIF_OUT"), b, 0644); err != nil {
		t.Fatal(err)
	}
}

// vCases calls f with every line of the input.
func vCases(t *testing.T, f func(line []byte)) {
	fh, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Skip("not run by the checks")
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		line := append([]byte(nil), sc.Bytes()...)
		end := vWatch(line)
		f(line)
		end()
	}
	if err := sc.Err(); err != nil {
		t.Fatal(err)
	}
}

// vWatch ends the process, with all stacks, if a case takes far too long.
func vWatch(line []byte) (end func()) {
	limit, _ := strconv.Atoi(os.Getenv("VERIF_HANG"))
	if limit <= 0 {
		return func() {}
	}
	t := time.AfterFunc(time.Duration(limit)*time.Second, func() {
		_ = os.WriteFile(os.Getenv("VERIF_CUR"), line, 0644)
		b := make([]byte, 1<<22)
		b = b[:runtime.Stack(b, true)]
		fmt.Printf("\nVERIF-HANG: a case takes more than %d s\n\n%s\n", limit, b)
		os.Exit(3)
	})
	return func() { t.Stop() }
}

func vCur(v interface{}) {
	b, _ := json.Marshal(v)
	_ = os.WriteFile(os.Getenv("VERIF_CUR"), b, 0644)
}

func vParams(v interface{}) {
	_ = json.Unmarshal([]byte(os.Getenv("VERIF_PARAMS")), v)
}

// vReadParamsFile returns large parameters, passed as a file.
func vReadParamsFile() []byte {
	b, err := os.ReadFile(os.Getenv("VERIF_PARAMS_FILE"))
	if err != nil {
		return []byte("{}")
	}
	return b
}

func vSeed() int64 {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return seed
}

func vRand() *rand.Rand {
	seed := vSeed()
	shard, _ := strconv.ParseInt(os.Getenv("VERIF_SHARD"), 10, 64)
	return rand.New(rand.NewSource(seed*1000003 + shard))
}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vFixture(parts ...string) []byte {
	b, err := os.ReadFile(filepath.Join(append([]string{os.Getenv("VERIF_FIXTURES")}, parts...)...))
	if err != nil {
		panic(err)
	}
	return b
}

func vHex(b []byte) string { return hex.EncodeToString(b) }

func vUnhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// vTry runs f and turns a panic into a string.
func vTry(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}
