package cryptonote

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"os"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
)

type wBytes []byte

func (b *wBytes) UnmarshalJSON(d []byte) error {
	var x []int
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*b = make([]byte, len(x))
	for i, v := range x {
		(*b)[i] = byte(v)
	}
	return nil
}

// wNum is a number of the specification: its base 128 digits.
type wNum uint64

func (n *wNum) UnmarshalJSON(d []byte) error {
	var x []uint64
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*n = 0
	for i, v := range x {
		*n |= wNum(v << (7 * uint(i)))
	}
	return nil
}

type wTx struct {
	Ver, Unlock wNum
	Ins         []struct {
		K    string
		Idx  wNum
		Amt  wNum
		Offs []wNum
		Ki   wBytes
	}
	Outs []struct {
		Amt wNum
		Key wBytes
	}
	Extra wBytes
	Sigs  [][]wBytes
}

type wParent struct {
	Major, Minor, Ts, Cnt wNum
	Prev, Nonce           wBytes
	Branch, Chain         []wBytes
	Tx                    json.RawMessage
}

type wBlock struct {
	Major, Minor, Ts wNum
	Prev, Nonce, Sig wBytes
	Parent           wParent
	Tx               wTx
	Hashes           []wBytes
}

type wField struct {
	K string
	B wBytes
}

func w32(b []byte) (r [32]byte) {
	copy(r[:], b)
	return
}

func (w *wTx) prefix() TransactionPrefix {
	t := TransactionPrefix{Version: byte(w.Ver), UnlockHeight: uint64(w.Unlock), Extra: append([]byte{}, w.Extra...)}
	for _, i := range w.Ins {
		if i.K == "coin" {
			t.Inputs = append(t.Inputs, InputCoinbase{uint32(i.Idx)})
			continue
		}
		in := InputKey{Amount: uint64(i.Amt), KeyImage: w32(i.Ki)}
		for _, o := range i.Offs {
			in.OutputIndexes = append(in.OutputIndexes, uint32(o))
		}
		t.Inputs = append(t.Inputs, in)
	}
	for _, o := range w.Outs {
		t.Outputs = append(t.Outputs, TransactionOutput{Amount: uint64(o.Amt), Target: OutputKey{w32(o.Key)}})
	}
	return t
}

func (w *wTx) build() Transaction {
	t := Transaction{TransactionPrefix: w.prefix()}
	for _, in := range w.Sigs {
		sigs := []crypto.Signature{}
		for _, b := range in {
			var s crypto.Signature
			if err := s.Deserialize(bytes.NewReader(b)); err != nil {
				panic(err)
			}
			sigs = append(sigs, s)
		}
		t.TransactionSignatures = append(t.TransactionSignatures, sigs)
	}
	return t
}

func (w *wBlock) build() *Block {
	b := &Block{BaseTransaction: w.Tx.build()}
	b.MajorVersion, b.MinorVersion, b.Timestamp = byte(w.Major), byte(w.Minor), uint64(w.Ts)
	b.PreviousBlockHash, b.Nonce = w32(w.Prev), binary.LittleEndian.Uint32(w.Nonce)
	for _, h := range w.Hashes {
		b.TransactionsHashes = append(b.TransactionsHashes, w32(h))
	}
	if len(w.Sig) > 0 {
		b.Signature = &crypto.Signature{}
		if err := b.Signature.Deserialize(bytes.NewReader(w.Sig)); err != nil {
			panic(err)
		}
	}
	if w.Major == 2 || w.Major == 3 {
		var tx wTx
		if err := json.Unmarshal(w.Parent.Tx, &tx); err != nil {
			panic(err)
		}
		pre := tx.prefix()
		p := &ParentBlock{MajorVersion: byte(w.Parent.Major), MinorVersion: byte(w.Parent.Minor), Timestamp: uint64(w.Parent.Ts),
			Nonce: binary.LittleEndian.Uint32(w.Parent.Nonce), Prev: w32(w.Parent.Prev), TransactionsCount: uint16(w.Parent.Cnt)}
		p.BaseTransaction.TransactionPrefix = &pre
		for _, h := range w.Parent.Branch {
			p.BaseTransactionBranch = append(p.BaseTransactionBranch, w32(h))
		}
		for _, h := range w.Parent.Chain {
			p.BlockchainBranch = append(p.BlockchainBranch, w32(h))
		}
		b.Parent = p
	}
	return b
}

// wEqual compares what is exported, and nil and empty sequences alike.
func wEqual(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !wEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return wEqual(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath == "" && !wEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

// wTree is the tree hash of Merkle.tla.
func wTree(hs [][]byte) []byte {
	if len(hs) == 1 {
		return hs[0]
	}
	pw := 1
	for pw*2 < len(hs) {
		pw *= 2
	}
	keep := 2*pw - len(hs)
	lv := append([][]byte{}, hs[:keep]...)
	for i := keep; i < len(hs); i += 2 {
		lv = append(lv, crypto.Keccak(append(append([]byte{}, hs[i]...), hs[i+1]...)))
	}
	for len(lv) > 1 {
		var up [][]byte
		for i := 0; i < len(lv); i += 2 {
			up = append(up, crypto.Keccak(append(append([]byte{}, lv[i]...), lv[i+1]...)))
		}
		lv = up
	}
	return lv[0]
}

type wCase struct {
	Val json.RawMessage
	B   wBytes
	D   string
	Pre []wPiece
	Es  []struct {
		E struct {
			At, Del int
			Ins     wBytes
		}
		D struct {
			V    string
			Hash bool
		}
		X   []wField
		Pre []wPiece
	}
}

type wPiece struct {
	K  string
	B  wBytes
	Hs []wBytes
}

// wPre gives the bytes a block hash is taken of.
func wPre(pieces []wPiece) (pre []byte) {
	for _, x := range pieces {
		h := crypto.Keccak(x.B)
		switch x.K {
		case "bytes":
			pre = append(pre, x.B...)
		case "root":
			hs := [][]byte{h}
			for _, b := range x.Hs {
				hs = append(hs, b)
			}
			pre = append(pre, wTree(hs)...)
		case "fold":
			for i := len(x.Hs) - 1; i >= 0; i-- {
				h = crypto.Keccak(append(h, x.Hs[i]...))
			}
			pre = append(pre, h...)
		}
	}
	var l [10]byte
	return append(append([]byte{}, l[:binary.PutUvarint(l[:], uint64(len(pre)))]...), pre...)
}

func TestVerifWire(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var p struct{ What, Prop string }
	vParams(&p)
	rnd := vRand()
	info := func(b []byte) interface{} {
		if len(b) > 3000 {
			b = b[:3000]
		}
		return map[string]interface{}{"what": p.What, "bytes": vHex(b)}
	}
	// read decodes within bounds; obj is nil when the bytes were refused
	read := func(b []byte) (obj interface{}, rest int, stop bool) {
		in := append([]byte(nil), b...)
		r := bytes.NewReader(in)
		var err error
		var panicked string
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		ended := vWithin(20*time.Second, func() {
			panicked = vTry(func() {
				switch p.What {
				case "tx":
					o := &Transaction{}
					err = o.Deserialize(r)
					obj = o
				case "block":
					o := &Block{}
					err = o.Deserialize(r)
					obj = o
				case "extra":
					var x *TransactionExtraFields
					if x, err = (&TransactionPrefix{Extra: in}).ParseExtra(); x != nil {
						obj = x
					}
				}
			})
		})
		if !ended {
			rep.violation("hang", info(b), "decoding does not end")
			rep.save(t)
			os.Exit(0)
		}
		runtime.ReadMemStats(&m1)
		rep.eval(p.What + vHex(b))
		if panicked != "" {
			rep.violation("panic", info(b), "decoding panics: %s", panicked)
			return nil, 0, true
		}
		if d := m1.TotalAlloc - m0.TotalAlloc; d > uint64(400000+600*len(b)) {
			rep.violation("memory", info(b), "decoding %d bytes allocates %d bytes", len(b), d)
		}
		if !bytes.Equal(in, b) {
			rep.violation("modified", info(b), "decoding changes the bytes")
		}
		if err != nil {
			return nil, 0, false
		}
		return obj, r.Len(), false
	}
	fields := func(o interface{}, fs []wField, b []byte) {
		x := o.(*TransactionExtraFields)
		var key crypto.PublicKey
		var nonce []byte
		var mm *TransactionExtraMergeMiningTag
		for _, f := range fs {
			switch f.K {
			case "key":
				key = w32(f.B)
			case "nonce":
				if len(f.B) > 0 {
					nonce = f.B
				}
			case "mm":
				mm = &TransactionExtraMergeMiningTag{uint64(f.B[0]), w32(f.B[1:])}
			}
		}
		if x.PublicKey != key || !bytes.Equal(x.Nonce, nonce) || (mm == nil) != (x.MiningTag == nil) || (mm != nil && *mm != *x.MiningTag) {
			rep.violation("fields", info(b), "the fields of an extra are not read as written: %v", fs)
		}
	}
	bytesOf := func(o interface{}) []byte {
		if x, ok := o.(*Transaction); ok {
			return x.Serialize()
		}
		return o.(*Block).Serialize()
	}
	hashOf := func(o interface{}) crypto.Hash {
		if x, ok := o.(*Transaction); ok {
			return *x.Hash()
		}
		return *o.(*Block).Hash()
	}
	vCases(t, func(line []byte) {
		var c wCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		if len(line) < 100000 {
			vCur(json.RawMessage(line))
		}
		rep.trace()
		var base crypto.Hash
		if p.What != "extra" {
			var want interface{}
			if p.What == "tx" {
				var w wTx
				if err := json.Unmarshal(c.Val, &w); err != nil {
					t.Fatal(err)
				}
				x := w.build()
				want = &x
			} else {
				var w wBlock
				if err := json.Unmarshal(c.Val, &w); err != nil {
					t.Fatal(err)
				}
				want = w.build()
			}
			if s := vTry(func() {
				if got := bytesOf(want); !bytes.Equal(got, c.B) {
					rep.violation("bytes", map[string]interface{}{"want": info(c.B), "got": info(got)}, "a %s is not encoded to the bytes of the format", p.What)
				}
				base = hashOf(want)
			}); s != "" {
				rep.violation("panic", info(c.B), "encoding panics: %s", s)
				return
			}
			var pre []byte
			if p.What == "tx" {
				pre = c.B
			} else {
				pre = wPre(c.Pre)
			}
			if !bytes.Equal(base[:], crypto.Keccak(pre)) {
				rep.violation("hash", info(c.B), "the hash of a %s is not the Keccak hash of what it stands for", p.What)
			}
			got, rest, stop := read(c.B)
			if stop {
				return
			}
			if p.Prop == "E03" {
				if got == nil || rest != 0 || !wEqual(reflect.ValueOf(got), reflect.ValueOf(want)) {
					rep.violation("object", info(c.B), "a %s is not read back as it was written (refused: %v, %d bytes left)", p.What, got == nil, rest)
				} else if !bytes.Equal(bytesOf(got), c.B) || hashOf(got) != base {
					rep.violation("again", info(c.B), "a %s that was read has another encoding or hash", p.What)
				}
			}
		} else {
			got, _, stop := read(c.B)
			if stop {
				return
			}
			switch {
			case c.D == "refused" && got != nil && p.Prop == "E04":
				rep.violation("accepted", info(c.B), "a malformed extra is accepted")
			case c.D == "accepted" && p.Prop == "E03":
				var w struct{ Fs []wField }
				if err := json.Unmarshal(c.Val, &w); err != nil {
					t.Fatal(err)
				}
				if got == nil {
					rep.violation("refused", info(c.B), "an extra is refused")
				} else {
					fields(got, w.Fs, c.B)
				}
			}
		}
		for _, e := range c.Es {
			if (e.D.V == "accepted") != (p.Prop == "E03") {
				continue
			}
			b := append([]byte(nil), c.B[:e.E.At-1]...)
			b = append(b, e.E.Ins...)
			b = append(b, c.B[e.E.At-1+e.E.Del:]...)
			got, rest, stop := read(b)
			if stop {
				return
			}
			switch {
			case e.D.V == "refused" && got != nil:
				rep.violation("accepted", info(b), "a malformed %s is accepted (edit at %d)", p.What, e.E.At)
			case e.D.V == "accepted" && got == nil:
				rep.violation("refused", info(b), "a valid %s is refused (edit at %d)", p.What, e.E.At)
			case e.D.V == "accepted" && p.What == "extra":
				fields(got, e.X, b)
			case e.D.V == "accepted":
				if rest != 0 || !bytes.Equal(bytesOf(got), b) {
					rep.violation("again", info(b), "a %s that was read is encoded differently (edit at %d)", p.What, e.E.At)
				}
				pre := b
				if p.What == "block" {
					pre = nil
					if len(e.Pre) > 0 {
						pre = wPre(e.Pre)
					}
				}
				if h := hashOf(got); pre != nil && !bytes.Equal(h[:], crypto.Keccak(pre)) {
					rep.violation("hash", info(b), "the hash of a %s is not the Keccak hash of what it stands for (edit at %d)", p.What, e.E.At)
				}
				if (hashOf(got) != base) != e.D.Hash {
					rep.violation("identity", info(b), "different %ss have the same hash: %v (edit at %d)", p.What, hashOf(got) == base, e.E.At)
				}
			}
		}
		if p.Prop == "E04" && len(c.B) > 0 {
			n := 40
			if vThorough() {
				n = 400
			}
			for k := 0; k < n; k++ {
				b := append([]byte(nil), c.B...)
				for j := 1 + rnd.Intn(4); j > 0 && len(b) > 0; j-- {
					q := rnd.Intn(len(b))
					switch rnd.Intn(4) {
					case 0:
						b[q] = byte(rnd.Intn(256))
					case 1:
						b[q] ^= 1 << uint(rnd.Intn(8))
					case 2:
						b = append(b[:q], b[q+1:]...)
					case 3:
						ins := bytes.Repeat([]byte{255}, rnd.Intn(11))
						b = append(b[:q], append(append(ins, byte(rnd.Intn(3))), b[q:]...)...)
					}
				}
				got, _, stop := read(b)
				if stop {
					return
				}
				if got != nil && p.What != "extra" {
					// what was read is an object like any other
					if s := vTry(func() { _ = bytesOf(got); _ = hashOf(got) }); s != "" {
						rep.violation("panic", info(b), "encoding what was read panics: %s", s)
						return
					}
				}
			}
		}
		rep.sample(info(c.B))
	})
}
