package harness

import "errors"

// hFaultyStorage refuses the next push once it is armed.
type hFaultyStorage struct {
	Storage
	armed bool
}

func (f *hFaultyStorage) PushBlock(b *Block, i *blockInfo, d TransactionsDetails) error {
	if f.armed {
		f.armed = false
		return errors.New("verif: storage fault")
	}
	return f.Storage.PushBlock(b, i, d)
}

func init() {
	uFaulty = func(s Storage) (Storage, func()) {
		f := &hFaultyStorage{Storage: s}
		return f, func() { f.armed = true }
	}
}
