package harness

import "github.com/r3volut1oner/go-karbo/crypto"

func init() {
	stHaveTx = func(s Storage, h *crypto.Hash) bool { return s.haveTransaction(h) }
	stInfo = func(s Storage, i uint32) (crypto.Hash, uint32, bool) {
		info := s.getBlockInfoAtIndex(i)
		if info == nil {
			return crypto.Hash{}, 0, false
		}
		return info.Hash, info.Index, true
	}
}
