package harness

func init() {
	eDeep = func(bc *BlockChain, index uint32) (uint64, uint64, uint64) {
		i := bc.storage.getBlockInfoAtIndex(index)
		return i.TotalGeneratedCoins, i.TotalGeneratedTransactions, i.Size
	}
}
