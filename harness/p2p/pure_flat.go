package p2p

func oPackets(a int, b []byte) string { return oJson(a, b) }

func oPeerLists(a int) string { return oJson(a) }
