package p2p

import (
	"reflect"
	"testing"

	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
)

var vMessages = map[string]interface{}{
	"HandshakeRequest": HandshakeRequest{}, "HandshakeResponse": HandshakeResponse{}, "TimedSyncRequest": TimedSyncRequest{},
	"TimedSyncResponse": TimedSyncResponse{}, "PingRequest": PingRequest{}, "PingResponse": PingResponse{},
	"NotificationNewBlock": NotificationNewBlock{}, "NotificationNewTransactions": NotificationNewTransactions{},
	"NotificationRequestGetObjects": NotificationRequestGetObjects{}, "NotificationResponseGetObjects": NotificationResponseGetObjects{},
	"NotificationRequestChain": NotificationRequestChain{}, "NotificationResponseChainEntry": NotificationResponseChainEntry{},
	"NotificationNewLiteBlock": NotificationNewLiteBlock{},
}

var vMessageFields = map[string]string{
	"network_id": "NetworkID", "version": "Version", "peer_id": "PeerID", "local_time": "LocalTime", "my_port": "MyPort",
	"current_height": "CurrentHeight", "top_id": "TopBlockHash", "node_data": "NodeData", "payload_data": "PayloadData",
	"local_peerlist": "Peers", "status": "Status", "block": "Block", "txs": "Transactions", "b": "Block",
	"current_blockchain_height": "CurrentBlockchainHeight", "hop": "Hop", "stem": "Stem", "blocks": "Blocks",
	"start_height": "StartHeight", "total_height": "TotalHeight", "m_block_ids": "BlocksHashes", "block_ids": "Blocks", "missed_ids": "MissedIds",
}

func TestVerifMessages(t *testing.T) {
	kvRun(t, kvcodec.Marshal, kvcodec.Unmarshal, func(c *kvCase) (reflect.Type, map[string]string) {
		return reflect.TypeOf(vMessages[c.M]), vMessageFields
	})
}
