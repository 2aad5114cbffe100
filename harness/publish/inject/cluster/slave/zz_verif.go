package slave

import (
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
)

// What the conformance driver needs from inside the package.

// ZzWire connects the slave to its master and to other slaves.
func (s *SlaveBackend) ZzWire(master rpc.Client, slaves map[string]rpc.Client, shards map[string][]uint32) {
	s.connManager.masterClient = &masterConn{target: "master", client: master}
	for id, c := range slaves {
		conn := NewToSlaveConn(id, id, shards[id])
		conn.client = c
		s.connManager.addSlaveConnection(id, conn)
	}
}
