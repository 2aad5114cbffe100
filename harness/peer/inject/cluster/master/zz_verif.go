package master

import (
	"reflect"
	"unsafe"

	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
)

// What the conformance driver needs from inside the package.

func (pm *ProtocolManager) ZzProtocol() p2p.Protocol { return pm.subProtocols[0] }
func (pm *ProtocolManager) ZzAPI() *PrivateP2PAPI    { return NewPrivateP2PAPI(pm.peers) }
func (pm *ProtocolManager) ZzPeer(id string) *Peer   { return pm.peers.Peer(id) }

// ZzDrain returns once every chain head event sent so far has been dealt with:
// the events queued behind them (height 0: nobody is told) have begun.
func (pm *ProtocolManager) ZzDrain(genesis *types.RootBlock) bool {
	v := reflect.ValueOf(pm).Elem()
	for i := 0; i < v.NumField(); i++ {
		if c, ok := reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem().Interface().(chan core.RootChainHeadEvent); ok {
			for j := 0; j < cap(c)+2; j++ {
				c <- core.RootChainHeadEvent{Block: genesis}
			}
			return true
		}
	}
	return false
}
