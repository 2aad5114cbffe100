// query replays behaviours of spec/ChainQuery.tla: a real shard receives
// blocks, and the questions asked along the way travel the whole way from the
// public interface through the master, its connection to the slave and the
// slave's server side to the shard chain.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/master"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/cluster/slave"
	qcommon "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/common/hexutil"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/internal/encoder"
	"github.com/QuarkChain/goquarkchain/internal/qkcapi"
	"github.com/QuarkChain/goquarkchain/qkcdb"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	ethhexutil "github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethdb"
)

type txT struct {
	F    int     `json:"f"`
	To   int     `json:"to"`
	Far  bool    `json:"far"`
	Tok  int     `json:"tok"`
	Logs [][]int `json:"logs"`
	Ok   bool    `json:"ok"`
	ID   int     `json:"id"`
}
type logT struct {
	M int   `json:"m"`
	C int   `json:"c"`
	T []int `json:"t"`
	X int   `json:"x"`
	I int   `json:"i"`
}
type entT struct {
	M    int    `json:"m"`
	K    string `json:"k"`
	X    int    `json:"x"`
	Tok  int    `json:"tok"`
	Root bool   `json:"root"`
	ID   int    `json:"id"`
}
type op struct {
	Op   string          `json:"op"`
	ID   int             `json:"id"`
	P    int             `json:"p"`
	R    int             `json:"r"`
	D    int64           `json:"d"`
	L    []int           `json:"l"`
	Tx   []txT           `json:"tx"`
	Coin int             `json:"coin"`
	Xs   []txT           `json:"xs"`
	Ok   json.RawMessage `json:"ok"`
	Dup  bool            `json:"dup"`
	Tip  int             `json:"tip"`
	Feed [][2]int        `json:"feed"`
	A    int             `json:"a"`
	B    int             `json:"b"`
	Adrs []int           `json:"adrs"`
	Tops [][]int         `json:"tops"`
	Tok  int             `json:"tok"`
	N    int             `json:"n"`
	M    int             `json:"m"`
	K    string          `json:"k"`
	X    int             `json:"x"`
	E    int             `json:"e"`
	Want json.RawMessage `json:"want"`
}

var (
	tok2   = qcommon.TokenIDEncode("AB")
	sid    = w.ShardID(0, 2, 0)
	farSid = w.ShardID(0, 2, 1)
)

func rec(a int) account.Recipient {
	if a == 3 || a == 4 {
		var r account.Recipient
		r[0], r[19] = 0xcc, byte(a)
		return r
	}
	return w.K(a).Rec
}
func token(i int) uint64 {
	if i == 2 {
		return tok2
	}
	return w.QKC
}

// key of an account: its own part of the shard's key space
func key(a int) uint32 { return uint32(a) << 1 }

func addr(a int) account.Address { return account.Address{Recipient: rec(a), FullShardKey: key(a)} }

func topic(t int) common.Hash { return common.BigToHash(big.NewInt(int64(t))) }

// the contract: two optional logs with up to three topics each, then maybe a revert
func code() []byte {
	var c []byte
	fix := map[int]string{}
	at := map[string]int{}
	b := func(x ...byte) { c = append(c, x...) }
	arg := func(i int) { b(0x60, byte(i), 0x35, 0x60, 0, 0x1a) } // byte i of the call data
	push := func(l string) { b(0x61); fix[len(c)] = l; b(0, 0) }
	label := func(l string) { at[l] = len(c); b(0x5b) }
	for i := 0; i < 2; i++ {
		for k := 1; k <= 4; k++ {
			arg(4 * i)
			b(0x60, byte(k), 0x14)
			push(fmt.Sprint("l", i, k))
			b(0x57)
		}
		push(fmt.Sprint("e", i))
		b(0x56)
		for k := 1; k <= 4; k++ {
			label(fmt.Sprint("l", i, k))
			for t := k - 1; t >= 1; t-- {
				arg(4*i + t)
			}
			b(0x60, byte(i), 0x60, 0, 0xa0+byte(k-1))
			push(fmt.Sprint("e", i))
			b(0x56)
		}
		label(fmt.Sprint("e", i))
	}
	arg(8)
	push("r")
	b(0x57, 0x00)
	label("r")
	b(0x60, 0, 0x60, 0, 0xfd)
	for p, l := range fix {
		c[p], c[p+1] = byte(at[l]>>8), byte(at[l])
	}
	return c
}

func input(t txT) []byte {
	d := make([]byte, 32)
	for i, l := range t.Logs {
		d[4*i] = byte(len(l) + 1)
		for j, x := range l {
			d[4*i+1+j] = byte(x)
		}
	}
	if !t.Ok {
		d[8] = 1
	}
	return d
}

type mblk struct {
	enc  []byte
	hash common.Hash
	h    uint64
	time uint64
	txs  []*types.Transaction
	op   *op
}
type rblk struct {
	enc  []byte
	hash common.Hash
	h    uint32
	far  common.Hash
	xs   []*types.CrossShardTransactionDeposit
}
type world struct {
	cfg           *config.ClusterConfig
	factory, node *core.MinorBlockChain
	api           *qkcapi.PublicBlockChainAPI
	stat          *rpc.ShardStatus
	m             map[int]*mblk
	mid           map[common.Hash]int
	r             map[int]*rblk
	deps          map[int]*types.CrossShardTransactionDeposit
	rep           *w.Rep
	feed          chan core.LoglistEvent
	live          map[string]bool
}

func main() { w.Main(replay) }

func newCfg() *config.ClusterConfig {
	al := map[account.Recipient]map[string]int64{}
	for u := 1; u <= 2; u++ {
		al[rec(u)] = map[string]int64{"QKC": 1000000000, "AB": 1000}
	}
	return w.NewCfg(w.Opts{Chains: 1, Shards: 2, Alloc: map[uint32]map[account.Recipient]map[string]int64{sid: al}, Tweak: func(c *config.ClusterConfig) {
		sc := c.Quarkchain.GetShardConfigByFullShardID(sid)
		for _, a := range []int{3, 4} {
			sc.Genesis.Alloc[account.Address{Recipient: rec(a), FullShardKey: sid}] = config.Allocation{Code: code()}
		}
	}})
}

// field finds the field of a struct with the given type.
func field(p interface{}, t reflect.Type) reflect.Value {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == t {
			return reflect.NewAt(t, unsafe.Pointer(f.UnsafeAddr())).Elem()
		}
	}
	panic(fmt.Sprintf("no field of type %v in %T", t, p))
}

// wire stands for the connection between master and slave.
type wire struct {
	rpc.Client
	srv *slave.SlaveServerSideOp
}

func (c *wire) Call(_ string, q *rpc.Request) (*rpc.Response, error) {
	m := reflect.ValueOf(c.srv).MethodByName(c.GetOpName(q.Op))
	if !m.IsValid() {
		return nil, fmt.Errorf("no operation %d", q.Op)
	}
	out := m.Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.ValueOf(q)})
	if e, ok := out[1].Interface().(error); ok && e != nil {
		return nil, e
	}
	return out[0].Interface().(*rpc.Response), nil
}

var once sync.Once

func (s *world) connect() {
	sl := new(slave.SlaveBackend)
	field(sl, reflect.TypeOf(s.cfg)).Set(reflect.ValueOf(s.cfg))
	field(sl, reflect.TypeOf(map[uint32]*shard.ShardBackend{})).Set(reflect.ValueOf(map[uint32]*shard.ShardBackend{sid: {MinorBlockChain: s.node}}))
	con := master.NewSlaveConn("", []uint32{sid}, "S0")
	field(con, reflect.TypeOf((*rpc.Client)(nil)).Elem()).Set(reflect.ValueOf(&wire{rpc.NewClient(rpc.SlaveServer), slave.NewServerSideOp(sl)}))
	ms := new(master.QKCMasterBackend)
	field(ms, reflect.TypeOf(s.cfg)).Set(reflect.ValueOf(s.cfg))
	conns := map[uint32][]rpc.ISlaveConn{sid: {con}}
	field(&ms.SlaveConnManager, reflect.TypeOf(conns)).Set(reflect.ValueOf(conns))
	s.stat = new(rpc.ShardStatus)
	stats := map[uint32]*rpc.ShardStatus{sid: s.stat}
	field(ms, reflect.TypeOf(stats)).Set(reflect.ValueOf(stats))
	once.Do(func() { qkcapi.GetAPIs(info{ms}) })
	s.api = qkcapi.NewPublicBlockChainAPI(ms)
}

type info struct{ *master.QKCMasterBackend }

func (info) NetWorkInfo() map[string]interface{} {
	return map[string]interface{}{"networkId": ethhexutil.Uint(3)}
}

func replay(raw json.RawMessage, rep *w.Rep) {
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil || len(ops) == 0 {
		rep.Err("bad trace: %v", err)
		return
	}
	rep.Prop = "Q01"
	dir, err := ioutil.TempDir("", "verif_query_")
	if err != nil {
		rep.Err("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	db, err := qkcdb.NewDatabase(dir, true, false)
	if err != nil {
		rep.Err("%v", err)
		return
	}
	defer db.Close()
	s := &world{cfg: newCfg(), m: map[int]*mblk{}, mid: map[common.Hash]int{}, r: map[int]*rblk{}, rep: rep,
		deps: map[int]*types.CrossShardTransactionDeposit{}, feed: make(chan core.LoglistEvent, 4096), live: map[string]bool{}}
	var rg *types.RootBlock
	s.factory, rg = w.NewShard(s.cfg, ethdb.NewMemDatabase(), sid, nil)
	s.node, _ = w.NewShard(s.cfg, db, sid, nil)
	defer w.StopAll(s.factory, s.node)
	s.r[1] = &rblk{enc: w.EncRoot(rg), hash: rg.Hash()}
	g := s.factory.Genesis()
	s.m[1] = &mblk{enc: w.EncMinor(g), hash: g.Hash(), op: &op{}}
	s.mid[g.Hash()] = 1
	sub := s.node.SubReorgLogsEvent(s.feed)
	defer sub.Unsubscribe()
	s.connect()
	for i := range ops {
		o := &ops[i]
		rep.Step = i
		rep.Op(o.Op)
		rep.Guard("Q01", func() {
			switch o.Op {
			case "M":
				s.minor(o)
			case "R":
				s.root(o)
			case "dm", "dr":
				s.deliver(o)
			case "logs", "pend", "logsb":
				s.logs(o)
			case "hist":
				s.hist(o)
			case "rcpt":
				s.receipt(o)
			}
		})
		if rep.Bad() {
			return
		}
	}
}

func (s *world) minor(o *op) {
	p := s.m[o.P]
	parent := s.factory.GetMinorBlock(p.hash)
	if parent == nil {
		s.rep.Err("block %d is missing", o.P)
		return
	}
	rh := s.r[o.R].hash
	t := parent.Time() + 10
	miner := account.Address{Recipient: w.K(9).Rec, FullShardKey: sid}
	b := parent.CreateBlockToAppend(&t, nil, &miner, nil, nil, nil, []byte(fmt.Sprintf("m%d", o.ID)), nil, &rh)
	m := &mblk{h: parent.NumberU64() + 1, time: t, op: o}
	nonce := map[int]uint64{}
	for _, x := range o.Tx {
		n, ok := nonce[x.F]
		if !ok {
			c, err := s.factory.GetTransactionCount(rec(x.F), &p.hash)
			if err != nil {
				s.rep.Err("no nonce on block %d: %v", o.P, err)
				return
			}
			n = c
		}
		nonce[x.F] = n + 1
		toKey, gas := key(x.To), uint64(200000)
		if x.Far {
			toKey |= 1
		}
		var to *account.Recipient
		var data []byte
		if x.To == 0 {
			data = []byte{0x00}
		} else {
			r := rec(x.To)
			to = &r
		}
		if x.To >= 3 {
			data = input(x)
		}
		tx := w.Tx(w.K(x.F), n, to, int64(x.Tok), gas, 1, key(x.F), toKey, data, w.QKC, token(x.Tok))
		if x.To == 0 {
			tx = w.Tx(w.K(x.F), n, nil, 0, gas, 1, key(x.F), key(x.F), data, w.QKC, w.QKC)
		} else if x.To >= 3 {
			tx = w.Tx(w.K(x.F), n, to, 0, gas, 1, key(x.F), toKey, data, w.QKC, w.QKC)
		}
		m.txs = append(m.txs, tx)
		b.AddTx(tx)
	}
	fb, _, err := s.factory.FinalizeAndAddBlock(b)
	if err != nil {
		s.rep.Err("building block %d (parent %d, root block %d): %v", o.ID, o.P, o.R, err)
		return
	}
	m.enc, m.hash = w.EncMinor(fb), fb.Hash()
	s.m[o.ID] = m
	s.mid[m.hash] = o.ID
}

func (s *world) root(o *op) {
	p := s.r[o.P]
	var hs []*types.MinorBlockHeader
	for _, id := range o.L {
		hs = append(hs, w.DecMinor(s.m[id].enc).Header())
	}
	r := &rblk{h: p.h + 1}
	if len(o.Xs) > 0 {
		// a block of the other shard, from which the transfers come
		f := &types.MinorBlockHeader{Branch: account.Branch{Value: farSid}, Number: uint64(o.ID), PrevRootBlockHash: s.r[o.P].hash, ParentHash: topic(o.ID),
			Time: uint64(o.ID), Difficulty: big.NewInt(1), GasLimit: &serialize.Uint256{Value: new(big.Int)}, CoinbaseAmount: types.NewEmptyTokenBalances()}
		for _, x := range o.Xs {
			d := new(types.CrossShardTransactionDeposit)
			d.TxHash = common.BigToHash(big.NewInt(int64(1000000 + x.ID)))
			d.From = account.Address{Recipient: w.K(8).Rec, FullShardKey: farSid}
			d.To = addr(x.To)
			d.Value = &serialize.Uint256{Value: big.NewInt(int64(x.Tok))}
			d.GasPrice = &serialize.Uint256{Value: big.NewInt(1)}
			d.GasRemained = &serialize.Uint256{Value: big.NewInt(100000)}
			d.GasTokenID, d.TransferTokenID, d.RefundRate = w.QKC, token(x.Tok), 100
			if x.To >= 3 {
				d.Value.Value = new(big.Int)
				d.MessageData = input(x)
			}
			r.xs = append(r.xs, d)
			s.deps[x.ID] = d
		}
		hs = append(hs, f)
		r.far = f.Hash()
	}
	coin, amt := account.Address{Recipient: w.K(7).Rec, FullShardKey: sid}, int64(0)
	if o.Coin != 0 {
		coin, amt = account.Address{Recipient: rec(o.Coin), FullShardKey: sid}, 100
	} else if o.ID%2 == 0 {
		coin, amt = account.Address{Recipient: rec(1), FullShardKey: farSid}, 100
	}
	b := w.NewRootBlock(w.DecRoot(p.enc), o.ID, o.D, hs, &coin, amt)
	r.enc, r.hash = w.EncRoot(b), b.Hash()
	s.r[o.ID] = r
	s.bring(s.factory, r)
	if _, err := s.factory.AddRootBlock(w.DecRoot(r.enc)); err != nil {
		s.rep.Err("building root block %d: %v", o.ID, err)
	}
}

func (s *world) bring(c *core.MinorBlockChain, r *rblk) {
	if len(r.xs) > 0 {
		c.AddCrossShardTxListByMinorBlockHash(r.far, types.CrossShardTransactionDepositList{TXList: r.xs})
	}
}

func (s *world) deliver(o *op) {
	rep := s.rep
	var err error
	if o.Op == "dm" {
		_, err = s.node.InsertChain([]types.IBlock{w.DecMinor(s.m[o.ID].enc)}, false)
	} else {
		s.bring(s.node, s.r[o.ID])
		_, err = s.node.AddRootBlock(w.DecRoot(s.r[o.ID].enc))
	}
	ok := string(o.Ok) == "true"
	if ok {
		rep.Check(err == nil, "Q01", "%s %d refused: %v", o.Op, o.ID, err)
	}
	head := s.node.CurrentBlock()
	if !rep.Check(head.Hash() == s.m[o.Tip].hash, "Q01", "after %s %d the head is block %d, specification says %d", o.Op, o.ID, s.mid[head.Hash()], o.Tip) {
		return
	}
	s.stat.Height = head.NumberU64()
	// the log feed: taken back and announced, in step with the head
	last, added := uint64(0), false
	for {
		select {
		case e := <-s.feed:
			for _, l := range e.Logs {
				for _, x := range l {
					k := fmt.Sprintf("%d/%d", s.mid[x.BlockHash], x.Index)
					rep.Check(s.live[k] == e.IsRemoved, "Q01", "%s %d: the log feed has log %s (block/index) with removed=%v while it was live=%v", o.Op, o.ID, k, e.IsRemoved, s.live[k])
					s.live[k] = !e.IsRemoved
					rep.Check(!e.IsRemoved || !added, "Q01", "%s %d: the log feed takes back log %s after announcing others", o.Op, o.ID, k)
					rep.Check(e.IsRemoved || x.BlockNumber >= last, "Q01", "%s %d: the log feed announces log %s after logs of height %d", o.Op, o.ID, k, last)
					if !e.IsRemoved {
						added, last = true, x.BlockNumber
					}
				}
			}
			continue
		default:
		}
		break
	}
	n := 0
	for _, v := range s.live {
		if v {
			n++
		}
	}
	rep.Check(n == len(o.Feed), "Q01", "%s %d: by the log feed %d logs are live, specification says %v", o.Op, o.ID, n, o.Feed)
	for _, f := range o.Feed {
		rep.Check(s.live[fmt.Sprintf("%d/%d", f[0], f[1])], "Q01", "%s %d: log %v was not announced", o.Op, o.ID, f)
	}
}

// txHash is the hash under which position x of block m was sent.
func (s *world) txHash(m, x int) (h common.Hash, ok bool) {
	if b := s.m[m]; x < len(b.txs) {
		return b.txs[x].Hash(), true
	}
	return
}

func (s *world) eqLog(where string, i int, got map[string]interface{}, l logT) bool {
	rep, b := s.rep, s.m[l.M]
	var tops []common.Hash
	for _, t := range l.T {
		tops = append(tops, topic(t))
	}
	ok := rep.Check(got["blockHash"] == b.hash && got["blockNumber"] == hexutil.Uint64(b.h) && got["blockHeight"] == hexutil.Uint64(b.h),
		"Q01", "%s: log %d is of block %v (%v), specification says %d", where, i, s.mid[got["blockHash"].(common.Hash)], got["blockNumber"], l.M)
	ok = ok && rep.Check(got["logIndex"] == hexutil.Uint64(l.I), "Q01", "%s: log %d of block %d has index %v, specification says %d", where, i, l.M, got["logIndex"], l.I)
	ok = ok && rep.Check(got["transactionIndex"] == hexutil.Uint64(l.X), "Q01", "%s: log %d (block %d index %d) has transaction index %v, specification says %d", where, i, l.M, l.I, got["transactionIndex"], l.X)
	ok = ok && rep.Check(got["address"] == common.Address(rec(l.C)) || got["address"] == rec(l.C), "Q01", "%s: log %d (block %d index %d) is of contract %v, specification says %d", where, i, l.M, l.I, got["address"], l.C)
	ok = ok && rep.Check(fmt.Sprint(got["topics"]) == fmt.Sprint(tops), "Q01", "%s: log %d (block %d index %d) has topics %v, specification says %v", where, i, l.M, l.I, got["topics"], l.T)
	ok = ok && rep.Check(got["removed"] == false, "Q01", "%s: log %d is marked as removed", where, i)
	if h, tx := s.txHash(l.M, l.X); ok && tx {
		ok = rep.Check(got["transactionHash"] == h, "Q01", "%s: log %d (block %d transaction %d) has another transaction's hash", where, i, l.M, l.X)
	}
	return ok
}

func (s *world) logs(o *op) {
	rep := s.rep
	var want struct {
		Err bool   `json:"err"`
		L   []logT `json:"l"`
	}
	if err := json.Unmarshal(o.Want, &want); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	q := map[string]interface{}{"fromBlock": hexutil.Uint64(o.A), "toBlock": hexutil.Uint64(o.B)}
	if o.Op == "pend" {
		q["toBlock"] = "pending"
	} else if o.Op == "logsb" {
		q = map[string]interface{}{"blockHash": s.m[o.M].hash}
	} else if uint64(o.B) == s.stat.Height && len(o.Tops)%2 == 0 {
		q["toBlock"] = "latest"
	}
	if o.Op == "logs" && uint64(o.B) == s.stat.Height && len(o.Tops)%2 == 1 {
		delete(q, "toBlock")
	}
	var adrs []string
	for i, a := range o.Adrs {
		x := common.Address(rec(a)).Hex()
		if (i+o.A)%2 == 1 {
			x += "00000001" // with a full shard key
		}
		adrs = append(adrs, x)
	}
	if len(adrs) == 1 && o.A%2 == 0 {
		q["address"] = adrs[0]
	} else if adrs != nil {
		q["address"] = adrs
	}
	if len(o.Tops) > 0 {
		var ts []interface{}
		for _, t := range o.Tops {
			var l []string
			for _, x := range t {
				l = append(l, topic(x).Hex())
			}
			switch {
			case len(t) == 0 && o.A%2 == 0:
				ts = append(ts, nil)
			case len(t) == 0:
				ts = append(ts, []string{})
			case len(t) == 1 && o.A%2 == 0:
				ts = append(ts, l[0])
			default:
				ts = append(ts, l)
			}
		}
		q["topics"] = ts
	}
	js, _ := json.Marshal(q)
	where := fmt.Sprintf("logs of %s", js)
	args := new(qrpc.FilterQuery)
	if err := json.Unmarshal(js, args); err != nil {
		rep.Check(false, "Q01", "%s: not understood: %v", where, err)
		return
	}
	got, err := s.api.GetLogs(args, hexutil.Uint(key(o.A)))
	if want.Err {
		rep.Check(err != nil, "Q01", "%s: %d logs and no error although a block asked for is not on the chain", where, len(got))
		return
	}
	if o.Op == "pend" && err != nil {
		return // pending blocks need not be supported
	}
	if !rep.Check(err == nil, "Q01", "%s: %v", where, err) || !rep.Check(len(got) == len(want.L), "Q01", "%s: %d logs, specification says %d: %v", where, len(got), len(want.L), want.L) {
		return
	}
	for i, l := range want.L {
		if !s.eqLog(where, i, got[i], l) {
			return
		}
	}
}

type gotT struct {
	hash common.Hash
	f    map[string]interface{}
}

func (s *world) hist(o *op) {
	rep := s.rep
	var want []entT
	if err := json.Unmarshal(o.Want, &want); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	where := fmt.Sprintf("history of %d (0: all; token %d, %d per page)", o.A, o.Tok, o.N)
	var start *hexutil.Bytes
	var all []gotT
	for page := 0; ; page++ {
		if !rep.Check(page < 400, "Q01", "%s: more than 400 pages", where) {
			return
		}
		l0 := hexutil.Uint(o.N)
		lim := &l0
		if o.N == 10 {
			lim = nil
		}
		var res map[string]interface{}
		var err error
		if o.A == 0 {
			res, err = s.api.GetAllTransaction(hexutil.Uint(key(o.N)), start, lim)
		} else {
			var tk *hexutil.Uint64
			if o.Tok != 0 {
				x := hexutil.Uint64(token(o.Tok))
				tk = &x
			}
			res, err = s.api.GetTransactionsByAddress(addr(o.A), start, lim, tk)
		}
		if !rep.Check(err == nil, "Q01", "%s: page %d: %v", where, page, err) {
			return
		}
		l := res["txList"].([]map[string]interface{})
		rep.Check(len(l) <= o.N, "Q01", "%s: page %d has %d entries", where, page, len(l))
		if len(l) == 0 {
			break
		}
		if o.Tok == 0 {
			n := len(want) - len(all)
			if n > o.N {
				n = o.N
			}
			if !rep.Check(len(l) == n, "Q01", "%s: page %d has %d entries, specification says %d of %d", where, page, len(l), n, len(want)) {
				return
			}
		}
		for _, f := range l {
			h, _, err := encoder.IDDecoder(f["txId"].(hexutil.Bytes))
			rep.Check(err == nil, "Q01", "%s: page %d: bad id %v", where, page, f["txId"])
			all = append(all, gotT{h, f})
		}
		nx := append(hexutil.Bytes{}, res["next"].(hexutil.Bytes)...)
		start = &nx
	}
	if o.Tok != 0 { // whether a token filter applies to root chain rewards is left open
		var a []gotT
		for _, g := range all {
			if g.f["isFromRootChain"] != true {
				a = append(a, g)
			}
		}
		var x []entT
		for _, e := range want {
			if !e.Root {
				x = append(x, e)
			}
		}
		all, want = a, x
	}
	if !rep.Check(len(all) == len(want), "Q01", "%s: %d entries, specification says %d: %+v", where, len(all), len(want), want) {
		return
	}
	for i, e := range want {
		g, b := all[i], s.m[e.M]
		var h common.Hash
		var from, to string
		switch {
		case e.Root:
			h = s.r[e.ID].hash
		case e.K == "dep":
			d := s.deps[e.ID]
			h, from, to = d.TxHash, d.From.ToHex(), d.To.ToHex()
		default:
			h = b.txs[e.X].Hash()
			t := b.op.Tx[e.X]
			from, to = addr(t.F).ToHex(), "0x"
			if t.Far {
				to = account.Address{Recipient: rec(t.To), FullShardKey: key(t.To) | 1}.ToHex()
			} else if t.To != 0 {
				to = addr(t.To).ToHex()
			}
			rep.Check(g.hash != h || g.f["success"] == (t.Ok || t.Far), "Q01", "%s: entry %d (transaction %d of block %d) has success=%v", where, i, e.X, e.M, g.f["success"])
			rep.Check(g.hash != h || fmt.Sprint(g.f["nonce"]) == fmt.Sprint(b.txs[e.X].EvmTx.Nonce()), "Q01", "%s: entry %d has nonce %v", where, i, g.f["nonce"])
		}
		if !rep.Check(g.hash == h && g.f["blockHeight"] == hexutil.Uint(b.h), "Q01", "%s: entry %d is another one (height %v), specification says %+v", where, i, g.f["blockHeight"], e) {
			return
		}
		rep.Check(g.f["isFromRootChain"] == e.Root && g.f["timestamp"] == hexutil.Uint(b.time), "Q01", "%s: entry %d (%+v) has timestamp %v, root %v", where, i, e, g.f["timestamp"], g.f["isFromRootChain"])
		if !e.Root {
			f := g.f["fromAddress"].(account.Address)
			rep.Check(strings.EqualFold(f.ToHex(), from) && strings.EqualFold(fmt.Sprint(g.f["toAddress"]), to), "Q01", "%s: entry %d (%+v) goes from %v to %v, specification says from %s to %s", where, i, e, f.ToHex(), g.f["toAddress"], from, to)
			rep.Check(g.f["transferTokenId"] == hexutil.Uint64(token(e.Tok)), "Q01", "%s: entry %d (%+v) has token %v", where, i, e, g.f["transferTokenId"])
		}
	}
}

func (s *world) receipt(o *op) {
	rep := s.rep
	var want []logT
	if err := json.Unmarshal(o.Want, &want); err != nil {
		rep.Err("bad trace: %v", err)
		return
	}
	b := s.m[o.M]
	where := fmt.Sprintf("receipt of %s %d of block %d", o.K, o.X, o.M)
	var h common.Hash
	if o.K == "tx" {
		h = b.txs[o.X].Hash()
	} else {
		h = s.deps[o.E].TxHash
	}
	got, err := s.api.GetTransactionReceipt(encoder.IDEncoder(h.Bytes(), key(2)))
	if !rep.Check(err == nil && got != nil, "Q01", "%s: %v %v", where, got, err) {
		return
	}
	rep.Check(got["blockHash"] == b.hash && got["blockHeight"] == hexutil.Uint64(b.h), "Q01", "%s: it is in block %v of height %v", where, got["blockHash"], got["blockHeight"])
	rep.Check(got["transactionIndex"] == hexutil.Uint64(o.N), "Q01", "%s: it is at position %v, specification says %d", where, got["transactionIndex"], o.N)
	st := hexutil.Uint64(0)
	if string(o.Ok) == "true" {
		st = 1
	}
	rep.Check(got["status"] == st, "Q01", "%s: status %v, specification says %v", where, got["status"], st)
	l := got["logs"].([]map[string]interface{})
	if !rep.Check(len(l) == len(want), "Q01", "%s: %d logs, specification says %v", where, len(l), want) {
		return
	}
	for i := range want {
		if !s.eqLog(where, i, l[i], want[i]) {
			return
		}
	}
	if o.K == "tx" {
		rep.Check(got["transactionHash"] == h.String(), "Q01", "%s: it is about %v", where, got["transactionHash"])
		t := b.op.Tx[o.X]
		if t.To == 0 {
			k := key(t.F)
			a := account.Address{Recipient: account.Recipient(vm.CreateAddress(common.Address(rec(t.F)), &k, b.txs[o.X].EvmTx.Nonce())), FullShardKey: k}
			rep.Check(strings.EqualFold(fmt.Sprint(got["contractAddress"]), a.ToHex()), "Q01", "%s: contract address %v, specification says %v", where, got["contractAddress"], a.ToHex())
		} else {
			rep.Check(got["contractAddress"] == nil, "Q01", "%s: contract address %v although none was created", where, got["contractAddress"])
		}
	}
}
