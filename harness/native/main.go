// Driver for NativeToken.tla: compiles each generated program into contracts,
// runs its transactions on the real virtual machine and state database, and
// compares results, balances, storage and code after each of them (N01).
package main

import (
	"encoding/json"
	"math/big"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/QuarkChain/goquarkchain/params"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/ethdb"
)

const t1, t2 = 100, 200

type arg struct {
	To  string
	Tok string
	V   int64
	A   *arg
}
type op struct {
	Op, How, To, Tok string
	V                int64
	A                *arg
	Create           bool
	D                int
	Chain            uint32
	Time             uint64
	Sys, OK          bool
	Deep             int
	W                int64
	Bal              map[string]map[string]int64
	Code             map[string]bool
	Store            map[string]int64
	Dep              []bool
}

var addrs = map[string]common.Address{
	"E": common.HexToAddress("0xe0"), "P": common.HexToAddress("0xb0b0"), "W": common.HexToAddress("0x3a3a"),
	"C1": common.HexToAddress("0xc1c1"), "C2": common.HexToAddress("0xc2c2"),
	"SYS":  vm.SystemContracts[vm.NON_RESERVED_NATIVE_TOKEN].Address(),
	"XFER": common.HexToAddress("514b430002"), "CURID": common.HexToAddress("514b430001"), "DEPLOY": common.HexToAddress("514b430003"),
	"MINT": common.HexToAddress(vm.MintMNTAddr), "BAL": common.HexToAddress(vm.BalanceMNTAddr),
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func tokBig(t string) *big.Int {
	switch t {
	case "D":
		return big.NewInt(35760)
	case "A":
		return big.NewInt(5)
	case "M":
		return new(big.Int).SetUint64(qcom.TOKENIDMAX)
	case "OVER":
		return new(big.Int).SetUint64(qcom.TOKENIDMAX + 1)
	case "WRAP":
		return new(big.Int).Add(two64, big.NewInt(5))
	case "WRAPD":
		return new(big.Int).Add(two64, big.NewInt(35760))
	}
	panic("token " + t)
}
func word(b *big.Int) []byte         { return common.BigToHash(b).Bytes() }
func aword(a common.Address) []byte  { return common.LeftPadBytes(a.Bytes(), 32) }
func iword(i int64) []byte           { return word(big.NewInt(i)) }
func cat(b ...[]byte) (r []byte) {
	for _, x := range b {
		r = append(r, x...)
	}
	return r
}

// node is one frame's program
type node struct {
	id   int
	at   string
	code []byte
}

func push(b *big.Int) []byte {
	d := b.Bytes()
	if len(d) == 0 {
		d = []byte{0}
	}
	return append([]byte{0x60 + byte(len(d)-1)}, d...)
}
func pi(i int64) []byte { return push(big.NewInt(i)) }

// note: flag on the stack -> r = (r*7 + flag*(1+word%1000)) % 10007
var note = cat(pi(1000), pi(0), []byte{0x51, 0x06}, pi(1), []byte{0x01, 0x02}, pi(0x20), []byte{0x51}, pi(7), []byte{0x02, 0x01}, pi(10007), []byte{0x90, 0x06}, pi(0x20), []byte{0x52})

func isOp(t string) bool { return t == "XFER" || t == "MINT" || t == "BAL" || t == "CURID" || t == "DEPLOY" }

// input a call to `to` carries; child is the node it enters, if any
func input(to string, a *arg, child int) []byte {
	switch to {
	case "XFER":
		inner := iword(int64(child))
		if isOp(a.To) {
			inner = input(a.To, a.A, child)
		}
		return cat(aword(addrs[a.To]), word(tokBig(a.Tok)), iword(a.V), inner)
	case "MINT":
		return cat(aword(addrs[a.To]), word(tokBig(a.Tok)), iword(a.V))
	case "BAL":
		return cat(aword(addrs[a.To]), word(tokBig(a.Tok)))
	case "CURID":
		return nil
	case "DEPLOY":
		switch a.Tok { // indexes that are far out of range, or only look small when cut to 64 bits
		case "OVER":
			return word(new(big.Int).SetUint64(1<<63 + uint64(a.V)))
		case "WRAP":
			return word(new(big.Int).Add(two64, big.NewInt(a.V)))
		case "WRAPD":
			return word(new(big.Int).Sub(new(big.Int).Lsh(two64, 192), big.NewInt(a.V+1)))
		}
		return iword(a.V)
	}
	return iword(int64(child))
}

func callCode(o op, child int) []byte {
	in := input(o.To, o.A, child)
	var c []byte
	c = cat(pi(0), pi(0), []byte{0x52})
	for i := 0; i < len(in); i += 32 {
		c = cat(c, push(new(big.Int).SetBytes(in[i:i+32])), pi(int64(0x40+i)), []byte{0x52})
	}
	ret := int64(32)
	if o.To == "DEPLOY" || o.To == "XFER" && o.A.To == "DEPLOY" {
		ret = 0
	}
	c = cat(c, pi(ret), pi(0), pi(int64(len(in))), pi(0x40))
	code := map[string]byte{"call": 0xf1, "code": 0xf2, "deleg": 0xf4, "static": 0xfa}[o.How]
	if o.How == "call" || o.How == "code" {
		c = cat(c, pi(o.V))
	}
	return cat(c, push(addrs[o.To].Big()), []byte{0x5a, code}, note)
}

func step(o op, child int) []byte {
	switch o.Op {
	case "call":
		return callCode(o, child)
	case "store":
		return cat(pi(0), []byte{0x54}, pi(1), []byte{0x01}, pi(0), []byte{0x55})
	case "create":
		return cat(pi(0), pi(0), []byte{0x52}, pi(0), pi(0), pi(o.V), []byte{0xf0, 0x15, 0x15}, note)
	case "kill":
		return cat(push(addrs[o.To].Big()), []byte{0xff})
	case "end":
		switch o.How {
		case "ret":
			return cat(pi(32), pi(0x20), []byte{0xf3})
		case "rev":
			return cat(pi(32), pi(0x20), []byte{0xfd})
		}
		return []byte{0xfe}
	}
	panic(o.Op)
}

// target of the frame a step enters
func entered(to string, a *arg) string {
	if to == "XFER" {
		return a.To
	}
	return to
}

// compile turns the steps into programs; first[i] is the node transaction step i enters (or -1)
func compile(ops []op) (nodes []*node, first map[int]int) {
	first = map[int]int{}
	var stack []*node
	enter := func(at string) int {
		n := &node{id: len(nodes) + 1, at: at}
		nodes = append(nodes, n)
		stack = append(stack, n)
		return n.id
	}
	for i, o := range ops {
		switch o.Op {
		case "tx":
			stack = nil
			first[i] = 0
			if o.D == 1 {
				first[i] = enter(entered(o.To, o.A))
			}
		case "env", "done":
		default:
			cur := stack[len(stack)-1]
			before, child := len(stack), 0
			if o.D == before+1 {
				child = enter(entered(o.To, o.A))
			}
			cur.code = append(cur.code, step(o, child)...)
			if o.D == before-1 {
				cur.code = append(cur.code, 0xfe)
				stack = stack[:before-1]
			}
		}
	}
	return
}

// program puts the nodes of one account behind a dispatcher
func program(nodes []*node, at string) []byte {
	var mine []*node
	for _, n := range nodes {
		if n.at == at {
			mine = append(mine, n)
		}
	}
	build := func(dest []int) []byte {
		c := cat(pi(0), []byte{0x35})
		for i, n := range mine {
			c = cat(c, []byte{0x80, 0x61, byte(n.id >> 8), byte(n.id), 0x14, 0x62, byte(dest[i] >> 16), byte(dest[i] >> 8), byte(dest[i]), 0x57})
		}
		return append(c, 0xfe)
	}
	dest := make([]int, len(mine))
	pos := len(build(dest))
	for i, n := range mine {
		dest[i] = pos
		pos += 2 + len(n.code)
	}
	c := build(dest)
	for _, n := range mine {
		c = cat(c, []byte{0x5b, 0x50}, n.code)
	}
	return c
}

// wrapper W: [remaining, target, word]: calls itself, and the target at the end; returns 1+word%1000 of the target, or 0
var wrapper = func() []byte {
	self := cat(pi(1), pi(0), []byte{0x35, 0x03}, pi(0), []byte{0x52}, pi(0x20), []byte{0x35}, pi(0x20), []byte{0x52}, pi(0x40), []byte{0x35}, pi(0x40), []byte{0x52},
		pi(32), pi(0), pi(96), pi(0), pi(0), []byte{0x30, 0x5a, 0xf1, 0x50}, pi(32), pi(0), []byte{0xf3})
	last := cat([]byte{0x5b}, pi(0x40), []byte{0x35}, pi(0), []byte{0x52}, pi(32), pi(0x40), pi(32), pi(0), pi(0), pi(0x20), []byte{0x35, 0x5a, 0xf1},
		pi(1000), pi(0x40), []byte{0x51, 0x06}, pi(1), []byte{0x01, 0x02}, pi(0), []byte{0x52}, pi(32), pi(0), []byte{0xf3})
	head := func(d int) []byte { return cat(pi(1), pi(0), []byte{0x35, 0x14, 0x60, byte(d), 0x57}) }
	d := len(head(0)) + len(self)
	return cat(head(d), self, last)
}()

func run(raw json.RawMessage, rep *w.Rep) {
	rep.Prop = "N01"
	var ops []op
	if err := json.Unmarshal(raw, &ops); err != nil {
		rep.Err("trace: %v", err)
		return
	}
	db, err := state.New(common.Hash{}, state.NewDatabase(ethdb.NewMemDatabase()))
	if err != nil {
		rep.Err("state: %v", err)
		return
	}
	qc := config.NewQuarkChainConfig()
	db.SetQuarkChainConfig(qc)
	db.SetSenderDisallowMap(map[common.Address]*big.Int{})
	nodes, first := compile(ops)
	var env op
	var key uint32
	toks := []string{"D", "A", "M"}
	var ret []byte
	var cerr error
	for i, o := range ops {
		rep.Step = i
		rep.Op(o.Op)
		switch o.Op {
		case "env":
			env = o
			key = o.Chain<<16 | 7
			db.SetFullShardKey(key)
			db.SetTimeStamp(o.Time)
			for _, t := range toks {
				db.AddBalance(addrs["E"], big.NewInt(40), tokBig(t).Uint64())
				for _, c := range []string{"C1", "C2", "SYS"} {
					if c != "SYS" || o.Sys {
						db.AddBalance(addrs[c], big.NewInt(3), tokBig(t).Uint64())
					}
				}
			}
			for _, c := range []string{"C1", "C2", "SYS"} {
				if c != "SYS" || o.Sys {
					db.SetCode(addrs[c], program(nodes, c))
				}
			}
			db.SetCode(addrs["W"], wrapper)
			db.Finalise(true)
		case "tx":
			tok := tokBig(o.Tok).Uint64()
			ctx := vm.Context{CanTransfer: core.CanTransfer, Transfer: core.Transfer, TransferFailureByPoswBalanceCheck: core.TransferFailureByPoswBalanceCheck,
				GetHash: func(uint64) common.Hash { return common.Hash{} }, Origin: addrs["E"], GasPrice: new(big.Int), GasPriceInGasToken: new(big.Int),
				BlockNumber: big.NewInt(7), Time: new(big.Int).SetUint64(env.Time), Difficulty: big.NewInt(1), GasLimit: 1 << 40,
				ToFullShardKey: &key, GasTokenID: tokBig("D").Uint64(), TransferTokenID: tok}
			evm := vm.NewEVM(ctx, db, &params.DefaultConstantinople, vm.Config{})
			e := vm.AccountRef(addrs["E"])
			const gas = uint64(1) << 63
			switch {
			case o.Create:
				_, _, _, cerr = evm.Create(e, nil, gas, big.NewInt(o.V), nil)
				ret = nil
			case env.Deep > 0:
				ret, _, cerr = evm.Call(e, addrs["W"], cat(iword(int64(env.Deep)), aword(addrs[o.To]), iword(int64(first[i]))), gas, new(big.Int))
			default:
				ret, _, cerr = evm.Call(e, addrs[o.To], input(o.To, o.A, first[i]), gas, big.NewInt(o.V))
			}
			rep.Check(evm.TransferTokenID == tok, "N01", "after the transaction the machine transfers token %d, not %d", evm.TransferTokenID, tok)
			db.Finalise(true)
		case "done":
			if !rep.Check((cerr == nil) == o.OK, "N01", "transaction: error %v, want success %v", cerr, o.OK) {
				return
			}
			if o.OK {
				got := int64(0)
				if len(ret) == 32 {
					got = new(big.Int).Mod(new(big.Int).SetBytes(ret), big.NewInt(1<<40)).Int64()
				}
				last := ops[i-1]
				want := o.W
				if last.Op == "tx" && entered(last.To, last.A) == "CURID" && want != 0 {
					rep.Check(new(big.Int).SetBytes(ret).Cmp(tokBig(curTok(last))) == 0, "N01", "token asked for is %x, want %s", ret, curTok(last))
				} else if last.Op == "end" || last.Op == "tx" || env.Deep > 0 {
					rep.Check(got == want, "N01", "transaction returned %d (%x), want %d", got, ret, want)
				}
			}
			for a, bs := range o.Bal {
				if a == "NEW" {
					continue
				}
				for t, b := range bs {
					got := db.GetBalance(addrs[a], tokBig(t).Uint64())
					rep.Check(got.Cmp(big.NewInt(b)) == 0, "N01", "balance of %s in %s is %v, want %d", a, t, got, b)
				}
				for _, t := range []string{"OVER"} {
					got := db.GetBalance(addrs[a], tokBig(t).Uint64())
					rep.Check(got.Sign() == 0, "N01", "%s has %v of a token that cannot exist", a, got)
				}
				rep.Check(a == "SYS" && !env.Sys || db.GetState(addrs[a], common.Hash{}).Big().Int64() == o.Store[a], "N01", "storage of %s is %v, want %d", a, db.GetState(addrs[a], common.Hash{}).Big(), o.Store[a])
			}
			sum := new(big.Int)
			for _, a := range addrs {
				for n := uint64(0); n < 40; n++ {
					sum.Add(sum, db.GetBalance(vm.CreateAddress(a, &key, n), tokBig("D").Uint64()))
				}
			}
			rep.Check(sum.Cmp(big.NewInt(o.Bal["NEW"]["D"])) == 0, "N01", "created accounts hold %v, want %d", sum, o.Bal["NEW"]["D"])
			for c, has := range o.Code {
				rep.Check((db.GetCodeSize(addrs[c]) > 0) == has, "N01", "code of %s: %d bytes, want present %v", c, db.GetCodeSize(addrs[c]), has)
			}
			for k, has := range o.Dep {
				rep.Check((db.GetCodeSize(vm.SystemContracts[k+1].Address()) > 0) == has, "N01", "system contract %d present %v, want %v", k+1, !has, has)
			}
		}
		if rep.Bad() {
			return
		}
	}
}

func curTok(o op) string {
	if o.To == "CURID" {
		return o.Tok
	}
	return o.A.Tok
}

func main() {
	for _, a := range params.PrecompiledContractsAfterEvmEnabled {
		vm.PrecompiledContractsByzantium[a].SetEnableTime(t1)
	}
	for _, a := range params.PrecompiledContractsMnt {
		vm.PrecompiledContractsByzantium[a].SetEnableTime(t2)
	}
	vm.SystemContracts[vm.NON_RESERVED_NATIVE_TOKEN].SetTimestamp(t2)
	vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].SetTimestamp(t2)
	w.Main(run)
}
