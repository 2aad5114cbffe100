// Driver for Wire.tla: what bytes a message is and what message bytes are (E01).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"reflect"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/QuarkChain/goquarkchain/zzverif/w"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

type any = interface{}
type dam struct {
	St    string
	B     []int
	V     any
	N     int
	Canon bool
}
type item struct {
	Kind, Name string
	Num        int
	S, V, Kept any
	B          []int
	Dam        []dam
	Frame      struct{ Branch, Id, B []int }
	Seal       []int
}

func bs(x []int) []byte {
	r := make([]byte, len(x))
	for i, v := range x {
		r[i] = byte(v)
	}
	return r
}
func seq(x any) []any {
	if m, ok := x.(map[string]any); ok && len(m) == 0 {
		return nil
	}
	return x.([]any)
}
func vb(x any) []byte {
	l := seq(x)
	r := make([]byte, len(l))
	for i, v := range l {
		r[i] = byte(v.(float64))
	}
	return r
}
func kind(s any) string { return seq(s)[0].(string) }
func arg(s any, i int) any { return seq(s)[i] }
func isRec(k string) bool { return k == "rec" || k == "rcpt" || k == "mblk" || k == "rblk" }

var registry = map[string]any{
	"qrpc.FilterQuery": qrpc.FilterQuery{}, "account.Address": account.Address{}, "account.Branch": account.Branch{},
	"types.RootBlockHeader": types.RootBlockHeader{}, "types.MinorBlockHeader": types.MinorBlockHeader{}, "types.MinorBlockMeta": types.MinorBlockMeta{},
	"types.RootBlock": &types.RootBlock{}, "types.MinorBlock": &types.MinorBlock{}, "types.Transaction": &types.Transaction{},
	"types.Receipt": types.Receipt{}, "types.Log": types.Log{}, "types.TokenBalances": types.TokenBalances{},
	"types.CrossShardTransactionDeposit": types.CrossShardTransactionDeposit{}, "types.CrossShardTransactionDepositList": types.CrossShardTransactionDepositList{},
}

func init() {
	for _, x := range []any{p2p.HelloCmd{}, p2p.Tip{}, p2p.NewTransactionList{}, p2p.GetPeerListRequest{}, p2p.GetPeerListResponse{}, p2p.GetRootBlockHeaderListRequest{},
		p2p.GetRootBlockHeaderListResponse{}, p2p.GetRootBlockListRequest{}, p2p.GetRootBlockListResponse{}, p2p.GetMinorBlockListRequest{}, p2p.GetMinorBlockListResponse{},
		p2p.GetMinorBlockHeaderListRequest{}, p2p.GetMinorBlockHeaderListResponse{}, p2p.NewBlockMinor{}, p2p.PingPongCommand{}, p2p.GetRootBlockHeaderListWithSkipRequest{},
		p2p.NewRootBlockCommand{}, p2p.GetMinorBlockHeaderListWithSkipRequest{}} {
		registry["p2p."+reflect.TypeOf(x).Name()] = x
	}
	for _, x := range []any{rpc.Ping{}, rpc.Pong{}, rpc.SlaveInfo{}, rpc.ShardStatus{}, rpc.ConnectToSlavesRequest{}, rpc.ConnectToSlavesResponse{}, rpc.MasterInfo{}, rpc.MineRequest{},
		rpc.GenTxRequest{}, rpc.GetMinorBlockRequest{}, rpc.GetMinorBlockHeaderListWithSkipRequest{}, rpc.GetMinorBlockResponse{}, rpc.GetMinorBlockListRequest{}, rpc.GetMinorBlockListResponse{},
		rpc.BroadcastMinorBlock{}, rpc.BroadcastTransactions{}, rpc.GetMinorBlockHeaderListResponse{}, rpc.BroadcastNewTip{}, rpc.GetTransactionRequest{}, rpc.GetTransactionResponse{},
		rpc.ExecuteTransactionRequest{}, rpc.ExecuteTransactionResponse{}, rpc.GetTransactionReceiptRequest{}, rpc.GetTransactionReceiptResponse{}, rpc.GetTransactionListByAddressRequest{},
		rpc.GetTxDetailResponse{}, rpc.GetAllTxRequest{}, rpc.AddRootBlockRequest{}, rpc.AddRootBlockResponse{}, rpc.GetEcoInfoListResponse{}, rpc.GetNextBlockToMineRequest{},
		rpc.GetNextBlockToMineResponse{}, rpc.AddMinorBlockRequest{}, rpc.GetUnconfirmedHeadersResponse{}, rpc.GetAccountDataRequest{}, rpc.GetAccountDataResponse{}, rpc.AddTransactionRequest{},
		rpc.AddMinorBlockHeaderRequest{}, rpc.AddMinorBlockHeaderResponse{}, rpc.AddMinorBlockHeaderListRequest{}, rpc.CrossShardTransactionList{}, rpc.AddXshardTxListRequest{},
		rpc.BatchAddXshardTxListRequest{}, rpc.AddBlockListForSyncRequest{}, rpc.AddBlockListForSyncResponse{}, rpc.HandleNewTipRequest{}, rpc.GetLogResponse{}, rpc.EstimateGasRequest{},
		rpc.EstimateGasResponse{}, rpc.GetStorageRequest{}, rpc.GetStorageResponse{}, rpc.GetCodeRequest{}, rpc.GetCodeResponse{}, rpc.GasPriceRequest{}, rpc.GasPriceResponse{},
		rpc.GetWorkRequest{}, rpc.GetWorkResponse{}, rpc.SubmitWorkRequest{}, rpc.SubmitWorkResponse{}, rpc.GetRootChainStakesRequest{}, rpc.GetRootChainStakesResponse{}, rpc.P2PRedirectRequest{}} {
		registry["rpc."+reflect.TypeOf(x).Name()] = x
	}
}

// goType makes a Go type with the given layout.
func goType(s any, n *int) reflect.Type {
	*n++
	alt := *n%2 == 0
	ptr := func(t reflect.Type) reflect.Type {
		if alt {
			return reflect.PtrTo(t)
		}
		return t
	}
	switch kind(s) {
	case "int":
		switch int(arg(s, 1).(float64)) {
		case 1:
			return ptr(reflect.TypeOf(uint8(0)))
		case 2:
			return ptr(reflect.TypeOf(uint16(0)))
		case 4:
			return ptr(reflect.TypeOf(uint32(0)))
		case 8:
			return ptr(reflect.TypeOf(uint64(0)))
		case 16:
			return ptr(reflect.TypeOf(serialize.Uint128{}))
		}
		return ptr(reflect.TypeOf(serialize.Uint256{}))
	case "big":
		return ptr(reflect.TypeOf(big.Int{}))
	case "uint":
		return ptr(reflect.TypeOf(uint(0)))
	case "bool":
		return ptr(reflect.TypeOf(true))
	case "str":
		return ptr(reflect.TypeOf(""))
	case "fix":
		return ptr(reflect.ArrayOf(int(arg(s, 1).(float64)), reflect.TypeOf(byte(0))))
	case "bytes":
		return reflect.TypeOf([]byte{})
	case "list":
		return reflect.SliceOf(goType(arg(s, 2), n))
	case "arr":
		return reflect.ArrayOf(int(arg(s, 1).(float64)), goType(arg(s, 2), n))
	case "opt":
		t := goType(arg(s, 1), n)
		if t.Kind() == reflect.Ptr { // an option is one pointer
			t = t.Elem()
		}
		return reflect.PtrTo(t)
	case "tok":
		return reflect.TypeOf(&types.TokenBalances{})
	case "rec":
		var f []reflect.StructField
		for _, x := range seq(arg(s, 1)) {
			l := arg(x, 1)
			t := goType(l, n)
			tag := ""
			switch kind(l) {
			case "opt":
				tag = `ser:"nil"`
			case "bytes", "list":
				tag = fmt.Sprintf(`bytesizeofslicelen:"%d"`, int(arg(l, 1).(float64)))
			}
			f = append(f, reflect.StructField{Name: arg(x, 0).(string), Type: t, Tag: reflect.StructTag(tag)})
		}
		t := reflect.StructOf(f)
		return ptr(t)
	}
	panic("layout " + kind(s))
}

type rawSigner struct{ r, s, v *big.Int }

func (rawSigner) Sender(*types.EvmTransaction) (account.Recipient, error) {
	return account.Recipient{}, nil
}
func (x rawSigner) SignatureValues(*types.EvmTransaction, []byte) (r, s, v *big.Int, err error) {
	return x.r, x.s, x.v, nil
}
func (rawSigner) Hash(*types.EvmTransaction) common.Hash { return common.Hash{} }
func (rawSigner) Equal(types.Signer) bool                { return false }

func num(x any) *big.Int { return new(big.Int).SetBytes(vb(x)) }
func u64(x any) uint64   { return num(x).Uint64() }
func u32(x any) uint32   { return uint32(num(x).Uint64()) }

func fieldsOf(t reflect.Type) []reflect.StructField {
	var r []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.PkgPath == "" && f.Tag.Get("ser") != "-" {
			r = append(r, f)
		}
	}
	return r
}

// field i of the layout in the struct: by name, else by position
func field(v reflect.Value, s any, i int) reflect.Value {
	name := arg(seq(arg(s, 1))[i], 0).(string)
	if f := v.FieldByName(name); f.IsValid() {
		return f
	}
	fs := fieldsOf(v.Type())
	if i < len(fs) {
		return v.FieldByIndex(fs[i].Index)
	}
	panic(fmt.Sprintf("%v has no field %s", v.Type(), name))
}

// blanks pads a receipt, whose fields are not its layout
func set(v reflect.Value, s any, val any) {
	k := kind(s)
	if k == "opt" {
		if l := seq(val); len(l) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			set(v.Elem(), arg(s, 1), l[0])
		}
		return
	}
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		set(v.Elem(), s, val)
		return
	}
	switch k {
	case "int", "uint":
		switch p := v.Addr().Interface().(type) {
		case *serialize.Uint128:
			p.Value = num(val)
		case *serialize.Uint256:
			p.Value = num(val)
		default:
			v.SetUint(u64(val))
		}
	case "big":
		v.Addr().Interface().(*big.Int).Set(num(val))
	case "bool":
		v.SetBool(val.(bool))
	case "str":
		v.SetString(string(vb(val)))
	case "fix":
		reflect.Copy(v, reflect.ValueOf(vb(val)))
	case "bytes":
		v.SetBytes(vb(val))
	case "list", "arr":
		l := seq(val)
		if k == "list" {
			v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		}
		for i := range l {
			set(v.Index(i), arg(s, 2), l[i])
		}
	case "rec":
		for i := range seq(arg(s, 1)) {
			set(field(v, s, i), arg(seq(arg(s, 1))[i], 1), seq(val)[i])
		}
	case "tok":
		m := map[uint64]*big.Int{}
		for _, p := range seq(val) {
			m[u64(seq(p)[0])] = num(seq(p)[1])
		}
		v.Set(reflect.ValueOf(types.NewTokenBalancesWithMap(m)).Elem())
	case "tx":
		l := seq(val)
		var e *types.EvmTransaction
		if to := vb(l[3]); len(to) == 20 {
			e = types.NewEvmTransaction(u64(l[0]), common.BytesToAddress(to), num(l[4]), u64(l[2]), num(l[1]), u32(l[7]), u32(l[8]), u32(l[6]), u32(l[11]), vb(l[5]), u64(l[9]), u64(l[10]))
		} else {
			e = types.NewEvmContractCreation(u64(l[0]), num(l[4]), u64(l[2]), num(l[1]), u32(l[7]), u32(l[8]), u32(l[6]), u32(l[11]), vb(l[5]), u64(l[9]), u64(l[10]))
		}
		e, err := e.WithSignature(rawSigner{num(l[13]), num(l[14]), num(l[12])}, nil)
		if err != nil {
			panic(err)
		}
		t := v.Addr().Interface().(*types.Transaction)
		t.TxType, t.EvmTx = types.EvmTx, e
	case "dep":
		f := v.FieldByName("TXList")
		l := seq(val)
		f.Set(reflect.MakeSlice(f.Type(), len(l), len(l)))
		for i := range l {
			set(f.Index(i), arg(s, 1), l[i])
		}
	case "rcpt":
		r := v.Addr().Interface().(*types.Receipt)
		l := seq(val)
		r.TxHash = common.BytesToHash(vb(l[0]))
		switch st := vb(l[1]); len(st) {
		case 0:
			r.Status = types.ReceiptStatusFailed
		case 1:
			r.Status = types.ReceiptStatusSuccessful
		default:
			r.PostState = st
		}
		r.CumulativeGasUsed = u64(l[2])
		r.GasUsed = u64(l[2]) - u64(l[3])
		r.Bloom = types.BytesToBloom(vb(l[4]))
		a := seq(l[5])
		r.ContractAddress, r.ContractFullShardKey = common.BytesToAddress(vb(a[0])), u32(a[1])
		set(reflect.ValueOf(&r.Logs).Elem(), arg(seq(arg(s, 1))[6], 1), l[6])
	case "mblk":
		l := seq(val)
		var h types.MinorBlockHeader
		var m types.MinorBlockMeta
		var txs []*types.Transaction
		set(reflect.ValueOf(&h).Elem(), arg(seq(arg(s, 1))[0], 1), l[0])
		set(reflect.ValueOf(&m).Elem(), arg(seq(arg(s, 1))[1], 1), l[1])
		set(reflect.ValueOf(&txs).Elem(), arg(seq(arg(s, 1))[2], 1), l[2])
		b := types.NewMinorBlockWithHeader(&h, &m).WithBody(txs, vb(l[3]))
		v.Set(reflect.ValueOf(b).Elem())
	case "rblk":
		l := seq(val)
		var h types.RootBlockHeader
		var ms types.MinorBlockHeaders
		set(reflect.ValueOf(&h).Elem(), arg(seq(arg(s, 1))[0], 1), l[0])
		set(reflect.ValueOf(&ms).Elem(), arg(seq(arg(s, 1))[1], 1), l[1])
		b := types.NewRootBlock(&h, ms, vb(l[2]))
		*(b.IHeader().(*types.RootBlockHeader)) = h
		v.Set(reflect.ValueOf(b).Elem())
	default:
		panic("layout " + k)
	}
}

func eqb(a, b []byte) bool { return bytes.Equal(a, b) } // nil and empty are one

// cmp reports where the Go value differs from the value of the layout.
func cmp(v reflect.Value, s any, val any, at string) string {
	k := kind(s)
	if k == "opt" {
		l := seq(val)
		if len(l) == 0 {
			if v.IsNil() {
				return ""
			}
			return at + ": present, want none"
		}
		if v.IsNil() {
			return at + ": none, want a value"
		}
		return cmp(v.Elem(), arg(s, 1), l[0], at)
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return at + ": nil"
		}
		return cmp(v.Elem(), s, val, at)
	}
	bad := func(got any) string { return fmt.Sprintf("%s: %v, want %v", at, got, val) }
	switch k {
	case "int", "uint":
		var got *big.Int
		switch p := v.Addr().Interface().(type) {
		case *serialize.Uint128:
			got = p.Value
		case *serialize.Uint256:
			got = p.Value
		default:
			got = new(big.Int).SetUint64(v.Uint())
		}
		if got == nil || got.Cmp(num(val)) != 0 {
			return bad(got)
		}
	case "big":
		if p := v.Addr().Interface().(*big.Int); p.Cmp(num(val)) != 0 {
			return bad(p)
		}
	case "bool":
		if v.Bool() != val.(bool) {
			return bad(v.Bool())
		}
	case "str":
		if v.String() != string(vb(val)) {
			return bad(v.String())
		}
	case "fix":
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		if !eqb(b, vb(val)) {
			return bad(b)
		}
	case "bytes":
		if !eqb(v.Bytes(), vb(val)) {
			return bad(v.Bytes())
		}
	case "list", "arr":
		l := seq(val)
		if v.Len() != len(l) {
			return fmt.Sprintf("%s: %d items, want %d", at, v.Len(), len(l))
		}
		for i := range l {
			if m := cmp(v.Index(i), arg(s, 2), l[i], fmt.Sprintf("%s[%d]", at, i)); m != "" {
				return m
			}
		}
	case "rec":
		for i, f := range seq(arg(s, 1)) {
			if m := cmp(field(v, s, i), arg(f, 1), seq(val)[i], at+"."+arg(f, 0).(string)); m != "" {
				return m
			}
		}
	case "tok":
		m := v.Addr().Interface().(*types.TokenBalances).GetBalanceMap()
		for _, p := range seq(val) {
			if g := m[u64(seq(p)[0])]; g == nil || g.Cmp(num(seq(p)[1])) != 0 {
				return bad(m)
			}
		}
		if len(m) != len(seq(val)) {
			return bad(m)
		}
	case "tx":
		l := seq(val)
		t := v.Addr().Interface().(*types.Transaction)
		e := t.EvmTx
		if t.TxType != types.EvmTx || e == nil {
			return at + ": not a transaction"
		}
		V, R, S := e.RawSignatureValues()
		to := []byte{}
		if e.To() != nil {
			to = e.To().Bytes()
		}
		if e.Nonce() != u64(l[0]) || e.GasPrice().Cmp(num(l[1])) != 0 || e.Gas() != u64(l[2]) || !eqb(to, vb(l[3])) || e.Value().Cmp(num(l[4])) != 0 || !eqb(e.Data(), vb(l[5])) ||
			e.NetworkId() != u32(l[6]) || e.FromFullShardKey() != u32(l[7]) || e.ToFullShardKey() != u32(l[8]) || e.GasTokenID() != u64(l[9]) || e.TransferTokenID() != u64(l[10]) ||
			e.Version() != u32(l[11]) || V.Cmp(num(l[12])) != 0 || R.Cmp(num(l[13])) != 0 || S.Cmp(num(l[14])) != 0 {
			return at + ": other transaction"
		}
	case "dep":
		return cmp(v.FieldByName("TXList"), []any{"list", 4.0, arg(s, 1)}, val, at)
	case "rcpt":
		r := v.Addr().Interface().(*types.Receipt)
		l := seq(val)
		st := vb(l[1])
		ok := r.TxHash == common.BytesToHash(vb(l[0])) && r.CumulativeGasUsed == u64(l[2]) && r.GasUsed == u64(l[2])-u64(l[3]) && eqb(r.Bloom.Bytes(), vb(l[4])) &&
			eqb(r.ContractAddress.Bytes(), vb(seq(l[5])[0])) && r.ContractFullShardKey == u32(seq(l[5])[1])
		switch len(st) {
		case 0:
			ok = ok && r.Status == types.ReceiptStatusFailed && len(r.PostState) == 0
		case 1:
			ok = ok && r.Status == types.ReceiptStatusSuccessful && len(r.PostState) == 0
		default:
			ok = ok && eqb(r.PostState, st)
		}
		if !ok {
			return bad(*r)
		}
		return cmp(reflect.ValueOf(&r.Logs).Elem(), arg(seq(arg(s, 1))[6], 1), l[6], at+".Logs")
	case "mblk":
		b := v.Addr().Interface().(*types.MinorBlock)
		l := seq(val)
		txs := b.Transactions()
		for i, x := range []reflect.Value{reflect.ValueOf(b.Header()), reflect.ValueOf(b.Meta()), reflect.ValueOf(&txs).Elem(), reflect.ValueOf(b.TrackingData())} {
			if m := cmp(x, arg(seq(arg(s, 1))[i], 1), l[i], at+"."+arg(seq(arg(s, 1))[i], 0).(string)); m != "" {
				return m
			}
		}
	case "rblk":
		b := v.Addr().Interface().(*types.RootBlock)
		l := seq(val)
		ms := b.MinorBlockHeaders()
		for i, x := range []reflect.Value{reflect.ValueOf(b.Header()), reflect.ValueOf(&ms).Elem(), reflect.ValueOf(b.TrackingData())} {
			if m := cmp(x, arg(seq(arg(s, 1))[i], 1), l[i], at+"."+arg(seq(arg(s, 1))[i], 0).(string)); m != "" {
				return m
			}
		}
	default:
		panic("layout " + k)
	}
	return ""
}

func keccak(b []byte) common.Hash { return crypto.Keccak256Hash(b) }

func run(raw json.RawMessage, rep *w.Rep) {
	rep.Prop = "E01"
	var items []item
	if err := json.Unmarshal(raw, &items); err != nil {
		rep.Err("%v", err)
		return
	}
	for n := range items {
		it := &items[n]
		rep.Step = n
		rep.Op(it.Kind)
		one(it, n, rep)
		if rep.Bad() {
			return
		}
	}
	// what cannot be represented is refused
	for _, v := range []any{new(big.Int).Lsh(common.Big1, 8*255), big.NewInt(-1), &serialize.Uint128{Value: new(big.Int).Lsh(common.Big1, 128)}, &serialize.Uint256{Value: new(big.Int).Lsh(common.Big1, 256)},
		&serialize.Uint256{Value: big.NewInt(-5)}, make([]byte, 256), make([]uint32, 256), &struct {
			A []byte `bytesizeofslicelen:"2"`
		}{make([]byte, 65536)}} {
		b, err := serialize.SerializeToBytes(v)
		rep.Check(err != nil, "E01", "a %T out of range is encoded as %d bytes %x", v, len(b), b)
	}
	top := new(big.Int).Sub(new(big.Int).Lsh(common.Big1, 8*255), common.Big1)
	b, err := serialize.SerializeToBytes(top)
	var back big.Int
	rep.Check(err == nil && len(b) == 256 && serialize.DeserializeFromBytes(b, &back) == nil && back.Cmp(top) == 0, "E01", "the largest integer does not read back (%v)", err)
}

func one(it *item, n int, rep *w.Rep) {
	want := bs(it.B)
	var t reflect.Type
	name := it.Name
	if it.Kind == "made" {
		c := n
		t = goType(it.S, &c)
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		name = fmt.Sprint(it.S)
	} else {
		x, ok := registry[name]
		if !ok {
			rep.Err("unknown message %s", name)
			return
		}
		if t = reflect.TypeOf(x); t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
	}
	val := reflect.New(t)
	set(val.Elem(), it.S, it.V)
	got, err := serialize.SerializeToBytes(val.Interface())
	rep.Check(err == nil && bytes.Equal(got, want), "E01", "%s %v is encoded as %x (%v), want %x", name, it.V, got, err, want)
	if rep.Bad() {
		return
	}
	app := []byte{9, 8, 7}
	err = serialize.Serialize(&app, val.Interface())
	rep.Check(err == nil && bytes.Equal(app, append([]byte{9, 8, 7}, want...)), "E01", "%s appended to other bytes gives %x (%v)", name, app, err)
	// reading back, followed by something else
	d := reflect.New(t)
	bb := serialize.NewByteBuffer(append(append([]byte{}, want...), 1, 0, 255))
	err = serialize.Deserialize(bb, d.Interface())
	rep.Check(err == nil, "E01", "%s: encoding %x is refused: %v", name, want, err)
	if rep.Bad() {
		return
	}
	rep.Check(bb.GetOffset() == len(want), "E01", "%s: reading consumes %d of %d bytes", name, bb.GetOffset(), len(want))
	m := cmp(d.Elem(), it.S, it.Kept, "")
	rep.Check(m == "", "E01", "%s reads back with %s", name, m)
	if rep.Bad() {
		return
	}
	re, err := serialize.SerializeToBytes(d.Interface())
	rep.Check(err == nil && bytes.Equal(re, want), "E01", "%s read back is encoded as %x (%v), want %x", name, re, err, want)
	// truncations
	step := 1 + len(want)/400
	for l := 0; l < len(want); l += step {
		x := reflect.New(t)
		err := serialize.DeserializeFromBytes(append([]byte{}, want[:l]...), x.Interface())
		rep.Check(err != nil, "E01", "%s: the first %d of %d bytes are accepted", name, l, len(want))
	}
	for _, dm := range it.Dam {
		b := bs(dm.B)
		x := reflect.New(t)
		bb := serialize.NewByteBuffer(append([]byte{}, b...))
		err := serialize.Deserialize(bb, x.Interface())
		rep.Check(bb.GetOffset() <= len(b), "E01", "%s: reading goes beyond the input", name)
		switch dm.St {
		case "bad":
			rep.Check(err != nil, "E01", "%s: malformed bytes %x are accepted", name, b)
		case "ok":
			if err != nil {
				rep.Check(!dm.Canon, "E01", "%s: well-formed bytes %x are refused: %v", name, b, err)
			} else {
				m := cmp(x.Elem(), it.S, dm.V, "")
				rep.Check(m == "" && bb.GetOffset() == dm.N, "E01", "%s: bytes %x read (%d of %d) with %s", name, b, bb.GetOffset(), dm.N, m)
			}
		}
	}
	switch p := val.Interface().(type) {
	case *types.RootBlockHeader:
		rep.Check(p.Hash() == keccak(want), "E01", "root header hash is not that of its encoding")
		rep.Check(p.SealHash() == keccak(bs(it.Seal)), "E01", "root header seal hash is not that of its sealed part")
	case *types.MinorBlockHeader:
		rep.Check(p.Hash() == keccak(want), "E01", "shard header hash is not that of its encoding")
		rep.Check(p.SealHash() == keccak(bs(it.Seal)), "E01", "shard header seal hash is not that of its sealed part")
	case *types.MinorBlockMeta:
		rep.Check(p.Hash() == keccak(want), "E01", "meta hash is not that of its encoding")
	case *types.Transaction:
		rep.Check(p.Hash() == keccak(want), "E01", "transaction hash is not that of its encoding")
	case *types.MinorBlock:
		rep.Check(p.Hash() == p.Header().Hash(), "E01", "block hash is not its header's")
	case *types.RootBlock:
		rep.Check(p.Hash() == p.Header().Hash(), "E01", "block hash is not its header's")
	}
	if it.Kind == "peer" {
		op := p2p.P2PCommandOp(it.Num)
		rep.Check(reflect.TypeOf(p2p.OPSerializerMap[op]) == t, "E01", "command %d is %T, want %s", it.Num, p2p.OPSerializerMap[op], name)
		br := p2p.Metadata{Branch: uint32(new(big.Int).SetBytes(bs(it.Frame.Branch)).Uint64())}
		id := new(big.Int).SetBytes(bs(it.Frame.Id)).Uint64()
		msg, err := p2p.MakeMsg(op, id, br, val.Interface())
		if err != nil {
			rep.V("E01", "frame of %s fails: %v", name, err)
			return
		}
		fb, _ := ioutil.ReadAll(msg.Payload)
		rep.Check(bytes.Equal(fb, bs(it.Frame.B)) && int(msg.Size) == len(fb), "E01", "frame of %s is %x, want %x", name, fb, bs(it.Frame.B))
		q, err := p2p.DecodeQKCMsg(fb)
		rep.Check(err == nil && q.MetaData == br && q.Op == op && q.RpcID == id && bytes.Equal(q.Data, want), "E01", "frame of %s reads back as %v (%v)", name, q, err)
		for l := 0; l < 13; l++ {
			_, err := p2p.DecodeQKCMsg(fb[:l])
			rep.Check(err != nil, "E01", "a frame of %d bytes is accepted", l)
		}
	}
}

func main() { w.Main(run) }
