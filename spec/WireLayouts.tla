---------------------------- MODULE WireLayouts ----------------------------
(* The layout of every message and stored object of the protocol: cluster    *)
(* peers (numbered commands), master and slaves, blocks, receipts, deposits. *)
EXTENDS Wire
Int(n) == <<"int", n>>
U8 == Int(1)  U16 == Int(2)  U32 == Int(4)  U64 == Int(8)  U128 == Int(16)  U256 == Int(32)
BigI == <<"big">>  Bool == <<"bool">>  Str == <<"str">>  Tok == <<"tok">>  Txn == <<"tx">>
Fix(n) == <<"fix", n>>
Hash == Fix(32)
Bytes(k) == <<"bytes", k>>
List(k, T) == <<"list", k, T>>
L4(T) == List(4, T)
Opt(T) == <<"opt", T>>
Rec(f) == <<"rec", f>>
F(n, T) == <<n, T>>

Branch == Rec(<<F("Value", U32)>>)
Addr == Rec(<<F("Recipient", Fix(20)), F("FullShardKey", U32)>>)
RootHeader == Rec(<<F("Version", U32), F("Number", U32), F("ParentHash", Hash), F("MinorHeaderHash", Hash), F("Root", Hash),
    F("Coinbase", Addr), F("CoinbaseAmount", Tok), F("Time", U64), F("Difficulty", BigI), F("ToTalDifficulty", BigI),
    F("Nonce", U64), F("Extra", Bytes(2)), F("MixDigest", Hash), F("Signature", Fix(65))>>)
RootSealLess == {"Signature", "MixDigest", "Nonce"}
MinorHeader == Rec(<<F("Version", U32), F("Branch", Branch), F("Number", U64), F("Coinbase", Addr), F("CoinbaseAmount", Tok),
    F("ParentHash", Hash), F("PrevRootBlockHash", Hash), F("GasLimit", U256), F("MetaHash", Hash), F("Time", U64),
    F("Difficulty", BigI), F("Nonce", U64), F("Bloom", Fix(256)), F("Extra", Bytes(2)), F("MixDigest", Hash)>>)
MinorSealLess == {"MixDigest", "Nonce"}
Cursor == Rec(<<F("RootBlockHeight", U64), F("MinorBlockIndex", U64), F("XShardDepositIndex", U64)>>)
MinorMeta == Rec(<<F("TxHash", Hash), F("Root", Hash), F("ReceiptHash", Hash), F("GasUsed", U256), F("CrossShardGasUsed", U256),
    F("XShardTxCursorInfo", Cursor), F("XShardGasLimit", U256)>>)
RootBlk == <<"rblk", <<F("Header", RootHeader), F("MinorBlockHeaders", L4(MinorHeader)), F("Trackingdata", Bytes(2))>>>>
MinorBlk == <<"mblk", <<F("Header", MinorHeader), F("Meta", MinorMeta), F("Txs", L4(Txn)), F("Trackingdata", Bytes(2))>>>>
LogL == Rec(<<F("Recipient", Fix(20)), F("Topics", List(1, Hash)), F("Data", Bytes(4)), F("BlockNumber", U64), F("TxHash", Hash),
    F("TxIndex", U32), F("BlockHash", Hash), F("Index", U32)>>)
Rcpt == <<"rcpt", <<F("TxHash", Hash), F("PostStateOrStatus", <<"status">>), F("CumulativeGasUsed", U64), F("PrevGasUsed", U64),
    F("Bloom", Fix(256)), F("ContractAddress", Addr), F("Logs", L4(LogL))>>>>
DepV0 == Rec(<<F("TxHash", Hash), F("From", Addr), F("To", Addr), F("Value", U256), F("GasPrice", U256), F("GasTokenID", U64),
    F("TransferTokenID", U64), F("IsFromRootChain", Bool), F("GasRemained", U256), F("MessageData", Bytes(4)), F("CreateContract", Bool)>>)
Deposit == Rec(<<F("CrossShardTransactionDepositV0", DepV0), F("RefundRate", U8)>>)
PeerInfo == Rec(<<F("IP", U128), F("Port", U16)>>)

(* commands between clusters, with their numbers *)
Peer == <<
  <<0, "p2p.HelloCmd", Rec(<<F("Version", U32), F("NetWorkID", U32), F("PeerID", Hash), F("PeerIP", U128), F("PeerPort", U16),
      F("ChainMaskList", L4(U32)), F("RootBlockHeader", RootHeader), F("GenesisRootBlockHash", Hash)>>)>>,
  <<1, "p2p.Tip", Rec(<<F("RootBlockHeader", RootHeader), F("MinorBlockHeaderList", L4(MinorHeader))>>)>>,
  <<2, "p2p.NewTransactionList", Rec(<<F("TransactionList", L4(Txn))>>)>>,
  <<3, "p2p.GetPeerListRequest", Rec(<<F("MaxPeers", U32)>>)>>,
  <<4, "p2p.GetPeerListResponse", Rec(<<F("PeerInfoList", L4(PeerInfo))>>)>>,
  <<5, "p2p.GetRootBlockHeaderListRequest", Rec(<<F("BlockHash", Hash), F("Limit", U32), F("Direction", U8)>>)>>,
  <<6, "p2p.GetRootBlockHeaderListResponse", Rec(<<F("RootTip", RootHeader), F("BlockHeaderList", L4(RootHeader))>>)>>,
  <<7, "p2p.GetRootBlockListRequest", Rec(<<F("RootBlockHashList", L4(Hash))>>)>>,
  <<8, "p2p.GetRootBlockListResponse", Rec(<<F("RootBlockList", L4(RootBlk))>>)>>,
  <<9, "p2p.GetMinorBlockListRequest", Rec(<<F("MinorBlockHashList", L4(Hash))>>)>>,
  <<10, "p2p.GetMinorBlockListResponse", Rec(<<F("MinorBlockList", L4(MinorBlk))>>)>>,
  <<11, "p2p.GetMinorBlockHeaderListRequest", Rec(<<F("BlockHash", Hash), F("Branch", Branch), F("Limit", U32), F("Direction", U8)>>)>>,
  <<12, "p2p.GetMinorBlockHeaderListResponse", Rec(<<F("RootTip", RootHeader), F("ShardTip", MinorHeader), F("BlockHeaderList", L4(MinorHeader))>>)>>,
  <<13, "p2p.NewBlockMinor", Rec(<<F("Block", MinorBlk)>>)>>,
  <<14, "p2p.PingPongCommand", Rec(<<F("Message", Hash)>>)>>,
  <<15, "p2p.PingPongCommand", Rec(<<F("Message", Hash)>>)>>,
  <<16, "p2p.GetRootBlockHeaderListWithSkipRequest", Rec(<<F("Type", U8), F("Data", Hash), F("Limit", U32), F("Skip", U32), F("Direction", U8)>>)>>,
  <<17, "p2p.GetRootBlockHeaderListResponse", Rec(<<F("RootTip", RootHeader), F("BlockHeaderList", L4(RootHeader))>>)>>,
  <<18, "p2p.NewRootBlockCommand", Rec(<<F("Block", RootBlk)>>)>>,
  <<19, "p2p.GetMinorBlockHeaderListWithSkipRequest", Rec(<<F("Type", U8), F("Data", Hash), F("Branch", Branch), F("Limit", U32), F("Skip", U32), F("Direction", U8)>>)>>,
  <<20, "p2p.GetMinorBlockHeaderListResponse", Rec(<<F("RootTip", RootHeader), F("ShardTip", MinorHeader), F("BlockHeaderList", L4(MinorHeader))>>)>> >>

ShardStat == Rec(<<F("Branch", Branch), F("Height", U64), F("Difficulty", BigI), F("CoinbaseAddress", Addr), F("Timestamp", U64),
    F("TxCount60s", U32), F("PendingTxCount", U32), F("TotalTxCount", U32), F("BlockCount60s", U32), F("StaleBlockCount60s", U32), F("LastBlockTime", U64)>>)
SlaveInfo == Rec(<<F("Id", Str), F("Host", Str), F("Port", U16), F("FullShardList", L4(U32))>>)
ArtTx == Rec(<<F("TargetRootBlockTime", U32), F("TargetMinorBlockTime", U32)>>)
Posw == Rec(<<F("EffectiveDifficulty", BigI), F("PoswMineableBlocks", U64), F("PoswMinedBlocks", U64)>>)
TxDetail == Rec(<<F("TxHash", Hash), F("FromAddress", Addr), F("ToAddress", Opt(Addr)), F("Value", U256), F("BlockHeight", U64), F("Timestamp", U64),
    F("Success", Bool), F("GasTokenID", U64), F("TransferTokenID", U64), F("IsFromRootChain", Bool), F("Nonce", U64)>>)
Eco == Rec(<<F("Branch", Branch), F("Height", U64), F("CoinbaseAmount", Hash), F("Difficulty", BigI), F("UnconfirmedHeadersCoinbaseAmount", Hash)>>)
Headers == Rec(<<F("Branch", U32), F("HeaderList", L4(MinorHeader))>>)
AcctData == Rec(<<F("Branch", U32), F("TransactionCount", U64), F("Balance", Tok), F("IsContract", Bool), F("PoswMineableBlocks", U64), F("MinedBlocks", U64)>>)
AddXs == Rec(<<F("Branch", U32), F("MinorBlockHash", Hash), F("TxList", L4(Deposit))>>)

(* calls inside a cluster, stored objects *)
Inner == <<
  <<"rpc.Ping", Rec(<<F("Id", Bytes(4)), F("FullShardList", L4(U32))>>)>>,
  <<"rpc.Pong", Rec(<<F("Id", Bytes(4)), F("FullShardList", L4(U32))>>)>>,
  <<"rpc.SlaveInfo", SlaveInfo>>,
  <<"rpc.ShardStatus", ShardStat>>,
  <<"rpc.ConnectToSlavesRequest", Rec(<<F("SlaveInfoList", L4(SlaveInfo))>>)>>,
  <<"rpc.ConnectToSlavesResponse", Rec(<<F("ResultList", L4(Rec(<<F("Result", Bytes(4))>>)))>>)>>,
  <<"rpc.MasterInfo", Rec(<<F("RootTip", Opt(RootBlk)), F("Ip", Str), F("Port", U16)>>)>>,
  <<"rpc.MineRequest", Rec(<<F("ArtificialTxConfig", ArtTx), F("Mining", Bool)>>)>>,
  <<"rpc.GenTxRequest", Rec(<<F("NumTxPerShard", U32), F("XShardPercent", U32), F("Tx", Txn)>>)>>,
  <<"rpc.GetMinorBlockRequest", Rec(<<F("Branch", U32), F("MinorBlockHash", Hash), F("Height", U64), F("NeedExtraInfo", Bool)>>)>>,
  <<"rpc.GetMinorBlockHeaderListWithSkipRequest", Rec(<<F("GetMinorBlockHeaderListWithSkipRequest", Peer[20][3]), F("PeerID", Str)>>)>>,
  <<"rpc.GetMinorBlockResponse", Rec(<<F("MinorBlock", MinorBlk), F("Extra", Posw)>>)>>,
  <<"rpc.GetMinorBlockListRequest", Rec(<<F("Branch", U32), F("PeerId", Str), F("MinorBlockHashList", L4(Hash))>>)>>,
  <<"rpc.GetMinorBlockListResponse", Rec(<<F("MinorBlockList", L4(MinorBlk))>>)>>,
  <<"rpc.BroadcastMinorBlock", Rec(<<F("Branch", U32), F("MinorBlock", MinorBlk)>>)>>,
  <<"rpc.BroadcastTransactions", Rec(<<F("Branch", U32), F("Txs", L4(Txn)), F("PeerID", Str)>>)>>,
  <<"rpc.GetMinorBlockHeaderListResponse", Rec(<<F("MinorBlockHeaderList", L4(MinorHeader))>>)>>,
  <<"rpc.BroadcastNewTip", Rec(<<F("Branch", U32), F("RootBlockHeader", RootHeader), F("MinorBlockHeaderList", L4(MinorHeader))>>)>>,
  <<"rpc.GetTransactionRequest", Rec(<<F("TxHash", Hash), F("Branch", U32)>>)>>,
  <<"rpc.GetTransactionResponse", Rec(<<F("MinorBlock", Opt(MinorBlk)), F("Index", U32)>>)>>,
  <<"rpc.ExecuteTransactionRequest", Rec(<<F("Tx", Txn), F("FromAddress", Addr), F("BlockHeight", Opt(U64))>>)>>,
  <<"rpc.ExecuteTransactionResponse", Rec(<<F("Result", Bytes(4))>>)>>,
  <<"rpc.GetTransactionReceiptRequest", Rec(<<F("TxHash", Hash), F("Branch", U32)>>)>>,
  <<"rpc.GetTransactionReceiptResponse", Rec(<<F("MinorBlock", Opt(MinorBlk)), F("Index", U32), F("Receipt", Opt(Rcpt))>>)>>,
  <<"rpc.GetTransactionListByAddressRequest", Rec(<<F("Address", Addr), F("TransferTokenID", Opt(U64)), F("Start", Bytes(4)), F("Limit", U32)>>)>>,
  <<"rpc.GetTxDetailResponse", Rec(<<F("TxList", L4(TxDetail)), F("Next", Bytes(4))>>)>>,
  <<"rpc.GetAllTxRequest", Rec(<<F("Branch", Branch), F("Start", Bytes(4)), F("Limit", U32)>>)>>,
  <<"rpc.AddRootBlockRequest", Rec(<<F("RootBlock", RootBlk), F("ExpectSwitch", Bool)>>)>>,
  <<"rpc.AddRootBlockResponse", Rec(<<F("Switched", Bool)>>)>>,
  <<"rpc.GetEcoInfoListResponse", Rec(<<F("EcoInfoList", L4(Eco))>>)>>,
  <<"rpc.GetNextBlockToMineRequest", Rec(<<F("Branch", Branch), F("Address", Addr), F("ArtificialTxConfig", ArtTx)>>)>>,
  <<"rpc.GetNextBlockToMineResponse", Rec(<<F("Block", MinorBlk)>>)>>,
  <<"rpc.AddMinorBlockRequest", Rec(<<F("MinorBlockData", Bytes(4))>>)>>,
  <<"rpc.GetUnconfirmedHeadersResponse", Rec(<<F("HeadersInfoList", L4(Headers))>>)>>,
  <<"rpc.GetAccountDataRequest", Rec(<<F("Address", Addr), F("BlockHeight", Opt(U64))>>)>>,
  <<"rpc.GetAccountDataResponse", Rec(<<F("AccountBranchDataList", L4(AcctData))>>)>>,
  <<"rpc.AddTransactionRequest", Rec(<<F("Tx", Txn)>>)>>,
  <<"rpc.AddMinorBlockHeaderRequest", Rec(<<F("MinorBlockHeader", MinorHeader), F("TxCount", U32), F("XShardTxCount", U32), F("CoinbaseAmountMap", Tok), F("ShardStats", ShardStat)>>)>>,
  <<"rpc.AddMinorBlockHeaderResponse", Rec(<<F("ArtificialTxConfig", ArtTx)>>)>>,
  <<"rpc.AddMinorBlockHeaderListRequest", Rec(<<F("MinorBlockHeaderList", L4(MinorHeader))>>)>>,
  <<"rpc.CrossShardTransactionList", Rec(<<F("TxList", L4(Deposit))>>)>>,
  <<"rpc.AddXshardTxListRequest", AddXs>>,
  <<"rpc.BatchAddXshardTxListRequest", Rec(<<F("AddXshardTxListRequestList", L4(AddXs))>>)>>,
  <<"rpc.AddBlockListForSyncRequest", Rec(<<F("Branch", U32), F("PeerId", Str), F("MinorBlockHashList", L4(Hash))>>)>>,
  <<"rpc.AddBlockListForSyncResponse", Rec(<<F("ShardStatus", ShardStat)>>)>>,
  <<"rpc.HandleNewTipRequest", Rec(<<F("PeerID", Str), F("RootBlockHeader", RootHeader), F("MinorBlockHeaderList", L4(MinorHeader))>>)>>,
  <<"rpc.GetLogResponse", Rec(<<F("Logs", L4(LogL))>>)>>,
  <<"rpc.EstimateGasRequest", Rec(<<F("Tx", Txn), F("FromAddress", Addr)>>)>>,
  <<"rpc.EstimateGasResponse", Rec(<<F("Result", U32)>>)>>,
  <<"rpc.GetStorageRequest", Rec(<<F("Address", Addr), F("Key", Hash), F("BlockHeight", Opt(U64))>>)>>,
  <<"rpc.GetStorageResponse", Rec(<<F("Result", Hash)>>)>>,
  <<"rpc.GetCodeRequest", Rec(<<F("Address", Addr), F("BlockHeight", Opt(U64))>>)>>,
  <<"rpc.GetCodeResponse", Rec(<<F("Result", Bytes(4))>>)>>,
  <<"rpc.GasPriceRequest", Rec(<<F("Branch", U32), F("TokenID", U64)>>)>>,
  <<"rpc.GasPriceResponse", Rec(<<F("Result", U64)>>)>>,
  <<"rpc.GetWorkRequest", Rec(<<F("Branch", U32), F("CoinbaseAddr", Opt(Addr))>>)>>,
  <<"rpc.GetWorkResponse", Rec(<<F("HeaderHash", Hash), F("Height", U64), F("Difficulty", BigI)>>)>>,
  <<"rpc.SubmitWorkRequest", Rec(<<F("Branch", U32), F("HeaderHash", Hash), F("Nonce", U64), F("MixHash", Hash)>>)>>,
  <<"rpc.SubmitWorkResponse", Rec(<<F("Success", Bool)>>)>>,
  <<"rpc.GetRootChainStakesRequest", Rec(<<F("Address", Addr), F("MinorBlockHash", Hash)>>)>>,
  <<"rpc.GetRootChainStakesResponse", Rec(<<F("Stakes", BigI), F("Signer", Fix(20))>>)>>,
  <<"rpc.P2PRedirectRequest", Rec(<<F("PeerID", Str), F("Branch", U32), F("Data", Bytes(4))>>)>>,
  <<"qrpc.FilterQuery", Rec(<<F("FullShardId", U32), F("FilterQuery", Rec(<<F("BlockHash", Hash), F("FromBlock", BigI), F("ToBlock", BigI),
        F("Addresses", List(1, Fix(20))), F("Topics", List(1, List(1, Hash)))>>))>>)>>,
  <<"types.RootBlockHeader", RootHeader>>,
  <<"types.MinorBlockHeader", MinorHeader>>,
  <<"types.MinorBlockMeta", MinorMeta>>,
  <<"types.RootBlock", RootBlk>>,
  <<"types.MinorBlock", MinorBlk>>,
  <<"types.Transaction", Txn>>,
  <<"types.Receipt", Rcpt>>,
  <<"types.Log", LogL>>,
  <<"types.TokenBalances", Tok>>,
  <<"types.CrossShardTransactionDeposit", Deposit>>,
  <<"types.CrossShardTransactionDepositList", <<"dep", Deposit>>>>,
  <<"account.Address", Addr>>,
  <<"account.Branch", Branch>> >>

(* The frame around a command: destination, number, call id. *)
Frame(branch, op, id, data) == branch \o <<op>> \o id \o data
============================================================================
