"""What each check runs: mc = exhaustive TLC runs, run = generated behaviours replayed on the code."""
SHARD_MC = {"spec": "ShardChain", "cfg": "ShardChain.cfg", "const_quick": {"MaxM": 3, "MaxR": 2}, "const_thorough": {"MaxM": 3, "MaxR": 3}}
SHARD_RUN = {"spec": "ShardChainGen", "cfg": "ShardChainGen.cfg", "driver": "shardchain", "num_quick": 2500, "num_thorough": 20000, "depth": 100}
ROOT_MC = {"spec": "RootChainMC", "cfg": "RootChainMC.cfg", "const_quick": {"MaxM": 2, "MaxR": 2}, "const_thorough": {"MaxM": 3, "MaxR": 2}}
ROOT_RUN = {"spec": "RootChainGen", "cfg": "RootChainGen.cfg", "driver": "rootchain", "num_quick": 2500, "num_thorough": 25000, "depth": 100}
ROOT_LONG = dict(ROOT_RUN, cfg="RootChainLong.cfg", num_quick=1500, num_thorough=15000)
XS_MC = {"spec": "CrossShardMC", "cfg": "CrossShardMC.cfg", "const_quick": {"MaxM": 5, "MaxR": 2}, "const_thorough": {"MaxM": 6, "MaxR": 2}}
XS_RUN = {"spec": "CrossShardGen", "cfg": "CrossShardGen.cfg", "driver": "xshard", "num_quick": 800, "num_thorough": 15000, "depth": 200}
ST_MC = {"spec": "StateJournal", "cfg": "StateJournal.cfg", "const_quick": {"MaxOps": 5}, "const_thorough": {"MaxOps": 7}}
ST_RUN = {"spec": "StateDBGen", "cfg": "StateDBGen.cfg", "driver": "statedb", "num_quick": 5000, "num_thorough": 60000, "depth": 300}
A_MC = {"spec": "ShardMap", "cfg": "ShardMap.cfg", "const_quick": {}, "const_thorough": {"MaxExp": 4, "MaxKey": 40}}
A_RUN = {"spec": "ShardMapGen", "cfg": "ShardMapGen.cfg", "driver": "shardmap", "num_quick": 600, "num_thorough": 6000, "depth": 100}
W_MC = {"spec": "WireMC", "cfg": "WireMC.cfg", "const_quick": {}, "const_thorough": {"MaxIn": 6}}
W_RUN = {"spec": "WireGen", "cfg": "WireGen.cfg", "driver": "wire", "num_quick": 600, "num_thorough": 6000, "depth": 100}
MI_MC = {"spec": "MiningMC", "cfg": "MiningMC.cfg", "const_quick": {}, "const_thorough": {"Win": 2}}
MI_RUN = [{"spec": "MiningGen", "cfg": "MiningGen.cfg", "driver": "mining", "num_quick": 700, "num_thorough": 8000, "depth": 150},
          {"spec": "RootMiningGen", "cfg": "RootMiningGen.cfg", "driver": "rootmining", "num_quick": 500, "num_thorough": 8000, "depth": 120}]

SHARD_BAD = {"spec": "ShardChainBad", "cfg": "ShardChainBad.cfg", "driver": "shardchain", "num_quick": 1000, "num_thorough": 20000, "depth": 100}

SHARD_CRASH_MC = {"spec": "ShardCrash", "cfg": "ShardCrash.cfg", "const_quick": {}, "const_thorough": {"MaxD": 3}}
SHARD_CRASH_RUN = {"spec": "ShardCrashGen", "cfg": "ShardCrashGen.cfg", "driver": "shardchain", "num_quick": 350, "num_thorough": 6000, "depth": 120}
ROOT_CRASH_MC = {"spec": "RootCrash", "cfg": "RootCrash.cfg", "const_quick": {}, "const_thorough": {"MaxM": 2}}
ROOT_CRASH_RUN = {"spec": "RootCrashGen", "cfg": "RootCrashGen.cfg", "driver": "rootchain", "num_quick": 1500, "num_thorough": 25000, "depth": 120}

MINER_MC = {"spec": "Miner", "cfg": "Miner.cfg", "const_quick": {}, "const_thorough": {"MaxFail": 2, "MaxFlip": 2}}
MINER_RUN = {"spec": "MinerGen", "cfg": "MinerGen.cfg", "driver": "miner", "num_quick": 600, "num_thorough": 6000, "depth": 400, "par": 200, "copies": 16}
REMOTE_MC = {"spec": "RemoteWorkMC", "cfg": "RemoteWorkMC.cfg", "const_quick": {"MaxTip": 11}, "const_thorough": {"MaxId": 3}}
REMOTE_RUN = {"spec": "RemoteWorkGen", "cfg": "RemoteWorkGen.cfg", "driver": "remote", "num_quick": 800, "num_thorough": 10000, "depth": 100, "par": 16}

SYNC_MC = [{"spec": "SyncMC", "cfg": "SyncMC.cfg", "const": {"Root": r}, "const_quick": {"N": 6, "Stale": 4}, "const_thorough": {"N": 9}} for r in ("TRUE", "FALSE")] + [
    {"spec": "SyncSchedMC", "cfg": "SyncSchedMC.cfg", "const_quick": {}, "const_thorough": {"MaxTasks": 6}}]
SYNC_RUN = [{"spec": "SyncGen", "cfg": "SyncGen.cfg", "driver": "sync", "num_quick": 1500, "num_thorough": 20000, "depth": 12000},
            {"spec": "SyncGen", "cfg": "SyncGen.cfg", "const": {"Root": "FALSE", "Samples": 100, "Stale": 135000, "Headers": 100, "Batch": 100},
             "driver": "sync", "num_quick": 1500, "num_thorough": 20000, "depth": 12000},
            {"spec": "SyncSchedGen", "cfg": "SyncSchedGen.cfg", "driver": "sync", "num_quick": 400, "num_thorough": 8000, "depth": 100}]

PEER_MC = {"spec": "PeerSessionMC", "cfg": "PeerSessionMC.cfg", "const_quick": {}, "const_thorough": {}}
PEER_RUN = {"spec": "PeerSessionGen", "cfg": "PeerSessionGen.cfg", "driver": "peer", "num_quick": 3000, "num_thorough": 40000, "depth": 200, "par": 16}

POOL_MC = {"spec": "TxPoolMC", "cfg": "TxPoolMC.cfg", "const_quick": {"MaxM": 2, "MaxR": 1}, "const_thorough": {"MaxM": 3, "MaxR": 1}}
POOL_RUN = {"spec": "TxPoolGen", "cfg": "TxPoolGen.cfg", "driver": "txpool", "num_quick": 500, "num_thorough": 8000, "depth": 100}

NT_MC = {"spec": "NativeTokenMC", "cfg": "NativeTokenMC.cfg", "const_quick": {}, "const_thorough": {"MaxSteps": 4}}
NT_RUN = {"spec": "NativeTokenGen", "cfg": "NativeTokenGen.cfg", "driver": "native", "num_quick": 5000, "num_thorough": 60000, "depth": 100}

Q_MC = {"spec": "ChainQueryMC", "cfg": "ChainQueryMC.cfg", "const_quick": {}, "const_thorough": {}}
Q_RUN = {"spec": "ChainQueryGen", "cfg": "ChainQueryGen.cfg", "driver": "query", "num_quick": 1500, "num_thorough": 20000, "depth": 150}

PUB_MC = {"spec": "PublishMC", "cfg": "PublishMC.cfg", "const_quick": {"MaxFail": 1}, "const_thorough": {"MaxFail": 2}}
PUB_RUN = {"spec": "PublishGen", "cfg": "PublishGen.cfg", "driver": "publish", "num_quick": 1000, "num_thorough": 15000, "depth": 100}

CHECKS = {
    "C01": {"mc": [PUB_MC], "run": [PUB_RUN]},
    "Q01": {"mc": [Q_MC], "run": [Q_RUN]},
    "T01": {"mc": [POOL_MC], "run": [POOL_RUN]},
    "P01": {"mc": [PEER_MC], "run": [PEER_RUN]},
    "Y01": {"mc": SYNC_MC, "run": SYNC_RUN},
    "N01": {"mc": [NT_MC], "run": [NT_RUN]},
    "M01": {"mc": [MINER_MC], "run": [MINER_RUN]},
    "G01": {"mc": [REMOTE_MC], "run": [REMOTE_RUN]},
    "R01": {"mc": [SHARD_CRASH_MC], "run": [SHARD_CRASH_RUN]},
    "R02": {"mc": [ROOT_CRASH_MC], "run": [ROOT_CRASH_RUN]},
    "V02": {"mc": [SHARD_MC], "run": [SHARD_BAD, dict(XS_RUN, num_quick=400)]},
    "D01": {"mc": [MI_MC], "run": MI_RUN},
    "W01": {"mc": [MI_MC], "run": MI_RUN},
    "E01": {"mc": [W_MC], "run": [W_RUN]},
    "A01": {"mc": [A_MC], "run": [A_RUN]},
    "F01": {"mc": [SHARD_MC], "run": [SHARD_RUN]},
    "F02": {"mc": [SHARD_MC], "run": [SHARD_RUN]},
    "F03": {"mc": [ROOT_MC], "run": [ROOT_RUN, ROOT_LONG]},
    "X01": {"mc": [XS_MC], "run": [XS_RUN]},
    "L01": {"mc": [XS_MC], "run": [XS_RUN]},
    "S01": {"mc": [ST_MC], "run": [ST_RUN]},
    "V01": {"mc": [ROOT_MC], "run": [ROOT_RUN, ROOT_LONG]},
}

# Properties without a check, with the reason.
NOT_CLAIMED = {}
