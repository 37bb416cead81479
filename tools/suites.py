"""What each check runs: suites (specification, generators, harness driver, trace specification) and properties."""
SUITES = {
    "ledger": {
        "crate": "chain", "driver": ["ledger", "plain"], "trace": "LedgerTrace",
        "mc": [{"module": "GenLedger", "cfg": "MCLedger.cfg", "overrides": {"quick": {"MaxTx": 2}, "thorough": {"MaxTx": 3}}}],
        "sim": [{"module": "GenLedger", "cfg": "GenLedger.cfg", "num": {"quick": 600, "thorough": 30000}}],
    },
    "staged": {
        "crate": "chain", "driver": ["staged"], "trace": "StagedTrace",
        "mc": [{"module": "GenStaged", "cfg": "MCStaged.cfg", "overrides": {"quick": {}, "thorough": {"MaxOps": 11}}}],
        "sim": [{"module": "GenStaged", "cfg": "GenStaged.cfg", "num": {"quick": 400, "thorough": 20000}}],
    },
    "native": {
        "crate": "chain", "driver": ["native"], "trace": "NativeTrace",
        "mc": [{"module": "GenNative", "cfg": "MCNative.cfg", "overrides": {"quick": {}, "thorough": {"MaxOps": 7}}}],
        "sim": [{"module": "GenNative", "cfg": "GenNative.cfg", "num": {"quick": 400, "thorough": 20000}}],
    },
    "storage": {
        "crate": "chain", "driver": ["storage", "plain"], "trace": "StorageTrace",
        "mc": [{"module": "GenStorage", "cfg": "MCStorage.cfg", "overrides": {"quick": {"MaxOps": 3}, "thorough": {}}}],
        "sim": [{"module": "GenStorage", "cfg": "GenStorage.cfg", "num": {"quick": 300, "thorough": 6000}}],
    },
    "storagefault": {
        "crate": "chain", "driver": ["storage", "fault"], "trace": "StorageTrace",
        "mc": [{"module": "GenStorage", "cfg": "MCStorageF.cfg", "overrides": {"quick": {"MaxOps": 3}, "thorough": {}}}],
        "sim": [{"module": "GenStorage", "cfg": "GenStorageF.cfg", "num": {"quick": 400, "thorough": 8000}}],
    },
    "codec": {
        "crate": "chain", "driver": ["codec"], "trace": "CodecTrace",
        "mc": [{"module": "GenCodec", "cfg": "MCCodec.cfg"}],
        "sim": [{"module": "GenCodec", "cfg": "GenCodec.cfg", "num": {"quick": 1200, "thorough": 30000}}],
    },
    "messages": {
        "crate": "pool", "driver": ["messages"], "trace": "CodecTrace",
        "mc": [{"module": "GenCodec", "cfg": "MCCodec.cfg", "overrides": {"Part": "\"messages\""}}],
        "sim": [{"module": "GenCodec", "cfg": "GenCodec.cfg", "overrides": {"Part": "\"messages\""}, "num": {"quick": 500, "thorough": 20000}}],
    },
    "merkle": {
        "crate": "chain", "driver": ["merkle"], "trace": "MerkleTrace",
        "mc": [{"module": "GenMerkle", "cfg": "MCMerkle.cfg", "overrides": {"quick": {"MaxLen": 5}, "thorough": {"MaxLen": 7}}}],
        "sim": [{"module": "GenMerkle", "cfg": "GenMerkle.cfg", "num": {"quick": 120, "thorough": 6000}}],
    },
    "names": {
        "crate": "chain", "driver": ["names"], "trace": "NamesTrace",
        "mc": [{"module": "GenNames", "cfg": "MCNames.cfg"}],
        "sim": [{"module": "GenNames", "cfg": "GenNames.cfg", "num": {"quick": 300, "thorough": 20000}}],
    },
    "api": {
        "crate": "pool", "driver": ["api"], "trace": "ApiTrace",
        "mc": [{"module": "GenApi", "cfg": "MCApi.cfg"}],
        "sim": [{"module": "GenApi", "cfg": "GenApi.cfg", "num": {"quick": 200, "thorough": 5000}}],
    },
    "wire": {
        "crate": "net", "driver": ["wire"], "trace": "WireTrace",
        "mc": [{"module": "GenWire", "cfg": "MCWire.cfg", "overrides": {"quick": {"Depth": 3}, "thorough": {"Depth": 4}}},
               {"module": "GenWire", "cfg": "MCWireR.cfg"}],
        "sim": [{"module": "GenWire", "cfg": "GenWire.cfg", "num": {"quick": 600, "thorough": 30000}}],
    },
    "mesh": {
        "crate": "net", "driver": ["mesh"], "trace": "MeshTrace", "replay_timeout": {"quick": 400, "thorough": 3000},
        "mc": [{"module": "GenMesh", "cfg": "MCMesh.cfg"}],
        "sim": [{"module": "GenMesh", "cfg": "GenMesh.cfg", "num": {"quick": 20, "thorough": 300}, "overrides": {"quick": {}, "thorough": {"MaxKills": 2}}}],
    },
    "pool": {
        "crate": "pool", "driver": ["mempool"], "trace": "PoolTrace",
        "mc": [{"module": "GenPool", "cfg": "MCPool.cfg", "overrides": {"quick": {"MaxOps": 3}, "thorough": {"MaxOps": 4}}},
               {"module": "GenPool", "cfg": "MCPoolNest.cfg"}],
        "sim": [{"module": "GenPool", "cfg": "GenPool.cfg", "num": {"quick": 2000, "thorough": 60000}}],
    },
    "chain": {
        "crate": "pool", "driver": ["consensus"], "trace": "ChainTrace",
        "mc": [{"module": "GenChain", "cfg": "MCChain.cfg", "overrides": {"quick": {}, "thorough": {"MaxOps": 18}}},
               {"module": "GenChain", "cfg": "MCChainS.cfg", "overrides": {"quick": {"MaxOps": 4}, "thorough": {"MaxOps": 6}}}],
        "sim": [{"module": "GenChain", "cfg": "GenChain.cfg", "num": {"quick": 800, "thorough": 20000}}],
    },
    "peers": {
        "crate": "net", "driver": ["peers"], "trace": "PeersTrace",
        "mc": [{"module": "GenPeers", "cfg": "MCPeers.cfg", "overrides": {"quick": {"MaxOps": 5}, "thorough": {"MaxOps": 5}}},
               {"module": "GenPeers", "cfg": "MCPeersD.cfg", "overrides": {"quick": {"MaxOps": 8}, "thorough": {"MaxOps": 9}}}],
        "sim": [{"module": "GenPeers", "cfg": "GenPeers.cfg", "num": {"quick": 1500, "thorough": 40000}}],
    },
}
SUITES["node"] = {
    "crate": "node", "driver": [], "trace": "NodeTrace", "replay_timeout": {"quick": 500, "thorough": 3000}, "chunks": 1,
    "mc": [{"module": "GenNode", "cfg": "MCNode.cfg", "overrides": {"quick": {"MaxSteps": 5}, "thorough": {"MaxSteps": 7}}}],
    "sim": [{"module": "GenNode", "cfg": "GenNode.cfg", "num": {"quick": 40, "thorough": 600}}],
}
PROPS = {}
for p in ("C01", "C02", "C03", "C05", "C06", "C07", "C08"):
    PROPS[p] = {"suites": ["ledger"] + (["native"] if p in ("C01", "C03", "C05", "C07") else [])}
PROPS["C04"] = {"suites": ["ledger"], "ledger": {"driver": ["ledger", "twice"]}}
PROPS["C09"] = {"suites": ["staged", "native"]}
for p in ("C10", "C11"):
    PROPS[p] = {"suites": ["storage"]}
PROPS["C12"] = {"suites": ["storagefault"]}
for p in ("C13", "C14", "C15"):
    PROPS[p] = {"suites": ["codec"]}
PROPS["C16"] = {"suites": ["merkle"]}
for p in ("C27", "C28", "C32"):
    PROPS[p] = {"suites": ["wire"]}
for p in ("C30", "C31", "C33"):
    PROPS[p] = {"suites": ["peers"]}
PROPS["C32"]["suites"].append("peers")
for p in ("C27", "C28", "C31", "C32"):
    PROPS[p]["suites"].append("mesh")
for p in ("C17", "C18", "C19", "C20", "C21"):
    PROPS[p] = {"suites": ["pool"]}
for p in ("C22", "C23", "C24", "C25", "C26", "C29"):
    PROPS[p] = {"suites": ["chain"]}
PROPS["C34"] = {"suites": ["names"]}
PROPS["C36"] = {"suites": ["messages"]}
PROPS["C35"] = {"suites": ["api"]}
# agreement also needs that executing the same gives the same, and that what is stored stays
PROPS["C37"] = {"suites": ["node", "ledger", "storage"], "ledger": {"driver": ["ledger", "twice"], "focus": "C04"}, "storage": {"focus": "C10"}}
