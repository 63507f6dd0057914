"""What each check runs."""

# profile(s) of each property: (profile, harness feature, scripts in quick, scripts in thorough)
PROF = {
    "C01": [("C01", "", 7000, 40000), ("C01w", "wb", 400, 8000), ("C01j", "", 600, 8000)],
    "C02": [("C02", "", 7000, 40000)],
    "C03": [("C03", "", 7000, 40000)],
    "C04": [("C04", "", 1200, 8000)],
    "C05": [("C05", "", 1200, 8000)],
    "C06": [("C06", "", 800, 8000)],
    "C07": [("C07", "", 7000, 40000)],
    "C08": [("C08", "", 7000, 40000)],
    "C09": [("C09", "", 7000, 40000), ("C09w", "wb", 400, 8000)],
    "C10": [("C10", "", 7000, 40000)],
    "C11": [("C11", "", 1200, 8000)],
    "C12": [("C12", "", 7000, 40000)],
    "C13": [("C13", "", 7000, 40000)],
    "C14": [("C14", "", 1200, 8000)],
    "C15": [("C15", "", 7000, 40000)],
    "C16": [("C16", "", 7000, 40000)],
    "C17": [("C17", "", 7000, 40000)],
    "C18": [("C18", "", 7000, 40000)],
    "C19": [("C19", "", 7000, 40000), ("C26z", "", 900, 10000)],
    "C20": [("C20", "", 7000, 40000)],
    "C21": [("C21", "", 2000, 10000)],
    "C22": [("C22", "", 7000, 40000)],
    "C23": [("C23", "", 7000, 40000), ("C23", "agg", 400, 8000)],
    "C24": [("C24", "", 4000, 20000), ("C24", "agg", 500, 8000), ("C24f", "", 400, 8000), ("C24f", "agg", 500, 8000)],
    "C25": [("C25", "", 7000, 40000), ("C18", "", 1500, 10000)],
    "C26": [("C26", "", 2500, 20000), ("C26x", "", 800, 15000), ("C26y", "", 1500, 20000),
            ("C26c", "", 1200, 20000), ("C26z", "", 1500, 20000),
            ("C26d", "", 1500, 20000), ("C26g", "", 800, 10000)],
}

# design-level specifications checked exhaustively: (module, configuration for quick, for thorough)
SPECS = {
    "C05": [("ShardStore", "ShardStore_q", "ShardStore_q"), ("ShardStore", None, "ShardStore_3"), ("ShardStore", None, "ShardStore_c2"),
            ("ShardStore", None, "ShardStore_full"), ("ShardStore", None, "ShardStore_e4")],
    "C06": [("ShardStore", None, "ShardStore_s1")],
    "C07": [("IterDesign", "IterDesign_q", "IterDesign_q")],
    "C08": [("IterDesign", "IterDesign_v", "IterDesign_v"), ("IterDesign", None, "IterDesign_4")],
    "C10": [("ListDesign", None, "ListDesign_c")],
    "C11": [("ListDesign", "ListDesign_q", "ListDesign_q"), ("ListDesign", None, "ListDesign_6")],
    "C13": [("QueueDesign", None, "QueueDesign_c")],
    "C14": [("QueueDesign", "QueueDesign_q", "QueueDesign_q"), ("QueueDesign", None, "QueueDesign_c")],
    "C23": [("LockDesign", "LockDesign_q", "LockDesign_q"), ("LockDesign", None, "LockDesign_3")],
    "C24": [("FlushDesign", "FlushDesign_q", "FlushDesign_q"), ("FlushDesign", None, "FlushDesign_3")],
    "C26": [("ShardStore", "ShardStore_qf", "ShardStore_qf"), ("ListDesign", None, "ListDesign_6"), ("ShardStore", None, "ShardStore_f")],
}

# call sequences walked out of the state graph of spec/Candy.tla: (configuration, mode, at most that many in quick,
# the same for thorough with its configuration, harness feature)
ALL = 1 << 40
WALKS = {
    "C01": [("Candy_kv", "seq", ALL, "Candy_kv", ALL, ""), ("Candy_kv", "seq", ALL, "Candy_kv", ALL, "wb")],
    "C02": [("Candy_kv", "pair", 1500, "Candy_kv", 30000, "")],
    "C03": [("Candy_kv", "reopen", ALL, "Candy_kv", ALL, ""), ("Candy_list", "reopen", 300, "Candy_list", ALL, ""),
            ("Candy_queue", "reopen", 200, "Candy_queue5", ALL, ""), ("Candy_big", "reopen", ALL, "Candy_big", ALL, "")],
    "C04": [("Candy_kv", "crash", 250, "Candy_kv", 4000, "")],
    "C09": [("Candy_list", "seq", 1200, "Candy_list6", 20000, "")],
    "C10": [("Candy_list", "pair", 1500, "Candy_list6", 30000, "")],
    "C11": [("Candy_list", "crash", 250, "Candy_list6", 6000, "")],
    "C12": [("Candy_queue", "seq", ALL, "Candy_queue5", 20000, "")],
    "C13": [("Candy_queue", "pair", 1500, "Candy_queue5", 30000, "")],
    "C14": [("Candy_queue", "crash", 200, "Candy_queue5", 6000, ""), ("Candy_big", "crash", 30, "Candy_big", 500, "")],
    "C15": [("Candy_big", "seq", ALL, "Candy_big", ALL, "")],
    "C16": [("Candy_mix", "seq", 800, "Candy_mix4", 20000, "")],
    "C19": [("Candy_kv", "clear", ALL, "Candy_kv", ALL, ""), ("Candy_list", "clear", 150, "Candy_list", 2000, ""),
            ("Candy_queue", "clear", 100, "Candy_queue", 2000, ""), ("Candy_big", "clear", 50, "Candy_big", ALL, "")],
    "C20": [("Candy_kv", "stats", ALL, "Candy_kv", ALL, ""), ("Candy_list", "stats", 250, "Candy_list", 4000, ""),
            ("Candy_queue", "stats", 150, "Candy_queue", 4000, ""), ("Candy_big", "stats", 50, "Candy_big", ALL, "")],
    "C26": [("Candy_kv", "fault", 400, "Candy_kv", 4000, ""), ("Candy_list", "fault", 300, "Candy_list", 4000, ""),
            ("Candy_queue", "fault", 300, "Candy_queue", 4000, ""), ("Candy_big", "fault", 100, "Candy_big", 1000, "")],
}

# recorded lock programs put side by side in spec/LockProgs.tla: (harness feature, scripts in quick, in thorough)
LOCKS = {"C23": [("", 300, 4000), ("agg", 100, 2000)]}

ASSUMPTIONS = [
    "sequentially consistent memory: threads are interleaved at locks, system calls, thread operations and recorded file mutations by the harness's scheduler",
    "a crash keeps every completed store to a mapped file and every completed system call (process crash); C24 separately judges what was data-synced",
    "keys do not collide in the full 64-bit list-name hash",
    "TLC and the recording harness are trusted; the harness replaces parking_lot by a shim with the same interface",
]


def profiles(pid, tier):
    for prof, feat, q, t in PROF.get(pid, []):
        yield prof, feat, (q if tier == "quick" else t), (60 if tier == "quick" else 3600)


def specs(pid, tier):
    for name, q, t in SPECS.get(pid, []):
        cfg = q if tier == "quick" else t
        if cfg:
            yield name, cfg


def walks(pid, tier):
    for c, mode, n, c2, n2, feat in WALKS.get(pid, []):
        yield (c, mode, n, feat) if tier == "quick" else (c2, mode, n2, feat)


def locks(pid, tier):
    for feat, q, t in LOCKS.get(pid, []):
        yield feat, q if tier == "quick" else t
