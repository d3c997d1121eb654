"""Which scenarios of the specification decide which property, and what is compared.

A plan names, per tier, scenarios with a weight: for random scenarios (TLC
-simulate) (parallel runs, behaviours per run), for exhaustive ones (TLC's
breadth first search, spec/Scenarios.tla) the number of slices the set of
configurations is split into.
"""

SIMS = ["attr", "attrcut", "life", "net", "frames", "file"]
BFSS = ["b_attr", "b_attr0", "b_attrcut", "b_names", "b_classes", "b_spawn", "b_resolve", "b_width", "b_ids", "b_life", "b_life1",
        "b_frames", "b_prim", "b_primcut", "b_spawncut", "b_text", "b_props", "b_ftext", "b_bytes", "b_lists", "b_arrays", "b_sizes", "b_filecut", "b_policy", "b_nest", "b_inst", "b_alias", "b_longkind", "b_longobj", "b_again", "b_againh", "b_near", "b_nearnet", "b_place", "b_placenet", "b_kin", "b_scale", "b_crowd", "b_body", "b_vast"]
SCENARIOS = {n: {"mode": "sim"} for n in SIMS}
SCENARIOS.update({n: {"mode": "bfs"} for n in BFSS})
SCENARIOS["b_prim"]["tails"] = 25
SCENARIOS["b_scale"]["noprop"] = SCENARIOS["b_crowd"]["noprop"] = True    # long behaviours without branching: nothing temporal to find, much to store
CRC = ("Crc.tla", "crc.cfg")
SCENARIOS["crc_one"] = {"mode": "bfs", "root": CRC, "sub": "crc"}
SCENARIOS["crc_long"] = {"mode": "bfs", "root": CRC, "sub": "crc"}
SCENARIOS["crc_huge"] = {"mode": "bfs", "root": CRC, "sub": "crc"}
SCENARIOS["crc_sim"] = {"mode": "sim", "root": CRC, "sub": "crc"}
# slices worth the start-up cost of a TLC process
SLICES = {"b_attr": 8, "b_attr0": 4, "b_attrcut": 8, "b_names": 2, "b_classes": 2, "b_spawn": 2, "b_resolve": 4, "b_width": 1, "b_ids": 2, "b_life": 8, "b_life1": 8,
          "b_frames": 6, "b_prim": 4, "b_primcut": 4, "b_spawncut": 4, "b_text": 2, "b_props": 8, "b_ftext": 4, "b_bytes": 4, "b_lists": 4, "b_arrays": 2, "b_sizes": 2, "b_filecut": 4,
          "b_policy": 4, "b_nest": 2, "b_inst": 2, "b_alias": 4, "b_longkind": 2, "b_longobj": 1, "b_again": 4, "b_againh": 2, "b_near": 4, "b_nearnet": 2, "b_place": 4, "b_placenet": 4, "b_kin": 4, "b_scale": 8, "b_crowd": 4, "b_body": 4, "b_vast": 1, "crc_one": 4, "crc_long": 4, "crc_huge": 4}


def plan(aspects, quick, thorough=None, **kw):
    """quick: names of exhaustive scenarios, or (random scenario, runs, behaviours)"""
    q, t = [], []
    for x in quick:
        if isinstance(x, str):
            q.append((x, SLICES[x]))
            t.append((x, 8))
        else:
            q.append((x[0], (x[1], x[2])))
            t.append((x[0], (8, 6000)))
    for x in thorough or []:
        t.append((x, 8) if isinstance(x, str) else (x[0], (x[1], x[2])))
    if any(not isinstance(x, str) for x in quick) and "crc" not in aspects:
        # replays the specification reads: corrupted ones, and the repository's own
        kw["steps"] = {"quick": [("mutants", 2000), ("real", 24, 3000, 20)], "thorough": [("mutants", 20000), ("real", 400, 4000, 30), ("real", 64, 60000, 600)]}
    return dict(aspects=aspects, quick=q, thorough=t, **kw)


PLANS = {
    "C01": plan(["total", "tailnest"], [("attr", 1, 600), ("attrcut", 2, 700), ("life", 1, 300), ("net", 2, 700), ("frames", 1, 700), ("file", 2, 700),
                "b_nest", "b_sizes", "b_arrays", "b_lists", "b_width", "b_resolve", "b_text", "b_spawn", "b_frames", "b_longkind", "b_longobj", "b_names", "b_classes", "b_again", "b_near", "b_placenet"], ["b_filecut", "b_attr", "b_props"]),
    "C02": plan(["policy"], [("file", 6, 900), "b_policy", "b_sizes"], ["b_filecut"]),
    "C03": plan(["crc"], ["crc_one", "crc_long", "crc_huge", ("crc_sim", 4, 3000)]),
    "C04": plan(["policy"], [("file", 3, 800), ("net", 3, 800), ("frames", 1, 500), "b_policy"], ["b_filecut"]),
    "C05": plan(["file"], [("file", 6, 1000), "b_props", "b_nest", "b_arrays", "b_longkind", "b_againh", "b_near"]),
    "C06": plan(["file"], [("file", 7, 1200), "b_lists", "b_sizes", "b_policy"]),
    "C07": plan(["file", "net"], [("file", 2, 700), ("attr", 2, 700), "b_text", "b_ftext", "b_bytes", "b_place", "b_placenet"]),
    "C08": plan(["file", "net", "alloc", "tailnest"], [("file", 2, 600), ("net", 1, 600), ("attrcut", 1, 600), "b_lists", "b_arrays", "b_sizes", "b_nest", "b_text", "b_ftext", "b_frames", "b_width", "b_again", "b_againh"]),
    "C09": plan(["net"], [("life", 4, 500), ("net", 2, 700), "b_life", "b_life1", "b_ids", "b_alias", "b_again"]),
    "C10": plan(["net"], [("net", 6, 1200), "b_resolve", "b_width", "b_classes", "b_inst", "b_nearnet"]),
    "C11": plan(["net"], [("net", 3, 800), "b_spawn", "b_spawncut", "b_classes", "b_inst", "b_nearnet"]),
    "C12": plan(["net"], [("attr", 3, 800), ("attrcut", 2, 800), "b_prim", "b_primcut", "b_attr0"]),
    "C13": plan(["net"], [("attr", 6, 1200), ("attrcut", 2, 1200), "b_attr", "b_attr0", "b_nearnet"]),
    "C14": plan(["net"], [("net", 2, 700), "b_names", "b_classes", "b_spawn", "b_inst", "b_nearnet"]),
    "C15": plan(["net"], [("frames", 6, 1200), "b_frames", "b_again"]),
    "C16": plan(["net", "file", "trunc"], [("net", 2, 500), ("attr", 1, 500), ("file", 2, 500), ("frames", 1, 500), ("attrcut", 1, 1000), "b_filecut", "b_attrcut", "b_primcut", "b_spawncut", "b_again"]),
    "C17": plan(["net", "neterr", "file", "fileerr", "msg"], [("net", 2, 800), ("attrcut", 2, 1200), ("file", 3, 800), ("frames", 1, 800), ("life", 1, 400), "b_filecut", "b_policy", "b_sizes", "b_resolve", "b_longkind", "b_longobj", "b_again", "b_near", "b_nearnet"], ["b_attrcut"]),
    "C18": plan(["json"], [("attr", 3, 1000), ("file", 3, 800), ("net", 2, 700), "b_props", "b_bytes", "b_attr0", "b_again", "b_againh", "b_place"], ["b_attr"]),
    "C19": plan(["serde"], [("attr", 4, 1200), ("net", 2, 700), ("frames", 1, 500), "b_attr0", "b_attr", "b_text", "b_again", "b_placenet"]),
    "C20": plan(["pure"], [("attr", 1, 500), ("file", 2, 600), ("net", 3, 800), ("life", 1, 300), "b_resolve", "b_classes"], ["b_attr0"]),
    "C21": plan(["access"], [("file", 6, 1000), ("life", 1, 300), ("attr", 1, 600), "b_props", "b_arrays", "b_ids", "b_width", "b_alias", "b_bytes", "b_near"]),
}

# scenarios that several properties share
SHARED = {"b_kin": ("C11", "C14", "C17", "C20"), "b_scale": ("C01", "C08", "C09", "C10", "C17"), "b_crowd": ("C01", "C08", "C09", "C17"), "b_body": ("C06", "C07", "C18"), "b_vast": ("C01", "C17")}
for name, ids in SHARED.items():
    for i in ids:
        PLANS[i]["quick"].append((name, SLICES[name]))
        PLANS[i]["thorough"].append((name, 8))

PLANS["C20"]["steps"]["quick"].append(("orders",))
PLANS["C20"]["steps"]["thorough"].append(("orders",))

# here the scenarios also decide the temporal properties of the specification
for i in ("C01", "C02", "C05", "C06", "C08", "C15", "C16"):
    PLANS[i]["prop"] = True

# what each check establishes, and where it stops
COMMON = "The specification's own invariants are checked by TLC in every state; the implementation is compared on the behaviours TLC visits, so the verdict covers those behaviours: exhaustive within the scenarios named b_*, sampled (seeded) for the others. "
NOTES = {i: COMMON for i in PLANS}
NOTES["C01"] += "Totality of the code is observed on each behaviour under all nine policies, with overflow and debug assertions on."
NOTES["C03"] += "Every byte value at each of 36 positions, all remainder lengths and all 16 alignments; longer data against a bit-serial transcription that is itself checked against the specification."
NOTES["C08"] += "Memory is measured by a counting allocator against 8 MB, 700 kB for each of the first 64 array properties, and 40 bytes per input byte without network data or 2000 with."
NOTES["C20"] += "Schedules are sampled by repeating parses in threads, at different alignments, and in separate processes that parse the same inputs forwards, backwards, and shuffled."
