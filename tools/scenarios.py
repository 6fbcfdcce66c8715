"""Which scenarios (functions of the harness) decide which property, and how.

An entry is NAME or (NAME, {options}).  Options: hb (happens-before analysis: off,
writes, full), preempt (bound on preemptions), fix (symbols given a value), split
(symbols, with their number of values: one run of the engine for each combination),
time (limit in seconds), est (expected seconds, to start long ones first).
"""
import itertools

BUDGET = {"quick": 330, "thorough": 820}

ASSUMPTIONS = [
    "papaya is instantiated with the key, value and hasher types of the harness (keys and values with drop accounting; "
    "the hash of each key is chosen by the scenario, often symbolic)",
    "seize is replaced by a model (/verif/model-seize) with the earliest reclamation its contract allows: a retired object "
    "is reclaimed as soon as every guard that was active when it was retired is gone",
    "x86_64, as compiled by rustc 1.90 with optimisations; interleaving semantics of atomic operations (the happens-before "
    "relation is computed from the declared orderings); compare_exchange_weak fails spuriously in the scenarios w_* only, at most "
    "once or twice per thread; in the scenarios o_* at most one or two loads per thread read one of the three values before the last, "
    "where the declared orderings allow it (loads never read values stored later in the interleaving: no load buffering)",
    "mutexes, condition variables, parking, thread identity and the allocator are the engine's",
    "the engine, its models of intrinsics, rustc's translation to LLVM IR and z3 (executions are replayed natively to check them)",
]

UB = "memory,panic,abort,unreachable"
# results of operations: linearizability, sequential results, contents
RESULT = "assert:10,assert:12-15,assert:20,assert:101,assert:501-502,assert:601-602," + UB
WHOLE = RESULT + ",assert:16-17,assert:701-702,assert:801-803"

# ---------------------------------------------------------------- groups
FLAT = ["f_ww0", "f_ww1", "f_wwd", ("f_wr", {"est": 7}), ("f_3", {"split": [("1.0", 4)], "est": 4})]
# a slot that changes hands while an operation looks at it
FLATN = ["f_nn", ("f_ir", {"est": 5}), "f_rg", ("f_ri", {"est": 9})]
# as FLAT, pinned
PINNED = [("fp_0", {"est": 4}), ("fp_1", {"est": 10})]
# operations within the functions of the user
NEST1 = [("x_0", {"est": 10}), ("x_1", {"est": 21}), "x_pin", "x_ti", "x_ti8", "x_tb", "x_n", "x_pm"]
NESTM = [("x_m", {"est": 15})]
NESTA = ["x_a", "x_am", "x_ati", "x_atb"]
NESTH = [("x_h", {"est": 11})]
# compare_exchange_weak failing spuriously
WEAK = [("w_1", {"est": 5}), ("w_2", {"est": 5}), "w_m", ("w_m2", {"est": 5})]
WEAK_T = ["w_mw", "w_t", "w_b"]
# loads that read earlier values (weak memory)
OLD = [(n, {"hb": "writes", **o}) for n, o in [("o_ww", {}), ("o_wr", {"est": 7}), ("o_n", {}), ("o_mp", {"est": 11}), ("o_z", {}), ("o_m", {}), ("o_mr", {"est": 4}), ("o_h", {}), ("o_a", {"est": 4})]]
OLD_R = [(n, {"hb": "writes", **o}) for n, o in [("o_ti", {"est": 8}), ("o_tb", {"est": 19}), ("o_rb", {"est": 22}), ("o_pk", {"preempt": 3, "est": 5}), ("o_ti8", {"preempt": 3, "est": 5})]]
OLD_T = [(n, {"hb": "writes", **o}) for n, o in [("o_2", {"split": [("1.0", 4)], "est": 60}), ("o_ri", {"preempt": 3, "est": 17}), ("o_am", {"preempt": 2, "est": 14}), ("o_hm", {"preempt": 2, "est": 95})]]
# lookups and iterations of one thread; what follows when a slot has changed hands
SEES = ["i_g", "i_gd", ("i_gt", {"est": 20}), "i_gb", "i_gm"]
AFTER = [("f_irt", {"est": 6}), ("f_rit", {"est": 8}), "f_nnt"]
SEES_O = [("i_go", {"hb": "writes"})]
# two keys for one slot, then lookups
TWOK = [("f_two", {"est": 9}), ("m_two8", {"est": 25})]
TWOK_T = [("e_twob", {"est": 50}), ("e_two2", {"est": 150})]
# threads that share a shard of the counter
SHARD = ["f_col", "f_col1"]
INIT = ["z_2"]
MID = [("m_ww", {"est": 7}), ("m_wwd", {"est": 9}), ("m_wr", {"est": 9}), "m_full"]
INC = ["ti_w", "ti_w8", "ti_wf", "ti_2"]
# threads waiting for different entries
PARK = [("m_pk", {"est": 6}), ("m_pk8", {"est": 6})]
PARK2 = [("m_pks", {"preempt": 3, "est": 10}), ("tb_pks", {"preempt": 3, "est": 9})]
PARK_T = [("m_pk3", {"est": 50}), ("m_pks", {"est": 150}), ("tb_pks", {"est": 150}), ("m_pks2", {"preempt": 3, "est": 9})]
# empty slots in the table being copied
EMPTY = ["e_ww", ("e_i", {"est": 16})]
EMPTY_T = [("e_b", {"est": 85}), ("e_bc", {"est": 85}), ("e_i4", {"est": 235}), ("e_3", {"preempt": 3, "est": 100})]
BLK = [("tb_w", {"est": 8}), ("tb_wf", {"est": 4}), ("tb_r", {"est": 6}), ("tb_2", {"est": 10})]
# blocking copies in several chunks
CHUNK = [("tc_w", {"est": 40}), ("tc_wf", {"est": 20})]
CHUNK_T = [("tc_w3", {"est": 87}), ("tc_w1", {"preempt": 3, "est": 100}), ("rc_b", {"est": 124}), ("tc_2", {"split": [("2.0", 4)], "est": 100})]
# the end of a probe sequence (equal hashes)
PROBE = [("c_1", {"est": 6}), ("c_1i", {"est": 5}), ("c_2", {"est": 8})]
NEST = ["n_inc", ("n_inc2", {"est": 10})]
RES = [("r_b", {"est": 12}), ("r_i", {"est": 14})]
ABORT = [("ab_3", {"preempt": 3, "est": 20})]
ABORT_T = [("ab_2", {"preempt": 2, "est": 75}), ("abc_2", {"preempt": 2, "est": 95}), ("abc_3", {"preempt": 3, "est": 67}), ("ab_3", {"est": 400})]
PDUO = [("pd_none", {"est": 4}), ("pd_one", {"est": 6}), ("pd_mid", {"est": 14}), ("pd_tb", {"est": 36})]
HELD = [("h_each", {"est": 26}), "h_own", "h_sent", "h_pin", "h_pino", ("h_mid", {"est": 16})]

FLAT_T = [("f_2x2", {"split": [("1.0", 8), ("2.0", 8)], "est": 40}), ("f_2x2e", {"split": [("1.0", 8), ("2.0", 8)], "est": 30}),
          ("f_nb", {"split": [("1.0", 8), ("2.0", 3)], "est": 8}), ("f_nb2", {"split": [("1.0", 8), ("2.0", 3)], "est": 11})]
INIT_T = [("z_3", {"est": 43})]
MID_T = [("m_2x2", {"split": [("1.0", 4), ("2.0", 4)], "est": 12}), ("m_3", {"split": [("1.0", 4), ("2.0", 4)], "est": 60})]
BLK_T = [("tb_3", {"split": [("2.0", 4), ("3.0", 4)], "est": 60})]
HELD_T = [("h_tb", {"est": 58}), ("h_midd", {"split": [("1.0", 12)], "est": 60}), ("h_3", {"est": 150})]
ALLOPS = [("a_one", {"est": 73, "split": [("1.0", 5)]}), ("a_inc", {"est": 36, "split": [("1.0", 5)]}), ("a_mmb", {"est": 7})]
ALLOPS_T = [("a_inc2", {"split": [("1.0", 5), ("2.0", 7)], "est": 30}), ("a_ti", {"est": 83, "split": [("1.0", 5)]}),
            ("a_tb", {"split": [("1.0", 5), ("2.0", 7)], "est": 30}), ("a_mm", {"split": [("1.0", 5), ("2.0", 5)], "est": 60}),
            ("n_many", {"est": 78, "split": [("1.0", 5)]})]
SEQ = [("q_two", {"est": 54}), ("q_three", {"split": [("3", 8)], "est": 16}), ("q_four", {"est": 13}), ("q_mid3", {"est": 8}),
       ("q_nest", {"est": 13}), "q_coll", ("q_caps", {"est": 16})]
SEQ_T = [("q_lazy", {"split": [("4", 30)], "est": 8}), ("q_mid", {"split": [("5", 30)], "est": 20}),
         ("q_midf", {"split": [("5", 30)], "est": 20}), ("q_grow", {"split": [("5", 5), ("6", 30)], "est": 20})]
ACC = [("q_accm", {"split": [("1", 4)], "est": 4})]
ACC_T = [("q_acc0", {"split": [("4", 4), ("5", 30)], "est": 10}), ("q_acc1", {"split": [("4", 4), ("5", 30)], "est": 10})]
TYPES = ["y_zst", "y_zstv", "y_zstk", "y_bool", "y_three", "y_u128", "y_wide", "y_big", "y_box"]
TYPES_S = ["ys_zst", "ys_u8", "ys_box", "ys_wide"]
SET = [("s_any", {"est": 10}), ("s_acc", {"est": 11}), ("s_mid", {"est": 6}), ("s_grow", {"est": 16}), "sc_one", "sc_pin", "sc_mid", "sc_tb"]


def hb(l, mode="full"):
    return [((n, {}) if isinstance(n, str) else n) for n in l and [(x, {"hb": mode}) if isinstance(x, str) else (x[0], {**x[1], "hb": mode}) for x in l]]


PROPS = {
    "C01": {
        "accept": RESULT,
        "quick": FLAT + FLATN + WEAK + INIT + MID + INC + BLK + PARK[:1] + EMPTY[:1] + PROBE + ["n_inc"] + OLD[:7] + OLD_R[:1] + NEST1 + NESTM + PARK2[:1] + SEES[:2] + AFTER + TWOK,
        "thorough": FLAT_T + WEAK_T + INIT_T + MID_T + BLK_T + NEST[1:] + CHUNK + CHUNK_T + EMPTY[1:] + EMPTY_T + PARK_T + [("h_mid", {"est": 16})] + OLD_R[1:] + OLD_T,
        "bounds": "2 threads with 1-2 operations each or 3 with one (any choice out of lists covering every single-key "
                  "operation), 1-2 contended keys whose slots and metadata are symbolic; tables of 8, 16 and 32 slots, empty, with "
                  "tombstones, full, in the middle of or at the start of incremental and blocking resizes; all schedules",
    },
    "C02": {
        "accept": "race," + UB,
        "quick": hb(["f_ww0", "f_ww1", ("f_wr", {"est": 10}), ("m_ww", {"est": 13}), ("m_wr", {"est": 17}), "ti_w", ("tb_w", {"est": 22}), "z_2",
                     ("h_each", {"est": 30}), "h_own", "m_full", "n_inc", "sc_pin", "sc_one", "pc_one", "pc_mid", ("tb_wf", {"est": 15}), "tb_r", "f_nn", "f_rg", "e_ww", ("m_pk", {"est": 10}), ("r_b", {"est": 38}), ("n_inc2", {"est": 14}), ("a_tb", {"fix": [("1.0", 2)], "est": 10}), ("a_ti", {"fix": [("1.0", 2)], "est": 10})]) + hb(OLD[1:6] + OLD[7:8]) + hb(PARK2),
        "thorough": hb(FLAT[4:] + INIT_T + [("m_wwd", {"est": 20})] + INC[1:] + BLK[3:] + RES[1:] + ALLOPS + HELD[2:] + ["sc_mid", "sc_tb", "pc_tb"] + MID_T[:1] + CHUNK + EMPTY[1:] + PARK[1:] + PDUO + ABORT) + hb(OLD_R[:2]),
        "bounds": "as C01, C03 and C06; every non-atomic access of papaya, of the keys and values and of the harness's "
                  "unsynchronised counters is checked against all earlier conflicting accesses, with happens-before as declared "
                  "by the orderings (release sequences and fences included)",
    },
    "C03": {
        "accept": "memory,abort,unreachable,panic,assert:11,assert:401-403",
        "quick": HELD + ["f_ww1", "z_2", ("m_ww", {"est": 8}), ("tb_w", {"est": 13}), "ti_w", ("a_mmb", {"est": 7}), "n_inc", ("n_inc2", {"est": 10}), ("q_nest", {"est": 7}), ("q_mid3", {"est": 5}), "q_coll", "sc_one", "sc_mid", ("e_i", {"est": 16})] + PARK[:1] + CHUNK[1:] + TYPES + TYPES_S + OLD[7:8] + OLD[5:6] + NESTH + NEST1[2:] + NESTA,
        "thorough": HELD_T + ALLOPS + ALLOPS_T[:2] + NEST[1:] + RES + BLK + INIT_T + FLAT[4:] + OLD_T[3:] + OLD_R[:1],
        "bounds": "a guard or pinned map held over one operation returning references while other threads perform one or two "
                  "operations (insert, update, remove, compute, clear, retain, resizes); every access of every execution is checked "
                  "for validity (freed, out of bounds, wrong layout on free)",
    },
    "C04": {
        "accept": "leak,assert:401-404,memory,abort,unreachable,panic",
        "quick": FLAT[:3] + FLATN[:2] + WEAK[:1] + WEAK[2:3] + INIT + MID + INC + BLK[:2] + RES[:1] + ABORT + NEST[:1] + ["e_ww", ("q_two", {"est": 40}), "q_mid3", ("q_caps", {"est": 16}), "q_coll", ("b_clone", {"est": 22}), "s_mid", "sc_mid", ("h_own", {})] + NEST1[:1] + NEST1[2:] + NESTA,
        "thorough": FLAT[4:] + INIT_T + MID_T + BLK[2:] + BLK_T + RES[1:] + NEST[1:] + ALLOPS + FLAT_T[2:] + CHUNK + EMPTY[1:] + EMPTY_T[:2] + ABORT_T + ["q_nest", "s_grow", "b_collect"],
        "bounds": "as C01 and C06, the map dropped in whatever state the operations leave it; every key and value counted, every "
                  "allocation of the execution accounted for",
    },
    "C05": {
        "accept": WHOLE + ",assert:401-404,leak,nontermination,deadlock",
        "quick": SEQ + PROBE[:2] + TYPES + NESTM + NEST1[3:7],
        "thorough": SEQ_T,
        "bounds": "sequences of 2-5 operations, each any of up to 30 (all operations of the map), for all 64-bit hashes of up to 3 "
                  "keys (two keys for the longest list), and in the middle of incremental resizes, of nested resizes, and for equal "
                  "hashes of 12 keys; capacities 0-13 and chunk sizes 1, 2, 3, 8, 64 and blocking; "
                  "keys and values of other sizes and alignments (none, 1, 3, 8, 16, 72 bytes, alignment 64, boxes)",
    },
    "C06": {
        "accept": WHOLE + ",assert:401-403,leak,deadlock,nontermination",
        "quick": MID + INC + BLK + NEST + RES + EMPTY + CHUNK[1:] + PARK[:1] + [("h_mid", {"est": 16})] + ["sc_mid", "sc_tb"] + OLD[5:7] + OLD_R[:2] + NESTM + NEST1[3:] + PARK2 + NESTA[1:] + TWOK[1:],
        "thorough": MID_T + BLK_T + CHUNK[:1] + CHUNK_T + EMPTY_T + TWOK_T + PARK_T + ALLOPS[1:] + ALLOPS_T + ABORT + ABORT_T + HELD_T[:1] + OLD_R[2:] + OLD_T[1:2],
        "bounds": "2-3 threads; resizes from 8 to 8, 16 or 32 slots, incremental (chunks of 1, 2, 4, 8 slots) and blocking, "
                  "started by an insertion or reserve or in any stage of completion, up to three tables at once",
    },
    "C07": {
        "accept": "assert:701-702," + UB,
        "quick": FLAT + FLATN + INIT + MID + INC + BLK[:3] + ["e_ww"] + NEST[:1] + RES[:1] + [("a_mmb", {"est": 7}), "sc_one", "sc_mid", "sc_tb", "q_mid3", ("q_four", {"est": 13})] + NEST1 + NESTA + AFTER + SHARD,
        "thorough": FLAT_T[2:] + MID_T + INIT_T + BLK[3:] + RES[1:] + NEST[1:] + ALLOPS + ALLOPS_T + SEQ[:2] + ["s_any"],
        "bounds": "as C01, C06 and C09: len() and is_empty() are compared with the keys found after every execution",
    },
    "C08": {
        "accept": "assert:10,assert:16-17,assert:101,assert:801-803," + UB,
        "quick": [("a_one", {"fix": [("1.0", 2)], "est": 20}), ("a_one", {"fix": [("1.0", 3)], "est": 20}), ("a_inc", {"fix": [("1.0", 2)], "est": 20}),
                  ("a_inc", {"fix": [("1.0", 3)], "est": 20}), ("a_ti", {"fix": [("1.0", 2)], "est": 20}), ("a_tb", {"fix": [("1.0", 2)], "est": 20}),
                  ("a_mmb", {"est": 7}), ("h_each", {"est": 26}), "sc_one", "sc_mid", "sc_tb", "q_mid3", "q_nest"] + OLD[8:] + NESTA + SEES + SEES_O,
        "thorough": ALLOPS + ALLOPS_T + [("q_mid", {"fix": [("5", 22)], "est": 20}), ("q_midf", {"fix": [("5", 22)], "est": 20}), ("q_mid", {"split": [("5", 30)], "est": 20})] + OLD_T[2:3],
        "bounds": "iter, keys, values of one thread against 1-2 operations of another (inserts, updates, removals, clear, retain, "
                  "reserve, another iteration) in tables of 8-32 slots, during incremental and blocking resizes; each key's presence "
                  "is linearizable, no entry twice unless removed meanwhile",
    },
    "C09": {
        "accept": WHOLE,
        "quick": [("a_one", {"fix": [("1.0", 0)], "est": 20}), ("a_one", {"fix": [("1.0", 1)], "est": 20}), ("a_inc", {"fix": [("1.0", 0)], "est": 20}),
                  ("a_inc", {"fix": [("1.0", 1)], "est": 20}), ("a_ti", {"fix": [("1.0", 0)], "est": 20}), ("a_ti", {"fix": [("1.0", 1)], "est": 20}),
                  ("a_mmb", {"est": 7}), "sc_one", "sc_mid", "sc_tb", "q_mid3", "q_nest", "w_mw"] + OLD[8:] + NESTA,
        "thorough": ALLOPS + ALLOPS_T + SEQ_T[1:3] + ["s_any", "s_mid"] + OLD_T[2:3],
        "bounds": "clear or retain (with a predicate on the value) of one thread against 1-2 operations of another, likewise",
    },
    "C10": {
        "accept": RESULT + ",assert:401-403",
        "quick": FLAT + FLATN + MID + INC + BLK[:2] + WEAK + ["e_ww", "c_2", "pc_one"] + OLD[:1] + OLD[5:6] + NEST1 + NESTM + AFTER,
        "thorough": FLAT_T + WEAK_T + MID_T + BLK[2:] + BLK_T + NEST + CHUNK + EMPTY[1:] + EMPTY_T,
        "bounds": "as C01, with closures that count their calls and reject values nobody stored (8v+c on update)",
    },
    "C11": {
        "accept": "deadlock,nontermination",
        "quick": BLK + RES + ABORT + PARK + CHUNK[1:] + INIT + MID[:1] + MID[3:] + INC[:3] + EMPTY[:1] + NEST[:1] + ["t_coll31", "t_inc0", "t_coll", "t_collb", "pc_one", "pc_mid", "pc_tb", ("a_mmb", {"est": 7}), "q_coll"] + OLD_R + OLD[5:6] + PARK2 + NEST1[3:7],
        "thorough": BLK_T + INIT_T + MID_T + INC[3:] + NEST[1:] + ALLOPS + ALLOPS_T + ABORT_T + CHUNK[:1] + CHUNK_T + EMPTY[1:] + EMPTY_T + PARK_T + PDUO + [("tb_w", {"hb": "full", "est": 25})] + OLD_T[1:2],
        "bounds": "every execution of the scenarios ends: no state without a runnable thread, no thread that runs alone for more "
                  "than 400000 instructions without an end; blocking and incremental resizes, aborted resizes, 2-3 threads",
    },
    "C12": {
        "accept": "assert:10-99,assert:401-403,assert:701-702," + UB,
        "quick": ["g_map", "g_set", "g_two"],
        "thorough": [],
        "bounds": "every method taking a guard, any map state out of empty, allocated, in the middle of a resize; local and owned guards",
    },
    "C13": {
        "accept": "assert,nontermination," + UB,
        "quick": ["k_build", ("k_reserve", {"est": 11}), ("k_sreserve", {"est": 9}), "k_sfit", "k_new", "k_fit", ("k_fitany", {"est": 6}), "k_refit", ("k_shrink", {"est": 15}),
                  ("q_caps", {"est": 16, "accept": UB})] + TYPES[4:8],
        "thorough": [],
        "bounds": "all 64-bit capacities through the size arithmetic up to the allocation; insertions after the request for tables up to 64 slots",
    },
    "C14": {
        "accept": "assert,leak,nontermination," + UB,
        "quick": SET + ["b_set", "b_sserde", "i_set", "g_set"] + TYPES_S,
        "thorough": [("p_set", {})],
        "bounds": "sequences of 2-4 set operations on two elements with any 64-bit hashes, in and across resizes, through guards and "
                  "pinned sets; 2 threads with 1-2 operations each",
    },
    "C15": {
        "accept": WHOLE + ",assert:11,assert:401-404,leak",
        "quick": ACC + [("s_acc", {"est": 11}), "h_pin", "h_pino", ("q_acc1", {"split": [("4", 4)], "fix": [("0", 0), ("2", 0)], "est": 20}), "p_pin", "sc_pin"] + PINNED + ["x_pin", "x_pm"],
        "thorough": ACC_T,
        "bounds": "each of the 30 operations, twice in sequence, through a guard, an owned guard, pin and pin_owned on symbolic "
                  "map states, all compared with the same reference map",
    },
    "C16": {
        "accept": "assert,leak," + UB,
        "quick": [("b_eq", {"est": 9}), ("b_clone", {"est": 22}), "b_hasher", ("b_collect", {"est": 19}), "b_many", "b_set", "b_serde", "b_sserde", "b_refs", "b_array", "b_debug"],
        "thorough": [],
        "bounds": "maps and sets of up to 9 entries in any of 8 resize states and modes with symbolic keys, values and slots; up to 40 entries for bulk construction",
    },
    "C17": {
        "accept": "assert,deadlock,nontermination," + UB,
        "quick": [("p_calm", {"est": 41}), "p_pin", ("p_mid", {"est": 12}), "p_hash0", "p_hashi", "p_hashb", "p_set", "p_clone", "pc_one", "pc_mid", "pc_tb"] + PDUO[:3],
        "thorough": PDUO[3:] + [("pc_mid", {"hb": "full"}), ("pc_tb", {"hb": "full"})],
        "bounds": "the first, second or third call of a closure, Hash, Eq or Clone within any of 22 operations panics, in flat "
                  "tables and during incremental resizes; another thread operates at the same time",
    },
    "C18": {
        "accept": "assert," + UB,
        "quick": ["i_insert", "i_ins2", ("i_try", {"est": 9}), "i_set"],
        "thorough": [],
        "bounds": "each inserting operation on a present key with symbolic identities of the key objects, in flat tables and during resizes",
    },
}


def jobs(prop, tier):
    p = PROPS[prop]
    out = []
    for tr in ("quick", "thorough"):
        if tr == "thorough" and tier == "quick":
            continue
        l = []
        for e in p[tr]:
            name, o = (e, {}) if isinstance(e, str) else e
            o = {"est": 3, **o, "name": name}
            o.setdefault("accept", p["accept"])
            if any(x["name"] == name and x.get("hb") == o.get("hb") and x.get("split") == o.get("split") and x.get("fix") == o.get("fix") for x in out + l):
                continue
            l.append(o)
        for o in sorted(l, key=lambda o: -o["est"]):
            sp = o.get("split")
            if not sp:
                out.append({**o, "group": len(out)})
                continue
            g = len(out)
            for vs in itertools.product(*[range(n) for _, n in sp]):
                out.append({**o, "fix": o.get("fix", []) + [(k, v) for (k, _), v in zip(sp, vs)], "group": g})
    return out
