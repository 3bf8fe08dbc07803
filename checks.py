"""What each property's check runs: harness entries, bounds, witnesses."""
COMMON_ASSUMPTIONS = [
    "the encoding is the whole-program LLVM IR (dev profile: debug assertions and overflow checks on) of the harness, the crates in /repo, their dependencies and std, regenerated from the working tree on every run",
    "threads interleave sequentially consistently at atomic and ghost operations, up to the stated number of preemptions (blocking and finished threads switch for free; a thread that spins for 300 visible operations is switched away); weaker memory orderings are judged only through the happens-before race detector runs",
    "weak compare-exchange does not fail spuriously; allocation does not fail; uninitialised memory reads as zero",
    "stand-ins: memchr (scalar loop), the pseudo-random index of select! (any index), thread::park/futex/TLS/environment (models in the executor)",
    "states whose memory and control are equal are explored once (64-bit hash)",
    "choices (schedules, readiness, operation sequences) are symbolic inputs split by value during path exploration; data values stay symbolic and are decided by z3",
]


def H(entry, params=(), covers=(), bounds="", **kw):
    d = dict(entry=entry, params=list(params), covers=list(covers), bounds=bounds)
    d.update(kw)
    return d


def TH(entry, params=(), covers=(), bounds="", preempt=2, **kw):
    """threaded harness: interleavings, plus the same schedules under the data-race detector"""
    rp = kw.pop("race_preempt", min(preempt, 2))
    return [H(entry, params, covers, bounds, preempt=preempt, thorough=dict(preempt=preempt + 1), **kw), H(entry, params, [], bounds, preempt=rp, race=True, thorough=dict(preempt=rp + 1), **kw)]


PROPS = {}
PROPS["C01"] = {
    "feature": "oneshot_h",
    "harnesses": [
        H("h_os_model", [5], range(8), "every sequence of 5 calls on the two handles", thorough=dict(params=[7]), jobs=4),
        *TH("h_os_send", [], [1, 2], "2 threads", preempt=3),
        *TH("h_os_cancel", [], [1], "2 threads", preempt=3),
        *TH("h_os_close", [], [1, 2, 3], "2 threads", preempt=3),
    ],
}
MP_MODEL2 = H("h_mp_model2", [5], [0, 1, 2, 4, 5, 7, 20, 21], "every sequence of 5 calls (try_send, poll_ready, clone, drop, poll_next) on <=2 senders, any buffer size", jobs=3, thorough=dict(params=[6], jobs=8))
MP_MODEL1 = H("h_mp_model1", [5], [0, 1, 2, 3, 4, 7, 8, 9, 10, 6, 20, 21], "every sequence of 5 calls on one sender and the receiver, any buffer size", jobs=3, thorough=dict(params=[6], jobs=8))
MP_MODEL3 = H("h_mp_model3", [4], [0], "every sequence of 4 calls over the remaining entry points, <=2 senders, any buffer size", jobs=3, thorough=dict(params=[5], jobs=8))
MP_MODEL4 = H("h_mp_model4", [6], [0], "every sequence of 6 of try_send/clone/try_recv on <=3 senders, any buffer size", jobs=3, thorough=dict(params=[8], jobs=8))
MU_MODEL = H("h_mu_model", [4], range(6), "every sequence of 4 calls, <=2 senders", jobs=3, thorough=dict(params=[5], jobs=8))
MP_CLOSE = TH("h_mp_close", [2, 0], [1, 2, 3], "2 threads, 2 messages, buffer 0", preempt=3) + TH("h_mp_close", [3, 1], [1, 2, 3], "2 threads, 3 messages, buffer 1", preempt=2)
MU_CLOSE = TH("h_mu_close", [2], [1, 2], "2 threads, 2 messages", preempt=3)
MP_SCLOSE = TH("h_mp_sclose", [], [0, 1], "3 threads", preempt=2) + TH("h_mp_tclose", [2, 0], [0, 1], "2 threads, 2 messages", preempt=3) + TH("h_mp_tclose", [2, 1], [0, 1], "2 threads, 2 messages", preempt=3)
MP_CONC = [
    *TH("h_mp_conc", [2, 1, 0], [0], "3 threads, 2x1 messages, buffer 0", preempt=2),
    *TH("h_mp_conc", [1, 3, 0], [0], "2 threads, 3 messages, buffer 0", preempt=3),
    *TH("h_mp_conc", [2, 2, 1], [0], "3 threads, 2x2 messages, buffer 1", preempt=1),
]
MU_CONC = TH("h_mu_conc", [2, 2], [0], "3 threads, 2x2 messages", preempt=2)
MP_RXDROP = H("h_mp_rxdrop", [3], [0, 1], "<=3 messages of 2 senders, any number received, open or closed", thorough=dict(params=[4]))
PROPS["C02"] = {"feature": "mpsc_h", "harnesses": [MP_RXDROP, MU_MODEL, MP_MODEL2, MP_MODEL3, *MP_CONC, *MU_CONC, *MP_CLOSE, *MU_CLOSE, *MP_SCLOSE]}
PROPS["C03"] = {
    "feature": "mpsc_h",
    "harnesses": [
        MP_MODEL2, MP_MODEL4, MP_MODEL1, *MP_CONC,
        *TH("h_mp_cap", [0], [0], "3 threads", preempt=2),
        *TH("h_mp_cap", [1], [0], "3 threads", preempt=2),
        *TH("h_mp_sink", [0, 2, 1], [0], "2 threads", preempt=3),
        *TH("h_mp_sink", [1, 1, 2], [0], "3 threads", preempt=2),
    ],
}
MP_CLOSEALL = H("h_mp_closeall", [3], [0, 1, 2, 3], "3 senders in any state (up to 3 messages each, parked or not), buffer 0 or 1", jobs=2)
PROPS["C04"] = {"feature": "mpsc_h", "harnesses": [MP_RXDROP, MP_CLOSEALL, MP_MODEL1, MP_MODEL3, MU_MODEL, *MP_CLOSE, *MU_CLOSE, *MP_SCLOSE, *MP_CONC]}
PROPS["C05"] = {"feature": "sync_h", "harnesses": [
    H("h_aw_model", [6], [0, 1, 2], "every sequence of 6 register/wake/take with 3 wakers"),
    *TH("h_aw_flag", [1], [0], "2 threads", preempt=5),
    *TH("h_aw_flag", [2], [0], "3 threads", preempt=3),
    *TH("h_aw_take", [], [0], "3 threads", preempt=3),
    *TH("h_aw_change", [], [0], "2 threads, 3 wakers", preempt=5),
]}
PROPS["C06"] = {"feature": "sync_h", "harnesses": [
    H("h_mx_model", [5], range(5), "every sequence of 5 operations of 3 parties", jobs=4, thorough=dict(params=[6], jobs=8)),
    H("h_mx_owned", [5], range(4), "every sequence of 5 operations of 2 parties", jobs=2, thorough=dict(params=[7], jobs=8)),
    H("h_mx_long", [5, 3], range(4), "3 waiters, 5 times one given up or started again in any order, then served", jobs=2, thorough=dict(params=[7, 3], jobs=8)),
    *TH("h_mx_conc", [2, 0], [0], "3 threads", preempt=3),
    *TH("h_mx_conc", [2, 1], [0, 1], "3 threads, one cancels", preempt=3),
    *TH("h_mx_oconc", [], [0], "3 threads", preempt=3),
]}
PROPS["C07"] = {"feature": "sync_h", "harnesses": [
    H("h_bl_model", [5], range(4), "every sequence of 6 operations on the two halves", jobs=2),
    *TH("h_bl_conc", [2], [0], "2 threads, 2 critical sections each", preempt=4),
    *TH("h_bl_split", [], [0], "2 threads", preempt=3),
    *TH("h_bl_io", [], [0], "2 threads", preempt=3),
]}
PROPS["C08"] = {"feature": "sync_h", "harnesses": [
    H("h_sh_model", [5, 2], range(5), "every sequence of 5 operations on <=3 clones, 2 pending results", jobs=4),
    H("h_sh_panic", [0, 2], [0]),
    *TH("h_sh_pconc", [1], [0], "2 threads", preempt=3),
    *TH("h_sh_conc", [1, 0], [0], "2 threads", preempt=3),
    *TH("h_sh_conc", [2, 0], [0], "3 threads", preempt=2),
    *TH("h_sh_conc", [1, 2], [0, 1], "2 threads, one clone peeks", preempt=3),
    *TH("h_sh_conc", [1, 1], [0, 1], "2 threads, one clone cancelled", preempt=3),
]}
PROPS["C09"] = {"feature": "sync_h", "harnesses": [
    H("h_ab_model", [6, 2], range(4), ""),
    H("h_ab_stream", [2, 1], [0, 1], ""),
    *TH("h_ab_conc", [], [0], "2 threads", preempt=4),
    H("h_rh_model", [5, 2], range(6), "", jobs=2),
    H("h_rh_panic", [], [0], ""),
    *TH("h_rh_conc", [], [0, 1], "2 threads", preempt=3),
]}

PROPS["C10"] = {"feature": "fut_h", "harnesses": [
    H("h_join2", [3, 2, 1], [0, 1]), H("h_join5", [2, 1, 0], [0]), H("h_join_mac", [3, 1, 1], [0, 1]),
    H("h_join_all", [3, 1, 1, 3], [0, 1]), H("h_join_all", [0, 0, 0, 0], [0]), H("h_join_all_big", [3, 1, 1, 3], [0, 1]),
    H("h_tjoin2", [3, 2], [0, 1]), H("h_tjoin5", [2, 1], [0, 1]), H("h_tjoin_mac", [3, 1], [0, 1]),
    H("h_tjoin_all", [3, 1, 0, 3], [0, 1]), H("h_tjoin_all_big", [3, 1, 0, 3], [0, 1]), H("h_join_thr", [1, 1], [0, 1, 2, 3, 4], "29 to 32 members, any one of the first, middle or last pending or failing"),
]}
PROPS["C11"] = {"feature": "fut_h", "harnesses": [
    H("h_select2", [3, 2, 1], [0, 1, 2]), H("h_try_select", [3, 2], range(4)), H("h_select_all", [3, 1, 1, 3], [0, 1]), H("h_select_all", [2, 1, 1, 1], [0, 1]), H("h_select_ok", [3, 1, 0, 3], [0, 1]),
    H("h_select_mac", [1, 0, 0, 0], [], jobs=7), H("h_select_mac", [3, 1, 0, 1], [0, 1]), H("h_select_default", [2, 0], [0, 1, 2]), H("h_select_fair", [1], [0, 1, 2], "three ready branches, every outcome of the random choice", exists=[300]), H("h_select_dead", [2, 1], [0]), H("h_select_empty", [], [0]), H("h_either", [2, 1], [0]),
]}
PROPS["C12"] = {"feature": "fut_h", "harnesses": [H("h_fut_ext", [2, 1], range(22)), H("h_fut_misc", [2, 1], [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11])]}
PROPS["C13"] = {"feature": "fut_h", "harnesses": [H("h_try_fut_ext", [2, 1], range(15))]}
SEQB = "every sequence of %d operations on <=%d members, <=%d pendings"
FU_MODEL = [
    H("h_fu_model", [5, 2, 0, 3], range(4), SEQB % (5, 3, 2), jobs=4, thorough=dict(params=[6, 3, 0, 3], jobs=8)),
    H("h_fu_model", [4, 2, 1, 2], range(4), SEQB % (4, 2, 2) + ", self-waking members", jobs=2, thorough=dict(params=[6, 2, 1, 2], jobs=8)),
]
PROPS["C14"] = {"feature": "fu_h", "harnesses": [*FU_MODEL, H("h_fu_iter", [2], [0, 1]), H("h_fu_panic", [3, 1], [0]), H("h_fu_dpanic", [3, 2], [0, 1, 2], "3 members, the destructor of one panics"), H("h_fu_yield", [3], [0, 1], "3 members, each waking itself 1 to 3 times or for ever"), H("h_fu_spawn", [], [0])]}
PROPS["C15"] = {"feature": "fu_h", "harnesses": [
    *TH("h_fu_conc", [1, 0], [0], "2 threads", preempt=4), *TH("h_fu_conc", [2, 0], [0], "3 threads", preempt=2), *TH("h_fu_conc", [2, 1], [0], "3 threads, ordered", preempt=2),
    *TH("h_fu_drop", [1, 1, 0], [0, 1], "2 threads", preempt=4), *TH("h_fu_drop", [2, 1, 0], [0, 1], "3 threads", preempt=2), *TH("h_fu_drop", [1, 2, 1], [0, 1], "2 threads", preempt=3),
    *TH("h_fu_push", [], [0], "3 threads", preempt=2),
]}
PROPS["C16"] = {"feature": "fu_h", "harnesses": [
    H("h_fo_model", [5, 2, 0, 3], range(4), SEQB % (5, 3, 2), jobs=4, thorough=dict(params=[6, 3, 0, 3], jobs=8)),
    H("h_fo_model", [4, 2, 1, 2], range(4), SEQB % (4, 2, 2) + ", self-waking members", jobs=2, thorough=dict(params=[6, 2, 1, 2], jobs=8)),
    *[H("h_lim", [2, 1, 0, n, 3], [0], "buffered, 3 futures, limit %d" % n) for n in (0, 1, 2)],
    *TH("h_fu_conc", [2, 1], [0], "3 threads, ordered", preempt=2),
]}
PROPS["C17"] = {"feature": "fu_h", "harnesses": [
    *[H("h_lim", [3, 1, k, n, 3], [0], "3 futures, limit %d" % n, thorough=dict(params=[4, 1, k, n, 4])) for k in (0, 1, 2) for n in (0, 1, 2)],
    *[H("h_tlim", [2, 1, k, n, 3], [0, 1, 2], "3 futures, limit %d" % n, thorough=dict(params=[3, 1, k, n, 4])) for k in (0, 1, 2) for n in (0, 1, 2)],
]}
PROPS["C18"] = {"feature": "sel_h", "harnesses": [
    *[H("h_flat", [2, 1, k, n, 2], [0, 1] if n != 1 else [0], "2 inner streams of <=2 items, limit %d" % n, thorough=dict(params=[3, 1, k, n, 3], jobs=8)) for k in (0, 2) for n in (0, 1, 2)],
    *[H("h_flat", [2, 0, 1, n, 2], [0, 2, 3], "2 fallible inner streams of <=2 items, limit %d" % n, thorough=dict(params=[3, 1, 1, n, 2], jobs=8)) for n in (0, 1, 2)],
    H("h_flat", [1, 0, 0, 2, 3], [0, 1], "3 inner streams, limit 2"),
    H("h_flat_panic", [2], [0]),
    *TH("h_flat_conc", [1, 1, 0, 0], [0], "2 threads", preempt=3), *TH("h_flat_conc", [2, 1, 0, 0], [0], "3 threads", preempt=2), *TH("h_flat_conc", [1, 1, 1, 1], [0], "3 threads", preempt=2),
    *TH("h_flat_drop", [2], [0], "3 threads", preempt=2),
]}
PROPS["C19"] = {"feature": "sel_h", "harnesses": [
    *[H("h_sel2", [b, min(b, 1), s], [0] + ([1] if s and s != 3 and b else []), "two streams of <=2 items") for s in (0, 1, 2, 3, 4) for b in (0, 2 if s == 4 else 3)],
    H("h_sel_all", [1, 0, 2, 3], [0, 1, 2], "2 streams of <=2 items"), H("h_sel_all", [2, 1, 2, 2], [0, 1, 2], "2 streams of <=1 item"), H("h_sel_all", [1, 0, 3, 2], [0, 1, 2], "3 streams of <=1 item"),
    H("h_sel_clear", [1, 1], [1, 2], "2 streams of 2 items, cleared or taken apart at any point"), H("h_sel_mac", [2, 1, 2], [0], "2 streams"), H("h_sel_mac", [0, 0, 3], [0], "3 streams"),
    *TH("h_sel_conc", [0], [0], "3 threads", preempt=2), *TH("h_sel_conc", [1], [0], "3 threads", preempt=1),
]}
def AD(kinds, mode, n=3, b=3, covers=None, **kw):
    """adapter harness: one run per adapter"""
    big = {14: 2, 16: 2, 19: 2}
    out = []
    for k in kinds:
        nn = min(n, big.get(k, n))
        out.append(H("h_ad", [b, 1, mode, nn, 3, k], [k], "<=%d items, <=%d pendings" % (nn, b), thorough=dict(params=[b + 1, 2, mode, nn + 1, 4, k], jobs=2), **kw))
    return out


ITEMWISE = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 21, 28]
COMBINING = [13, 14, 15, 16, 17, 18, 19, 20, 22, 23, 24, 25, 26, 27]
PROPS["C20"] = {"feature": "strm_h", "harnesses": AD(ITEMWISE, 0)}
PROPS["C21"] = {"feature": "strm_h", "harnesses": AD(COMBINING, 0)}
PROPS["C24"] = {"feature": "strm_h", "harnesses": AD(ITEMWISE + COMBINING, 1, n=2, b=2) + [H("h_hint", [k], [k], "any hint values") for k in range(29)]}
PROPS["C25"] = {"feature": "strm_h", "harnesses": AD([k for k in ITEMWISE + COMBINING if k not in (22, 25, 27)], 2, n=2, b=2)}
CB = {8: (2, 2), 3: (3, 3), 13: (3, 3), 14: (3, 3)}
PROPS["C22"] = {"feature": "cons_h", "harnesses": [H("h_cons", [b, 1, 0, n, k], [k], "<=%d items, <=%d pendings" % (n, b), thorough=dict(params=[b + 1, 2, 0, n + 1, k], jobs=2)) for k in range(15) for b, n in [CB.get(k, (4, 4))]] + [H("h_cons", [2, 0, 4, 2, k], [k] + ([40] if k not in (9, 10) else []), "<=2 items, dropped at any point") for k in range(15)]}
def TAD(kinds, mode, n=3, b=3, **kw):
    out = []
    for k in kinds:
        nn, bb = (min(n, 2), min(b, 2)) if k == 14 else (n, b)
        out.append(H("h_tad", [bb, 1, mode, nn, 3, k], [k], "<=%d items, <=%d pendings, any of them an error" % (nn, bb), thorough=dict(params=[bb + 1, 2, mode, nn + 1, 4, k], jobs=2), **kw))
    return out
PROPS["C23"] = {"feature": "tstr_h", "harnesses": TAD(range(20), 0)}
for _p, _m in (("C24", 1), ("C25", 2)):
    PROPS[_p]["feature"] = "strm_h,tstr_h"
    PROPS[_p]["harnesses"] += TAD(range(20), _m, n=2, b=2)
PROPS["C25"]["feature"] = "strm_h,tstr_h,cons_h,fut_h"
PROPS["C25"]["harnesses"] += [H("h_cons", [2, 1, 0, 2, k], [k], "<=2 items, <=2 pendings") for k in range(15)] + [H("h_fut_ext", [1, 1], range(22)), H("h_fut_misc", [2, 1], range(9)), H("h_try_fut_ext", [1, 1], range(15))]
PROPS["C27"] = {"feature": "sink_h", "harnesses": [H("h_sink", [2, 1, 1, 4, 2 if k == 4 else 3, k], [k, 41, 42, 43], "<=%d operations, <=2 pendings, the sink below may fail at any of its first 4 calls" % (2 if k == 4 else 3), thorough=dict(params=[3, 2, 1, 6, 3 if k == 4 else 4, k], jobs=2)) for k in range(13)] + [H("h_sink", [1, 1, 1, 3, 2, 13], [13, 41, 42, 43], "sink side of 28 stream adapters, <=2 operations, 1 pending, the sink below may fail at any of its first 3 calls", jobs=2)] + [H("h_sink", [2, 0, 4, 0, 2, k], [k, 40], "<=2 operations, dropped at any pending point") for k in range(13) if k != 11] + [H("h_sends", [3, 1, m, 4, 2, k], [k], "2 items, <=3 pendings, the sink may fail at any of its first 4 calls", thorough=dict(params=[4, 2, m, 6, 3, k])) for k in range(5) for m in (0, 4)]}
def IO(entry, kinds, n, f, ops, z=0, cancel=0, b=2, sw=1, covers=(), **kw):
    return [H(entry, [b, sw, n, f, ops, cancel, z, k], [k] + list(covers), "<=%d bytes, <=%d pendings, <=%d calls, short transfers%s%s" % (n, b, ops, ", one failure" if f else "", ", zero-length writes" if z else ""), thorough=dict(params=[b + 1, sw + 1, n + 1, f, ops + 1, cancel, z, k], jobs=2), **kw) for k in kinds]
PROPS["C28"] = {"feature": "io_h", "harnesses": IO("h_rd", range(13), 2, 1, 2, b=1) + [H("h_window", [2, 1], [1, 2], "<=2 bytes, any pair of 64-bit bounds of any kind", thorough=dict(params=[3, 2])), H("h_const", [], [1, 2], "empty, repeat and sink, two buffers of <=2 bytes"), H("h_std", [1, 2], [1, 2, 10, 11, 12, 13, 14, 15, 16], "AllowStdIo: 2 calls, one interruption, one failure, short transfers", thorough=dict(params=[2, 3])), H("h_long", [1, 0, 0, 0, 3], [3], "fixed contents of 31..100 or 1023..10000 bytes, fixed step sizes, <=1 pending", thorough=dict(params=[2, 1, 0, 0, 3]))]}
PROPS["C29"] = {"feature": "io_h", "harnesses": IO("h_wr", [1], 2, 1, 2, z=0, b=1, jobs=3) + IO("h_wr", [0, 2, 3, 4, 5, 6, 7], 2, 1, 2, z=0, b=1) + IO("h_wr", [0, 1], 2, 0, 2, z=1, b=0) + IO("h_wr", [0, 1], 2, 0, 2, z=0, cancel=4, b=1, jobs=2) + [H("h_wseek", [1, 0, 2, 1, 3], [1, 2], "BufWriter of capacity 1 to 3, <=3 bytes"), H("h_cur", [0, 0, 0, 0, 3], [], "Cursor against a model, every sequence of 3 operations", thorough=dict(params=[0, 0, 0, 0, 4])), H("h_cur2", [2], [0, 1, 2], "Cursor over 4 kinds of storage of <=2 bytes, 2 operations, any 64-bit seek", thorough=dict(params=[3])), H("h_iom", [2, 1, 0, 1], range(5), "one operation"), H("h_lline", [1, 0, 6, 0, 3], [1, 2], "LineWriter of capacity 1 to 3: one write of <=6 bytes after <=1 byte, short transfers", thorough=dict(params=[2, 1, 8, 0, 4])), H("h_std", [1, 2], [1, 2, 10, 11, 12, 13, 14, 15, 16], "AllowStdIo: 2 calls, one interruption, one failure, short transfers", thorough=dict(params=[2, 3])), H("h_long", [1, 0, 0, 0, 4], [4], "fixed contents of 31..100 or 1023..10000 bytes, fixed step sizes, <=1 pending", thorough=dict(params=[2, 1, 0, 0, 4])), H("h_long", [1, 0, 0, 0, 5], [5], "fixed contents of 31..100 or 1023..10000 bytes, fixed step sizes, <=1 pending", thorough=dict(params=[2, 1, 0, 0, 5]))]}
RF = IO("h_rf", [0, 1, 3, 5, 6, 7, 8, 9], 3, 1, 0, z=1) + IO("h_rf", [2, 4], 2, 1, 0, b=2) + IO("h_rf", [0, 1, 3, 6, 7, 9], 2, 0, 0, cancel=4, covers=[40]) + IO("h_rf", [2, 4], 1, 0, 0, cancel=4, covers=[40])
WF = IO("h_wf", range(5), 3, 1, 0, z=1) + IO("h_wf", [0, 1, 2, 3], 2, 0, 0, cancel=4, covers=[40])
PROPS["C30"] = {"feature": "io_h", "harnesses": RF + WF + [H("h_long", [1, 0, 0, 0, 0], [0], "fixed contents of 31..100 or 1023..10000 bytes, fixed step sizes, <=1 pending", thorough=dict(params=[2, 1, 0, 0, 0])), H("h_long", [1, 0, 0, 0, 1], [1], "fixed contents of 31..100 or 1023..10000 bytes, fixed step sizes, <=1 pending", thorough=dict(params=[2, 1, 0, 0, 1])), H("h_long", [1, 0, 0, 0, 2], [2], "fixed contents of 31..100 or 1023..10000 bytes, fixed step sizes, <=1 pending", thorough=dict(params=[2, 1, 0, 0, 2])), H("h_seek", [1, 0, 2, 0, 2], [41, 42, 43, 44], "2 bytes, every sequence of 2 reads and seeks", thorough=dict(params=[1, 0, 3, 0, 3], jobs=4)), H("h_seek", [0, 0, 2, 0, 3], [41, 42, 43, 44], "2 bytes, every sequence of 3 reads and seeks, no pendings", jobs=2), *TH("h_cba", [], [0], "2 threads", preempt=3)]}
PROPS["C31"] = {
    "feature": "exec_h",
    "harnesses": [
        H("h_lp_model", [3, 2], [1, 2, 3, 4, 5, 10, 11, 12, 13, 15], "every sequence of 3 calls, <=3 tasks, <=2 non-final polls", jobs=2, thorough=dict(params=[4, 3], jobs=8)),
        H("h_lp_run", [3, 2], [1, 2, 3, 5, 10, 11, 12, 13, 14, 15], "every sequence of 3 calls, <=3 tasks that wake themselves, each other or spawn", jobs=2, thorough=dict(params=[4, 3], jobs=8)),
        *TH("h_bo", [1, 1], [0], "2 threads, park and unpark used below the executor", preempt=3),
        *TH("h_bo", [2, 1], [0], "2 threads, 2 wake-ups, park and unpark used below the executor", preempt=2),
        *TH("h_lp_conc", [0], [0], "3 threads, 2 tasks", preempt=2),
        *TH("h_lp_conc", [1], [0], "2 threads, run_until and one task", preempt=2),
        *TH("h_lp_stall", [], [0, 1], "2 threads", preempt=2),
        H("h_bstream", [3], [0], "<=3 items"),
        H("h_enter", [], [0, 1, 2, 3, 4, 10, 11], "nested and panicking executors"),
    ],
}
PROPS["C32"] = {
    "feature": "exec_h",
    "harnesses": [
        *TH("h_tp", [1, 1, 1, 1], [0], "1 worker, 1 task that also wakes itself, 1 event", preempt=3),
        *TH("h_tp", [1, 1, 2, 0], [0], "1 worker, 1 task, 2 events", preempt=3),
        *TH("h_tp", [2, 1, 1, 1], [0], "2 workers, 1 task that also wakes itself, 1 event", preempt=2, race_preempt=1),
        *TH("h_tp", [2, 1, 2, 0], [0], "2 workers, 1 task, 2 events", preempt=2, race_preempt=1),
        *TH("h_tp", [1, 2, 1, 0], [0], "1 worker, 2 tasks", preempt=2),
        *TH("h_tp", [2, 2, 1, 0], [0], "2 workers, 2 tasks", preempt=1, race_preempt=1),
        *TH("h_tp_later", [1], [0], "1 worker, 2 tasks one after the other", preempt=2, race_preempt=1),
        *TH("h_tp_later", [2], [0], "2 workers, 2 tasks one after the other", preempt=1, race_preempt=0),
        *TH("h_tp_turn", [], [0], "1 worker, 2 tasks that take turns", preempt=2),
        *TH("h_tp_handle", [1], [0], "1 worker", preempt=3),
        *TH("h_tp_handle", [2], [0], "2 workers", preempt=2, race_preempt=1),
    ],
}
PROPS["C33"] = {
    "feature": "task_h",
    "harnesses": [
        *[H("h_arc", [5, k], [0, 5, 6], "every sequence of 5 operations on <=4 wakers", jobs=2, thorough=dict(params=[6, k], jobs=3)) for k in range(3)],
        *TH("h_arc_conc", [], [0, 1, 2], "2 threads", preempt=3),
        H("h_noop", [], [0], "2 threads"),
        *[H("h_obj", [3, 2, c, k], [k] + ([40] if c else []) + ([41] if c and k in (0, 8, 10) else []), "<=3 pendings, <=2 waker changes") for k in range(14) for c in (0, 1)],
        H("h_spawner", [2], [0, 1, 10, 11, 12, 13, 14, 15], "all forwarding types, open and shut"),
    ],
}
PROPS["C34"] = {
    "feature": "test_h",
    "harnesses": [H("h_tu", [1 if k == 6 else 2, 1, k], [k] + {3: [50], 5: [50, 51], 7: [50], 8: [50]}.get(k, []), "<=2 pendings, <=2 items, <=3 operations", thorough=dict(params=[3, 2, k])) for k in range(13)],
}
PROPS["C35"] = {
    "feature": "compat_h",
    "harnesses": [H("h_compat", [2, 1, 0, 2, k] if k == 3 else [3, 2, 0, 2, k], [k] + {0: [41], 1: [41], 2: [41, 42, 43], 3: [41, 42]}.get(k, []), "<=2 items or bytes, <=3 pendings, any failure", thorough=dict(params=[4, 3, 0, 3, k])) for k in range(5)] + [H("h_compat", [2, 1, 1, 2, k], [k, 40], "<=2 items, dropped at any point") for k in range(3)],
}


def PN(hs):
    """the same scenarios with one poll or callback of the environment panicking"""
    out = []
    for h in hs:
        h = dict(h)
        h["params"] = (list(h["params"]) + [0] * 12)[:12] + [1]
        h["covers"] = [60]
        if "thorough" in h:
            t = dict(h["thorough"])
            t["params"] = (list(t["params"]) + [0] * 12)[:12] + [1]
            h["thorough"] = t
        h["bounds"] += ", a panic at any poll or callback"
        out.append(h)
    return out


PROPS["C26"] = {"feature": "strm_h,tstr_h,cons_h,fut_h,fu_h,sel_h,sink_h,io_h", "harnesses": (
    PN(AD([k for k in ITEMWISE + COMBINING if k not in (21, 22)], 0, n=2, b=1)) + AD(ITEMWISE + COMBINING, 4, n=2, b=2)
    + PN(TAD(range(20), 0, n=2, b=1)) + TAD(range(20), 4, n=2, b=2)
    + PN(H("h_cons", [1, 0, 0, 2, k], []) for k in range(15))
    + PN([H("h_join2", [1, 0, 1]), H("h_join5", [1, 0, 0]), H("h_join_mac", [1, 0, 0]), H("h_join_all", [1, 0, 0, 3]), H("h_join_all_big", [1, 0, 0, 3]), H("h_tjoin2", [1, 0]), H("h_tjoin5", [1, 0]), H("h_tjoin_all", [1, 0, 0, 3]), H("h_tjoin_all_big", [1, 0, 0, 3])])
    + PN([H("h_select2", [1, 0, 0]), H("h_try_select", [1, 0]), H("h_select_all", [1, 0, 0, 3]), H("h_select_ok", [1, 0, 0, 3]), H("h_either", [1, 0]), H("h_fut_ext", [1, 0]), H("h_try_fut_ext", [1, 0])])
    + PN([H("h_lim", [1, 0, k, 2, 3]) for k in range(3)] + [H("h_tlim", [1, 0, k, 2, 2]) for k in range(3)] + [H("h_flat", [1, 0, k, 2, 2]) for k in range(3)] + [H("h_sel2", [1, 0, s]) for s in range(5)] + [H("h_sel_all", [1, 0, 2, 1]), H("h_sel_mac", [0, 0, 2])])
    + PN([H("h_sink", [1, 0, 0, 0, 2, k]) for k in range(13)] + [H("h_sends", [1, 0, 0, 0, 2, k]) for k in range(4)])
    + PN(IO("h_rd", [0, 1, 2, 3, 4, 7, 8, 9, 11], 2, 0, 2, b=1) + IO("h_rf", range(10), 2, 0, 0, b=1) + IO("h_wr", range(7), 2, 0, 2, b=0) + IO("h_wf", range(5), 2, 0, 0, b=1))
    + [H("h_fu_panic", [3, 1], [0], "3 members, one panics"), H("h_fu_dpanic", [3, 2], [0, 1, 2], "3 members, the destructor of one panics"), H("h_flat_panic", [2], [0], "2 streams, one panics"), H("h_fu_iter", [2], [0, 1], "into_iter dropped at any point")]
    + [H("h_join2", [2, 0, 1], [1], "dropped at any point"), H("h_join_all", [2, 0, 1, 3], [1], "dropped at any point"), H("h_join_all_big", [2, 0, 1, 3], [1], "dropped at any point")]
)}

# not a property: what the executor understands of std, run by hand after changes to the engine (python3 check.py T00)
SELFTEST = {"feature": "demo", "harnesses": [H("h_d_" + x, [], [0]) for x in "int vec str map any time".split()] + [H("h_d_panic", [], [1, 2]), H("h_d_sync", [], [0]), H("h_d_chan", [], [0])]}
