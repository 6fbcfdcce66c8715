//! The concurrent scenarios.
use crate::rt::*;
use crate::conc::{Op::*, *};

macro_rules! scn {
    ($($name:ident { $($body:tt)* })*) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            static S: Scn = Scn { $($body)*, ..BASE };
            run(&S)
        })*
    };
}
const BASE: Scn = Scn { chunk: 0, bchunk: 4096, cap: 4, h: &[H::At(0)], setup: &[], thr: &[], api: Api::Each, tail: &[], keys: 2, weak: 0, stale: 0, nest: &[] };

/// The operations of a first thread on key 1, and of a second one.
const W1: &[Op] = &[
    Insert(1, 1), TryInsert(1, 1), TryInsertWith(1, 1), GetOrInsert(1, 1), GetOrInsertWith(1, 1), Update(1, 1), UpdateOrInsert(1, 1, 2),
    UpdateOrInsertWith(1, 1, 2), ComputeUp(1, 1), ComputeDel(1), ComputeDelIf(1, 9), ComputeToggle(1, 1), ComputePick(1, 9), Remove(1), RemoveEntry(1), RemoveIf(1, 9),
];
const W2: &[Op] = &[
    Insert(1, 3), TryInsert(1, 3), TryInsertWith(1, 3), GetOrInsert(1, 3), GetOrInsertWith(1, 3), Update(1, 3), UpdateOrInsert(1, 3, 4),
    UpdateOrInsertWith(1, 3, 4), ComputeUp(1, 3), ComputeDel(1), ComputeDelIf(1, 9), ComputeToggle(1, 3), ComputePick(1, 9), Remove(1), RemoveEntry(1), RemoveIf(1, 9),
];
const R1: &[Op] = &[Get(1), Contains(1), GetKv(1), ComputeAbort(1)];
/// Fewer: one per code path.
const A1: &[Op] = &[Insert(1, 1), TryInsert(1, 1), Update(1, 1), ComputeUp(1, 1), ComputeDelIf(1, 9), Remove(1), RemoveIf(1, 9), Get(1)];
const A2: &[Op] = &[Insert(1, 3), GetOrInsert(1, 3), UpdateOrInsert(1, 3, 4), ComputeUp(1, 3), ComputeDel(1), Remove(1), RemoveIf(1, 9), Get(1)];
const B1: &[Op] = &[Insert(1, 1), Update(1, 1), Remove(1), Get(1)];
const B2: &[Op] = &[Insert(1, 3), ComputeUp(1, 3), Remove(1), Get(1)];
const B3: &[Op] = &[Insert(1, 5), Update(1, 5), Remove(1), Get(1)];
/// Another key in the same probe sequence.
const N2: &[Op] = &[Insert(2, 5), Remove(2), Insert(2, 6)];

const ONE: &[Op] = &[Insert(1, 9)];
const TWO: &[Op] = &[Insert(1, 9), Insert(2, 8)];
/// Key 1 was removed before: there is a tombstone.
const DEAD: &[Op] = &[Insert(1, 9), Remove(1)];
const W1C: &[Op] = &[Insert(3, 1), Remove(1), ComputeToggle(1, 1), RemoveIf(1, 9), RetainNot(9), Clear];
const I1: &[Op] = &[Insert(1, 1), TryInsert(1, 1), ComputeToggle(1, 1), Remove(1), Clear];
const AGAIN: &[Op] = &[Insert(1, 6), Get(1), Insert(2, 7), Get(2), Remove(1), Get(1), Iter];
const IG: &[Op] = &[Iter, Get(1)];
const IH: &[Op] = &[Iter, Contains(1), Insert(1, 1)];
const IW: &[Op] = &[Insert(1, 3), Remove(1), ComputeUp(1, 3)];
const HH: &[H] = &[H::At(0), H::Of(&[0, 1])];

scn! {
    // one table, no resize
    f_ww0 { h: HH, thr: &[&[W1], &[W2]] }
    f_ww1 { h: HH, setup: ONE, thr: &[&[W1], &[W2]] }
    f_wwd { h: HH, setup: DEAD, thr: &[&[W1], &[W2]] }
    f_wr { h: HH, setup: ONE, thr: &[&[W1], &[R1, R1]] }
    f_2x2 { h: HH, setup: ONE, thr: &[&[A1, A1], &[A2, A2]] }
    f_2x2e { h: HH, thr: &[&[A1, A1], &[A2, A2]] }
    f_3 { h: HH, setup: ONE, thr: &[&[B1], &[B2], &[B3]] }
    // exchanges that fail spuriously
    w_1 { h: HH, setup: ONE, thr: &[&[W1, W2]], weak: 2 }
    w_2 { h: HH, setup: ONE, thr: &[&[W1], &[B2]], weak: 1 }
    w_mw { h: HH, setup: TWO, thr: &[&[&[Clear, RetainNot(9)]], &[B2]], weak: 1 }
    // loads that read earlier values
    o_ww { h: HH, setup: ONE, thr: &[&[W1], &[B2]], stale: 2 }
    o_wr { h: HH, setup: ONE, thr: &[&[W1], &[R1, R1]], stale: 2 }
    o_n { h: HH, thr: &[&[A1], &[&[Insert(2, 5)], &[Remove(2), ComputeDel(2)]]], stale: 2 }
    o_mp { h: HH, thr: &[&[&[Insert(1, 3)], &[Insert(2, 5), Remove(2)]], &[&[Get(2), Contains(2), Insert(2, 6)], R1]], stale: 2 }
    o_2 { h: HH, setup: ONE, thr: &[&[B1, B2], &[B2, B1]], stale: 1 }
    o_z { cap: 0, h: HH, thr: &[&[B1], &[B2]], stale: 1 }
    f_ri { h: HH, setup: ONE, thr: &[&[W1], &[&[Remove(1), ComputeDel(1)], &[Insert(1, 3), ComputeToggle(1, 3)]]] }
    // as f_ww, pinned
    fp_0 { h: HH, api: Api::Pin, thr: &[&[W1], &[W2]] }
    fp_1 { h: HH, setup: ONE, api: Api::PinOwned, thr: &[&[W1], &[W2]] }
    // the slot changes hands
    f_nn { h: HH, thr: &[&[W1], &[&[Insert(2, 5)], &[Remove(2), ComputeDel(2)]]] }
    f_ir { h: HH, thr: &[&[W1], &[&[Insert(1, 3), ComputeToggle(1, 3)], &[Remove(1), ComputeDel(1)]]] }
    f_rg { h: HH, setup: ONE, thr: &[&[N2], &[&[Remove(2), ComputeToggle(2, 6), Insert(2, 6)], R1]] }
    f_irt { h: HH, thr: &[&[I1], &[&[Insert(1, 3), ComputeToggle(1, 3)], &[Remove(1), ComputeDel(1)]]], tail: AGAIN }
    f_rit { h: HH, setup: ONE, thr: &[&[I1], &[&[Remove(1), ComputeDel(1)], &[Insert(1, 3), ComputeToggle(1, 3)]]], tail: AGAIN }
    f_nnt { h: HH, thr: &[&[I1], &[&[Insert(2, 5)], &[Remove(2), ComputeDel(2)]]], tail: AGAIN }
    // threads that share a shard of the counter (two of them, by the number of the thread)
    f_col { h: HH, thr: &[&[I1], &[], &[&[Insert(2, 5), TryInsert(2, 5), ComputeUp(2, 5), Insert(1, 3)]]] }
    f_col1 { keys: 3, h: HH, setup: TWO, thr: &[&[W1C], &[], &[&[Remove(2), ComputeDel(2), RemoveIf(2, 8), RetainNot(8), Clear, Remove(1)]]] }
    // two keys for one slot, then lookups
    f_two { h: HH, thr: &[&[I1, &[Get(1), Nop]], &[&[Insert(2, 5), TryInsert(2, 5), ComputeUp(2, 5)], &[Get(2), Contains(2), Remove(2), Iter]]] }
    // lookups and iterations of a thread agree
    i_g { h: HH, thr: &[&[IG, IH], &[IW, &[Remove(1), Insert(2, 5)]]] }
    i_gd { h: HH, setup: TWO, thr: &[&[IG, IH], &[IW]] }
    f_nb { h: HH, setup: ONE, thr: &[&[A1, N2], &[N2, A2]] }
    f_nb2 { h: HH, setup: TWO, thr: &[&[A1, N2], &[N2, A2]] }
}

/// The ninth entry starts a resize: two live entries, the rest removed.
const LIGHT: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8), Drain(3, 8), Fill(9, 9)];
const LIGHTD: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8), Drain(3, 8), Remove(1), Fill(9, 9)];
const FULL: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8), Fill(9, 9)];
/// Just before the resize.
const PRE: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8), Drain(3, 8)];
const PREF: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8)];
const H7: &[H] = &[H::Alt(&[0, 7], 100), H::Fix(1, 101)];
/// The same metadata for both keys and the filler 3.
const H7S: &[H] = &[H::Alt(&[0, 2], 3), H::Fix(1, 3)];
/// The keys want the same slot; only the first one is there.
const HT: &[H] = &[H::At(7), H::At(7)];
const PRE2: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8), Drain(3, 8), Remove(2)];
const NW: &[Op] = &[Insert(9, 7), ComputeUp(9, 7), UpdateOrInsert(9, 1, 7)];
const N9: &[Op] = &[Insert(9, 7)];

scn! {
    // in the middle of an incremental resize
    m_ww { chunk: 1, h: H7, setup: LIGHT, thr: &[&[W1], &[W2]], keys: 9 }
    m_wwd { chunk: 1, h: H7, setup: LIGHTD, thr: &[&[W1], &[W2]], keys: 9 }
    m_wr { chunk: 1, h: H7, setup: LIGHT, thr: &[&[W1], &[R1, R1]], keys: 9 }
    m_full { chunk: 1, h: H7, setup: FULL, thr: &[&[A1], &[A2]], keys: 9 }
    m_2x2 { chunk: 2, h: H7, setup: LIGHT, thr: &[&[B1, B2], &[B2, B1]], keys: 9 }
    m_3 { chunk: 1, h: H7, setup: LIGHT, thr: &[&[B1], &[B2], &[B3]], keys: 9 }
    w_m { chunk: 1, h: H7, setup: LIGHT, thr: &[&[W1]], keys: 9, weak: 2 }
    w_m2 { chunk: 1, h: H7, setup: LIGHT, thr: &[&[W1], &[B2]], keys: 9, weak: 1 }
    w_t { chunk: 1, h: H7, setup: PRE, thr: &[&[NW], &[B2]], keys: 9, weak: 1 }
    w_b { chunk: 0, h: H7, setup: PRE, thr: &[&[NW], &[B2]], keys: 9, weak: 1 }
    o_m { chunk: 1, h: H7, setup: LIGHT, thr: &[&[A1], &[B2]], keys: 9, stale: 1 }
    o_mr { chunk: 1, h: H7, setup: LIGHT, thr: &[&[A1], &[R1, R1]], keys: 9, stale: 1 }
    o_ti { chunk: 1, h: H7, setup: PRE, thr: &[&[NW], &[B2]], keys: 9, stale: 1 }
    o_ti8 { chunk: 8, h: H7, setup: PRE, thr: &[&[NW], &[B2]], keys: 9, stale: 1 }
    o_tb { chunk: 0, h: H7, setup: PRE, thr: &[&[N9], &[B2]], keys: 9, stale: 1 }
    o_pk { chunk: 8, h: H7, setup: PRE, thr: &[&[N9], &[&[Update(1, 3)], &[Update(2, 5)]]], keys: 9, stale: 1 }
    o_rb { chunk: 0, h: H7, setup: TWO, thr: &[&[&[Reserve(8)]], &[B2]], keys: 9, stale: 1 }
    o_ri { chunk: 2, h: H7, setup: TWO, thr: &[&[&[Reserve(8)]], &[B2]], keys: 9, stale: 1 }
    // one thread starts the resize
    ti_w { chunk: 1, h: H7, setup: PRE, thr: &[&[NW], &[W2]], keys: 9 }
    ti_w8 { chunk: 8, h: H7, setup: PRE, thr: &[&[NW], &[W2]], keys: 9 }
    ti_wf { chunk: 1, h: H7, setup: PREF, thr: &[&[NW], &[A2]], keys: 9 }
    ti_2 { chunk: 1, h: H7, setup: PRE, thr: &[&[N9], &[B1, B2]], keys: 9 }
    tb_w { chunk: 0, h: H7, setup: PRE, thr: &[&[NW], &[W2]], keys: 9 }
    tb_wf { chunk: 0, h: H7, setup: PREF, thr: &[&[NW], &[A2]], keys: 9 }
    tb_r { chunk: 0, h: H7, setup: PRE, thr: &[&[NW], &[R1, R1]], keys: 9 }
    tb_2 { chunk: 0, h: H7, setup: PRE, thr: &[&[N9], &[B1, B2]], keys: 9 }
    tb_3 { chunk: 0, h: H7, setup: PRE, thr: &[&[N9], &[B1], &[B2]], keys: 9 }
    // blocking copies in several chunks
    tc_w { bchunk: 4, h: H7, setup: PRE, thr: &[&[NW], &[W2]], keys: 9 }
    tc_w3 { bchunk: 3, h: H7, setup: PRE, thr: &[&[NW], &[W2]], keys: 9 }
    tc_w1 { bchunk: 1, h: H7, setup: PRE, thr: &[&[NW], &[B2]], keys: 9 }
    tc_wf { bchunk: 4, h: H7, setup: PREF, thr: &[&[NW], &[A2]], keys: 9 }
    tc_2 { bchunk: 2, h: H7, setup: PRE, thr: &[&[N9], &[B1, B2]], keys: 9 }
    tc_3 { bchunk: 4, h: H7, setup: PRE, thr: &[&[N9], &[B1], &[B2]], keys: 9 }
    rc_b { bchunk: 4, h: H7, setup: TWO, thr: &[&[&[Reserve(8)]], &[&[Reserve(8), Reserve(20)], B2]], keys: 9 }
    // two threads waiting for the same entry or the same resize
    m_pks2 { chunk: 8, h: H7, setup: PRE, thr: &[&[N9], &[&[Update(1, 3)]], &[&[Update(1, 5)]]], keys: 9 }
    m_pks { chunk: 8, h: H7, setup: PRE, thr: &[&[N9], &[&[Insert(1, 3)]], &[&[Update(1, 5)]]], keys: 9 }
    tb_pks { chunk: 0, h: H7, setup: PRE, thr: &[&[N9], &[&[Insert(1, 3)]], &[&[Update(2, 5)]]], keys: 9 }
    // threads waiting for several entries of a table
    m_pk { chunk: 2, h: H7, setup: PRE, thr: &[&[N9], &[&[Insert(1, 3), Update(1, 3), Remove(1)], &[Insert(2, 5), ComputeUp(2, 5), Remove(2)]]], keys: 9 }
    m_pk8 { chunk: 8, h: H7, setup: PRE, thr: &[&[N9], &[&[Update(1, 3)], &[Update(2, 5)]]], keys: 9 }
    m_pk3 { chunk: 2, h: H7, setup: PRE, thr: &[&[N9], &[&[Insert(1, 3), Update(1, 3)]], &[&[ComputeUp(2, 5), Remove(2)]]], keys: 9 }
    // empty slots of the table that is resized
    e_ww { chunk: 1, h: H7, setup: &[Insert(2, 8), Reserve(8)], thr: &[&[W1], &[W2]], keys: 3 }
    e_i { chunk: 1, h: H7, setup: &[Insert(2, 8)], thr: &[&[&[Reserve(8)]], &[W1]], keys: 3 }
    e_i4 { chunk: 4, h: H7, setup: &[Insert(2, 8)], thr: &[&[&[Reserve(8)]], &[A1, N2]], keys: 3 }
    e_b { chunk: 0, h: H7, setup: &[Insert(2, 8)], thr: &[&[&[Reserve(8)]], &[W1]], keys: 3 }
    e_bc { bchunk: 4, h: H7, setup: &[Insert(2, 8)], thr: &[&[&[Reserve(8)]], &[W1]], keys: 3 }
    e_two2 { chunk: 2, h: HT, setup: &[Insert(1, 9)], thr: &[&[&[Insert(2, 5)]], &[&[Reserve(8)], &[Update(1, 3), Insert(3, 7)], &[Get(1), Get(2)]]], keys: 3 }
    e_twob { chunk: 0, h: HT, setup: &[Insert(1, 9)], thr: &[&[&[Insert(2, 5)]], &[&[Reserve(8)], &[Get(1), Get(2)]]], keys: 3 }
    // two keys for one slot of the next table, then lookups
    m_two8 { chunk: 8, h: HT, setup: PRE2, thr: &[&[&[Insert(2, 5)]], &[&[Insert(9, 7), Update(1, 3)], &[Get(1), Get(2)]]], keys: 9 }
    e_3 { chunk: 1, h: H7, setup: &[Insert(2, 8)], thr: &[&[&[Reserve(8)]], &[B1], &[B2]], keys: 3 }
    // the end of a probe sequence
    c_1 { cap: 0, h: SAME, setup: &[Fill(1, 25)], thr: &[&[E26, E26, &[Insert(27, 1), ComputeUp(27, 1), Remove(26), Reserve(40)]]], keys: 28 }
    c_1i { cap: 0, chunk: 4, h: SAME, setup: &[Fill(1, 25)], thr: &[&[E26, E26, &[Insert(27, 1), ComputeUp(27, 1), Remove(26), Reserve(40)]]], keys: 28 }
    c_2 { cap: 0, h: SAME, setup: &[Fill(1, 25)], thr: &[&[E26], &[&[Insert(27, 1), ComputeUp(27, 1), Insert(26, 1)]]], keys: 28 }
    // the first allocation
    z_2 { cap: 0, h: HH, thr: &[&[A1], &[A2]] }
    z_3 { cap: 0, h: HH, thr: &[&[B1], &[B2], &[N2]] }
}

const FN: &[(u32, u32)] = &[(P_CLOSURE, 1), (P_CLOSURE2, 0), (P_EQ, 1), (P_QEQ, 1), (P_HASH, 0)];
const FM: &[(u32, u32)] = &[(P_CLOSURE, 1), (P_CLOSURE2, 0), (P_EQ, 1), (P_QEQ, 1)];
const FI: &[(u32, u32)] = &[(P_CLOSURE, 2)];
const X1: &[Op] = &[Insert(1, 3), Update(1, 3), Remove(1), ComputeToggle(1, 3), Insert(2, 5), Remove(2), Clear];
const X2: &[Op] = &[Insert(1, 4), Remove(1), Reserve(20), Clear, Insert(3, 3), RetainNot(9)];
const X9: &[Op] = &[Insert(9, 7), Reserve(20)];
const RW: &[Op] = &[Get(1), GetKv(1), Insert(1, 1), GetOrInsert(1, 1), Update(1, 1), ComputeUp(1, 1), ComputeDel(1), Remove(1), RemoveEntry(1), RemoveIf(1, 9), TryInsert(1, 1), Iter];
const K1: &[Op] = &[Insert(1, 3), Update(1, 3), Remove(1), ComputeUp(1, 3), ComputeDel(1), Clear, RetainNot(9)];
const K2: &[Op] = &[Insert(1, 5), Remove(1), Clear];
const ALLM: &[Op] = &[Insert(1, 3), Update(1, 3), ComputeUp(1, 3), Remove(1), Insert(2, 3), Remove(2), Insert(9, 3)];
const MANY: &[Op] = &[Clear, RetainNot(9), Iter, Values, Reserve(20)];
/// The second table is nearly full while the first is still being copied.
const NEST: &[Op] = &[Insert(1, 9), Insert(2, 8), Fill(3, 8), Drain(3, 8), Fill(9, 15)];
const HN: &[H] = &[H::Fix(7, 100), H::Fix(1, 101)];
const NN: &[Op] = &[Insert(16, 7), ComputeUp(16, 7)];
/// With 31 tombstones in the probe sequence from slot 0 of a table with 64 slots,
/// the keys 3..=35 have a free slot each, 33 in all.
const CHAIN: &[H] = &[
    H::Fix(0, 1), H::Fix(0, 2),
    H::Fix(4, 3), H::Fix(7, 4), H::Fix(9, 5), H::Fix(11, 6), H::Fix(12, 7), H::Fix(13, 8), H::Fix(16, 9), H::Fix(19, 10), H::Fix(23, 11), H::Fix(24, 12), H::Fix(26, 13), H::Fix(29, 14), H::Fix(30, 15), H::Fix(32, 16), H::Fix(33, 17), H::Fix(34, 18), H::Fix(35, 19), H::Fix(37, 20), H::Fix(38, 21), H::Fix(40, 22), H::Fix(42, 23), H::Fix(46, 24), H::Fix(47, 25), H::Fix(48, 26), H::Fix(49, 27), H::Fix(50, 28), H::Fix(52, 29), H::Fix(53, 30), H::Fix(54, 31), H::Fix(57, 32), H::Fix(59, 33), H::Fix(60, 34), H::Fix(63, 35),
];
const SAME: &[H] = &[H::Fix(0, 5); 30];
const E26: &[Op] = &[
    Get(26), Contains(26), GetKv(26), Insert(26, 1), TryInsert(26, 2), GetOrInsertWith(26, 5), Update(26, 6), UpdateOrInsert(26, 7, 1), ComputeUp(26, 3), ComputeDel(26),
    ComputeAbort(26), ComputeToggle(26, 3), Remove(26), RemoveEntry(26), RemoveIf(26, 1), Iter,
];
const CH: &[Op] = &[Reserve(40), Churn(2, 31)];

scn! {
    // references held
    h_each { h: HH, setup: ONE, api: Api::Hold, thr: &[&[RW], &[K1, K2]] }
    h_own { h: HH, setup: ONE, api: Api::Owned, thr: &[&[RW], &[K1]] }
    h_sent { h: HH, setup: ONE, api: Api::Sent, thr: &[&[RW], &[K1]] }
    h_pin { h: HH, setup: ONE, api: Api::Pin, thr: &[&[RW], &[K1]] }
    h_pino { h: HH, setup: ONE, api: Api::PinOwned, thr: &[&[RW], &[K1]] }
    h_mid { chunk: 1, h: H7, setup: LIGHT, api: Api::Hold, thr: &[&[RW], &[K1]], keys: 9 }
    h_midd { chunk: 1, h: H7, setup: LIGHT, api: Api::Hold, thr: &[&[RW], &[K1, K2]], keys: 9 }
    h_tb { chunk: 0, h: H7, setup: PRE, api: Api::Hold, thr: &[&[RW], &[N9, K1]], keys: 9 }
    h_3 { chunk: 1, h: H7, setup: LIGHT, api: Api::Hold, thr: &[&[&[Get(1)]], &[&[Insert(1, 3), Remove(1)]], &[&[Insert(9, 7), Clear]]], keys: 9 }
    o_h { h: HH, setup: ONE, api: Api::Hold, thr: &[&[RW], &[K1]], stale: 2 }
    o_hm { chunk: 1, h: H7, setup: LIGHT, api: Api::Hold, thr: &[&[RW], &[K1]], keys: 9, stale: 1 }
    o_a { h: HH, setup: TWO, thr: &[&[&[Clear, RetainNot(9), Iter]], &[&[Insert(1, 3), ComputeUp(1, 3), Remove(1)]]], keys: 3, stale: 2 }
    i_gm { chunk: 1, h: H7, setup: LIGHT, thr: &[&[&[Iter], IH], &[&[Insert(1, 3), Remove(1)]]], keys: 9 }
    i_gt { chunk: 1, h: H7, setup: PRE, thr: &[&[&[Iter], IH], &[&[Insert(9, 7), Insert(1, 3), Remove(1)]]], keys: 9 }
    i_gb { chunk: 0, h: H7, setup: PRE, thr: &[&[&[Iter], IH], &[&[Insert(9, 7), Insert(1, 3), Remove(1)]]], keys: 9 }
    i_go { h: HH, thr: &[&[IG, IG], &[&[Insert(1, 3), Remove(1)]]], stale: 1 }
    o_am { chunk: 1, h: H7, setup: LIGHT, thr: &[&[&[Clear, RetainNot(9), Iter]], &[&[Insert(1, 3), ComputeUp(1, 3), Remove(1)]]], keys: 9, stale: 1 }
    // operations within the functions of the user
    x_0 { h: HH, thr: &[&[W1], &[X1, X1, X1]], nest: FN, keys: 3 }
    x_1 { h: HH, setup: ONE, thr: &[&[W1], &[X1, X1, X1]], nest: FN, keys: 3 }
    x_pin { h: HH, setup: ONE, api: Api::Pin, thr: &[&[W1], &[X1]], nest: FN, keys: 3 }
    x_h { h: HH, setup: TWO, api: Api::Hold, thr: &[&[RW, RW], &[X1, X2]], nest: FI, keys: 3 }
    x_pm { chunk: 1, h: H7, setup: LIGHT, api: Api::PinOwned, thr: &[&[W1], &[X1, X2]], nest: FM, keys: 9 }
    x_n { chunk: 1, h: HN, setup: NEST, thr: &[&[W1], &[&[Insert(16, 7), Reserve(20)], X1, X1]], nest: FM, keys: 16 }
    x_m { chunk: 1, h: H7, setup: LIGHT, thr: &[&[W1], &[X1, X2, X1]], nest: FM, keys: 9 }
    x_ti { chunk: 1, h: H7, setup: PRE, thr: &[&[W1], &[X9, X1, X1]], nest: FM, keys: 9 }
    x_ti8 { chunk: 8, h: H7, setup: PRE, thr: &[&[W1], &[X9, X1, X1]], nest: FM, keys: 9 }
    x_tb { chunk: 0, h: H7, setup: PRE, thr: &[&[W1], &[X9, X1, X1]], nest: FM, keys: 9 }
    x_a { h: HH, setup: TWO, thr: &[&[MANY], &[X1, X1, X1]], nest: FI, keys: 3 }
    x_am { chunk: 1, h: H7, setup: LIGHT, thr: &[&[MANY], &[X1, X2, X1]], nest: FI, keys: 9 }
    x_ati { chunk: 1, h: H7, setup: PRE, thr: &[&[MANY], &[X9, X1, X1]], nest: FI, keys: 9 }
    x_atb { chunk: 0, h: H7, setup: PRE, thr: &[&[MANY], &[X9, X1, X1]], nest: FI, keys: 9 }
    // operations on the whole map
    a_one { h: HH, setup: TWO, thr: &[&[MANY], &[ALLM, N2]], keys: 9 }
    a_inc { chunk: 1, h: H7, setup: LIGHT, thr: &[&[MANY], &[ALLM]], keys: 9 }
    a_inc2 { chunk: 2, h: H7, setup: LIGHT, thr: &[&[MANY], &[ALLM, N2]], keys: 9 }
    a_ti { chunk: 4, h: H7, setup: PRE, thr: &[&[MANY], &[ALLM, N9]], keys: 9 }
    a_tb { chunk: 0, h: H7, setup: PRE, thr: &[&[MANY], &[ALLM, N9]], keys: 9 }
    a_mm { chunk: 1, h: H7, setup: LIGHT, thr: &[&[MANY], &[MANY]], keys: 9 }
    a_mmb { chunk: 0, h: H7, setup: PRE, thr: &[&[MANY], &[MANY]], keys: 9 }
    // resizes of a table that is itself the target of a resize
    n_inc { chunk: 1, h: HN, setup: NEST, thr: &[&[NN], &[W2]], keys: 16 }
    n_inc2 { chunk: 1, h: HN, setup: NEST, thr: &[&[NN], &[NN, B2]], keys: 16 }
    n_many { chunk: 1, h: HN, setup: NEST, thr: &[&[MANY], &[&[Insert(16, 7), Remove(1), Insert(1, 3)]]], keys: 16 }
    abc_2 { cap: 0, bchunk: 32, h: CHAIN, setup: CH, thr: &[&[&[Insert(2, 1)]], &[&[Fill(3, 35)]], &[&[Insert(1, 1)]]], keys: 35 }
    abc_3 { cap: 0, bchunk: 24, h: CHAIN, setup: CH, thr: &[&[&[Insert(2, 1)]], &[&[Fill(3, 35)], &[Insert(1, 1), Insert(35, 1), Remove(35)]]], keys: 35 }
    // reserve
    r_b { chunk: 0, h: H7, setup: TWO, thr: &[&[&[Reserve(8)]], &[&[Reserve(8), Reserve(20)], B2]], keys: 9 }
    r_i { chunk: 2, h: H7, setup: TWO, thr: &[&[&[Reserve(8)]], &[&[Reserve(8), Reserve(20)], B2]], keys: 9 }
    // a blocking resize is given up because the next table is too small
ab_2 { cap: 0, h: CHAIN, setup: CH, thr: &[&[&[Insert(2, 1)]], &[&[Fill(3, 35)]], &[&[Insert(1, 1)]]], keys: 35 }
    ab_3 { cap: 0, h: CHAIN, setup: CH, thr: &[&[&[Insert(2, 1)]], &[&[Fill(3, 35)], &[Insert(1, 1), Insert(35, 1), Remove(35)]]], keys: 35 }
}
