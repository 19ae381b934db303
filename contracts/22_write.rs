// ---------------------------------------------------------------------------
// Specification of writing a disk: what may change, in which order, and what
// the device holds afterwards.
// ---------------------------------------------------------------------------
pub mod vwrite {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vdisk::*;
    use crate::vio::{Dev, same_dev, spliced, WOp, Error};
    use crate::vuuid::Uuid;
    use crate::vcrc::crc32;
    use crate::vmap::{BTreeMap, keyseq, lemma_keyseq};
    use crate::partition::Partition;
    use crate::header::{Header, HeaderBuilder, HeaderError};
    use crate::{GptDisk, GptConfig, GptError};

    // --------------------------------------------------------- planned headers
    pub open spec fn plan_hb0<D>(g: GptDisk<D>) -> HeaderBuilder { HeaderBuilder { disk_guid: g.guid, primary: true, ..spec_from_header(eff(g)) } }
    /// the backup header moves to the last block of the device
    pub open spec fn moves<D>(g: GptDisk<D>, bak: u64) -> bool { !g.config.readonly_backup && plan_hb0(g).backup_lba != bak }
    pub open spec fn plan_hb<D>(g: GptDisk<D>, bak: u64) -> HeaderBuilder {
        if moves(g, bak) { HeaderBuilder { backup_lba: bak, ..spec_from_header(spec_build(plan_hb0(g), dlb(g))) } } else { plan_hb0(g) }
    }
    pub open spec fn bak_of<D>(g: GptDisk<D>, b: Seq<u8>) -> u64 { last_lba(b, dlb(g)) as u64 }
    /// the primary header that gets written (checksums aside)
    pub open spec fn plan_ph<D>(g: GptDisk<D>, b: Seq<u8>) -> Header { spec_build(plan_hb(g, bak_of(g, b)), dlb(g)) }
    pub open spec fn plan_bh<D>(g: GptDisk<D>, b: Seq<u8>) -> Header { backup_of(plan_ph(g, b), dlb(g)) }
    /// the disk can be written to a device with the contents b
    pub open spec fn plan_ok<D>(g: GptDisk<D>, b: Seq<u8>) -> bool {
        let lb = dlb(g);
        let bak = bak_of(g, b);
        &&& b.len() >= 3 * lb
        &&& b.len() <= u64::MAX
        &&& spec_build_ok(plan_hb0(g), lb)
        &&& (moves(g, bak) ==> plan_hb0(g).backup_lba < bak && spec_build_ok(plan_hb(g, bak), lb))
        &&& plan_hb(g, bak).primary_lba == 1
        &&& eff(g).num_parts * 128 <= (bak - 1) * lb
    }

    // --------------------------------------------------------------- footprint
    /// primary header at lb, primary table right behind it, backup table at bt, backup header at bh
    pub struct Foot { pub lb: nat, pub tlen: nat, pub bt: nat, pub bh: nat, pub both: bool, pub t: Seq<u8>, pub pb: Header }
    pub open spec fn foot<D>(g: GptDisk<D>, b: Seq<u8>) -> Foot {
        Foot {
            lb: dlb(g), tlen: (eff(g).num_parts * 128) as nat, bt: plan_bh(g, b).part_start as nat * dlb(g), bh: bak_of(g, b) as nat * dlb(g),
            both: !g.config.readonly_backup,
            t: full_table(used_list(g.partitions@), eff(g).num_parts as nat), pb: plan_bh(g, b),
        }
    }
    pub open spec fn in_foot(f: Foot, i: int) -> bool {
        f.lb <= i < 2 * f.lb + f.tlen || f.both && (f.bt <= i < f.bt + f.tlen || f.bh <= i < f.bh + f.lb)
    }
    /// the four areas are disjoint, in order, and on the device
    pub open spec fn foot_in(f: Foot, len: nat) -> bool {
        &&& f.lb == 512 || f.lb == 4096
        &&& 2 * f.lb + f.tlen <= len
        &&& (f.both ==> 2 * f.lb + f.tlen <= f.bt && f.bt + f.tlen <= f.bh && f.bh + f.lb <= len)
    }
    pub open spec fn in_table(f: Foot, at: int, n: int) -> bool {
        0 <= n && (2 * f.lb <= at && at + n <= 2 * f.lb + f.tlen || f.both && f.bt <= at && at + n <= f.bt + f.tlen)
    }
    pub open spec fn frame(f: Foot, a: Seq<u8>, z: Seq<u8>) -> bool {
        &&& a.len() == z.len()
        &&& forall|i: int| 0 <= i < a.len() && !in_foot(f, i) ==> #[trigger] z[i] == a[i]
    }
    /// only the tables differ
    pub open spec fn in_tabs(f: Foot, i: int) -> bool {
        2 * f.lb <= i < 2 * f.lb + f.tlen || f.both && f.bt <= i < f.bt + f.tlen
    }
    pub open spec fn frame_t(f: Foot, a: Seq<u8>, z: Seq<u8>) -> bool {
        &&& a.len() == z.len()
        &&& forall|i: int| 0 <= i < a.len() && !in_tabs(f, i) ==> #[trigger] z[i] == a[i]
    }
    /// the new tables are complete
    pub open spec fn tabs_full(f: Foot, z: Seq<u8>) -> bool {
        &&& f.t.len() == f.tlen
        &&& seg(z, 2 * f.lb as int, f.tlen as int) == f.t
        &&& (f.both ==> seg(z, f.bt as int, f.tlen as int) == f.t)
    }
    /// the new backup header is complete
    pub open spec fn back_full(f: Foot, z: Seq<u8>) -> bool {
        exists|h: Header| planned(h, f.pb) && seg(z, f.bh as int, f.lb as int) == #[trigger] hdr_block(h, crc32(f.t), f.lb)
    }
    /// C20: the header blocks are as before until both tables are complete, and the primary
    /// header is as before until the backup header is complete, too
    pub open spec fn phase(f: Foot, a: Seq<u8>, z: Seq<u8>) -> bool {
        ||| frame_t(f, a, z)
        ||| tabs_full(f, z) && (seg(z, f.lb as int, f.lb as int) == seg(a, f.lb as int, f.lb as int) || !f.both || back_full(f, z))
    }
    pub proof fn lemma_frame_step(f: Foot, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, at: int, n: int)
        requires
            frame(f, a, b), only_changed(b, c, at, n), 0 <= at, 0 <= n, at + n <= b.len(),
            forall|i: int| at <= i < at + n ==> in_foot(f, i),
        ensures frame(f, a, c),
    {}

    // --------------------------------------------------------------- the order
    pub open spec fn ext(la: Seq<WOp>, lz: Seq<WOp>) -> bool { la.len() <= lz.len() && forall|i: int| 0 <= i < la.len() ==> #[trigger] lz[i] == la[i] }
    /// only the tables were written since la
    pub open spec fn all_table(f: Foot, la: Seq<WOp>, lz: Seq<WOp>) -> bool {
        &&& ext(la, lz)
        &&& forall|i: int| la.len() <= i < lz.len() ==> in_table(f, (#[trigger] lz[i]).at as int, lz[i].len as int)
    }
    pub open spec fn op_primary(f: Foot) -> WOp { WOp { at: f.lb, len: f.lb } }
    pub open spec fn op_backup(f: Foot) -> WOp { WOp { at: f.bh, len: f.lb } }
    /// the backup header was written last, and only after the tables
    pub open spec fn then_backup(f: Foot, la: Seq<WOp>, lz: Seq<WOp>) -> bool {
        f.both && lz.len() > la.len() && lz.last() == op_backup(f) && all_table(f, la, lz.drop_last())
    }
    /// the primary header was written last, after everything else
    pub open spec fn then_primary(f: Foot, la: Seq<WOp>, lz: Seq<WOp>) -> bool {
        lz.len() > la.len() && lz.last() == op_primary(f)
        && (if f.both { then_backup(f, la, lz.drop_last()) } else { all_table(f, la, lz.drop_last()) })
    }
    pub open spec fn log_ok(f: Foot, la: Seq<WOp>, lz: Seq<WOp>) -> bool { all_table(f, la, lz) || then_backup(f, la, lz) || then_primary(f, la, lz) }
    /// state of a device between the start of a write and its end
    pub open spec fn wr_state<D: Dev>(f: Foot, a: D, z: D) -> bool {
        &&& frame(f, a.bytes(), z.bytes())
        &&& phase(f, a.bytes(), z.bytes())
        &&& log_ok(f, a.wlog(), z.wlog())
        &&& z.reliable() == a.reliable()
        &&& z.errors() >= a.errors()
    }
    pub open spec fn tab_state<D: Dev>(f: Foot, a: D, z: D) -> bool {
        &&& frame(f, a.bytes(), z.bytes())
        &&& frame_t(f, a.bytes(), z.bytes())
        &&& all_table(f, a.wlog(), z.wlog())
        &&& z.reliable() == a.reliable()
    }
    pub proof fn lemma_push_table(f: Foot, la: Seq<WOp>, lz: Seq<WOp>, op: WOp)
        requires all_table(f, la, lz), in_table(f, op.at as int, op.len as int),
        ensures all_table(f, la, lz.push(op)),
    {}
    /// writing inside a table
    pub proof fn lemma_table_write<D: Dev>(f: Foot, a: D, y: D, at: int, d: Seq<u8>)
        requires foot_in(f, a.bytes().len()), tab_state(f, a, y), in_table(f, at, d.len() as int), y.errors() >= a.errors(),
        ensures
            at + d.len() <= y.bytes().len(), 0 <= at,
            forall|z: D, r: Result<(), Error>| #[trigger] wrote_at(&y, &z, at, d, r) ==> tab_state(f, a, z) && z.errors() >= a.errors() && wr_state(f, a, z) && z.bytes().len() == a.bytes().len()
                && (r is Ok ==> z.bytes() == spliced(y.bytes(), at as nat, d) && z.errors() == y.errors()) && (a.reliable() ==> z.errors() == y.errors())
                && (r is Err ==> z.errors() > y.errors() || at > u64::MAX || d.len() > u64::MAX),
    {
        assert forall|z: D, r: Result<(), Error>| #[trigger] wrote_at(&y, &z, at, d, r) implies tab_state(f, a, z) && z.errors() >= a.errors() && wr_state(f, a, z) && z.bytes().len() == a.bytes().len()
            && (r is Ok ==> z.bytes() == spliced(y.bytes(), at as nat, d) && z.errors() == y.errors()) && (a.reliable() ==> z.errors() == y.errors())
            && (r is Err ==> z.errors() > y.errors() || at > u64::MAX || d.len() > u64::MAX) by {
            lemma_push_table(f, a.wlog(), y.wlog(), WOp { at: at as nat, len: d.len() });
            if only_changed(y.bytes(), z.bytes(), at, d.len() as int) { lemma_frame_step(f, a.bytes(), y.bytes(), z.bytes(), at, d.len() as int); }
        }
    }
    /// writing a header block keeps the tables, and the primary keeps the backup
    pub proof fn lemma_tabs_keep(f: Foot, a: Seq<u8>, z: Seq<u8>, at: int)
        requires foot_in(f, a.len()), tabs_full(f, a), only_changed(a, z, at, f.lb as int), at == f.lb || f.both && at == f.bh,
        ensures tabs_full(f, z), at == f.lb && f.both && back_full(f, a) ==> back_full(f, z),
    {
        assert(z.len() == a.len());
        assert(seg(z, 2 * f.lb as int, f.tlen as int) =~= seg(a, 2 * f.lb as int, f.tlen as int));
        if f.both { assert(seg(z, f.bt as int, f.tlen as int) =~= seg(a, f.bt as int, f.tlen as int)); }
        if at == f.lb && f.both { assert(seg(z, f.bh as int, f.lb as int) =~= seg(a, f.bh as int, f.lb as int)); }
    }
    /// writing the backup header after the tables
    pub proof fn lemma_backup_write<D: Dev>(f: Foot, a: D, y: D, h: Header)
        requires foot_in(f, a.bytes().len()), tab_state(f, a, y), y.errors() >= a.errors(), f.both, h.current_lba * f.lb == f.bh, tabs_full(f, y.bytes()),
        ensures
            forall|z: D, h2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(h, h2, &y, &z, f.lb, r) ==> wr_state(f, a, z)
                && (r is Ok ==> then_backup(f, a.wlog(), z.wlog())),
    {
        assert forall|z: D, h2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(h, h2, &y, &z, f.lb, r) implies wr_state(f, a, z)
                && (r is Ok ==> then_backup(f, a.wlog(), z.wlog())) by {
            assert(y.wlog().push(op_backup(f)).drop_last() =~= y.wlog());
            if only_changed(y.bytes(), z.bytes(), f.bh as int, f.lb as int) {
                lemma_frame_step(f, a.bytes(), y.bytes(), z.bytes(), f.bh as int, f.lb as int);
                lemma_tabs_keep(f, y.bytes(), z.bytes(), f.bh as int);
                assert(seg(z.bytes(), f.lb as int, f.lb as int) =~= seg(a.bytes(), f.lb as int, f.lb as int));
            }
        }
    }
    pub proof fn lemma_primary_write<D: Dev>(f: Foot, a: D, y: D, h: Header)
        requires
            foot_in(f, a.bytes().len()), frame(f, a.bytes(), y.bytes()), y.reliable() == a.reliable(), y.errors() >= a.errors(), h.current_lba == 1,
            if f.both { then_backup(f, a.wlog(), y.wlog()) } else { all_table(f, a.wlog(), y.wlog()) },
            tabs_full(f, y.bytes()), f.both ==> back_full(f, y.bytes()),
        ensures
            forall|z: D, h2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(h, h2, &y, &z, f.lb, r) ==> wr_state(f, a, z)
                && (r is Ok ==> then_primary(f, a.wlog(), z.wlog())),
    {
        assert forall|z: D, h2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(h, h2, &y, &z, f.lb, r) implies wr_state(f, a, z)
                && (r is Ok ==> then_primary(f, a.wlog(), z.wlog())) by {
            assert(y.wlog().push(op_primary(f)).drop_last() =~= y.wlog());
            if only_changed(y.bytes(), z.bytes(), f.lb as int, f.lb as int) {
                lemma_frame_step(f, a.bytes(), y.bytes(), z.bytes(), f.lb as int, f.lb as int);
                lemma_tabs_keep(f, y.bytes(), z.bytes(), f.lb as int);
            }
        }
    }

    // -------------------------------------------------------------- the tables
    /// the partitions in use among the first n ids, in id order
    pub open spec fn used_prefix(m: Map<u32, Partition>, ks: Seq<u32>, n: int) -> Seq<Partition>
        decreases n,
    {
        if n <= 0 { seq![] } else if used(m[ks[n - 1]]) { used_prefix(m, ks, n - 1).push(m[ks[n - 1]]) } else { used_prefix(m, ks, n - 1) }
    }
    pub open spec fn used_list(m: Map<u32, Partition>) -> Seq<Partition> { used_prefix(m, keyseq(m), keyseq(m).len() as int) }
    pub proof fn lemma_used_len(m: Map<u32, Partition>, ks: Seq<u32>, n: int)
        requires 0 <= n,
        ensures used_prefix(m, ks, n).len() <= n,
        decreases n,
    { if n > 0 { lemma_used_len(m, ks, n - 1); } }
    /// n slots: the entries, packed, followed by zeros
    pub open spec fn full_table(u: Seq<Partition>, n: nat) -> Seq<u8> {
        Seq::new(128 * n, |i: int| if i / 128 < u.len() { entry_bytes(u[i / 128], 128)[i % 128] } else { 0u8 })
    }
    pub open spec fn tslot(b: Seq<u8>, at: int, j: int) -> Seq<u8> { b.subrange(at + 128 * j, at + 128 * j + 128) }
    pub open spec fn tab_done(b: Seq<u8>, at: int, u: Seq<Partition>) -> bool {
        forall|j: int| 0 <= j < u.len() ==> #[trigger] tslot(b, at, j) == entry_bytes(u[j], 128)
    }
    pub proof fn lemma_tab_keep(b: Seq<u8>, at: int, u: Seq<Partition>, p: int, d: Seq<u8>)
        requires tab_done(b, at, u), 0 <= at, at + 128 * u.len() <= b.len(), 0 <= p, p + d.len() <= b.len(), p + d.len() <= at || at + 128 * u.len() <= p,
        ensures tab_done(spliced(b, p as nat, d), at, u),
    {
        let z = spliced(b, p as nat, d);
        assert forall|j: int| 0 <= j < u.len() implies #[trigger] tslot(z, at, j) == entry_bytes(u[j], 128) by {
            assert(tslot(z, at, j) =~= tslot(b, at, j));
        }
    }
    pub proof fn lemma_tab_push(b: Seq<u8>, at: int, u: Seq<Partition>, p: Partition)
        requires tab_done(b, at, u), 0 <= at, at + 128 * u.len() + 128 <= b.len(),
        ensures tab_done(spliced(b, (at + 128 * u.len()) as nat, entry_bytes(p, 128)), at, u.push(p)),
    {
        let d = entry_bytes(p, 128);
        lemma_tab_keep(b, at, u, at + 128 * u.len(), d);
        let z = spliced(b, (at + 128 * u.len()) as nat, d);
        assert(tslot(z, at, u.len() as int) =~= d);
        assert forall|j: int| 0 <= j < u.push(p).len() implies #[trigger] tslot(z, at, j) == entry_bytes(u.push(p)[j], 128) by {
            if j < u.len() { assert(tslot(z, at, j) == entry_bytes(u[j], 128)); }
        }
    }
    pub proof fn lemma_tab_full(b: Seq<u8>, at: int, u: Seq<Partition>, n: nat)
        requires tab_done(b, at, u), 0 <= at, u.len() <= n, at + 128 * n <= b.len(),
        ensures
            seg(spliced(b, (at + 128 * u.len()) as nat, zeros((128 * (n - u.len())) as nat)), at, 128 * n as int) == full_table(u, n),
            full_table(u, n).len() == 128 * n,
    {
        let d = zeros((128 * (n - u.len())) as nat);
        let z = spliced(b, (at + 128 * u.len()) as nat, d);
        lemma_tab_keep(b, at, u, at + 128 * u.len(), d);
        let s = seg(z, at, 128 * n as int);
        let t = full_table(u, n);
        assert forall|i: int| 0 <= i < 128 * n implies #[trigger] s[i] == t[i] by {
            let j = i / 128;
            if j < u.len() {
                assert(tslot(z, at, j)[i % 128] == z[at + i]);
            } else {
                assert(i >= 128 * u.len());
            }
        }
        assert(s =~= t);
    }
    /// an area that does not meet the written range keeps its contents
    pub proof fn lemma_seg_keep(b: Seq<u8>, o: int, n: int, p: int, d: Seq<u8>)
        requires 0 <= o, 0 <= n, o + n <= b.len(), 0 <= p, p + d.len() <= b.len(), p + d.len() <= o || o + n <= p,
        ensures seg(spliced(b, p as nat, d), o, n) == seg(b, o, n),
    { assert(seg(spliced(b, p as nat, d), o, n) =~= seg(b, o, n)); }
    pub proof fn lemma_seg_put(b: Seq<u8>, p: int, d: Seq<u8>)
        requires 0 <= p, p + d.len() <= b.len(),
        ensures seg(spliced(b, p as nat, d), p, d.len() as int) == d,
    { assert(seg(spliced(b, p as nat, d), p, d.len() as int) =~= d); }

    pub broadcast proof fn lemma_entry_len(p: Partition, n: nat)
        ensures (#[trigger] entry_bytes(p, n)).len() == n,
    {}
    pub broadcast proof fn lemma_zeros_len(n: nat)
        ensures (#[trigger] zeros(n)).len() == n,
    {}
    pub proof fn lemma_tab_start<D: Dev>(f: Foot, a: D, z: D, m: Map<u32, Partition>, ks: Seq<u32>, at1: int, at2: int)
        requires same_dev(&z, &a), z.errors() >= a.errors(),
        ensures
            tab_state(f, a, z), wr_state(f, a, z), used_prefix(m, ks, 0).len() == 0,
            tab_done(z.bytes(), at1, used_prefix(m, ks, 0)), tab_done(z.bytes(), at2, used_prefix(m, ks, 0)),
    {}
    pub proof fn lemma_used_step(m: Map<u32, Partition>, ks: Seq<u32>, n: int)
        requires 0 <= n,
        ensures
            used_prefix(m, ks, n + 1) == (if used(m[ks[n]]) { used_prefix(m, ks, n).push(m[ks[n]]) } else { used_prefix(m, ks, n) }),
            used_prefix(m, ks, n).len() <= n,
    { lemma_used_len(m, ks, n); }
    pub proof fn lemma_both_full<D: Dev>(f: Foot, y: D, u: Seq<Partition>, n: nat)
        requires foot_in(f, y.bytes().len()), f.tlen == 128 * n, u.len() <= n, tab_done(y.bytes(), 2 * f.lb as int, u), f.both ==> tab_done(y.bytes(), f.bt as int, u),
        ensures ({
            let z = zeros((128 * (n - u.len())) as nat);
            let b1 = spliced(y.bytes(), (2 * f.lb + 128 * u.len()) as nat, z);
            let b2 = spliced(b1, (f.bt + 128 * u.len()) as nat, z);
            &&& b1.len() == y.bytes().len()
            &&& full_table(u, n).len() == 128 * n
            &&& seg(b1, 2 * f.lb as int, f.tlen as int) == full_table(u, n)
            &&& (f.both ==> b2.len() == b1.len() && seg(b2, 2 * f.lb as int, f.tlen as int) == full_table(u, n) && seg(b2, f.bt as int, f.tlen as int) == full_table(u, n))
        }),
    {
        let z = zeros((128 * (n - u.len())) as nat);
        let p1 = 2 * f.lb + 128 * u.len();
        let b1 = spliced(y.bytes(), p1 as nat, z);
        lemma_tab_full(y.bytes(), 2 * f.lb as int, u, n);
        if f.both {
            lemma_tab_keep(y.bytes(), f.bt as int, u, p1 as int, z);
            lemma_tab_full(b1, f.bt as int, u, n);
            lemma_seg_keep(b1, 2 * f.lb as int, f.tlen as int, (f.bt + 128 * u.len()) as int, z);
        }
    }

    // -------------------------------------------------------------- the result
    /// block `lba` holds the header h, whose table is t
    pub open spec fn hdr_on(b: Seq<u8>, h: Header, t: Seq<u8>, lb: nat) -> bool {
        &&& h.crc32_parts == crc32(t)
        &&& h.crc32 == crc32(hdr_bytes(h, 0, crc32(t)))
        &&& seg(b, h.current_lba * lb, lb as int) == hdr_block(h, crc32(t), lb)
        &&& table_in(h, b, lb)
        &&& table_of(h, b, lb) == t
    }
    pub proof fn lemma_table_is(h: Header, b: Seq<u8>, lb: nat, t: Seq<u8>)
        requires table_len(h) == t.len(), table_at(h, lb) <= u64::MAX, 0 <= table_at(h, lb), table_at(h, lb) + t.len() <= b.len(), seg(b, table_at(h, lb), t.len() as int) == t,
        ensures table_in(h, b, lb), table_of(h, b, lb) == t,
    { if t.len() == 0 { assert(t =~= Seq::<u8>::empty()); } }
    /// a header that was written is on the device
    pub proof fn lemma_hdr_written<D: Dev>(h: Header, h2: Header, y: D, z: D, lb: nat, r: Result<usize, HeaderError>, t: Seq<u8>)
        requires
            wrote_header(h, h2, &y, &z, lb, r), r is Ok, lb == 512 || lb == 4096, sig_ok(h),
            table_in(h, y.bytes(), lb), table_of(h, y.bytes(), lb) == t, table_len(h) == t.len(), table_at(h, lb) >= 0,
            0 <= h.current_lba * lb, h.current_lba * lb + lb <= y.bytes().len(),
            table_at(h, lb) + t.len() <= h.current_lba * lb || h.current_lba * lb + lb <= table_at(h, lb), table_at(h, lb) + t.len() <= y.bytes().len(),
        ensures
            z.bytes().len() == y.bytes().len(),
            hdr_on(z.bytes(), h2, t, lb),
            z.bytes() == spliced(y.bytes(), (h.current_lba * lb) as nat, hdr_block(h, crc32(t), lb)),
            hdr_block(h, crc32(t), lb).len() == lb,
    {
        broadcast use crate::lemma_efi_bytes;
        lemma_hdr_bytes(h, 0, crc32(t));
        lemma_hdr_bytes(h, crc32(hdr_bytes(h, 0, crc32(t))), crc32(t));
        let d = hdr_block(h, crc32(t), lb);
        lemma_seg_put(y.bytes(), h.current_lba * lb, d);
        if t.len() > 0 { lemma_seg_keep(y.bytes(), table_at(h, lb), t.len() as int, h.current_lba * lb, d); }
        lemma_hdr_fields(h, h2, crc32(t), lb);
    }
    /// the checksum fields of a header are no input to its encoding
    pub proof fn lemma_hdr_fields(h: Header, h2: Header, pcrc: u32, lb: nat)
        requires h2 == (Header { crc32: h2.crc32, crc32_parts: h2.crc32_parts, ..h }),
        ensures hdr_block(h2, pcrc, lb) == hdr_block(h, pcrc, lb), hdr_bytes(h2, 0, pcrc) == hdr_bytes(h, 0, pcrc),
    {}
    /// and stays there if something else is written
    pub proof fn lemma_hdr_keep(b: Seq<u8>, h: Header, t: Seq<u8>, lb: nat, p: int, d: Seq<u8>)
        requires
            hdr_on(b, h, t, lb), 0 <= p, p + d.len() <= b.len(), table_len(h) == t.len(), table_at(h, lb) >= 0, 0 <= h.current_lba * lb, h.current_lba * lb + lb <= b.len(),
            h.current_lba * lb + lb <= p || p + d.len() <= h.current_lba * lb,
            table_at(h, lb) + t.len() <= p || p + d.len() <= table_at(h, lb), table_at(h, lb) + t.len() <= b.len(),
        ensures hdr_on(spliced(b, p as nat, d), h, t, lb),
    {
        lemma_seg_keep(b, h.current_lba * lb, lb as int, p, d);
        if t.len() > 0 { lemma_seg_keep(b, table_at(h, lb), t.len() as int, p, d); }
    }
    pub proof fn lemma_header_same(h: Header, h2: Header, lb: nat, a: Seq<u8>, b: Seq<u8>)
        requires h2 == (Header { signature: h2.signature, crc32: h2.crc32, crc32_parts: h2.crc32_parts, ..h }), layout_ok(h, lb), a.len() == b.len(),
        ensures layout_ok(h2, lb), last_lba(a, lb) == last_lba(b, lb),
    {}
    /// block 0, the blocks from first to last, and the length are the same
    pub open spec fn spares(first: int, last: int, lb: nat, a: Seq<u8>, z: Seq<u8>) -> bool {
        &&& a.len() == z.len()
        &&& forall|i: int| 0 <= i < a.len() && (i < lb || first * lb <= i < (last + 1) * lb) ==> #[trigger] z[i] == a[i]
    }
    pub proof fn lemma_spares<D: Dev>(g: GptDisk<D>)
        requires wf(g), plan_ok(g, g.device.bytes()),
        ensures
            forall|z: D| #[trigger] wr_state(foot(g, g.device.bytes()), g.device, z) ==> z.bytes().len() == g.device.bytes().len()
                && spares(plan_ph(g, g.device.bytes()).first_usable as int, plan_ph(g, g.device.bytes()).last_usable as int, dlb(g), g.device.bytes(), z.bytes()),
    {
        lemma_plan(g, g.device.bytes());
    }
    pub proof fn lemma_spares_same<D: Dev>(a: D, first: int, last: int, lb: nat)
        ensures spares(first, last, lb, a.bytes(), a.bytes()), forall|z: D| #[trigger] same_dev(&z, &a) ==> spares(first, last, lb, a.bytes(), z.bytes()),
    {}
    /// h is the planned header p with its checksums
    pub open spec fn planned(h: Header, p: Header) -> bool {
        h == (Header { signature: h.signature, crc32: h.crc32, crc32_parts: h.crc32_parts, ..p }) && sig_ok(h)
    }
    /// what is in memory and on the device after a write that reports success
    pub open spec fn written<D: Dev>(a: GptDisk<D>, z: GptDisk<D>) -> bool {
        let b = z.device.bytes();
        let lb = dlb(a);
        let t = full_table(used_list(a.partitions@), eff(a).num_parts as nat);
        &&& z.primary_header is Ok
        &&& planned(z.primary_header->Ok_0, plan_ph(a, a.device.bytes()))
        &&& hdr_on(b, z.primary_header->Ok_0, t, lb)
        &&& layout_ok(z.primary_header->Ok_0, lb)
        &&& (a.config.readonly_backup ==> z.backup_header == a.backup_header)
        &&& (!a.config.readonly_backup ==> z.backup_header is Ok && planned(z.backup_header->Ok_0, plan_bh(a, a.device.bytes()))
            && hdr_on(b, z.backup_header->Ok_0, t, lb) && z.backup_header->Ok_0.current_lba == bak_of(a, b))
    }
    pub proof fn lemma_plan<D: Dev>(g: GptDisk<D>, b: Seq<u8>)
        requires wf(g), plan_ok(g, b),
        ensures
            foot_in(foot(g, b), b.len()),
            plan_ph(g, b).current_lba == 1, plan_ph(g, b).part_start == 2, plan_ph(g, b).num_parts == eff(g).num_parts, plan_ph(g, b).part_size == 128,
            layout_ok(plan_ph(g, b), dlb(g)), plan_ph(g, b).current_lba < plan_ph(g, b).backup_lba,
            plan_bh(g, b).num_parts == eff(g).num_parts, plan_bh(g, b).part_size == 128,
            foot(g, b).both ==> plan_ph(g, b).backup_lba == bak_of(g, b) && plan_bh(g, b).current_lba == bak_of(g, b) && plan_bh(g, b).current_lba > plan_bh(g, b).backup_lba
                && plan_bh(g, b).part_start > 2,
            spec_build_ok(HeaderBuilder { primary: false, ..spec_from_header(plan_ph(g, b)) }, dlb(g)),
            foot(g, b).tlen <= 0x80_0000_0000, foot(g, b).both ==> foot(g, b).bt <= u64::MAX,
            // block 0 and the usable range are spared
            forall|i: int| 0 <= i < dlb(g) || plan_ph(g, b).first_usable * dlb(g) <= i < (plan_ph(g, b).last_usable + 1) * dlb(g) ==> !#[trigger] in_foot(foot(g, b), i),
    {
        let lb = dlb(g);
        let bak = bak_of(g, b);
        let hb = plan_hb(g, bak);
        let ph = plan_ph(g, b);
        let f = foot(g, b);
        lemma_last_lba(b, lb);
        lemma_num_size(hb.num_parts, hb.part_size);
        lemma_table_blocks(hb.num_parts, hb.part_size, lb);
        let t = table_blocks(hb.num_parts, hb.part_size, lb);
        assert(spec_build_ok(hb, lb));
        assert(hb.primary_lba == 1);
        assert(ph.current_lba == 1);
        assert(hb.part_size == 128);
        assert(ph.last_usable + t + 1 <= hb.backup_lba);
        assert((bak + 1) * lb <= b.len()) by (nonlinear_arith) requires bak * lb + lb <= b.len();
        assert((bak - 1) * lb + 2 * lb == (bak + 1) * lb) by (nonlinear_arith);
        assert(ph.first_usable >= 2 + t);
        assert(ph.first_usable * lb >= (2 + t) * lb) by (nonlinear_arith) requires ph.first_usable >= 2 + t, lb >= 0;
        assert((2 + t) * lb == 2 * lb + t * lb) by (nonlinear_arith);
        if f.both {
            let bh = plan_bh(g, b);
            assert(bh.part_start == bak - t);
            assert((bak - t) * lb + t * lb == bak * lb) by (nonlinear_arith);
            assert((bak - t) * lb >= (ph.last_usable + 1) * lb) by (nonlinear_arith) requires bak - t >= ph.last_usable + 1, lb >= 0;
            assert((ph.last_usable + 1) * lb >= ph.first_usable * lb) by (nonlinear_arith) requires ph.last_usable + 1 >= ph.first_usable, lb >= 0;
            assert(bh.part_start * lb == (bak - t) * lb);
        }
    }

    // ------------------------------------------- the last steps of a write
    pub open spec fn w_tab<D: Dev>(g: GptDisk<D>) -> Seq<u8> { full_table(used_list(g.partitions@), eff(g).num_parts as nat) }
    /// p and q are the headers about to be written (q unused with a read-only backup)
    pub open spec fn w_hdrs<D: Dev>(g: GptDisk<D>, p: Header, q: Header) -> bool {
        planned(p, plan_ph(g, g.device.bytes())) && (!g.config.readonly_backup ==> planned(q, plan_bh(g, g.device.bytes())))
    }
    /// both tables are complete on y, no header has been touched
    pub open spec fn st_tab<D: Dev>(g: GptDisk<D>, y: D) -> bool {
        let f = foot(g, g.device.bytes());
        &&& tab_state(f, g.device, y) && y.errors() == g.device.errors() && y.bytes().len() == g.device.bytes().len()
        &&& seg(y.bytes(), 2 * f.lb as int, f.tlen as int) == w_tab(g) && w_tab(g).len() == f.tlen
        &&& (f.both ==> seg(y.bytes(), f.bt as int, f.tlen as int) == w_tab(g))
    }
    /// the backup header (if any) is on y too; q2 is what is in memory
    pub open spec fn st_back<D: Dev>(g: GptDisk<D>, y: D, q2: Header) -> bool {
        let f = foot(g, g.device.bytes());
        &&& frame(f, g.device.bytes(), y.bytes()) && y.reliable() == g.device.reliable()
        &&& y.errors() == g.device.errors() && y.bytes().len() == g.device.bytes().len()
        &&& seg(y.bytes(), 2 * f.lb as int, f.tlen as int) == w_tab(g) && w_tab(g).len() == f.tlen
        &&& tabs_full(f, y.bytes()) && (f.both ==> back_full(f, y.bytes()))
        &&& (if f.both { then_backup(f, g.device.wlog(), y.wlog()) } else { all_table(f, g.device.wlog(), y.wlog()) })
        &&& (f.both ==> planned(q2, plan_bh(g, g.device.bytes())) && hdr_on(y.bytes(), q2, w_tab(g), f.lb))
    }
    /// everything is on y
    pub open spec fn st_done<D: Dev>(g: GptDisk<D>, y: D, p2: Header, q2: Header) -> bool {
        let f = foot(g, g.device.bytes());
        &&& y.errors() == g.device.errors() && y.bytes().len() == g.device.bytes().len() && y.reliable() == g.device.reliable()
        &&& then_primary(f, g.device.wlog(), y.wlog())
        &&& planned(p2, plan_ph(g, g.device.bytes())) && hdr_on(y.bytes(), p2, w_tab(g), f.lb) && layout_ok(p2, f.lb)
        &&& (f.both ==> planned(q2, plan_bh(g, g.device.bytes())) && hdr_on(y.bytes(), q2, w_tab(g), f.lb) && q2.current_lba == bak_of(g, y.bytes()))
    }
    pub proof fn lemma_st_tab<D: Dev>(g: GptDisk<D>, y: D)
        requires ({
            let f = foot(g, g.device.bytes());
            &&& tab_state(f, g.device, y) && y.errors() == g.device.errors() && y.bytes().len() == g.device.bytes().len()
            &&& seg(y.bytes(), 2 * f.lb as int, f.tlen as int) == w_tab(g) && w_tab(g).len() == f.tlen
            &&& (f.both ==> seg(y.bytes(), f.bt as int, f.tlen as int) == w_tab(g))
        }),
        ensures st_tab(g, y),
    {}
    pub proof fn lemma_st_skip<D: Dev>(g: GptDisk<D>, y: D, q2: Header)
        requires st_tab(g, y), g.config.readonly_backup,
        ensures st_back(g, y, q2),
    {}
    pub proof fn lemma_st_back<D: Dev>(g: GptDisk<D>, y: D, q: Header)
        requires wf(g), plan_ok(g, g.device.bytes()), st_tab(g, y), !g.config.readonly_backup, planned(q, plan_bh(g, g.device.bytes())),
        ensures
            q.current_lba > q.backup_lba, sig_ok(q), table_len(q) <= isize::MAX, q.current_lba * dlb(g) <= u64::MAX, table_at(q, dlb(g)) <= u64::MAX,
            forall|z: D, q2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(q, q2, &y, &z, dlb(g), r) ==>
                wr_state(foot(g, g.device.bytes()), g.device, z) && (r is Ok ==> st_back(g, z, q2))
                && z.errors() >= y.errors() && y.errors() == g.device.errors() && (g.device.reliable() ==> z.errors() == g.device.errors()) && planned(q2, plan_bh(g, g.device.bytes())),
    {
        let f = foot(g, g.device.bytes());
        let lb = dlb(g);
        let t = w_tab(g);
        lemma_plan(g, g.device.bytes());
        lemma_num_size(eff(g).num_parts, 128);
        assert(q.current_lba * lb == f.bh);
        assert(table_at(q, lb) == f.bt);
        assert(table_len(q) == f.tlen);
        lemma_table_is(q, y.bytes(), lb, t);
        assert(tabs_full(f, y.bytes()));
        lemma_backup_write(f, g.device, y, q);
        assert forall|z: D, q2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(q, q2, &y, &z, lb, r) implies
                wr_state(f, g.device, z) && (r is Ok ==> st_back(g, z, q2)) && z.errors() >= y.errors() && y.errors() == g.device.errors() && (g.device.reliable() ==> z.errors() == g.device.errors()) && planned(q2, plan_bh(g, g.device.bytes())) by {
            if r is Ok {
                lemma_hdr_written(q, q2, y, z, lb, r, t);
                lemma_seg_keep(y.bytes(), 2 * lb as int, f.tlen as int, f.bh as int, hdr_block(q, crc32(t), lb));
                lemma_seg_keep(y.bytes(), f.bt as int, f.tlen as int, f.bh as int, hdr_block(q, crc32(t), lb));
                lemma_seg_put(y.bytes(), f.bh as int, hdr_block(q, crc32(t), lb));
                assert(back_full(f, z.bytes()));
            }
        }
    }
    pub proof fn lemma_st_primary<D: Dev>(g: GptDisk<D>, y: D, p: Header, q2: Header)
        requires wf(g), plan_ok(g, g.device.bytes()), st_back(g, y, q2), planned(p, plan_ph(g, g.device.bytes())),
        ensures
            p.current_lba < p.backup_lba, sig_ok(p), table_len(p) <= isize::MAX, p.current_lba * dlb(g) <= u64::MAX, table_at(p, dlb(g)) <= u64::MAX,
            forall|z: D, p2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(p, p2, &y, &z, dlb(g), r) ==>
                wr_state(foot(g, g.device.bytes()), g.device, z) && (r is Ok ==> st_done(g, z, p2, q2))
                && z.errors() >= y.errors() && y.errors() == g.device.errors() && (g.device.reliable() ==> z.errors() == g.device.errors()) && planned(p2, plan_ph(g, g.device.bytes())),
    {
        let b0 = g.device.bytes();
        let f = foot(g, b0);
        let lb = dlb(g);
        let t = w_tab(g);
        lemma_plan(g, b0);
        lemma_num_size(eff(g).num_parts, 128);
        assert(p.current_lba == 1);
        assert(p.current_lba * lb == lb) by (nonlinear_arith) requires p.current_lba == 1;
        assert(table_at(p, lb) == 2 * lb);
        assert(table_len(p) == f.tlen);
        lemma_table_is(p, y.bytes(), lb, t);
        lemma_primary_write(f, g.device, y, p);
        assert forall|z: D, p2: Header, r: Result<usize, HeaderError>| #[trigger] wrote_header(p, p2, &y, &z, lb, r) implies
                wr_state(f, g.device, z) && (r is Ok ==> st_done(g, z, p2, q2)) && z.errors() >= y.errors() && y.errors() == g.device.errors() && (g.device.reliable() ==> z.errors() == g.device.errors()) && planned(p2, plan_ph(g, g.device.bytes())) by {
            if r is Ok {
                lemma_hdr_written(p, p2, y, z, lb, r, t);
                lemma_header_same(plan_ph(g, b0), p2, lb, b0, z.bytes());
                if f.both {
                    assert(q2.current_lba * lb == f.bh);
                    assert(table_at(q2, lb) == f.bt);
                    assert(table_len(q2) == f.tlen);
                    lemma_hdr_keep(y.bytes(), q2, t, lb, lb as int, hdr_block(p, crc32(t), lb));
                }
            }
        }
    }
    /// flushing and syncing keep the state
    pub proof fn lemma_wr_keep<D: Dev>(f: Foot, a: D, y: D)
        requires wr_state(f, a, y),
        ensures
            y.reliable() == a.reliable(),
            forall|z: D| z.bytes() == y.bytes() && z.wlog() == y.wlog() && z.reliable() == y.reliable() && z.errors() >= y.errors() ==> #[trigger] wr_state(f, a, z),
    {}
    pub proof fn lemma_st_done<D: Dev>(a: GptDisk<D>, y: D, z: GptDisk<D>, p2: Header, q2: Header)
        requires
            st_done(a, y, p2, q2), z.device.bytes() == y.bytes(), z.primary_header == Ok::<Header, HeaderError>(p2),
            if a.config.readonly_backup { z.backup_header == a.backup_header } else { z.backup_header == Ok::<Header, HeaderError>(q2) },
        ensures written(a, z), then_primary(foot(a, a.device.bytes()), a.device.wlog(), y.wlog()), y.errors() == a.device.errors(),
    {}
}
