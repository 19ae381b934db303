// ---------------------------------------------------------------------------
// Specification of GptDisk: invariant, free space, placement, headers, writing.
// ---------------------------------------------------------------------------
pub mod vdisk {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vio::{Dev, same_dev, spliced, WOp, Read, Write, Seek};
    use crate::vuuid::Uuid;
    use crate::vcrc::crc32;
    use crate::vmap::{BTreeMap, keyseq, lemma_keyseq};
    use crate::partition::Partition;
    use crate::header::{Header, HeaderBuilder, HeaderError};
    use crate::{GptDisk, GptConfig, GptError};

    // ----------------------------------------------------------- invariant
    pub open spec fn has_header<D>(g: GptDisk<D>) -> bool { g.primary_header is Ok || g.backup_header is Ok }
    /// the header that counts: the primary if valid, the backup otherwise
    pub open spec fn eff<D>(g: GptDisk<D>) -> Header { if g.primary_header is Ok { g.primary_header->Ok_0 } else { g.backup_header->Ok_0 } }
    pub open spec fn sig_ok(h: Header) -> bool { h.signature@ == "EFI PART"@ }
    pub open spec fn dlb<D>(g: GptDisk<D>) -> nat { lbs(g.config.lb_size) }
    /// holds for every disk that was opened or created, and is kept by every edit and write
    pub open spec fn wf<D>(g: GptDisk<D>) -> bool {
        &&& has_header(g)
        &&& (g.primary_header is Ok ==> sig_ok(g.primary_header->Ok_0))
        &&& (g.backup_header is Ok ==> sig_ok(g.backup_header->Ok_0))
        &&& eff(g).part_size == 128
        &&& !g.partitions@.dom().contains(0)
        &&& g.partitions@.dom().len() <= eff(g).num_parts
    }
    pub open spec fn same_headers<A, B>(a: GptDisk<A>, b: GptDisk<B>) -> bool {
        &&& same_hres(a.primary_header, b.primary_header)
        &&& same_hres(a.backup_header, b.backup_header)
    }
    pub open spec fn same_hres(a: Result<Header, HeaderError>, b: Result<Header, HeaderError>) -> bool {
        &&& (a is Ok <==> b is Ok)
        &&& (a is Ok ==> a->Ok_0 == b->Ok_0)
        &&& (a is Err ==> same_herr(a->Err_0, b->Err_0))
    }
    pub open spec fn same_herr(a: HeaderError, b: HeaderError) -> bool {
        &&& (a is Io <==> b is Io)
        &&& (a is InvalidGptSignature <==> b is InvalidGptSignature)
        &&& (a is InvalidCRC32Checksum <==> b is InvalidCRC32Checksum)
        &&& (a is WrongLba <==> b is WrongLba)
        &&& (a is ToSmallForBackup <==> b is ToSmallForBackup)
        &&& (a is Overflow <==> b is Overflow)
    }
    /// everything but the device is the same
    pub open spec fn same_state<D>(a: GptDisk<D>, b: GptDisk<D>) -> bool {
        &&& a.config == b.config
        &&& a.guid == b.guid
        &&& a.primary_header == b.primary_header
        &&& a.backup_header == b.backup_header
        &&& a.partitions == b.partitions
        &&& a.sync_all == b.sync_all
    }

    // ----------------------------------------------------------- free space
    pub open spec fn covers(p: Partition, b: int) -> bool {
        imin(p.first_lba as int, p.last_lba as int) <= b <= imax(p.first_lba as int, p.last_lba as int)
    }
    pub open spec fn taken(m: Map<u32, Partition>, b: int) -> bool { exists|k: u32| m.dom().contains(k) && used(m[k]) && #[trigger] covers(m[k], b) }
    /// a usable block which belongs to no partition in use; block 0 is never free
    pub open spec fn free_in(h: Header, m: Map<u32, Partition>, b: int) -> bool {
        1 <= b && h.first_usable <= b <= h.last_usable && !taken(m, b)
    }
    pub open spec fn in_seg(s: (u64, u64), b: int) -> bool { s.0 <= b < s.0 + s.1 }
    pub open spec fn in_segs(s: Seq<(u64, u64)>, b: int) -> bool { exists|i: int| 0 <= i < s.len() && in_seg(#[trigger] s[i], b) }
    /// non-empty, ascending, with at least one block between two of them
    pub open spec fn segs_sorted(s: Seq<(u64, u64)>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 > 0 && s[i].0 + s[i].1 <= 0x1_0000_0000_0000_0000
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 + s[i].1 < (#[trigger] s[j]).0
    }
    /// s lists the maximal runs of free blocks in ascending order
    pub open spec fn free_list(h: Header, m: Map<u32, Partition>, s: Seq<(u64, u64)>) -> bool {
        &&& segs_sorted(s)
        &&& forall|b: int| #[trigger] in_segs(s, b) <==> free_in(h, m, b)
    }

    // ------------------------------------------------------------ placement
    pub open spec fn aligned(x: int, align: Option<u64>) -> bool { align is None || align->0 == 0 || x % (align->0 as int) == 0 }
    pub open spec fn all_free(h: Header, m: Map<u32, Partition>, x: int, n: int) -> bool { forall|b: int| x <= b < x + n ==> #[trigger] free_in(h, m, b) }
    /// n blocks can be put at x
    pub open spec fn fits(h: Header, m: Map<u32, Partition>, x: int, n: int, align: Option<u64>) -> bool {
        aligned(x, align) && all_free(h, m, x, n)
    }
    pub open spec fn inuse(m: Map<u32, Partition>, k: u32) -> bool { m.dom().contains(k) && used(m[k]) }
    pub open spec fn lowest_free_id(m: Map<u32, Partition>, i: u32) -> bool {
        1 <= i && !inuse(m, i) && forall|j: u32| 1 <= j < i ==> #[trigger] inuse(m, j)
    }
    pub open spec fn entries_with(m: Map<u32, Partition>, id: u32) -> nat { m.insert(id, m[id]).dom().len() }

    // --------------------------------------------------------- making headers
    pub open spec fn hb_for<D>(g: GptDisk<D>, entries: u32, bak: u64) -> HeaderBuilder {
        let n0 = if has_header(g) && eff(g).num_parts > entries { eff(g).num_parts } else { entries };
        let n = if n0 < 128 { 128 } else { n0 };
        if has_header(g) {
            HeaderBuilder { num_parts: n, backup_lba: bak, disk_guid: g.guid, primary: true, ..spec_from_header(eff(g)) }
        } else {
            HeaderBuilder { num_parts: n, backup_lba: bak, disk_guid: g.guid, primary: true, primary_lba: 1, first_usable: 0, last_usable: 0, part_size: 128 }
        }
    }
    pub open spec fn backup_of(h: Header, lb: nat) -> Header { spec_build(HeaderBuilder { primary: false, ..spec_from_header(h) }, lb) }
    /// what init_headers(entries) does
    pub open spec fn made_headers<D: Dev>(a: GptDisk<D>, z: GptDisk<D>, entries: u32, ok: bool) -> bool {
        let lb = dlb(a);
        let bak = last_lba(a.device.bytes(), lb) as u64;
        let hb = hb_for(a, entries, bak);
        &&& same_dev(&z.device, &a.device)
        &&& z.device.errors() >= a.device.errors()
        &&& z.config == a.config && z.guid == a.guid && z.partitions == a.partitions && z.sync_all == a.sync_all
        &&& (!ok ==> same_state(a, z))
        &&& (a.device.reliable() && a.device.bytes().len() <= u64::MAX ==> z.device.errors() == a.device.errors())
        &&& (!ok ==> z.device.errors() > a.device.errors() || a.device.bytes().len() < 3 * lb || !spec_build_ok(hb, lb))
        &&& (ok ==> {
            &&& a.device.bytes().len() >= 3 * lb
            &&& spec_build_ok(hb, lb)
            &&& z.primary_header is Ok
            &&& hdr_eq(z.primary_header->Ok_0, spec_build(hb, lb))
            &&& layout_ok(z.primary_header->Ok_0, lb)
            &&& (a.config.readonly_backup ==> z.backup_header == a.backup_header)
            &&& (!a.config.readonly_backup ==> z.backup_header is Ok && hdr_eq(z.backup_header->Ok_0, backup_of(z.primary_header->Ok_0, lb)))
        })
    }
    /// result of an edit that adds the entry p under id
    pub open spec fn added<D: Dev>(a: GptDisk<D>, z: GptDisk<D>, id: u32, p: Partition) -> bool {
        let n = entries_with(a.partitions@, id);
        let grow = imax(id as int, n as int) > eff(a).num_parts || eff(a).num_parts < 128;
        &&& z.partitions@ == a.partitions@.insert(id, p)
        &&& z.config == a.config && z.guid == a.guid && z.sync_all == a.sync_all
        &&& (!grow ==> z.primary_header == a.primary_header && z.backup_header == a.backup_header)
        &&& (grow ==> a.config.change_partition_count && made_headers(a, GptDisk { partitions: a.partitions, ..z }, n as u32, true))
        &&& eff(z).num_parts >= eff(a).num_parts
        &&& eff(z).num_parts >= n
    }
    /// a refused edit: nothing but the position of the device changed, and there is a reason
    pub open spec fn not_added<D: Dev>(a: GptDisk<D>, z: GptDisk<D>, id: u32, e: GptError) -> bool {
        let n = entries_with(a.partitions@, id);
        let grow = imax(id as int, n as int) > eff(a).num_parts || eff(a).num_parts < 128;
        let lb = dlb(a);
        let bak = last_lba(a.device.bytes(), lb) as u64;
        &&& grow
        &&& (e is PartitionCountWouldChange ==> !a.config.change_partition_count)
        &&& (a.config.change_partition_count ==> z.device.errors() > a.device.errors() || a.device.bytes().len() < 3 * lb
            || !spec_build_ok(hb_for(a, n as u32, bak), lb))
    }

    /// p is a new partition of n blocks at x with the requested properties and its own GUID
    pub open spec fn placed(p: Partition, x: int, n: int, ty: crate::partition_types::Type, flags: u64, name: Seq<char>) -> bool {
        &&& p.first_lba == x && p.last_lba == x + n - 1
        &&& p.part_type_guid == ty && p.flags == flags && p.name@ == name
        &&& crate::vuuid::from_rng(p.part_guid)
    }
    pub proof fn lemma_ceil(size: u64, lb: nat)
        requires size > 0, lb == 512 || lb == 4096,
        ensures (size - 1) / (lb as int) + 1 == ceil_div(size as nat, lb),
    {
        if lb == 512 { assert((size - 1) / 512 + 1 == (size + 511) / 512); } else { assert((size - 1) / 4096 + 1 == (size + 4095) / 4096); }
    }
    /// a run of free blocks lies in one segment
    pub proof fn lemma_seg_room(h: Header, m: Map<u32, Partition>, s: Seq<(u64, u64)>, i: int, y: int, n: int)
        requires free_list(h, m, s), 0 <= i < s.len(), in_seg(s[i], y), all_free(h, m, y, n),
        ensures y + n <= s[i].0 + s[i].1,
    {
        let e = s[i].0 + s[i].1;
        if y + n > e {
            assert(free_in(h, m, e));
            assert(in_segs(s, e));
            let j = choose|j: int| 0 <= j < s.len() && in_seg(#[trigger] s[j], e);
            if j < i { assert(s[j].0 + s[j].1 < s[i].0); }
            if i < j { assert(s[i].0 + s[i].1 < s[j].0); }
        }
    }
    /// the first aligned block at or after x is x + (a - x % a) % a
    pub proof fn lemma_align(x: int, a: int, y: int)
        requires 0 <= x, 0 < a,
        ensures
            0 <= (a - (x % a)) % a < a,
            (x + (a - (x % a)) % a) % a == 0,
            x <= y && y % a == 0 ==> x + (a - (x % a)) % a <= y,
    {
        let r = x % a;
        let q = x / a;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a);
        assert(x == a * q + r);
        assert(0 <= r < a);
        if r == 0 {
            assert(a % a == 0) by (nonlinear_arith) requires a > 0;
        } else {
            vstd::arithmetic::div_mod::lemma_small_mod((a - r) as nat, a as nat);
            assert(x + (a - r) == a * (q + 1)) by (nonlinear_arith) requires x == a * q + r;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a);
            assert((a * (q + 1)) % a == 0) by { assert(a * (q + 1) == (q + 1) * a) by (nonlinear_arith); }
            if x <= y && y % a == 0 {
                let k = y / a;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, a);
                assert(y == a * k);
                assert(k >= q + 1) by (nonlinear_arith) requires a * k >= a * q + r, r > 0, a > 0;
                assert(a * k >= a * (q + 1)) by (nonlinear_arith) requires k >= q + 1, a > 0;
            }
        }
    }
    pub proof fn lemma_ids_len(m: Map<u32, Partition>, n: u32)
        requires forall|j: u32| 1 <= j <= n ==> #[trigger] inuse(m, j),
        ensures m.dom().len() >= n,
        decreases n,
    {
        if n > 0 {
            let r = m.remove(n);
            assert(inuse(m, n));
            assert forall|j: u32| 1 <= j <= n - 1 implies #[trigger] inuse(r, j) by { assert(inuse(m, j)); }
            lemma_ids_len(r, (n - 1) as u32);
        }
    }
    /// a map over u32 without the key 0 has at most u32::MAX entries
    pub proof fn lemma_dom_u32(m: Map<u32, Partition>)
        requires !m.dom().contains(0),
        ensures m.dom().len() <= u32::MAX,
    {
        lemma_keyseq(m);
        let ks = keyseq(m);
        if ks.len() > 0 {
            lemma_ascending(ks, ks.len() - 1);
            assert(m.dom().contains(ks[0]));
        }
    }
    pub proof fn lemma_ascending(ks: Seq<u32>, i: int)
        requires 0 <= i < ks.len(), forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] < #[trigger] ks[j],
        ensures ks[i] >= ks[0] + i,
        decreases i,
    {
        if i > 0 { lemma_ascending(ks, i - 1); assert(ks[i - 1] < ks[i]); }
    }

    // -------------------------------------------------------------- opening
    pub open spec fn prim_seg(b: Seq<u8>, lb: nat) -> Seq<u8> { seg(b, lb as int, 92) }
    pub open spec fn back_seg(b: Seq<u8>, lb: nat) -> Seq<u8> { seg(b, last_lba(b, lb) * lb, 92) }
    /// block 1 holds a valid header
    pub open spec fn prim_ok(b: Seq<u8>, lb: nat) -> bool { lb + 92 <= b.len() && hdr_valid(prim_seg(b, lb), 1) }
    /// the last block holds a valid header
    pub open spec fn back_ok(b: Seq<u8>, lb: nat) -> bool { 3 * lb <= b.len() && hdr_valid(back_seg(b, lb), last_lba(b, lb) as u64) }
    pub open spec fn table_ok(h: Header, b: Seq<u8>, lb: nat) -> bool {
        h.part_size == 128 && table_in(h, b, lb) && crc32(table_of(h, b, lb)) == h.crc32_parts
    }
    /// the header that counts
    pub open spec fn eff_on(b: Seq<u8>, lb: nat) -> Header { if prim_ok(b, lb) { hdr_decode(prim_seg(b, lb)) } else { hdr_decode(back_seg(b, lb)) } }
    /// what the device must hold so that it can be opened
    pub open spec fn open_ok(c: GptConfig, b: Seq<u8>) -> bool {
        let lb = lbs(c.lb_size);
        &&& (if c.only_valid_headers { prim_ok(b, lb) && back_ok(b, lb) } else { prim_ok(b, lb) || back_ok(b, lb) })
        &&& table_ok(eff_on(b, lb), b, lb)
    }
    /// what an opened disk says about the device it was opened from
    pub open spec fn opened<D: Dev>(c: GptConfig, d: D, g: GptDisk<D>) -> bool {
        let lb = lbs(c.lb_size);
        let b = d.bytes();
        &&& same_dev(&g.device, &d)
        &&& g.device.errors() >= d.errors()
        &&& g.config == c
        &&& wf(g)
        &&& g.guid == eff(g).disk_guid
        &&& (g.primary_header is Ok ==> prim_ok(b, lb) && hdr_eq(g.primary_header->Ok_0, hdr_decode(prim_seg(b, lb))))
        &&& (g.backup_header is Ok ==> back_ok(b, lb) && hdr_eq(g.backup_header->Ok_0, hdr_decode(back_seg(b, lb))))
        &&& (g.primary_header is Err ==> g.device.errors() > d.errors() || hdr_verdict(prim_seg(b, lb), 1, g.primary_header->Err_0))
        &&& (g.backup_header is Err ==> g.device.errors() > d.errors() || b.len() < 3 * lb
            || hdr_verdict(back_seg(b, lb), last_lba(b, lb) as u64, g.backup_header->Err_0))
        &&& (c.only_valid_headers ==> g.primary_header is Ok && g.backup_header is Ok)
        &&& table_ok(eff(g), b, lb)
        &&& decodes(g.partitions@, table_of(eff(g), b, lb), eff(g).num_parts as int)
    }
    /// C20: only what a checksum certifies is believed: the header of block 1 or of the last block, and its table
    pub open spec fn place_seg(b: Seq<u8>, lb: nat, back: bool) -> Seq<u8> { if back { back_seg(b, lb) } else { prim_seg(b, lb) } }
    pub open spec fn place_ok(b: Seq<u8>, lb: nat, back: bool) -> bool { if back { back_ok(b, lb) } else { prim_ok(b, lb) } }
    pub open spec fn certified<D>(c: GptConfig, b: Seq<u8>, g: GptDisk<D>) -> bool {
        let lb = lbs(c.lb_size);
        let back = !(g.primary_header is Ok);
        &&& place_ok(b, lb, back)
        &&& hdr_eq(eff(g), hdr_decode(place_seg(b, lb, back)))
        &&& g.guid == eff(g).disk_guid
        &&& table_ok(eff(g), b, lb)
        &&& decodes(g.partitions@, table_of(eff(g), b, lb), eff(g).num_parts as int)
    }
    /// entries within the table
    pub proof fn lemma_dom_table(m: Map<u32, Partition>, n: u32)
        requires forall|k: u32| #[trigger] m.dom().contains(k) ==> 1 <= k <= n,
        ensures m.dom().len() <= n,
    {
        lemma_keyseq(m);
        let ks = keyseq(m);
        if ks.len() > 0 {
            lemma_ascending(ks, ks.len() - 1);
            assert(m.dom().contains(ks[0]));
            assert(m.dom().contains(ks[ks.len() - 1]));
        }
    }

    // ------------------------------------------------------------- creating
    pub open spec fn hb_new(guid: Uuid, bak: u64) -> HeaderBuilder {
        HeaderBuilder { primary: true, disk_guid: guid, primary_lba: 1, backup_lba: bak, first_usable: 0, last_usable: 0, num_parts: 128, part_size: 128 }
    }
    pub open spec fn created<D: Dev>(c: GptConfig, d: D, g: GptDisk<D>) -> bool {
        let lb = lbs(c.lb_size);
        &&& same_dev(&g.device, &d)
        &&& g.config == c
        &&& wf(g)
        &&& g.partitions@ == Map::<u32, Partition>::empty()
        &&& d.bytes().len() >= 3 * lb
        &&& spec_build_ok(hb_new(g.guid, last_lba(d.bytes(), lb) as u64), lb)
        &&& g.primary_header is Ok
        &&& hdr_eq(g.primary_header->Ok_0, spec_build(hb_new(g.guid, last_lba(d.bytes(), lb) as u64), lb))
        &&& layout_ok(g.primary_header->Ok_0, lb)
        &&& (c.readonly_backup ==> g.backup_header is Err)
        &&& (!c.readonly_backup ==> g.backup_header is Ok && hdr_eq(g.backup_header->Ok_0, backup_of(g.primary_header->Ok_0, lb)))
    }

    // ------------------------------------------------------------ alignment
    pub open spec fn pow2i(e: int) -> int {
        if e == 0 { 1 } else if e == 1 { 2 } else if e == 2 { 4 } else if e == 3 { 8 } else if e == 4 { 16 } else if e == 5 { 32 } else if e == 6 { 64 }
        else if e == 7 { 128 } else if e == 8 { 256 } else if e == 9 { 512 } else if e == 10 { 1024 } else { 2048 }
    }
    /// a is the largest power of two up to 2048 that divides the first block of every partition in use
    pub open spec fn best_align(m: Map<u32, Partition>, a: int) -> bool {
        exists|e: int| 0 <= e <= 11 && a == #[trigger] pow2i(e) && all_div(m, a) && (e < 11 ==> !all_div(m, pow2i(e + 1)))
    }
    pub open spec fn all_div(m: Map<u32, Partition>, a: int) -> bool { forall|k: u32| #[trigger] inuse(m, k) ==> m[k].first_lba as int % a == 0 }
    pub proof fn lemma_pow_values()
        ensures forall|e: nat| 0 <= e <= 11 ==> #[trigger] vstd::arithmetic::power::pow(2, e) == pow2i(e as int),
    {
        assert forall|e: nat| 0 <= e <= 11 implies #[trigger] vstd::arithmetic::power::pow(2, e) == pow2i(e as int) by {
            reveal_with_fuel(vstd::arithmetic::power::pow, 13);
        }
    }
    pub proof fn lemma_half(k: int, x: int)
        requires 0 < k, x % (2 * k) == 0,
        ensures x % k == 0,
    {
        let q = x / (2 * k);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, 2 * k);
        assert(x == (2 * q) * k) by (nonlinear_arith) requires x == (2 * k) * q;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(2 * q, k);
    }
    pub proof fn lemma_pow_divides(a: int, b: int, x: int)
        requires 0 <= a <= b <= 11, x % pow2i(b) == 0, 0 <= x,
        ensures x % pow2i(a) == 0,
        decreases b - a,
    {
        if a < b {
            assert(pow2i(b) == 2 * pow2i(b - 1));
            lemma_half(pow2i(b - 1), x);
            lemma_pow_divides(a, b - 1, x);
        }
    }

    // ------------------------------------------------------- free space proof
    pub open spec fn span(p: Partition) -> (u64, u64) { if p.first_lba <= p.last_lba { (p.first_lba, p.last_lba) } else { (p.last_lba, p.first_lba) } }
    /// u: the spans of the partitions in use among the first n keys
    pub open spec fn has_key(x: (u64, u64), m: Map<u32, Partition>, ks: Seq<u32>, n: int) -> bool {
        exists|i: int| 0 <= i < n && used(m[#[trigger] ks[i]]) && x == span(m[ks[i]])
    }
    pub open spec fn spans_of(u: Seq<(u64, u64)>, m: Map<u32, Partition>, ks: Seq<u32>, n: int) -> bool {
        &&& forall|j: int| 0 <= j < u.len() ==> has_key(#[trigger] u[j], m, ks, n)
        &&& forall|i: int| 0 <= i < n && used(m[#[trigger] ks[i]]) ==> u.contains(span(m[ks[i]]))
    }
    pub open spec fn taken_spans(u: Seq<(u64, u64)>, m: Map<u32, Partition>) -> bool {
        &&& forall|b: int| #[trigger] taken(m, b) <==> exists|j: int| 0 <= j < u.len() && (#[trigger] u[j]).0 <= b <= u[j].1
        &&& forall|j: int| 0 <= j < u.len() ==> (#[trigger] u[j]).0 <= u[j].1
    }
    pub proof fn lemma_has_key_mono(x: (u64, u64), m: Map<u32, Partition>, ks: Seq<u32>, n: int)
        requires has_key(x, m, ks, n),
        ensures has_key(x, m, ks, n + 1),
    {
        let i = choose|i: int| 0 <= i < n && used(m[#[trigger] ks[i]]) && x == span(m[ks[i]]);
        assert(0 <= i < n + 1 && used(m[ks[i]]) && x == span(m[ks[i]]));
    }
    pub proof fn lemma_spans_push(u0: Seq<(u64, u64)>, u: Seq<(u64, u64)>, m: Map<u32, Partition>, ks: Seq<u32>, n: int)
        requires spans_of(u0, m, ks, n), 0 <= n < ks.len(), used(m[ks[n]]), u == u0.push(span(m[ks[n]])),
        ensures spans_of(u, m, ks, n + 1),
    {
        assert forall|j: int| 0 <= j < u.len() implies has_key(#[trigger] u[j], m, ks, n + 1) by {
            if j < u0.len() { assert(u[j] == u0[j]); lemma_has_key_mono(u[j], m, ks, n); } else { assert(used(m[ks[n]]) && u[j] == span(m[ks[n]])); }
        }
        assert forall|i: int| 0 <= i < n + 1 && used(m[#[trigger] ks[i]]) implies u.contains(span(m[ks[i]])) by {
            if i < n {
                let j = choose|j: int| 0 <= j < u0.len() && u0[j] == span(m[ks[i]]);
                assert(u[j] == u0[j]);
            } else { assert(u[u0.len() as int] == span(m[ks[n]])); }
        }
    }
    pub proof fn lemma_spans_skip(u: Seq<(u64, u64)>, m: Map<u32, Partition>, ks: Seq<u32>, n: int)
        requires spans_of(u, m, ks, n), 0 <= n < ks.len(), !used(m[ks[n]]),
        ensures spans_of(u, m, ks, n + 1),
    {
        assert forall|j: int| 0 <= j < u.len() implies has_key(#[trigger] u[j], m, ks, n + 1) by { lemma_has_key_mono(u[j], m, ks, n); }
    }
    pub proof fn lemma_spans_all(u: Seq<(u64, u64)>, m: Map<u32, Partition>, ks: Seq<u32>)
        requires spans_of(u, m, ks, ks.len() as int), ks == keyseq(m),
        ensures taken_spans(u, m),
    {
        assert forall|j: int| 0 <= j < u.len() implies (#[trigger] u[j]).0 <= u[j].1 by {
            assert(has_key(u[j], m, ks, ks.len() as int));
        }
        lemma_keyseq(m);
        assert forall|b: int| #[trigger] taken(m, b) implies exists|j: int| 0 <= j < u.len() && (#[trigger] u[j]).0 <= b <= u[j].1 by {
            let k = choose|k: u32| m.dom().contains(k) && used(m[k]) && #[trigger] covers(m[k], b);
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(used(m[ks[i]]));
            assert(u.contains(span(m[ks[i]])));
            let j = choose|j: int| 0 <= j < u.len() && u[j] == span(m[ks[i]]);
            assert(u[j].0 <= b <= u[j].1);
        }
        assert forall|b: int| (exists|j: int| 0 <= j < u.len() && (#[trigger] u[j]).0 <= b <= u[j].1) implies #[trigger] taken(m, b) by {
            let j = choose|j: int| 0 <= j < u.len() && (#[trigger] u[j]).0 <= b <= u[j].1;
            assert(has_key(u[j], m, ks, ks.len() as int));
            let i = choose|i: int| 0 <= i < ks.len() && used(m[#[trigger] ks[i]]) && u[j] == span(m[ks[i]]);
            assert(m.dom().contains(ks[i]));
            assert(covers(m[ks[i]], b));
        }
    }
    pub proof fn lemma_in_segs_push(s: Seq<(u64, u64)>, x: (u64, u64))
        ensures
            forall|b: int| #[trigger] in_segs(s.push(x), b) <==> in_segs(s, b) || in_seg(x, b),
    {
        assert forall|b: int| #[trigger] in_segs(s.push(x), b) <==> in_segs(s, b) || in_seg(x, b) by {
            if in_segs(s, b) {
                let i = choose|i: int| 0 <= i < s.len() && in_seg(#[trigger] s[i], b);
                assert(in_seg(s.push(x)[i], b));
            }
            if in_seg(x, b) { assert(in_seg(s.push(x)[s.len() as int], b)); }
            if in_segs(s.push(x), b) {
                let i = choose|i: int| 0 <= i < s.push(x).len() && in_seg(#[trigger] s.push(x)[i], b);
                if i < s.len() { assert(in_seg(s[i], b)); }
            }
        }
    }
    /// one step of the sweep over the sorted spans: free space is known up to n0, span k begins at or after it (or not)
    pub proof fn lemma_seg_step(h: Header, m: Map<u32, Partition>, u: Seq<(u64, u64)>, k: int, f0: Seq<(u64, u64)>, f1: Seq<(u64, u64)>, n0: u64)
        requires
            0 <= k < u.len(), taken_spans(u, m), 1 <= n0, h.first_usable <= n0 <= h.last_usable,
            forall|i: int, j: int| 0 <= i <= j < u.len() ==> crate::vsl::lex_le(#[trigger] u[i], #[trigger] u[j]),
            forall|j: int| 0 <= j < k ==> (#[trigger] u[j]).1 < n0,
            forall|b: int| #[trigger] in_segs(f0, b) <==> b < n0 && free_in(h, m, b),
            u[k].0 > n0 ==> f1 == f0.push((n0, (imin(u[k].0 - 1, h.last_usable as int) - n0 + 1) as u64)),
            u[k].0 <= n0 ==> f1 == f0,
        ensures
            forall|b: int| #[trigger] in_segs(f1, b) <==> b <= imax(n0 - 1, u[k].1 as int) && free_in(h, m, b),
    {
        if u[k].0 > n0 { lemma_in_segs_push(f0, (n0, (imin(u[k].0 - 1, h.last_usable as int) - n0 + 1) as u64)); }
        assert forall|b: int| n0 <= b < u[k].0 implies !#[trigger] taken(m, b) by {
            if taken(m, b) {
                let j = choose|j: int| 0 <= j < u.len() && (#[trigger] u[j]).0 <= b <= u[j].1;
                if j >= k { assert(crate::vsl::lex_le(u[k], u[j])); }
            }
        }
        assert forall|b: int| u[k].0 <= b <= u[k].1 implies #[trigger] taken(m, b) by {}
    }
    pub proof fn lemma_taken_perm(a: Seq<(u64, u64)>, b: Seq<(u64, u64)>, m: Map<u32, Partition>)
        requires taken_spans(a, m), a.to_multiset() == b.to_multiset(),
        ensures taken_spans(b, m),
    {
        a.to_multiset_ensures();
        b.to_multiset_ensures();
        assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).0 <= b[j].1 by {
            assert(b.contains(b[j]));
            assert(b.to_multiset().count(b[j]) > 0);
            assert(a.contains(b[j]));
        }
        assert forall|x: int| #[trigger] taken(m, x) <==> exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 <= x <= b[j].1 by {
            if taken(m, x) {
                let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 <= x <= a[j].1;
                assert(a.contains(a[j]));
                assert(a.to_multiset().count(a[j]) > 0);
                assert(b.contains(a[j]));
                let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j];
                assert(b[i].0 <= x <= b[i].1);
            }
            if exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 <= x <= b[j].1 {
                let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 <= x <= b[j].1;
                assert(b.contains(b[j]));
                assert(b.to_multiset().count(b[j]) > 0);
                assert(a.contains(b[j]));
                let i = choose|i: int| 0 <= i < a.len() && a[i] == b[j];
                assert(a[i].0 <= x <= a[i].1);
            }
        }
    }
}
