// ---------------------------------------------------------------------------
// Specification of the protective MBR, and the little-endian inverses.
// ---------------------------------------------------------------------------
pub mod vmbr {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vio::{Dev, same_dev, spliced, WOp, Error};
    use crate::mbr::{ProtectiveMBR, PartRecord, MBRError};

    pub open spec fn rec_bytes(p: PartRecord) -> Seq<u8> {
        seq![p.boot_indicator, p.start_head, p.start_sector, p.start_track, p.os_type, p.end_head, p.end_sector, p.end_track]
        + le32(p.lb_start) + le32(p.lb_size)
    }
    pub open spec fn rec_is(p: PartRecord, s: Seq<u8>) -> bool {
        &&& p.boot_indicator == s[0] && p.start_head == s[1] && p.start_sector == s[2] && p.start_track == s[3]
        &&& p.os_type == s[4] && p.end_head == s[5] && p.end_sector == s[6] && p.end_track == s[7]
        &&& p.lb_start == d32(s, 8) && p.lb_size == d32(s, 12)
    }
    pub open spec fn recs(p: Seq<PartRecord>, n: int) -> Seq<u8>
        decreases n,
    {
        if n <= 0 { seq![] } else { recs(p, n - 1) + rec_bytes(p[n - 1]) }
    }
    pub proof fn lemma_recs_len(p: Seq<PartRecord>, n: int)
        requires 0 <= n,
        ensures recs(p, n).len() == 16 * n,
        decreases n,
    { if n > 0 { lemma_recs_len(p, n - 1); } }
    pub proof fn lemma_recs_step(p: Seq<PartRecord>, n: int)
        requires 0 <= n,
        ensures recs(p, 0) == Seq::<u8>::empty(), recs(p, n + 1) == recs(p, n) + rec_bytes(p[n]), recs(p, n).len() == 16 * n, rec_bytes(p[n]).len() == 16,
    { lemma_recs_len(p, n); }
    /// the 512 bytes: boot code, disk signature, reserved word, records, signature
    pub open spec fn mbr_bytes(m: ProtectiveMBR) -> Seq<u8> {
        m.bootcode@ + m.disk_signature@ + le16(m.unknown) + recs(m.partitions@, 4) + m.signature@
    }
    pub open spec fn sig55aa() -> Seq<u8> { seq![0x55u8, 0xAAu8] }
    pub open spec fn mbr_is(m: ProtectiveMBR, b: Seq<u8>) -> bool {
        &&& m.bootcode@ == b.subrange(0, 440)
        &&& m.disk_signature@ == b.subrange(440, 444)
        &&& m.unknown == d16(b, 444)
        &&& forall|i: int| 0 <= i < 4 ==> rec_is(#[trigger] m.partitions@[i], b.subrange(446 + 16 * i, 462 + 16 * i))
        &&& m.signature@ == b.subrange(510, 512)
        &&& m.signature@ == sig55aa()
    }
    pub open spec fn mbr_valid(b: Seq<u8>, lb: nat) -> bool { b.len() == lb && b.subrange(510, 512) == sig55aa() }
    /// a new MBR: one protective partition, everything else zero
    pub open spec fn mbr_new(m: ProtectiveMBR, size: u32) -> bool {
        &&& m.bootcode@ == zeros(440) && m.disk_signature@ == zeros(4) && m.unknown == 0 && m.signature@ == sig55aa()
        &&& m.partitions@ == seq![rec_protective(size), rec_zero(), rec_zero(), rec_zero()]
    }
    pub open spec fn rec_protective(size: u32) -> PartRecord {
        PartRecord { boot_indicator: 0, start_head: 0, start_sector: 2, start_track: 0, os_type: 0xEE, end_head: 0xFF, end_sector: 0xFF, end_track: 0xFF, lb_start: 1, lb_size: size }
    }
    pub open spec fn rec_zero() -> PartRecord {
        PartRecord { boot_indicator: 0, start_head: 0, start_sector: 0, start_track: 0, os_type: 0, end_head: 0, end_sector: 0, end_track: 0, lb_start: 0, lb_size: 0 }
    }

    // -------------------------------------------------------- device operations
    /// reading n bytes at `at`
    pub open spec fn mbr_read<D: Dev>(a: &D, z: &D, at: nat, n: nat, ok: bool, d: Seq<u8>) -> bool {
        &&& same_dev(z, a)
        &&& z.errors() >= a.errors()
        &&& (ok ==> z.errors() == a.errors() && z.pos() == a.pos() && at + n <= a.bytes().len() && d == a.bytes().subrange(at as int, (at + n) as int))
        &&& (!ok ==> z.errors() > a.errors())
        &&& (a.reliable() && at + n <= a.bytes().len() ==> ok)
    }
    /// writing d at `at`: complete, flushed and repositioned on success, confined to the range always
    pub open spec fn mbr_write<D: Dev>(a: &D, z: &D, at: nat, d: Seq<u8>, ok: bool) -> bool {
        &&& only_changed(a.bytes(), z.bytes(), at as int, d.len() as int)
        &&& z.errors() >= a.errors()
        &&& z.reliable() == a.reliable()
        &&& (ok ==> z.errors() == a.errors() && z.flushed() && z.pos() == a.pos() && z.bytes() == spliced(a.bytes(), at, d))
        &&& (!ok ==> z.errors() > a.errors())
        &&& (a.reliable() && at + d.len() <= a.bytes().len() ==> ok)
    }
    pub proof fn lemma_spliced_cat(b: Seq<u8>, p: nat, d: Seq<u8>, e: Seq<u8>)
        ensures spliced(spliced(b, p, d), p + d.len(), e) == spliced(b, p, d + e),
    {
        if d.len() == 0 { assert(d + e =~= e); }
        if e.len() == 0 { assert(d + e =~= d); }
        assert(spliced(spliced(b, p, d), p + d.len(), e) =~= spliced(b, p, d + e));
    }
    /// a write behind what has been written so far stays in the whole range
    pub proof fn lemma_only_changed_cat(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, p: int, n: int, q: int, k: int)
        requires only_changed(a, b, p, n), only_changed(b, c, q, k), p <= q, q + k <= p + n, 0 <= p, 0 <= k,
        ensures only_changed(a, c, p, n),
    {}
    pub proof fn lemma_spliced_only(a: Seq<u8>, p: nat, d: Seq<u8>, n: int)
        requires d.len() <= n,
        ensures only_changed(a, spliced(a, p, d), p as int, n),
    {}

    // ----------------------------------------------------- little-endian inverses
    pub broadcast proof fn lemma_le16(x: u16)
        ensures (#[trigger] le16(x)).len() == 2, d16(le16(x), 0) == x,
    {
        assert(((x & 0xff) as u8 as u16) | ((((x >> 8) & 0xff) as u8 as u16) << 8) == x) by (bit_vector);
    }
    pub broadcast proof fn lemma_le32(x: u32)
        ensures (#[trigger] le32(x)).len() == 4, d32(le32(x), 0) == x,
    {
        assert(((x & 0xff) as u8 as u32) | ((((x >> 8) & 0xff) as u8 as u32) << 8) | ((((x >> 16) & 0xff) as u8 as u32) << 16) | ((((x >> 24) & 0xff) as u8 as u32) << 24) == x) by (bit_vector);
    }
    pub broadcast proof fn lemma_le64(x: u64)
        ensures (#[trigger] le64(x)).len() == 8, d64(le64(x), 0) == x,
    {
        assert(((x & 0xff) as u8 as u64) | ((((x >> 8) & 0xff) as u8 as u64) << 8) | ((((x >> 16) & 0xff) as u8 as u64) << 16) | ((((x >> 24) & 0xff) as u8 as u64) << 24)
            | ((((x >> 32) & 0xff) as u8 as u64) << 32) | ((((x >> 40) & 0xff) as u8 as u64) << 40) | ((((x >> 48) & 0xff) as u8 as u64) << 48) | ((((x >> 56) & 0xff) as u8 as u64) << 56) == x) by (bit_vector);
    }
    pub proof fn lemma_d16(s: Seq<u8>, o: int)
        requires 0 <= o, o + 2 <= s.len(),
        ensures le16(d16(s, o)) == s.subrange(o, o + 2),
    {
        let a = s[o]; let b = s[o + 1];
        assert(((((a as u16) | ((b as u16) << 8)) & 0xff) as u8) == a) by (bit_vector);
        assert((((((a as u16) | ((b as u16) << 8)) >> 8) & 0xff) as u8) == b) by (bit_vector);
        assert(le16(d16(s, o)) =~= s.subrange(o, o + 2));
    }
    pub proof fn lemma_d32(s: Seq<u8>, o: int)
        requires 0 <= o, o + 4 <= s.len(),
        ensures le32(d32(s, o)) == s.subrange(o, o + 4),
    {
        let a = s[o]; let b = s[o + 1]; let c = s[o + 2]; let d = s[o + 3];
        assert(((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) & 0xff) as u8) == a) by (bit_vector);
        assert((((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) >> 8) & 0xff) as u8) == b) by (bit_vector);
        assert((((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) >> 16) & 0xff) as u8) == c) by (bit_vector);
        assert((((((a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24)) >> 24) & 0xff) as u8) == d) by (bit_vector);
        assert(le32(d32(s, o)) =~= s.subrange(o, o + 4));
    }
    /// a value stored somewhere in s is read back there
    pub proof fn lemma_d16_at(s: Seq<u8>, o: int, x: u16)
        requires 0 <= o, o + 2 <= s.len(), s.subrange(o, o + 2) == le16(x),
        ensures d16(s, o) == x,
    { lemma_le16(x); let t = s.subrange(o, o + 2); assert(t[0] == s[o] && t[1] == s[o + 1]); }
    pub proof fn lemma_d32_at(s: Seq<u8>, o: int, x: u32)
        requires 0 <= o, o + 4 <= s.len(), s.subrange(o, o + 4) == le32(x),
        ensures d32(s, o) == x,
    { lemma_le32(x); let t = s.subrange(o, o + 4); assert(t[0] == s[o] && t[1] == s[o + 1] && t[2] == s[o + 2] && t[3] == s[o + 3]); }
    pub proof fn lemma_d64_at(s: Seq<u8>, o: int, x: u64)
        requires 0 <= o, o + 8 <= s.len(), s.subrange(o, o + 8) == le64(x),
        ensures d64(s, o) == x,
    {
        lemma_le64(x); let t = s.subrange(o, o + 8);
        assert(t[0] == s[o] && t[1] == s[o + 1] && t[2] == s[o + 2] && t[3] == s[o + 3] && t[4] == s[o + 4] && t[5] == s[o + 5] && t[6] == s[o + 6] && t[7] == s[o + 7]);
    }

    // --------------------------------------------------------------- MBR inverses
    pub proof fn lemma_rec_roundtrip(p: PartRecord, q: PartRecord, s: Seq<u8>)
        requires s.len() == 16,
        ensures rec_is(p, s) ==> rec_bytes(p) == s, rec_is(q, rec_bytes(p)) ==> q == p,
    {
        let r = rec_bytes(p);
        lemma_le32(p.lb_start); lemma_le32(p.lb_size);
        assert(r.subrange(8, 12) =~= le32(p.lb_start));
        assert(r.subrange(12, 16) =~= le32(p.lb_size));
        lemma_d32_at(r, 8, p.lb_start);
        lemma_d32_at(r, 12, p.lb_size);
        if rec_is(p, s) {
            lemma_d32(s, 8); lemma_d32(s, 12);
            assert forall|i: int| 0 <= i < 16 implies #[trigger] r[i] == s[i] by {
                if 8 <= i < 12 { assert(r[i] == le32(p.lb_start)[i - 8]); assert(s.subrange(8, 12)[i - 8] == s[i]); }
                if 12 <= i { assert(r[i] == le32(p.lb_size)[i - 12]); assert(s.subrange(12, 16)[i - 12] == s[i]); }
            }
            assert(r =~= s);
        }
    }
    /// C12: what was parsed serialises to the bytes it was parsed from
    pub proof fn lemma_parse_serialise(m: ProtectiveMBR, b: Seq<u8>)
        requires b.len() >= 512, mbr_is(m, b),
        ensures mbr_bytes(m) == b.take(512),
    {
        let p = m.partitions@;
        lemma_d16(b, 444);
        lemma_recs_step(p, 0); lemma_recs_step(p, 1); lemma_recs_step(p, 2); lemma_recs_step(p, 3); lemma_recs_step(p, 4);
        lemma_rec_roundtrip(p[0], p[0], b.subrange(446, 462));
        lemma_rec_roundtrip(p[1], p[1], b.subrange(462, 478));
        lemma_rec_roundtrip(p[2], p[2], b.subrange(478, 494));
        lemma_rec_roundtrip(p[3], p[3], b.subrange(494, 510));
        assert(rec_is(p[0], b.subrange(446 + 16 * 0int, 462 + 16 * 0int)));
        assert(rec_is(p[1], b.subrange(446 + 16 * 1int, 462 + 16 * 1int)));
        assert(rec_is(p[2], b.subrange(446 + 16 * 2int, 462 + 16 * 2int)));
        assert(rec_is(p[3], b.subrange(446 + 16 * 3int, 462 + 16 * 3int)));
        assert(mbr_bytes(m) =~= b.take(512));
    }
    /// C12: what was serialised parses to the value it was serialised from
    pub proof fn lemma_serialise_parse(m: ProtectiveMBR, n: ProtectiveMBR)
        requires mbr_is(n, mbr_bytes(m)), m.signature@ == sig55aa(),
        ensures
            n.bootcode@ == m.bootcode@, n.disk_signature@ == m.disk_signature@, n.unknown == m.unknown, n.signature@ == m.signature@,
            n.partitions@ == m.partitions@,
    {
        let b = mbr_bytes(m);
        let p = m.partitions@;
        lemma_recs_step(p, 0); lemma_recs_step(p, 1); lemma_recs_step(p, 2); lemma_recs_step(p, 3); lemma_recs_step(p, 4);
        assert(b.subrange(0, 440) =~= m.bootcode@);
        assert(b.subrange(440, 444) =~= m.disk_signature@);
        assert(b.subrange(444, 446) =~= le16(m.unknown));
        lemma_d16_at(b, 444, m.unknown);
        assert forall|i: int| 0 <= i < 4 implies n.partitions@[i] == p[i] by {
            let s = b.subrange(446 + 16 * i, 462 + 16 * i);
            assert(rec_is(n.partitions@[i], s));
            if i == 0 { assert(s =~= rec_bytes(p[0])); } else if i == 1 { assert(s =~= rec_bytes(p[1])); } else if i == 2 { assert(s =~= rec_bytes(p[2])); } else { assert(s =~= rec_bytes(p[3])); }
            lemma_rec_roundtrip(p[i], n.partitions@[i], s);
        }
        assert(n.partitions@ =~= p);
    }
}
