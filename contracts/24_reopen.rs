// ---------------------------------------------------------------------------
// C01: what was written is what a later opening reads.
// ---------------------------------------------------------------------------
pub mod vreopen {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vdisk::*;
    use crate::vwrite::*;
    use crate::vmbr::{lemma_d16_at, lemma_d32_at, lemma_d64_at, lemma_le16, lemma_le32, lemma_le64};
    use crate::vio::{Dev, same_dev, spliced, Error};
    use crate::vuuid::Uuid;
    use crate::vcrc::crc32;
    use crate::vstr::{utf16, utf16_lossy, str_bytes, efi_part_bytes, lemma_efi_bytes};
    use crate::vmap::{keyseq, lemma_keyseq};
    use crate::partition::Partition;
    use crate::partition_types::spec_os;
    use crate::header::{Header, HeaderBuilder, HeaderError};
    use crate::{GptDisk, GptConfig, GptError};

    /// s starts with a ++ b
    pub proof fn lemma_tail(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
        requires a.len() + b.len() <= s.len(), s.take((a.len() + b.len()) as int) == a + b,
        ensures s.take(a.len() as int) == a, s.subrange(a.len() as int, (a.len() + b.len()) as int) == b,
    {
        let t = s.take((a.len() + b.len()) as int);
        assert(s.take(a.len() as int) =~= t.take(a.len() as int));
        assert(t.take(a.len() as int) =~= a);
        assert(s.subrange(a.len() as int, (a.len() + b.len()) as int) =~= t.subrange(a.len() as int, (a.len() + b.len()) as int));
        assert(t.subrange(a.len() as int, (a.len() + b.len()) as int) =~= b);
    }

    // ------------------------------------------------------------ one GUID
    pub proof fn lemma_guid_at(s: Seq<u8>, o: int, g: Uuid)
        requires 0 <= o, o + 16 <= s.len(), s.subrange(o, o + 16) == guid_bytes(g),
        ensures guid_decode(s, o) == g,
    {
        broadcast use axiom_arr8;
        let t = s.subrange(o, o + 16);
        assert(s.subrange(o, o + 4) =~= t.subrange(0, 4));
        assert(t.subrange(0, 4) =~= le32(g.d1));
        assert(s.subrange(o + 4, o + 6) =~= t.subrange(4, 6));
        assert(t.subrange(4, 6) =~= le16(g.d2));
        assert(s.subrange(o + 6, o + 8) =~= t.subrange(6, 8));
        assert(t.subrange(6, 8) =~= le16(g.d3));
        lemma_d32_at(s, o, g.d1);
        lemma_d16_at(s, o + 4, g.d2);
        lemma_d16_at(s, o + 6, g.d3);
        assert(s.subrange(o + 8, o + 16) =~= t.subrange(8, 16));
        assert(t.subrange(8, 16) =~= g.d4@);
    }
    pub proof fn lemma_guid_parts(s: Seq<u8>, o: int, g: Uuid)
        requires
            0 <= o, o + 16 <= s.len(), s.subrange(o, o + 4) == le32(g.d1), s.subrange(o + 4, o + 6) == le16(g.d2), s.subrange(o + 6, o + 8) == le16(g.d3),
            s.subrange(o + 8, o + 16) == g.d4@,
        ensures guid_decode(s, o) == g,
    {
        broadcast use axiom_arr8;
        lemma_d32_at(s, o, g.d1);
        lemma_d16_at(s, o + 4, g.d2);
        lemma_d16_at(s, o + 6, g.d3);
    }
    /// the GUID stored as 16 zero bytes is the nil GUID
    pub proof fn lemma_guid_zero(g: Uuid)
        requires guid_bytes(g) == zeros(16),
        ensures is_nil(g),
    {
        assert(zeros(16).subrange(0, 16) =~= zeros(16));
        lemma_guid_at(zeros(16), 0, g);
        let z = zeros(16);
        assert((0u8 as u32) | ((0u8 as u32) << 8) | ((0u8 as u32) << 16) | ((0u8 as u32) << 24) == 0) by (bit_vector);
        assert((0u8 as u16) | ((0u8 as u16) << 8) == 0) by (bit_vector);
        assert(guid_bytes(g).subrange(8, 16) =~= g.d4@);
        assert(zeros(16).subrange(8, 16) =~= zeros(8));
    }

    // ------------------------------------------------------------ one entry
    /// up to the first NUL
    pub open spec fn until_nul(u: Seq<u16>) -> Seq<u16>
        decreases u.len(),
    {
        if u.len() == 0 || u[0] == 0 { seq![] } else { seq![u[0]] + until_nul(u.drop_first()) }
    }
    /// the name that comes back: at most 36 units, up to the first NUL
    pub open spec fn stored_name(s: Seq<char>) -> Seq<char> { utf16_lossy(until_nul(take_up_to(utf16(s), 36))) }
    /// q is p as it comes back from the device
    pub open spec fn same_entry(p: Partition, q: Partition) -> bool {
        &&& q.part_type_guid.guid == p.part_type_guid.guid
        &&& q.part_type_guid.os == spec_os(p.part_type_guid.guid)
        &&& q.part_guid == p.part_guid
        &&& q.first_lba == p.first_lba && q.last_lba == p.last_lba && q.flags == p.flags
        &&& q.name@ == stored_name(p.name@)
    }
    pub proof fn lemma_until_nul(u: Seq<u16>, n: int)
        requires 0 <= n <= u.len(), n < u.len() ==> u[n] == 0, forall|i: int| 0 <= i < n ==> #[trigger] u[i] != 0,
        ensures until_nul(u) == u.take(n),
        decreases u.len(),
    {
        if n == 0 { assert(u.take(0) =~= seq![]); } else {
            assert(u[0] != 0);
            let r = u.drop_first();
            assert forall|i: int| 0 <= i < n - 1 implies #[trigger] r[i] != 0 by { assert(r[i] == u[i + 1]); }
            lemma_until_nul(r, n - 1);
            assert(seq![u[0]] + r.take(n - 1) =~= u.take(n));
        }
    }
    /// a name without NUL and of at most 36 units comes back unchanged
    pub proof fn lemma_short_name(s: Seq<char>)
        requires utf16(s).len() <= 36, forall|i: int| 0 <= i < utf16(s).len() ==> #[trigger] utf16(s)[i] != 0,
        ensures stored_name(s) == s,
    {
        broadcast use crate::vstr::lemma_utf16_roundtrip;
        let u = utf16(s);
        assert(take_up_to(u, 36) =~= u);
        lemma_until_nul(u, u.len() as int);
        assert(u.take(u.len() as int) =~= u);
    }
    pub proof fn lemma_entry_head(p: Partition, s: Seq<u8>)
        requires s.len() >= 56, s.take(56) == entry_head(p),
        ensures
            guid_decode(s, 0) == p.part_type_guid.guid, guid_decode(s, 16) == p.part_guid,
            d64(s, 32) == p.first_lba, d64(s, 40) == p.last_lba, d64(s, 48) == p.flags,
            s.take(16) == guid_bytes(p.part_type_guid.guid),
    {
        let g = guid_bytes(p.part_type_guid.guid);
        let b = guid_bytes(p.part_guid);
        assert(g.len() == 16 && b.len() == 16);
        let c2 = g + b;
        let c3 = c2 + le64(p.first_lba);
        let c4 = c3 + le64(p.last_lba);
        lemma_tail(s, c4, le64(p.flags));
        lemma_tail(s, c3, le64(p.last_lba));
        lemma_tail(s, c2, le64(p.first_lba));
        lemma_tail(s, g, b);
        assert(s.subrange(0, 16) =~= s.take(16));
        lemma_guid_at(s, 0, p.part_type_guid.guid);
        lemma_guid_at(s, 16, p.part_guid);
        lemma_d64_at(s, 32, p.first_lba);
        lemma_d64_at(s, 40, p.last_lba);
        lemma_d64_at(s, 48, p.flags);
    }
    /// the name units of an encoded entry
    pub proof fn lemma_entry_units(p: Partition)
        ensures
            take_up_to(utf16(p.name@), 36).len() <= 36,
            forall|i: int| 0 <= i < 36 ==> #[trigger] unit(entry_bytes(p, 128), i) == (if i < take_up_to(utf16(p.name@), 36).len() { take_up_to(utf16(p.name@), 36)[i] } else { 0 }),
    {
        let s = entry_bytes(p, 128);
        let u = take_up_to(utf16(p.name@), 36);
        let nb = name_bytes(u);
        let hd = entry_head(p);
        lemma_name_bytes_len(u);
        assert(hd.len() == 56);
        assert forall|i: int| 0 <= i < 36 implies #[trigger] unit(s, i) == (if i < u.len() { u[i] } else { 0 }) by {
            if i < u.len() {
                lemma_name_bytes_at(u, i);
                assert(s[56 + 2 * i] == nb[2 * i]);
                assert(s[56 + 2 * i + 1] == nb[2 * i + 1]);
                lemma_le16(u[i]);
            } else {
                assert(s[56 + 2 * i] == 0 && s[56 + 2 * i + 1] == 0);
                assert((0u8 as u16) | ((0u8 as u16) << 8) == 0) by (bit_vector);
            }
        }
    }
    pub proof fn lemma_entry_prefix(p: Partition)
        ensures entry_bytes(p, 128).len() == 128, entry_bytes(p, 128).take(56) == entry_head(p), entry_head(p).len() == 56,
    {
        assert(entry_head(p).len() == 56);
        assert(entry_bytes(p, 128).take(56) =~= entry_head(p));
    }
    /// C14: decoding an encoded entry gives it back
    pub proof fn lemma_entry_roundtrip(p: Partition, q: Partition)
        requires entry_is(q, entry_bytes(p, 128)),
        ensures same_entry(p, q),
    {
        hide(entry_bytes); hide(entry_head); hide(d64); hide(unit); hide(guid_decode);
        let s = entry_bytes(p, 128);
        let u = take_up_to(utf16(p.name@), 36);
        lemma_entry_prefix(p);
        lemma_entry_head(p, s);
        lemma_entry_units(p);
        lemma_nul_bound(s, 0);
        let n = nul_pos(s, 0);
        assert(n <= u.len()) by { if n > u.len() { assert(unit(s, u.len() as int) == 0); } }
        if n < u.len() { assert(unit(s, n) == 0); }
        assert forall|i: int| 0 <= i < n implies #[trigger] u[i] != 0 by { assert(unit(s, i) != 0); }
        lemma_until_nul(u, n);
        assert(name_units(s) =~= u.take(n));
    }
    pub proof fn lemma_entry_nonzero(p: Partition)
        requires used(p),
        ensures entry_bytes(p, 128) != zeros(128), entry_bytes(p, 128).len() == 128,
    {
        let s = entry_bytes(p, 128);
        lemma_entry_prefix(p);
        lemma_entry_head(p, s);
        if s == zeros(128) {
            assert(s.take(16) =~= zeros(16));
            lemma_guid_zero(p.part_type_guid.guid);
        }
    }

    // ---------------------------------------------------------- one table
    /// m holds exactly the entries u, numbered from 1
    pub open spec fn renumbered(m: Map<u32, Partition>, u: Seq<Partition>) -> bool {
        &&& forall|k: u32| #[trigger] m.dom().contains(k) <==> 1 <= k <= u.len()
        &&& forall|k: u32| 1 <= k <= u.len() ==> same_entry(u[k - 1], #[trigger] m[k])
    }
    pub proof fn lemma_full_slot(u: Seq<Partition>, n: nat, i: int)
        requires 0 <= i < n, u.len() <= n,
        ensures slot(full_table(u, n), i) == (if i < u.len() { entry_bytes(u[i], 128) } else { zeros(128) }),
    {
        let t = full_table(u, n);
        let s = slot(t, i);
        let w = if i < u.len() { entry_bytes(u[i], 128) } else { zeros(128) };
        assert(s.len() == 128 && w.len() == 128);
        assert forall|j: int| 0 <= j < 128 implies #[trigger] s[j] == w[j] by {
            assert(s[j] == t[128 * i + j]);
            assert((128 * i + j) / 128 == i && (128 * i + j) % 128 == j);
        }
        assert(s =~= w);
    }
    pub proof fn lemma_table_roundtrip(m: Map<u32, Partition>, u: Seq<Partition>, n: nat)
        requires u.len() <= n, n <= u32::MAX, decodes(m, full_table(u, n), n as int), forall|i: int| 0 <= i < u.len() ==> used(#[trigger] u[i]),
        ensures renumbered(m, u),
    {
        let t = full_table(u, n);
        assert forall|k: u32| #[trigger] m.dom().contains(k) <==> 1 <= k <= u.len() by {
            if 1 <= k <= n {
                lemma_full_slot(u, n, k - 1);
                if k <= u.len() { assert(used(u[k - 1])); lemma_entry_nonzero(u[k - 1]); }
            }
        }
        assert forall|k: u32| 1 <= k <= u.len() implies same_entry(u[k - 1], #[trigger] m[k]) by {
            assert(m.dom().contains(k));
            lemma_full_slot(u, n, k - 1);
            assert(entry_is(m[k], slot(t, k - 1)));
            lemma_entry_roundtrip(u[k - 1], m[k]);
        }
    }
    /// the partitions in use are in use, and there are no more than entries
    pub proof fn lemma_used_prefix(m: Map<u32, Partition>, ks: Seq<u32>, n: int)
        requires 0 <= n <= ks.len(),
        ensures
            used_prefix(m, ks, n).len() <= n,
            forall|i: int| 0 <= i < used_prefix(m, ks, n).len() ==> used(#[trigger] used_prefix(m, ks, n)[i]),
        decreases n,
    {
        if n > 0 {
            lemma_used_prefix(m, ks, n - 1);
            let u = used_prefix(m, ks, n - 1);
            if used(m[ks[n - 1]]) {
                assert forall|i: int| 0 <= i < used_prefix(m, ks, n).len() implies used(#[trigger] used_prefix(m, ks, n)[i]) by {
                    if i < u.len() { assert(used_prefix(m, ks, n)[i] == u[i]); }
                }
            }
        }
    }

    // ---------------------------------------------------------- one header
    pub proof fn lemma_tail16(s: Seq<u8>, a: Seq<u8>, x: u16, o: int)
        requires a.len() == o, o + 2 <= s.len(), s.take(o + 2) == a + le16(x),
        ensures s.take(o) == a, s.subrange(o, o + 2) == le16(x), d16(s, o) == x,
    { lemma_le16(x); lemma_tail(s, a, le16(x)); lemma_d16_at(s, o, x); }
    pub proof fn lemma_tail32(s: Seq<u8>, a: Seq<u8>, x: u32, o: int)
        requires a.len() == o, o + 4 <= s.len(), s.take(o + 4) == a + le32(x),
        ensures s.take(o) == a, s.subrange(o, o + 4) == le32(x), d32(s, o) == x,
    { lemma_le32(x); lemma_tail(s, a, le32(x)); lemma_d32_at(s, o, x); }
    pub proof fn lemma_tail64(s: Seq<u8>, a: Seq<u8>, x: u64, o: int)
        requires a.len() == o, o + 8 <= s.len(), s.take(o + 8) == a + le64(x),
        ensures s.take(o) == a, s.subrange(o, o + 8) == le64(x), d64(s, o) == x,
    { lemma_le64(x); lemma_tail(s, a, le64(x)); lemma_d64_at(s, o, x); }
    /// the first 56 bytes
    pub open spec fn hdr_front(h: Header, c: u32) -> Seq<u8> {
        str_bytes(h.signature@) + le16(h.revision.1) + le16(h.revision.0) + le32(h.header_size_le) + le32(c) + le32(0)
        + le64(h.current_lba) + le64(h.backup_lba) + le64(h.first_usable) + le64(h.last_usable)
    }
    pub proof fn lemma_hdr_front(h: Header, c: u32, s: Seq<u8>)
        requires sig_ok(h), s.len() == 92, s.take(56) == hdr_front(h, c),
        ensures
            s.take(8) == efi_part_bytes(),
            d16(s, 10) == h.revision.0, d16(s, 8) == h.revision.1, d32(s, 12) == h.header_size_le, d32(s, 16) == c, d32(s, 20) == 0,
            d64(s, 24) == h.current_lba, d64(s, 32) == h.backup_lba, d64(s, 40) == h.first_usable, d64(s, 48) == h.last_usable,
    {
        hide(d16); hide(d32); hide(d64); hide(le16); hide(le32); hide(le64);
        broadcast use lemma_efi_bytes;
        lemma_le16(0); lemma_le32(0); lemma_le64(0); lemma_lens(h, c);
        let c0 = str_bytes(h.signature@);
        let c1 = c0 + le16(h.revision.1);
        let c2 = c1 + le16(h.revision.0);
        let c3 = c2 + le32(h.header_size_le);
        let c4 = c3 + le32(c);
        let c5 = c4 + le32(0);
        let c6 = c5 + le64(h.current_lba);
        let c7 = c6 + le64(h.backup_lba);
        let c8 = c7 + le64(h.first_usable);
        lemma_tail64(s, c8, h.last_usable, 48);
        lemma_tail64(s, c7, h.first_usable, 40);
        lemma_tail64(s, c6, h.backup_lba, 32);
        lemma_tail64(s, c5, h.current_lba, 24);
        lemma_tail32(s, c4, 0, 20);
        lemma_tail32(s, c3, c, 16);
        lemma_tail32(s, c2, h.header_size_le, 12);
        lemma_tail16(s, c1, h.revision.0, 10);
        lemma_tail16(s, c0, h.revision.1, 8);
    }
    pub proof fn lemma_lens(h: Header, c: u32)
        ensures
            le16(h.revision.1).len() == 2, le16(h.revision.0).len() == 2, le32(h.header_size_le).len() == 4, le32(c).len() == 4, le32(0).len() == 4,
            le64(h.current_lba).len() == 8, le64(h.backup_lba).len() == 8, le64(h.first_usable).len() == 8, le64(h.last_usable).len() == 8,
            le32(h.disk_guid.d1).len() == 4, le16(h.disk_guid.d2).len() == 2, le16(h.disk_guid.d3).len() == 2, h.disk_guid.d4@.len() == 8,
            le64(h.part_start).len() == 8, le32(h.num_parts).len() == 4, le32(h.part_size).len() == 4,
    {}
    pub proof fn lemma_hdr_at(h: Header, c: u32, pcrc: u32, s: Seq<u8>)
        requires sig_ok(h), s == hdr_bytes(h, c, pcrc),
        ensures
            s.len() == 92, s.take(8) == efi_part_bytes(),
            d16(s, 10) == h.revision.0, d16(s, 8) == h.revision.1, d32(s, 12) == h.header_size_le, d32(s, 16) == c, d32(s, 20) == 0,
            d64(s, 24) == h.current_lba, d64(s, 32) == h.backup_lba, d64(s, 40) == h.first_usable, d64(s, 48) == h.last_usable,
            guid_decode(s, 56) == h.disk_guid, d64(s, 72) == h.part_start, d32(s, 80) == h.num_parts, d32(s, 84) == h.part_size, d32(s, 88) == pcrc,
            spliced(s, 16, zeros(4)) == hdr_bytes(h, 0, pcrc),
    {
        hide(d16); hide(d32); hide(d64); hide(le16); hide(le32); hide(le64); hide(guid_decode);
        broadcast use lemma_efi_bytes;
        lemma_hdr_bytes(h, c, pcrc);
        lemma_hdr_zero_crc(h, c, pcrc);
        lemma_lens(h, c); lemma_lens(h, pcrc);
        assert(str_bytes(h.signature@).len() == 8);
        let c9 = hdr_front(h, c);
        let c10 = c9 + le32(h.disk_guid.d1);
        let c11 = c10 + le16(h.disk_guid.d2);
        let c12 = c11 + le16(h.disk_guid.d3);
        let c13 = c12 + h.disk_guid.d4@;
        let c14 = c13 + le64(h.part_start);
        let c15 = c14 + le32(h.num_parts);
        let c16 = c15 + le32(h.part_size);
        let c17 = c16 + le32(pcrc);
        assert(c9.len() == 56);
        assert(s.take(92) =~= s);
        assert(c17 == s);
        lemma_tail32(s, c16, pcrc, 88);
        lemma_tail32(s, c15, h.part_size, 84);
        lemma_tail32(s, c14, h.num_parts, 80);
        lemma_tail64(s, c13, h.part_start, 72);
        lemma_tail(s, c12, h.disk_guid.d4@);
        lemma_tail16(s, c11, h.disk_guid.d3, 62);
        lemma_tail16(s, c10, h.disk_guid.d2, 60);
        lemma_tail32(s, c9, h.disk_guid.d1, 56);
        lemma_guid_parts(s, 56, h.disk_guid);
        lemma_hdr_front(h, c, s);
    }
    /// with its checksum field zeroed
    pub proof fn lemma_hdr_zero_crc(h: Header, c: u32, pcrc: u32)
        requires sig_ok(h),
        ensures spliced(hdr_bytes(h, c, pcrc), 16, zeros(4)) == hdr_bytes(h, 0, pcrc),
    {
        hide(hdr_bytes);
        broadcast use lemma_efi_bytes;
        assert(str_bytes(h.signature@).len() == 8);
        lemma_hdr_bytes(h, c, pcrc);
        lemma_hdr_bytes(h, 0, pcrc);
        lemma_be_zero();
        let z = hdr_bytes(h, 0, pcrc);
        let s = hdr_bytes(h, c, pcrc);
        let w = spliced(s, 16, zeros(4));
        assert(spliced(z, 16, le32(c)) == s);
        lemma_hdr_crc_field(h, pcrc);
        assert forall|i: int| 0 <= i < 92 implies #[trigger] w[i] == z[i] by {
            if 16 <= i < 20 { assert(z.subrange(16, 20)[i - 16] == z[i]); }
        }
        assert(w =~= z);
    }
    pub proof fn lemma_hdr_crc_field(h: Header, pcrc: u32)
        requires str_bytes(h.signature@).len() == 8,
        ensures hdr_bytes(h, 0, pcrc).subrange(16, 20) == le32(0),
    {
        lemma_hdr_bytes(h, 0, pcrc);
        let z = hdr_bytes(h, 0, pcrc);
        let a = str_bytes(h.signature@) + le16(h.revision.1) + le16(h.revision.0) + le32(h.header_size_le);
        assert(a.len() == 16);
        assert forall|i: int| 0 <= i < 4 implies #[trigger] z[16 + i] == le32(0)[i] by {}
        assert(z.subrange(16, 20) =~= le32(0));
    }
    /// the written header is accepted and read back
    pub proof fn lemma_hdr_reads(b: Seq<u8>, h: Header, t: Seq<u8>, lb: nat, lba: u64)
        requires
            hdr_on(b, h, t, lb), sig_ok(h), h.reserved == 0, lb == 512 || lb == 4096, lba == h.current_lba, 0 <= lba * lb, lba * lb + lb <= b.len(),
        ensures
            hdr_valid(seg(b, lba * lb, 92), lba),
            hdr_eq(h, Header { signature: h.signature, ..hdr_decode(seg(b, lba * lb, 92)) }),
    {
        hide(hdr_bytes); hide(d16); hide(d32); hide(d64); hide(guid_decode);
        let pcrc = crc32(t);
        let c = crc32(hdr_bytes(h, 0, pcrc));
        broadcast use lemma_efi_bytes;
        lemma_hdr_bytes(h, c, pcrc);
        let blk = hdr_block(h, pcrc, lb);
        let s = seg(b, lba * lb, 92);
        assert(seg(b, lba * lb, lb as int) == blk);
        assert(s =~= blk.take(92));
        assert(s =~= hdr_bytes(h, c, pcrc));
        lemma_hdr_at(h, c, pcrc, s);
    }

    // --------------------------------------------------------- the whole disk
    /// both headers are there and mirror each other
    pub open spec fn mirrored(p: Header, q: Header) -> bool {
        &&& p.disk_guid == q.disk_guid && p.first_usable == q.first_usable && p.last_usable == q.last_usable
        &&& p.num_parts == q.num_parts && p.part_size == q.part_size && p.crc32_parts == q.crc32_parts
        &&& p.current_lba == q.backup_lba && p.backup_lba == q.current_lba
    }
    /// what an opening after a successful write of a finds (no device error while opening)
    pub open spec fn reopened<A, B>(a: GptDisk<A>, z: GptDisk<A>, g: GptDisk<B>) -> bool {
        &&& g.guid == a.guid
        &&& g.primary_header is Ok && hdr_eq(g.primary_header->Ok_0, z.primary_header->Ok_0)
        &&& eff(g).num_parts == eff(a).num_parts
        &&& renumbered(g.partitions@, used_list(a.partitions@))
        &&& (!a.config.readonly_backup ==> g.backup_header is Ok && hdr_eq(g.backup_header->Ok_0, z.backup_header->Ok_0)
            && mirrored(g.primary_header->Ok_0, g.backup_header->Ok_0))
    }
    pub proof fn lemma_written_opens<D: Dev>(a: GptDisk<D>, z: GptDisk<D>, c: GptConfig)
        requires
            wf(a), plan_ok(a, a.device.bytes()), written(a, z), z.device.bytes().len() == a.device.bytes().len(), lbs(c.lb_size) == dlb(a),
        ensures
            prim_ok(z.device.bytes(), dlb(a)),
            hdr_eq(z.primary_header->Ok_0, Header { signature: z.primary_header->Ok_0.signature, ..hdr_decode(prim_seg(z.device.bytes(), dlb(a))) }),
            !a.config.readonly_backup ==> back_ok(z.device.bytes(), dlb(a))
                && hdr_eq(z.backup_header->Ok_0, Header { signature: z.backup_header->Ok_0.signature, ..hdr_decode(back_seg(z.device.bytes(), dlb(a))) }),
            table_of(z.primary_header->Ok_0, z.device.bytes(), dlb(a)) == full_table(used_list(a.partitions@), eff(a).num_parts as nat),
            table_ok(hdr_decode(prim_seg(z.device.bytes(), dlb(a))), z.device.bytes(), dlb(a)),
            z.primary_header->Ok_0.num_parts == eff(a).num_parts,
            z.primary_header->Ok_0.disk_guid == a.guid,
            !c.only_valid_headers || !a.config.readonly_backup ==> open_ok(c, z.device.bytes()),
    {
        let b = z.device.bytes();
        let b0 = a.device.bytes();
        let lb = dlb(a);
        let t = full_table(used_list(a.partitions@), eff(a).num_parts as nat);
        lemma_plan(a, b0);
        lemma_last_lba(b0, lb);
        let p = z.primary_header->Ok_0;
        assert(p.current_lba == 1);
        assert(p.current_lba * lb == lb) by (nonlinear_arith) requires p.current_lba == 1;
        lemma_hdr_reads(b, p, t, lb, 1);
        assert(prim_seg(b, lb) == seg(b, (1 * lb) as int, 92));
        let d = hdr_decode(prim_seg(b, lb));
        assert(d.part_start == p.part_start && d.num_parts == p.num_parts && d.part_size == p.part_size);
        assert(table_of(d, b, lb) == table_of(p, b, lb));
        assert(table_in(d, b, lb));
        if !a.config.readonly_backup {
            let q = z.backup_header->Ok_0;
            assert(q.current_lba == last_lba(b, lb));
            lemma_hdr_reads(b, q, t, lb, q.current_lba);
        }
    }
    /// C01
    pub proof fn lemma_reopen<D: Dev, E: Dev>(a: GptDisk<D>, z: GptDisk<D>, c: GptConfig, d: E, g: GptDisk<E>)
        requires
            wf(a), plan_ok(a, a.device.bytes()), written(a, z), z.device.bytes().len() == a.device.bytes().len(), lbs(c.lb_size) == dlb(a),
            d.bytes() == z.device.bytes(), opened(c, d, g), g.device.errors() == d.errors(),
        ensures reopened(a, z, g),
    {
        let b = d.bytes();
        let lb = dlb(a);
        lemma_written_opens(a, z, c);
        let p = z.primary_header->Ok_0;
        assert(g.primary_header is Ok);
        let h = g.primary_header->Ok_0;
        assert(hdr_eq(h, p));
        if !a.config.readonly_backup {
            assert(back_ok(b, lb));
            assert(last_lba(b, lb) >= 0);
            assert(g.backup_header is Ok);
            lemma_plan(a, a.device.bytes());
        }
        let t = full_table(used_list(a.partitions@), eff(a).num_parts as nat);
        let ks = keyseq(a.partitions@);
        lemma_keyseq(a.partitions@);
        lemma_used_prefix(a.partitions@, ks, ks.len() as int);
        assert(table_of(h, b, lb) == t);
        lemma_table_roundtrip(g.partitions@, used_list(a.partitions@), eff(a).num_parts as nat);
    }

    // ------------------------------------------------- the composition, on the real functions
    /// C01: writes the disk and opens the device again. The body only calls the two functions of
    /// the crate; the verifier checks the guarantee against their contracts.
    pub fn client_write_then_open<D>(a: GptDisk<D>, c: GptConfig) -> (r: Result<GptDisk<D>, GptError>)
    where D: crate::DiskDevice,
        requires wf(a), lbs(c.lb_size) == dlb(a),
        ensures
            r is Ok && a.device.reliable() ==> exists|z: GptDisk<D>| #[trigger] written(a, z) && reopened(a, z, r->Ok_0), //@C01
    {
        let ghost a0 = a;
        let d = a.write()?;
        let ghost z = choose|z: GptDisk<D>| #[trigger] written(a0, z) && z.device == d;
        let g = c.open_from_device(d)?;
        proof { if a0.device.reliable() { lemma_reopen(a0, z, c, d, g); } }
        Ok(g)
    }
    /// C01: on a working device the second opening cannot fail (unless both headers are demanded
    /// and the backup was left alone)
    pub fn client_reopen_succeeds<D>(a: GptDisk<D>, c: GptConfig)
    where D: crate::DiskDevice,
        requires wf(a), lbs(c.lb_size) == dlb(a), a.device.reliable(), !c.only_valid_headers || !a.config.readonly_backup,
    {
        let ghost a0 = a;
        match a.write() {
            Ok(d) => {
                proof {
                    let z = choose|z: GptDisk<D>| #[trigger] written(a0, z) && z.device == d;
                    lemma_written_opens(a0, z, c);
                }
                let r = c.open_from_device(d);
                assert(r is Ok); //@C01
            }
            Err(_) => {}
        }
    }
}
