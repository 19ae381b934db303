// ---------------------------------------------------------------------------
// Specification functions (pure mathematics) and lemmas.
// ---------------------------------------------------------------------------
pub mod vspec {
    use vstd::prelude::*;
    use crate::vio::{Dev, same_dev, spliced, WOp};
    use crate::vuuid::Uuid;
    use crate::vstr::*;
    use crate::vcrc::crc32;
    use crate::disk::LogicalBlockSize;
    use crate::partition::Partition;
    use crate::partition_types::spec_os;
    use crate::vmap::{BTreeMap, keyseq};
    use crate::header::{Header, HeaderBuilder, HeaderError};
    pub open spec fn le16(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
    pub open spec fn le32(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
    pub open spec fn le64(x: u64) -> Seq<u8> {
        seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8,
             ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8]
    }
    pub open spec fn d16(s: Seq<u8>, o: int) -> u16 { (s[o] as u16) | ((s[o + 1] as u16) << 8) }
    pub open spec fn be16(s: Seq<u8>, o: int) -> u16 { (s[o + 1] as u16) | ((s[o] as u16) << 8) }
    pub open spec fn d32(s: Seq<u8>, o: int) -> u32 {
        (s[o] as u32) | ((s[o + 1] as u32) << 8) | ((s[o + 2] as u32) << 16) | ((s[o + 3] as u32) << 24)
    }
    pub open spec fn d64(s: Seq<u8>, o: int) -> u64 {
        (s[o] as u64) | ((s[o + 1] as u64) << 8) | ((s[o + 2] as u64) << 16) | ((s[o + 3] as u64) << 24)
        | ((s[o + 4] as u64) << 32) | ((s[o + 5] as u64) << 40) | ((s[o + 6] as u64) << 48) | ((s[o + 7] as u64) << 56)
    }

    // ------------------------------------------------------- block sizes
    pub open spec fn lbs(l: LogicalBlockSize) -> nat {
        match l { LogicalBlockSize::Lb512 => 512, LogicalBlockSize::Lb4096 => 4096 }
    }
    pub open spec fn ceil_div(a: nat, b: nat) -> nat { (((a + b - 1) as int) / (b as int)) as nat }

    // ---------------------------------------------------- header geometry
    pub open spec fn table_blocks(num: u32, size: u32, lb: nat) -> nat { ceil_div((num as nat) * (size as nat), lb) }
    pub proof fn lemma_num_size(num: u32, size: u32)
        ensures 0 <= (num as int) * (size as int) <= 0xffff_fffe_0000_0001,
    {
        assert(0 <= (num as int) * (size as int) <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith)
            requires 0 <= num as int <= 0xffff_ffff, 0 <= size as int <= 0xffff_ffff;
    }
    pub proof fn lemma_table_blocks(num: u32, size: u32, lb: nat)
        requires lb == 512 || lb == 4096,
        ensures
            table_blocks(num, size, lb) * lb >= (num as nat) * (size as nat),
            table_blocks(num, size, lb) <= (num as nat) * (size as nat),
            table_blocks(num, size, lb) <= 0x0100_0000_0000_0000,
    {
        lemma_num_size(num, size);
        let a = (num as nat) * (size as nat);
        assert(a >= 0);
        if lb == 512 {
            assert(((a + 511) as int) / 512 * 512 >= a);
        } else {
            assert(((a + 4095) as int) / 4096 * 4096 >= a);
        }
    }

    pub open spec fn spec_from_header(h: Header) -> HeaderBuilder {
        HeaderBuilder {
            primary: h.current_lba < h.backup_lba,
            disk_guid: h.disk_guid,
            primary_lba: if h.current_lba < h.backup_lba { h.current_lba } else { h.backup_lba },
            backup_lba: if h.current_lba < h.backup_lba { h.backup_lba } else { h.current_lba },
            first_usable: h.first_usable,
            last_usable: 0,
            num_parts: h.num_parts,
            part_size: h.part_size,
        }
    }
    pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
    pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
    /// first usable block: not below the request, right after the primary table otherwise
    pub open spec fn b_first(b: HeaderBuilder, lb: nat) -> int {
        imax(b.first_usable as int, b.primary_lba + 1 + table_blocks(b.num_parts, b.part_size, lb))
    }
    /// last usable block: not above the request, right before the backup table otherwise
    pub open spec fn b_last(b: HeaderBuilder, lb: nat) -> int {
        let m = b.backup_lba - table_blocks(b.num_parts, b.part_size, lb) - 1;
        if b.last_usable == 0 { m } else { imin(b.last_usable as int, m) }
    }
    /// building succeeds exactly if there is room
    pub open spec fn spec_build_ok(b: HeaderBuilder, lb: nat) -> bool {
        b.primary_lba >= 1 && b_first(b, lb) <= b_last(b, lb)
    }
    /// the header that gets built; the signature text is given by hdr_eq
    pub open spec fn spec_build(b: HeaderBuilder, lb: nat) -> Header {
        Header {
            signature: arbitrary(),
            revision: (1, 0),
            header_size_le: 92,
            crc32: 0,
            reserved: 0,
            current_lba: if b.primary { b.primary_lba } else { b.backup_lba },
            backup_lba: if b.primary { b.backup_lba } else { b.primary_lba },
            first_usable: b_first(b, lb) as u64,
            last_usable: b_last(b, lb) as u64,
            disk_guid: b.disk_guid,
            part_start: (if b.primary { b.primary_lba + 1 } else { b_last(b, lb) + 1 }) as u64,
            num_parts: b.num_parts,
            part_size: b.part_size,
            crc32_parts: 0,
        }
    }
    /// equal up to the representation of the signature string, which is "EFI PART"
    pub open spec fn hdr_eq(a: Header, b: Header) -> bool {
        a == (Header { signature: a.signature, ..b }) && a.signature@ == "EFI PART"@
    }
    pub open spec fn hdr_primary_lba(h: Header) -> int { imin(h.current_lba as int, h.backup_lba as int) }
    pub open spec fn hdr_backup_lba(h: Header) -> int { imax(h.current_lba as int, h.backup_lba as int) }
    /// C05: block 0, primary header, primary table, usable range, backup table, backup header
    pub open spec fn layout_ok(h: Header, lb: nat) -> bool {
        let t = table_blocks(h.num_parts, h.part_size, lb);
        &&& 0 < hdr_primary_lba(h)
        &&& t * lb >= (h.num_parts as nat) * (h.part_size as nat)
        &&& hdr_primary_lba(h) + 1 + t <= h.first_usable
        &&& h.first_usable <= h.last_usable
        &&& h.last_usable + t + 1 <= hdr_backup_lba(h)
        &&& (h.current_lba < h.backup_lba ==> h.part_start == hdr_primary_lba(h) + 1)
        &&& (h.current_lba > h.backup_lba ==> h.part_start == h.last_usable + 1)
    }
    impl vstd::std_specs::convert::FromSpecImpl<LogicalBlockSize> for u64 {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: LogicalBlockSize) -> u64 { lbs(v) as u64 }
    }
    impl vstd::std_specs::convert::TryFromSpecImpl<u64> for LogicalBlockSize {
        open spec fn obeys_try_from_spec() -> bool { false }
        open spec fn try_from_spec(v: u64) -> Result<Self, crate::vio::Error> { arbitrary() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<LogicalBlockSize> for usize {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: LogicalBlockSize) -> usize { lbs(v) as usize }
    }
    impl vstd::std_specs::convert::FromSpecImpl<crate::vio::Error> for HeaderError {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: crate::vio::Error) -> HeaderError { HeaderError::Io(v) }
    }
    impl vstd::std_specs::convert::FromSpecImpl<crate::vio::Error> for crate::GptError {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: crate::vio::Error) -> crate::GptError { crate::GptError::Io(v) }
    }
    impl vstd::std_specs::convert::FromSpecImpl<HeaderError> for crate::GptError {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: HeaderError) -> crate::GptError { crate::GptError::Header(v) }
    }
    impl vstd::std_specs::convert::FromSpecImpl<crate::vio::Error> for crate::mbr::MBRError {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: crate::vio::Error) -> crate::mbr::MBRError { crate::mbr::MBRError::Io(v) }
    }

    // ------------------------------------------------------- header format
    pub open spec fn guid_bytes(g: Uuid) -> Seq<u8> { le32(g.d1) + le16(g.d2) + le16(g.d3) + g.d4@ }
    pub open spec fn filled<T>(x: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| x) }
    pub open spec fn zeros(n: nat) -> Seq<u8> { filled(0u8, n) }
    /// the 92 header bytes, field by field
    pub open spec fn hdr_bytes(h: Header, crc: u32, pcrc: u32) -> Seq<u8> {
        str_bytes(h.signature@) + le16(h.revision.1) + le16(h.revision.0) + le32(h.header_size_le) + le32(crc) + le32(0)
        + le64(h.current_lba) + le64(h.backup_lba) + le64(h.first_usable) + le64(h.last_usable)
        + le32(h.disk_guid.d1) + le16(h.disk_guid.d2) + le16(h.disk_guid.d3) + h.disk_guid.d4@
        + le64(h.part_start) + le32(h.num_parts) + le32(h.part_size) + le32(pcrc)
    }
    /// one logical block: the header followed by zeros, the checksum taken with its field zero
    pub open spec fn hdr_block(h: Header, pcrc: u32, lb: nat) -> Seq<u8> {
        let c = crc32(hdr_bytes(h, 0, pcrc));
        hdr_bytes(h, c, pcrc) + zeros((lb - 92) as nat)
    }
    pub proof fn lemma_hdr_bytes(h: Header, crc: u32, pcrc: u32)
        requires str_bytes(h.signature@).len() == 8,
        ensures
            hdr_bytes(h, 0, pcrc).len() == 92,
            hdr_bytes(h, crc, pcrc).len() == 92,
            spliced(hdr_bytes(h, 0, pcrc), 16, le32(crc)) == hdr_bytes(h, crc, pcrc),
    {
        let a = str_bytes(h.signature@) + le16(h.revision.1) + le16(h.revision.0) + le32(h.header_size_le);
        let b = hdr_bytes(h, 0, pcrc);
        let c = hdr_bytes(h, crc, pcrc);
        assert(a.len() == 16);
        assert(b.len() == 92 && c.len() == 92);
        let s = spliced(b, 16, le32(crc));
        assert forall|i: int| 0 <= i < 92 implies #[trigger] s[i] == c[i] by {
            if i < 16 { assert(b[i] == a[i] && c[i] == a[i]); }
            else if i < 20 { assert(c[i] == le32(crc)[i - 16]); }
        }
        assert(s =~= c);
    }
    /// 92 bytes of header, then zeros
    pub proof fn lemma_hdr_block(h: Header, crc: u32, pcrc: u32, lb: nat, b: Seq<u8>)
        requires
            str_bytes(h.signature@).len() == 8, lb >= 92, b.len() == lb, crc == crc32(hdr_bytes(h, 0, pcrc)),
            b.take(92) == hdr_bytes(h, crc, pcrc), forall|i: int| 92 <= i < lb ==> b[i] == 0,
        ensures b == hdr_block(h, pcrc, lb),
    {
        lemma_hdr_bytes(h, crc, pcrc);
        let d = hdr_block(h, pcrc, lb);
        assert forall|i: int| 0 <= i < lb implies b[i] == d[i] by { if i < 92 { assert(b[i] == b.take(92)[i]); } }
        assert(b =~= d);
    }
    /// appending at the write position extends the written prefix
    pub broadcast proof fn lemma_spliced_prefix(a: Seq<u8>, p: nat, d: Seq<u8>)
        requires p + d.len() <= a.len(), d.len() > 0,
        ensures
            #![trigger spliced(a, p, d)]
            spliced(a, p, d).len() == a.len(),
            spliced(a, p, d).take((p + d.len()) as int) == a.take(p as int) + d,
    {
        assert(spliced(a, p, d).take((p + d.len()) as int) =~= a.take(p as int) + d);
    }
    /// the header fields stored in the 92 bytes
    pub open spec fn hdr_decode(b: Seq<u8>) -> Header {
        Header {
            signature: arbitrary(),
            revision: (d16(b, 10), d16(b, 8)),
            header_size_le: d32(b, 12),
            crc32: d32(b, 16),
            reserved: d32(b, 20),
            current_lba: d64(b, 24),
            backup_lba: d64(b, 32),
            first_usable: d64(b, 40),
            last_usable: d64(b, 48),
            disk_guid: guid_decode(b, 56),
            part_start: d64(b, 72),
            num_parts: d32(b, 80),
            part_size: d32(b, 84),
            crc32_parts: d32(b, 88),
        }
    }
    pub open spec fn guid_decode(b: Seq<u8>, o: int) -> Uuid {
        Uuid { d1: d32(b, o), d2: d16(b, o + 4), d3: d16(b, o + 6), d4: arr8(b.subrange(o + 8, o + 16)) }
    }
    /// the array with these eight elements
    pub uninterp spec fn arr8(s: Seq<u8>) -> [u8; 8];
    pub broadcast axiom fn axiom_arr8(a: [u8; 8])
        ensures arr8(#[trigger] a@) == a;
    /// acceptance condition of a header read from block `lba`
    pub open spec fn hdr_valid(b: Seq<u8>, lba: u64) -> bool {
        &&& b.len() == 92
        &&& b.take(8) == efi_part_bytes()
        &&& d32(b, 16) == crc32(spliced(b, 16, zeros(4)))
        &&& d64(b, 24) == lba
    }
    /// why it is not accepted: signature, then checksum, then place
    pub open spec fn hdr_verdict(b: Seq<u8>, lba: u64, e: HeaderError) -> bool {
        if b.take(8) != efi_part_bytes() { e is InvalidGptSignature }
        else if d32(b, 16) != crc32(spliced(b, 16, zeros(4))) { e is InvalidCRC32Checksum }
        else { d64(b, 24) != lba && e is WrongLba }
    }
    pub open spec fn seg(b: Seq<u8>, o: int, n: int) -> Seq<u8> { b.subrange(o, o + n) }
    /// only what lies in [o, o+n) may differ; the length only grows to cover that range
    pub open spec fn only_changed(a: Seq<u8>, b: Seq<u8>, o: int, n: int) -> bool {
        &&& a.len() <= b.len()
        &&& b.len() <= imax(a.len() as int, o + n)
        &&& forall|i: int| 0 <= i < a.len() && !(o <= i < o + n) ==> #[trigger] b[i] == a[i]
    }

    // ----------------------------------------------------- header operations
    pub open spec fn table_len(h: Header) -> int { (h.num_parts as int) * (h.part_size as int) }
    pub open spec fn table_at(h: Header, lb: nat) -> int { h.part_start * lb }
    /// the table lies on the device
    pub open spec fn table_in(h: Header, b: Seq<u8>, lb: nat) -> bool {
        table_at(h, lb) <= u64::MAX && (table_len(h) == 0 || table_at(h, lb) + table_len(h) <= b.len())
    }
    pub open spec fn table_of(h: Header, b: Seq<u8>, lb: nat) -> Seq<u8> {
        if table_len(h) == 0 { Seq::empty() } else { seg(b, table_at(h, lb), table_len(h)) }
    }
    /// the number of the last complete block
    pub open spec fn last_lba(b: Seq<u8>, lb: nat) -> int { (b.len() - lb) / (lb as int) }
    pub proof fn lemma_last_lba(b: Seq<u8>, lb: nat)
        requires lb == 512 || lb == 4096,
        ensures
            b.len() >= 3 * lb ==> last_lba(b, lb) >= 2 && last_lba(b, lb) * lb + lb <= b.len() && last_lba(b, lb) * lb + 2 * lb > b.len(),
            b.len() / lb - 1 == last_lba(b, lb), (b.len() / lb - 1) * lb + lb <= b.len(), (b.len() / lb) * lb <= b.len(),
    {
        if lb == 512 { assert(b.len() >= 1536 ==> (b.len() - 512) / 512 >= 2); } else { }
    }
    /// reading a header from block `lba`, which starts at byte `off`
    pub open spec fn read_hdr<D: Dev>(a: &D, z: &D, off: int, lba: u64, r: Result<Header, HeaderError>) -> bool {
        let b = seg(a.bytes(), off, 92);
        &&& same_dev(z, a)
        &&& z.errors() >= a.errors()
        &&& (r is Ok ==> off + 92 <= a.bytes().len() && hdr_valid(b, lba) && hdr_eq(r->Ok_0, hdr_decode(b)))
        &&& (r is Err ==> z.errors() > a.errors() || !hdr_valid(b, lba))
        &&& (r is Err && z.errors() == a.errors() ==> off + 92 <= a.bytes().len() && hdr_verdict(b, lba, r->Err_0))
        &&& (a.reliable() && off + 92 <= a.bytes().len() && a.bytes().len() <= u64::MAX ==> z.errors() == a.errors())
    }
    /// what writing a header does: the checksum fields are recomputed from what is on
    /// the device, the block at current_lba gets the encoding, nothing else changes
    pub open spec fn wrote_header<D: Dev>(h: Header, h2: Header, a: &D, z: &D, lb: nat, r: Result<usize, HeaderError>) -> bool {
        let at = h.current_lba * lb;
        let pcrc = crc32(table_of(h, a.bytes(), lb));
        &&& h2 == (Header { crc32: h2.crc32, crc32_parts: h2.crc32_parts, ..h })
        &&& z.errors() >= a.errors()
        &&& z.reliable() == a.reliable()
        // untouched, or one write of one block
        &&& (z.wlog() == a.wlog() && z.bytes() == a.bytes() && z.flushed() == a.flushed() && z.synced() == a.synced()
            || z.wlog() == a.wlog().push(WOp { at: at as nat, len: lb }) && !z.flushed() && !z.synced()
               && only_changed(a.bytes(), z.bytes(), at, lb as int))
        &&& (r is Ok ==> {
            &&& r->Ok_0 == lb
            &&& z.errors() == a.errors()
            &&& table_in(h, a.bytes(), lb)
            &&& z.wlog() == a.wlog().push(WOp { at: at as nat, len: lb })
            &&& z.bytes() == spliced(a.bytes(), at as nat, hdr_block(h, pcrc, lb))
            &&& h2.crc32_parts == pcrc
            &&& h2.crc32 == crc32(hdr_bytes(h, 0, pcrc))
        })
        &&& (a.reliable() && table_in(h, a.bytes(), lb) && at + lb <= a.bytes().len() ==> z.errors() == a.errors())
    }
    pub open spec fn calc_ghost(b: Seq<u8>) -> u32 { crc32(b) }
    pub proof fn lemma_be_zero()
        ensures
            seq![((0u32 >> 24) & 0xff) as u8, ((0u32 >> 16) & 0xff) as u8, ((0u32 >> 8) & 0xff) as u8, (0u32 & 0xff) as u8] == zeros(4),
            le32(0) == zeros(4),
    {
        assert((0u32 >> 24) & 0xff == 0 && (0u32 >> 16) & 0xff == 0 && (0u32 >> 8) & 0xff == 0 && 0u32 & 0xff == 0) by (bit_vector);
        assert(seq![((0u32 >> 24) & 0xff) as u8, ((0u32 >> 16) & 0xff) as u8, ((0u32 >> 8) & 0xff) as u8, (0u32 & 0xff) as u8] =~= zeros(4));
        assert(le32(0) =~= zeros(4));
    }

    // -------------------------------------------------------- partition entries
    pub open spec fn is_nil(g: Uuid) -> bool { g.d1 == 0 && g.d2 == 0 && g.d3 == 0 && g.d4@ == zeros(8) }
    pub open spec fn used(p: Partition) -> bool { !is_nil(p.part_type_guid.guid) }
    pub open spec fn name_bytes(u: Seq<u16>) -> Seq<u8>
        decreases u.len(),
    {
        if u.len() == 0 { seq![] } else { name_bytes(u.drop_last()) + le16(u.last()) }
    }
    pub open spec fn take_up_to<T>(s: Seq<T>, n: int) -> Seq<T> { s.take(imin(n, s.len() as int)) }
    pub open spec fn entry_head(p: Partition) -> Seq<u8> {
        guid_bytes(p.part_type_guid.guid) + guid_bytes(p.part_guid) + le64(p.first_lba) + le64(p.last_lba) + le64(p.flags)
    }
    pub open spec fn entry_raw(p: Partition) -> Seq<u8> { entry_head(p) + name_bytes(take_up_to(utf16(p.name@), 36)) }
    pub open spec fn resized(s: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if i < s.len() { s[i] } else { 0u8 }) }
    /// the entry as stored, zero padded to the entry size
    pub open spec fn entry_bytes(p: Partition, n: nat) -> Seq<u8> { resized(entry_raw(p), n) }
    pub proof fn lemma_name_bytes_len(u: Seq<u16>)
        ensures name_bytes(u).len() == 2 * u.len(),
        decreases u.len(),
    {
        reveal_with_fuel(name_bytes, 1);
        if u.len() > 0 {
            lemma_name_bytes_len(u.drop_last());
            assert(le16(u.last()).len() == 2);
            assert(name_bytes(u) == name_bytes(u.drop_last()) + le16(u.last()));
        }
    }
    pub proof fn lemma_name_bytes_at(u: Seq<u16>, i: int)
        requires 0 <= i < u.len(),
        ensures
            name_bytes(u).len() == 2 * u.len(),
            name_bytes(u)[2 * i] == le16(u[i])[0],
            name_bytes(u)[2 * i + 1] == le16(u[i])[1],
        decreases u.len(),
    {
        lemma_name_bytes_len(u);
        lemma_name_bytes_len(u.drop_last());
        if i < u.len() - 1 {
            lemma_name_bytes_at(u.drop_last(), i);
            assert(u.drop_last()[i] == u[i]);
        }
    }
    /// at most one write, to [at, at + d.len()); complete and without error when Ok
    pub open spec fn wrote_at<D: Dev>(a: &D, z: &D, at: int, d: Seq<u8>, r: Result<(), crate::vio::Error>) -> bool {
        &&& z.errors() >= a.errors()
        &&& z.reliable() == a.reliable()
        &&& (z.wlog() == a.wlog() && z.bytes() == a.bytes() && z.flushed() == a.flushed() && z.synced() == a.synced()
            || z.wlog() == a.wlog().push(WOp { at: at as nat, len: d.len() }) && !z.flushed() && !z.synced()
               && only_changed(a.bytes(), z.bytes(), at, d.len() as int))
        &&& (r is Ok ==> {
            &&& z.errors() == a.errors()
            &&& z.wlog() == a.wlog().push(WOp { at: at as nat, len: d.len() })
            &&& (d.len() > 0 || at <= a.bytes().len() ==> z.bytes() == spliced(a.bytes(), at as nat, d))
            &&& at <= u64::MAX
        })
        &&& (r is Err ==> z.errors() > a.errors() || at > u64::MAX || d.len() > u64::MAX)
        &&& (a.reliable() && at + d.len() <= a.bytes().len() ==> z.errors() == a.errors())
    }
    pub open spec fn slot(t: Seq<u8>, i: int) -> Seq<u8> { t.subrange(128 * i, 128 * i + 128) }
    /// the i-th UTF-16 unit of the stored name
    pub open spec fn unit(s: Seq<u8>, i: int) -> u16 { d16(s, 56 + 2 * i) }
    /// position of the first NUL unit of the name, 36 if there is none
    pub open spec fn nul_pos(s: Seq<u8>, i: int) -> int
        decreases 36 - i,
    {
        if i >= 36 { 36 } else if unit(s, i) == 0 { i } else { nul_pos(s, i + 1) }
    }
    pub open spec fn name_units(s: Seq<u8>) -> Seq<u16> { Seq::new(nul_pos(s, 0) as nat, |i: int| unit(s, i)) }
    pub proof fn lemma_nul_pos(s: Seq<u8>, k: int, p: int)
        requires 0 <= k <= 36, k <= p <= 36, p < 36 ==> unit(s, p) == 0,
            forall|i: int| k <= i < p ==> #[trigger] unit(s, i) != 0,
        ensures nul_pos(s, k) == p,
        decreases 36 - k,
    {
        if k < p { assert(unit(s, k) != 0); lemma_nul_pos(s, k + 1, p); }
    }
    pub proof fn lemma_nul_bound(s: Seq<u8>, k: int)
        requires 0 <= k <= 36,
        ensures k <= nul_pos(s, k) <= 36, nul_pos(s, k) < 36 ==> unit(s, nul_pos(s, k)) == 0,
            forall|i: int| k <= i < nul_pos(s, k) ==> #[trigger] unit(s, i) != 0,
        decreases 36 - k,
    {
        if k < 36 && unit(s, k) != 0 { lemma_nul_bound(s, k + 1); }
    }
    /// p is what the 128 bytes s say
    pub open spec fn entry_is(p: Partition, s: Seq<u8>) -> bool {
        &&& p.part_type_guid.guid == guid_decode(s, 0)
        &&& p.part_type_guid.os == spec_os(guid_decode(s, 0))
        &&& p.part_guid == guid_decode(s, 16)
        &&& p.first_lba == d64(s, 32)
        &&& p.last_lba == d64(s, 40)
        &&& p.flags == d64(s, 48)
        &&& p.name@ == utf16_lossy(name_units(s))
    }
    /// m holds exactly the non-zero slots among the first n, under the slot number
    pub open spec fn decodes(m: Map<u32, Partition>, t: Seq<u8>, n: int) -> bool {
        &&& forall|k: u32| #[trigger] m.dom().contains(k) <==> 1 <= k <= n && slot(t, k - 1) != zeros(128)
        &&& forall|k: u32| m.dom().contains(k) ==> #[trigger] entry_is(m[k], slot(t, k - 1))
    }
    pub open spec fn read_table<D: Dev>(a: &D, z: &D, h: Header, lb: nat, r: Result<BTreeMap<u32, Partition>, crate::vio::Error>) -> bool {
        let t = table_of(h, a.bytes(), lb);
        &&& same_dev(z, a)
        &&& z.errors() >= a.errors()
        &&& (r is Ok ==> z.errors() == a.errors() && h.part_size == 128 && table_in(h, a.bytes(), lb)
            && crc32(t) == h.crc32_parts && decodes(r->Ok_0@, t, h.num_parts as int))
        &&& (r is Err ==> z.errors() > a.errors() || h.part_size != 128 || table_at(h, lb) > u64::MAX || crc32(t) != h.crc32_parts)
        &&& (a.reliable() && table_in(h, a.bytes(), lb) && h.part_size == 128 ==> z.errors() == a.errors())
    }
    impl vstd::std_specs::convert::FromSpecImpl<Uuid> for crate::partition_types::Type {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: Uuid) -> crate::partition_types::Type { crate::partition_types::Type { guid: v, os: spec_os(v) } }
    }

    /// the ways to write a division that rounds up
    pub proof fn lemma_ceil_forms(a: nat, b: nat)
        requires b > 0,
        ensures
            ceil_div(a, b) == (if a % b == 0 { a / b } else { a / b + 1 }),
            a > 0 ==> ceil_div(a, b) == (a - 1) as nat / b + 1,
            a % b + (a / b) * b == a, a / b <= a,
    {
        let q = a / b;
        let r = a % b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        assert(b * q == q * b) by (nonlinear_arith);
        assert(q <= a) by (nonlinear_arith) requires a == b * q + r, b >= 1, q >= 0, r >= 0;
        if r == 0 {
            assert(a + b - 1 == q * b + (b - 1));
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b as int, q as int, b - 1);
            if a > 0 {
                assert(q >= 1) by (nonlinear_arith) requires a == b * q, a > 0;
                assert(a - 1 == (q - 1) * b + (b - 1)) by (nonlinear_arith) requires a == q * b;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a - 1, b as int, q - 1, b - 1);
            }
        } else {
            assert(a + b - 1 == (q + 1) * b + (r - 1)) by (nonlinear_arith) requires a == q * b + r;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b as int, (q + 1) as int, r - 1);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a - 1, b as int, q as int, r - 1);
        }
    }
    pub proof fn lemma_mul_grows(a: int, b: int)
        requires 0 <= a, 1 <= b,
        ensures a <= a * b,
    { assert(a <= a * b) by (nonlinear_arith) requires 0 <= a, 1 <= b; }
    pub broadcast proof fn lemma_cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        ensures #[trigger] (a + (b + c)) == (a + b) + c,
    { assert(a + (b + c) =~= (a + b) + c); }
    pub broadcast proof fn lemma_cat_empty(a: Seq<u8>)
        ensures #[trigger] (Seq::<u8>::empty() + a) == a,
    { assert(Seq::<u8>::empty() + a =~= a); }

    pub proof fn lemma_mul_nonneg(a: int, b: int)
        requires 0 <= a, 0 <= b,
        ensures 0 <= a * b,
    { assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b; }
}
