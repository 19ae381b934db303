// ---------------------------------------------------------------------------
// C20: what an interrupted write leaves behind.
// ---------------------------------------------------------------------------
pub mod vcrash {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vdisk::*;
    use crate::vwrite::*;
    use crate::vreopen::*;
    use crate::vio::{Dev, same_dev, spliced, Error};
    use crate::vcrc::crc32;
    use crate::vmap::{keyseq, lemma_keyseq};
    use crate::partition::Partition;
    use crate::header::{Header, HeaderBuilder, HeaderError};
    use crate::{GptDisk, GptConfig, GptError};

    /// the table a write of a puts on the device
    pub open spec fn new_table<D>(a: GptDisk<D>) -> Seq<u8> { full_table(used_list(a.partitions@), eff(a).num_parts as nat) }
    /// the header a write of a puts there
    pub open spec fn new_plan<D>(a: GptDisk<D>, b: Seq<u8>, back: bool) -> Header { if back { plan_bh(a, b) } else { plan_ph(a, b) } }
    /// s is the encoding of the header h with both checksums
    pub open spec fn sealed(h: Header, t: Seq<u8>, s: Seq<u8>) -> bool { s == hdr_bytes(h, crc32(hdr_bytes(h, 0, crc32(t))), crc32(t)) }
    pub open spec fn is_new_hdr<D>(a: GptDisk<D>, b: Seq<u8>, back: bool, s: Seq<u8>) -> bool {
        plan_ok(a, b) && exists|h: Header| planned(h, new_plan(a, b, back)) && #[trigger] sealed(h, new_table(a), s)
    }
    /// the header block that was being written at the moment of the interruption holds bytes that are
    /// neither the old nor the new header but carry their own CRC-32; everything written before it is complete
    pub open spec fn header_accident<D>(a: GptDisk<D>, b: Seq<u8>, z: Seq<u8>, back: bool) -> bool {
        let s = place_seg(z, dlb(a), back);
        let f = foot(a, b);
        &&& place_ok(z, dlb(a), back) && s != place_seg(b, dlb(a), back) && !is_new_hdr(a, b, back, s)
        &&& plan_ok(a, b)
        &&& (!back ==> tabs_full(f, z) && (f.both ==> back_full(f, z)))
        &&& (back && f.both ==> tabs_full(f, z) && prim_seg(z, dlb(a)) == prim_seg(b, dlb(a)))
        // a read-only backup is touched only where the primary table reaches into it (a device that has shrunk)
        &&& (back && !f.both ==> f.bh < 2 * f.lb + f.tlen)
    }
    /// two different tables with one CRC-32
    pub open spec fn collision(x: Seq<u8>, y: Seq<u8>) -> bool { x != y && crc32(x) == crc32(y) }
    /// g is what the header at that place of b, and the table it certifies, say
    pub open spec fn is_old<E>(b: Seq<u8>, z: Seq<u8>, lb: nat, back: bool, g: GptDisk<E>) -> bool {
        let h = hdr_decode(place_seg(b, lb, back));
        let y = table_of(h, b, lb);
        let x = table_of(h, z, lb);
        &&& place_ok(b, lb, back)
        &&& hdr_eq(eff(g), h) && g.guid == h.disk_guid
        &&& decodes(g.partitions@, x, h.num_parts as int)
        &&& crc32(x) == h.crc32_parts
        &&& (table_ok(h, b, lb) ==> x == y || collision(x, y))
    }
    /// g is the new state
    pub open spec fn is_new<D, E>(a: GptDisk<D>, b: Seq<u8>, z: Seq<u8>, back: bool, g: GptDisk<E>) -> bool {
        let p = new_plan(a, b, back);
        let x = table_of(eff(g), z, dlb(a));
        &&& g.guid == a.guid && eff(g).first_usable == p.first_usable && eff(g).last_usable == p.last_usable && eff(g).num_parts == eff(a).num_parts
        &&& eff(g).current_lba == p.current_lba && eff(g).backup_lba == p.backup_lba
        &&& (x == new_table(a) && renumbered(g.partitions@, used_list(a.partitions@)) || collision(x, new_table(a)))
    }
    pub open spec fn unmixed<D, E>(a: GptDisk<D>, b: Seq<u8>, z: Seq<u8>, g: GptDisk<E>) -> bool {
        exists|back: bool| #[trigger] unmixed_at(a, b, z, back, g)
    }
    pub open spec fn unmixed_at<D, E>(a: GptDisk<D>, b: Seq<u8>, z: Seq<u8>, back: bool, g: GptDisk<E>) -> bool {
        header_accident(a, b, z, back) || is_old(b, z, dlb(a), back, g) || is_new(a, b, z, back, g)
    }
    /// whatever an interrupted write of a left behind, an opening shows the old state, the new one, or an accident
    pub proof fn lemma_unmixed<D: Dev, E: Dev>(a: GptDisk<D>, c: GptConfig, d: E, g: GptDisk<E>)
        requires
            wf(a), lbs(c.lb_size) == dlb(a), certified(c, d.bytes(), g),
            d.bytes() == a.device.bytes() || plan_ok(a, a.device.bytes()) && frame(foot(a, a.device.bytes()), a.device.bytes(), d.bytes())
                && phase(foot(a, a.device.bytes()), a.device.bytes(), d.bytes()),
        ensures unmixed(a, a.device.bytes(), d.bytes(), g),
    {
        hide(hdr_bytes); hide(d16); hide(d32); hide(d64); hide(guid_decode); hide(full_table); hide(decodes); hide(last_lba);
        let b = a.device.bytes();
        let z = d.bytes();
        let lb = dlb(a);
        let back = !(g.primary_header is Ok);
        let s = place_seg(z, lb, back);
        assert(last_lba(z, lb) == last_lba(b, lb)) by { reveal(last_lba); }
        assert(place_ok(z, lb, back));
        assert(hdr_eq(eff(g), hdr_decode(s)));
        if s == place_seg(b, lb, back) {
            assert(place_ok(b, lb, back));
            let h = hdr_decode(place_seg(b, lb, back));
            assert(table_of(eff(g), z, lb) == table_of(h, z, lb));
            assert(is_old(b, z, lb, back, g));
        } else if is_new_hdr(a, b, back, s) {
            let t = new_table(a);
            let h = choose|h: Header| planned(h, new_plan(a, b, back)) && #[trigger] sealed(h, t, s);
            lemma_plan(a, b);
            lemma_hdr_at(h, crc32(hdr_bytes(h, 0, crc32(t))), crc32(t), s);
            assert(h.num_parts == eff(a).num_parts && h.disk_guid == a.guid);
            assert(eff(g).num_parts == eff(a).num_parts);
            let x = table_of(eff(g), z, lb);
            if x == t {
                let ks = keyseq(a.partitions@);
                lemma_keyseq(a.partitions@);
                lemma_used_prefix(a.partitions@, ks, ks.len() as int);
                lemma_table_roundtrip(g.partitions@, used_list(a.partitions@), eff(a).num_parts as nat);
            }
            assert(is_new(a, b, z, back, g));
        } else {
            let f = foot(a, b);
            lemma_plan(a, b);
            reveal(last_lba);
            lemma_last_lba(b, lb);
            broadcast use crate::vstr::lemma_efi_bytes;
            assert(f.bh == last_lba(b, lb) * lb);
            if frame_t(f, b, z) {
                if back && (f.both || f.bh >= 2 * f.lb + f.tlen) { assert(s =~= back_seg(b, lb)); }
                if !back { assert(s =~= prim_seg(b, lb)); }
            } else {
                if seg(z, lb as int, lb as int) == seg(b, lb as int, lb as int) {
                    assert(prim_seg(z, lb) =~= seg(z, lb as int, lb as int).subrange(0, 92));
                    assert(prim_seg(b, lb) =~= seg(b, lb as int, lb as int).subrange(0, 92));
                }
                if f.both && back_full(f, z) && back {
                    let t = new_table(a);
                    let h = choose|h: Header| planned(h, f.pb) && seg(z, f.bh as int, lb as int) == #[trigger] hdr_block(h, crc32(t), lb);
                    lemma_hdr_bytes(h, crc32(hdr_bytes(h, 0, crc32(t))), crc32(t));
                    assert(s =~= seg(z, f.bh as int, lb as int).subrange(0, 92));
                    assert(s =~= hdr_bytes(h, crc32(hdr_bytes(h, 0, crc32(t))), crc32(t)));
                    assert(sealed(h, t, s));
                    assert(false);
                }
                if back && !f.both && f.bh >= 2 * f.lb + f.tlen {
                    assert(s =~= place_seg(b, lb, back));
                }
            }
            assert(header_accident(a, b, z, back));
        }
        assert(unmixed_at(a, b, z, back, g));
    }

    /// C20: a write that is interrupted by a device error at any operation, with any partial effect,
    /// or not at all; then the device is opened.
    pub fn client_interrupted_write<D>(a: GptDisk<D>, c: GptConfig) -> (r: Result<GptDisk<D>, GptError>)
    where D: crate::DiskDevice,
        requires wf(a), lbs(c.lb_size) == dlb(a),
        ensures
            r is Ok ==> exists|d: D| d.bytes().len() == a.device.bytes().len() && #[trigger] certified(c, d.bytes(), r->Ok_0)
                && unmixed(a, a.device.bytes(), d.bytes(), r->Ok_0), //@C20
    {
        let ghost a0 = a;
        let mut a = a;
        let _w = a.write_inplace();
        let GptDisk { device, .. } = a;
        let ghost d = device;
        let g = c.open_from_device(device)?;
        proof { lemma_unmixed(a0, c, d, g); }
        Ok(g)
    }
}
