//! Inputs: names, entries, images, configurations.
use crate::dev::{Dev, State};
use crate::oracle::*;
use crate::rng::Rng;
use crate::types::TYPES;
use gpt::disk::LogicalBlockSize;
use gpt::partition::Partition;
use gpt::partition_types::Type;
use std::collections::BTreeMap;
use uuid::Uuid;

pub fn lbs(bs: u64) -> LogicalBlockSize {
    if bs == 512 { LogicalBlockSize::Lb512 } else { LogicalBlockSize::Lb4096 }
}

pub fn guid(r: &mut Rng) -> Uuid {
    match r.below(16) {
        0 => Uuid::from_bytes([0xff; 16]),
        1 => Uuid::nil(),
        2 | 3 => {
            let mut b = [0u8; 16];
            b[r.below(16) as usize] = 1 << r.below(8);
            Uuid::from_bytes(b)
        }
        _ => Uuid::from_bytes(r.bytes()),
    }
}

pub fn ptype(r: &mut Rng) -> Type {
    match r.below(6) {
        0 => gpt::partition_types::LINUX_FS,
        1 => gpt::partition_types::EFI,
        2 | 3 => {
            let t = r.pick(TYPES);
            if t.0 == "UNUSED" { gpt::partition_types::BASIC } else { Type::from(Uuid::parse_str(t.1).unwrap()) }
        }
        _ => {
            let g = guid(r);
            if g.is_nil() { gpt::partition_types::BASIC } else { Type::from(g) }
        }
    }
}

pub fn name(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(34, 40),
        2 => 36,
        3 => r.range(40, 90),
        _ => r.range(1, 20),
    };
    let style = r.below(6);
    let mut s = String::new();
    for _ in 0..n {
        let c = match style {
            0 | 1 => (b'a' + r.below(26) as u8) as char,
            2 => char::from_u32(0x1f600 + r.below(40) as u32).unwrap(),
            3 => r.pick(&['ä', '漢', '\u{ffff}', '\u{100}', '\u{ff}', 'A', '\u{2028}']),
            4 => match r.below(8) {
                0 => '\0',
                1 => '😀',
                _ => 'x',
            },
            _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{d7ff}'),
        };
        s.push(c);
    }
    s
}

pub fn flags(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => 0,
        1 => 1 << r.below(64),
        2 => u64::MAX,
        _ => r.next(),
    }
}

pub fn entry(r: &mut Rng, first: u64, last: u64) -> Partition {
    Partition { part_type_guid: ptype(r), part_guid: guid(r), first_lba: first, last_lba: last, flags: flags(r), name: name(r) }
}

/// an entry that is stored but not in use
pub fn unused_entry(r: &mut Rng) -> Partition {
    let (a, b) = (r.below(300), r.below(300));
    let mut p = entry(r, a, b);
    p.part_type_guid = gpt::partition_types::UNUSED;
    if p.part_guid == Uuid::nil() {
        p.flags = 1;
    }
    p
}

/// how entries are laid out
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lay {
    Sane,
    Foreign,
}

/// entries for the slots 1..=np
pub fn entries(r: &mut Rng, np: u32, first: u64, last: u64, lay: Lay) -> BTreeMap<u32, Partition> {
    let mut m = BTreeMap::new();
    if np == 0 {
        return m;
    }
    let want = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => np as u64,
        3 => (np as u64).saturating_sub(1),
        4 => r.below(np as u64 + 1),
        _ => r.below((np as u64 + 1).min(8)),
    }
    .min(1100);
    let mut slots: Vec<u32> = (1..=np).collect();
    if !r.chance(1, 3) {
        for i in (1..slots.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            slots.swap(i, j);
        }
    }
    // every slot in use
    let full = want == np as u64 && r.coin();
    let mut at = first.max(1);
    for s in slots.into_iter().take(want as usize) {
        if !full && r.chance(1, 10) {
            let p = unused_entry(r);
            m.insert(s, p);
            continue;
        }
        if lay == Lay::Foreign && r.chance(2, 3) {
            let (a, b) = match r.below(5) {
                0 => (r.wild(), r.wild()),
                1 => {
                    let x = r.range(first.saturating_sub(3), last.saturating_add(3));
                    (x, x)
                }
                2 => {
                    let x = r.range(first.saturating_sub(3), last.saturating_add(3));
                    let y = r.range(first.saturating_sub(3), last.saturating_add(3));
                    (x, y)
                }
                3 => {
                    let x = r.range(first.saturating_sub(1), last.saturating_add(1));
                    (x, x.saturating_add(r.below(10)))
                }
                _ => {
                    let x = last.saturating_sub(r.below(4));
                    (x, x.saturating_add(r.below(4)))
                }
            };
            let p = entry(r, a, b);
            m.insert(s, p);
            continue;
        }
        if at > last || at == 0 {
            break;
        }
        let a = if full || r.chance(1, 3) { at } else { at.saturating_add(r.below(6)) };
        let l = match r.below(5) {
            _ if full => 1,
            0 => 1,
            1 => (last - at.min(last)) / 2 + 1,
            2 => r.range(1, (last - at.min(last)).max(1)),
            _ => r.range(1, 8),
        };
        let b = a.saturating_add(l - 1);
        if a > last || b > last {
            continue;
        }
        let p = entry(r, a, b);
        m.insert(s, p);
        at = b.saturating_add(1);
    }
    m
}

pub fn table_bytes(np: u32, m: &BTreeMap<u32, Partition>) -> Vec<u8> {
    let mut v = vec![0u8; np as usize * 128];
    for (k, p) in m {
        let i = (*k as usize - 1) * 128;
        if i + 128 <= v.len() {
            v[i..i + 128].copy_from_slice(&entry_bytes(p, 128));
        }
    }
    v
}

pub struct Image {
    pub st: State,
    pub bs: u64,
    pub desc: String,
    /// both headers describe each other, at block 1 and at the last block
    pub consistent: bool,
    pub np: u32,
}

pub fn num_parts(r: &mut Rng) -> u32 {
    if r.chance(1, 250) {
        let most = r.pick(&[2000, 5000, 5000, 9000, 40_000]);
        return r.range(1100, most) as u32;
    }
    match r.below(12) {
        0 => r.range(1, 20) as u32,
        1 => 127,
        2 => 129,
        3 => r.range(130, 300) as u32,
        4 => 256,
        5 => r.range(5, 127) as u32,
        6 => {
            if r.chance(1, 3) { 0 } else { 4 }
        }
        7 => 1000 + r.below(100) as u32,
        _ => 128,
    }
}

/// a device of a few blocks with headers that check out
fn tiny(r: &mut Rng) -> Image {
    let bs = if r.coin() { 512 } else { 4096 };
    let blocks = r.range(2, 9);
    let np = r.pick(&[0u32, 0, 1, 4, (bs / 128) as u32]);
    let len = blocks * bs + if r.chance(1, 4) { r.below(bs) } else { 0 };
    let dev = Dev::new(len, r.below(3) as u8);
    let guid = guid(r);
    let m = entries(r, np, 2, blocks, Lay::Foreign);
    let t = table_bytes(np, &m);
    let (a, b) = (2.min(blocks - 1), blocks.saturating_sub(2));
    dev.put(a * bs, &t);
    dev.put(b * bs, &t);
    let last = if r.coin() { blocks.saturating_sub(2) } else { r.below(blocks + 1) };
    let mut h = Hdr {
        sig: *b"EFI PART",
        rev: 0x0001_0000,
        size: 92,
        crc: 0,
        reserved: 0,
        current: 1,
        backup: blocks - 1,
        first: r.below(blocks + 1),
        last,
        guid,
        pstart: a,
        np,
        psize: 128,
        pcrc: crc32(&t),
    };
    dev.put(bs, &block(&h.sealed(), bs));
    if r.chance(2, 3) {
        h.current = blocks - 1;
        h.backup = 1;
        h.pstart = b;
        dev.put((blocks - 1) * bs, &block(&h.sealed(), bs));
    }
    if r.coin() {
        dev.put(bs + r.below(92), &[0x5a]);
    }
    let desc = format!("tiny device: block size {bs}, {len} bytes, {np} slots, tables at {a} and {b}");
    Image { st: dev.snap(), bs, desc, consistent: false, np }
}

/// a self-consistent GPT image
pub fn image(r: &mut Rng, lay: Lay) -> Image {
    if r.chance(1, 25) {
        return tiny(r);
    }
    let bs = if r.chance(2, 3) { 512 } else { 4096 };
    let np = num_parts(r);
    let tb = table_blocks(np, 128, bs) as u64;
    let usable = match r.below(6) {
        0 => r.range(1, 4),
        1 => r.range(1, 60),
        2 => r.range(2000, 5000),
        3 if r.chance(1, 4) => (1 << r.range(40, if bs == 512 { 52 } else { 49 })) + r.below(10),
        3 => 1 << r.range(12, 40),
        _ => r.range(20, 200),
    };
    let pad_front = if r.chance(1, 4) { r.below(40) } else if r.chance(1, 8) { 2048 } else { 0 };
    let pad_back = if r.chance(1, 4) { r.below(10) } else { 0 };
    let first = 2 + tb + pad_front;
    let last = first + usable - 1;
    let blocks = last + 1 + pad_back + tb + 1;
    let len = blocks * bs + if r.chance(1, 6) { r.below(bs) } else { 0 };
    let bg = if r.chance(1, 4) { 0 } else { 1 + r.below(200) as u8 };
    let dev = Dev::new(len, bg);
    // headers that claim more than there is
    let claim = r.chance(1, 40);
    let (dlast, last) = (last, if claim { u64::MAX - r.below(3) } else { last });
    let m = entries(r, np, first, last, lay);
    let t = table_bytes(np, &m);
    let guid = guid(r);
    let bt = if pad_back > 0 && r.coin() { blocks - 1 - tb } else { dlast + 1 };
    let mut h = Hdr {
        sig: *b"EFI PART",
        rev: 0x0001_0000,
        size: 92,
        crc: 0,
        reserved: 0,
        current: 1,
        backup: blocks - 1,
        first,
        last,
        guid,
        pstart: 2,
        np,
        psize: 128,
        pcrc: crc32(&t),
    };
    dev.put(2 * bs, &t);
    dev.put(bs, &block(&h.sealed(), bs));
    h.current = blocks - 1;
    h.backup = 1;
    h.pstart = bt;
    dev.put(bt * bs, &t);
    dev.put((blocks - 1) * bs, &block(&h.sealed(), bs));
    let desc = format!(
        "image: block size {bs}, {blocks} blocks ({len} bytes), {np} slots, usable {first}..={last}, backup table at {bt}, {} entries {:?}",
        m.len(),
        m.iter().take(12).map(|(k, p)| (*k, p.first_lba, p.last_lba, used(p))).collect::<Vec<_>>()
    );
    Image { st: dev.snap(), bs, desc, consistent: !claim, np }
}

pub fn block(h: &[u8], bs: u64) -> Vec<u8> {
    let mut v = h.to_vec();
    v.resize(bs as usize, 0);
    v
}

/// rewrite the header at a block with changed fields and a fresh checksum
pub fn reseal(st: &mut State, lba: u64, bs: u64, f: impl FnOnce(&mut Hdr)) {
    let mut h = Hdr::parse(&st.get(lba * bs, 92));
    f(&mut h);
    let b = h.sealed();
    st.put(lba * bs, &b);
}

/// damage, resize or make the image strange; says what was done
pub fn disturb(r: &mut Rng, im: &mut Image) {
    let bs = im.bs;
    let last = im.st.len / bs - 1;
    let n = 1 + r.below(2);
    for _ in 0..n {
        let what = r.below(14);
        match what {
            0 | 1 => {
                let lba = if what == 0 { 1 } else { last };
                let at = lba * bs + r.below(92);
                let b = im.st.byte(at) ^ (1 << r.below(8));
                im.st.put(at, &[b]);
                im.desc += &format!("; byte {at} changed to {b}");
            }
            2 => {
                let at = 2 * bs + r.below(im.np as u64 * 128 + 1);
                let b = im.st.byte(at) ^ (1 << r.below(8));
                im.st.put(at, &[b]);
                im.desc += &format!("; byte {at} (primary table) changed to {b}");
            }
            3 => {
                let h = Hdr::parse(&im.st.get(last * bs, 92));
                let at = h.pstart.min(1 << 50) * bs + r.below(im.np as u64 * 128 + 1);
                let b = im.st.byte(at) ^ (1 << r.below(8));
                im.st.put(at, &[b]);
                im.desc += &format!("; byte {at} (backup table) changed to {b}");
            }
            4 => {
                im.st.len = r.below(im.st.len + 1);
                im.consistent = false;
                im.desc += &format!("; cut to {} bytes", im.st.len);
                if im.st.len < 3 * bs {
                    return;
                }
            }
            5 => {
                im.st.len += r.range(1, 50) * bs;
                im.desc += &format!("; grown to {} bytes", im.st.len);
            }
            6 | 7 | 8 => {
                let lba = if r.coin() { 1 } else { last };
                let field = r.below(11);
                let now = Hdr::parse(&im.st.get(lba * bs, 92));
                let old = [now.current, now.backup, now.first, now.last, now.pstart, now.np as u64, now.psize as u64][field.min(6) as usize];
                let v = match r.below(4) {
                    0 => r.wild(),
                    1 => r.below(80),
                    2 => old.wrapping_add(r.below(9)).wrapping_sub(4),
                    _ => last.saturating_sub(r.below(80)),
                };
                reseal(&mut im.st, lba, bs, |h| match field {
                    0 => h.current = v,
                    1 => h.backup = v,
                    2 => h.first = v,
                    3 => h.last = v,
                    4 => h.pstart = v,
                    5 => h.np = (v % 3000) as u32,
                    6 => h.psize = v as u32,
                    7 => h.rev = v as u32,
                    8 => h.size = v as u32,
                    9 => h.reserved = v as u32,
                    _ => h.pcrc = v as u32,
                });
                im.consistent = false;
                im.desc += &format!("; field {field} of the header at {lba} set to {v}, resealed");
            }
            11 | 12 => {
                // only one header is left, and it is not quite what this library would have written
                let (lba, dead) = if r.chance(3, 4) { (last, 1) } else { (1, last) };
                let at = dead * bs + r.below(92);
                let b = im.st.byte(at) ^ (1 << r.below(8));
                im.st.put(at, &[b]);
                let field = r.below(6);
                let d = r.range(1, 4);
                let up = r.coin();
                let ch = |x: u64| if up { x.saturating_add(d) } else { x.saturating_sub(d) };
                reseal(&mut im.st, lba, bs, |h| match field {
                    0 | 1 => h.backup = ch(h.backup),
                    2 => h.first = ch(h.first),
                    3 => h.last = ch(h.last),
                    4 => h.rev = h.rev.wrapping_add(d as u32),
                    _ => h.reserved = d as u32,
                });
                im.consistent = false;
                im.desc += &format!("; byte {at} changed to {b}; field {field} of the header at {lba} {} by {d}, resealed", if up { "raised" } else { "lowered" });
            }
            13 => {
                // a tempting value for a checksum
                let lba = if r.coin() { 1 } else { last };
                let mut z = im.st.get(lba * bs, 92);
                let tab = r.coin();
                if tab {
                    let v = r.pick(&[0u32, !0]);
                    reseal(&mut im.st, lba, bs, |h| h.pcrc = v);
                    im.desc += &format!("; table checksum in the header at {lba} set to {v}, resealed");
                } else {
                    z[16..20].fill(0);
                    let right = crc32(&z);
                    let v = r.pick(&[0, !0, !right, right.swap_bytes()]);
                    im.st.put(lba * bs + 16, &v.to_le_bytes());
                    im.desc += &format!("; checksum of the header at {lba} set to {v}");
                }
                im.consistent = false;
            }
            9 => {
                // the two headers disagree, each is fine by itself
                let g = guid(r);
                let lba = if r.coin() { 1 } else { last };
                reseal(&mut im.st, lba, bs, |h| h.guid = g);
                im.consistent = false;
                im.desc += &format!("; guid of the header at {lba} set to {g}");
            }
            _ => {
                // the table of one header is a different one
                let lba = if r.coin() { 1 } else { last };
                let h = Hdr::parse(&im.st.get(lba * bs, 92));
                let np = h.np.min(2000);
                if (h.pstart as u128) < (1 << 50) {
                    let m = entries(r, np, h.first, h.last, Lay::Sane);
                    let t = table_bytes(np, &m);
                    let end = h.pstart * bs + t.len() as u64;
                    if end <= im.st.len {
                        im.st.put(h.pstart * bs, &t);
                        reseal(&mut im.st, lba, bs, |h| {
                            h.np = np;
                            h.pcrc = crc32(&t)
                        });
                    }
                }
                im.consistent = false;
                im.desc += &format!("; the table of the header at {lba} replaced");
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub writable: bool,
    pub only_valid: bool,
    pub ro_backup: bool,
    pub change: bool,
}
pub fn cfg(r: &mut Rng) -> Cfg {
    Cfg { writable: !r.chance(1, 8), only_valid: r.chance(1, 4), ro_backup: r.chance(1, 4), change: r.coin() }
}
pub fn config(c: Cfg, bs: u64) -> gpt::GptConfig {
    gpt::GptConfig::new()
        .writable(c.writable)
        .only_valid_headers(c.only_valid)
        .readonly_backup(c.ro_backup)
        .change_partition_count(c.change)
        .logical_block_size(lbs(bs))
}
