//! Independent re-statement of the on-disk formats and the placement rules.
use crate::dev::State;
use gpt::header::Header;
use gpt::partition::Partition;
use std::collections::BTreeMap;
use uuid::Uuid;

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub fn guid_bytes(u: &Uuid) -> [u8; 16] {
    let b = u.as_bytes();
    [b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]
}
pub fn guid_of(b: &[u8]) -> Uuid {
    Uuid::from_bytes([b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]])
}
fn u32_at(b: &[u8], i: usize) -> u32 {
    (0..4).fold(0, |a, k| a | (b[i + k] as u32) << (8 * k))
}
pub fn u64_at(b: &[u8], i: usize) -> u64 {
    (0..8).fold(0, |a, k| a | (b[i + k] as u64) << (8 * k))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub sig: [u8; 8],
    pub rev: u32,
    pub size: u32,
    pub crc: u32,
    pub reserved: u32,
    pub current: u64,
    pub backup: u64,
    pub first: u64,
    pub last: u64,
    pub guid: Uuid,
    pub pstart: u64,
    pub np: u32,
    pub psize: u32,
    pub pcrc: u32,
}

impl Hdr {
    pub fn bytes(&self, crc: u32) -> Vec<u8> {
        let mut v = self.sig.to_vec();
        v.extend(self.rev.to_le_bytes());
        v.extend(self.size.to_le_bytes());
        v.extend(crc.to_le_bytes());
        v.extend(self.reserved.to_le_bytes());
        for x in [self.current, self.backup, self.first, self.last] {
            v.extend(x.to_le_bytes());
        }
        v.extend(guid_bytes(&self.guid));
        v.extend(self.pstart.to_le_bytes());
        for x in [self.np, self.psize, self.pcrc] {
            v.extend(x.to_le_bytes());
        }
        v
    }
    pub fn sealed(&self) -> Vec<u8> {
        self.bytes(crc32(&self.bytes(0)))
    }
    pub fn parse(b: &[u8]) -> Hdr {
        Hdr {
            sig: b[..8].try_into().unwrap(),
            rev: u32_at(b, 8),
            size: u32_at(b, 12),
            crc: u32_at(b, 16),
            reserved: u32_at(b, 20),
            current: u64_at(b, 24),
            backup: u64_at(b, 32),
            first: u64_at(b, 40),
            last: u64_at(b, 48),
            guid: guid_of(&b[56..72]),
            pstart: u64_at(b, 72),
            np: u32_at(b, 80),
            psize: u32_at(b, 84),
            pcrc: u32_at(b, 88),
        }
    }
    pub fn of(h: &Header) -> Hdr {
        let mut sig = [0u8; 8];
        let n = h.signature.len().min(8);
        sig[..n].copy_from_slice(&h.signature.as_bytes()[..n]);
        Hdr {
            sig,
            rev: (h.revision.0 as u32) << 16 | h.revision.1 as u32,
            size: h.header_size_le,
            crc: h.crc32,
            reserved: h.reserved,
            current: h.current_lba,
            backup: h.backup_lba,
            first: h.first_usable,
            last: h.last_usable,
            guid: h.disk_guid,
            pstart: h.part_start,
            np: h.num_parts,
            psize: h.part_size,
            pcrc: h.crc32_parts,
        }
    }
}

/// Accept a header at a block, or the reason why not
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HErr {
    Unreadable,
    Signature,
    Checksum,
    Place,
    Small,
}
pub fn header_at(d: &State, lba: u64, bs: u64) -> Result<Hdr, HErr> {
    let b = d.try_get(lba as u128 * bs as u128, 92).ok_or(HErr::Unreadable)?;
    if &b[..8] != b"EFI PART" {
        return Err(HErr::Signature);
    }
    let h = Hdr::parse(&b);
    let mut z = b.clone();
    z[16..20].fill(0);
    if crc32(&z) != h.crc {
        return Err(HErr::Checksum);
    }
    if h.current != lba {
        return Err(HErr::Place);
    }
    Ok(h)
}
pub fn last_lba(len: u64, bs: u64) -> Option<u64> {
    if len / bs < 3 { None } else { Some((len - bs) / bs) }
}
pub fn backup_header(d: &State, bs: u64) -> Result<Hdr, HErr> {
    match last_lba(d.len, bs) {
        None => Err(HErr::Small),
        Some(l) => header_at(d, l, bs),
    }
}

pub fn units(name: &str) -> Vec<u16> {
    name.encode_utf16().take(36).collect()
}
pub fn stored_name(name: &str) -> String {
    let u: Vec<u16> = units(name).into_iter().take_while(|x| *x != 0).collect();
    String::from_utf16_lossy(&u)
}
pub fn entry_bytes(p: &Partition, size: usize) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend(guid_bytes(&p.part_type_guid.guid));
    v.extend(guid_bytes(&p.part_guid));
    v.extend(p.first_lba.to_le_bytes());
    v.extend(p.last_lba.to_le_bytes());
    v.extend(p.flags.to_le_bytes());
    for u in units(&p.name) {
        v.extend(u.to_le_bytes());
    }
    v.resize(size, 0);
    v
}
pub fn entry_of(b: &[u8]) -> Partition {
    let mut name = Vec::new();
    for i in 0..36 {
        let u = b[56 + 2 * i] as u16 | (b[57 + 2 * i] as u16) << 8;
        if u == 0 {
            break;
        }
        name.push(u);
    }
    Partition {
        part_type_guid: guid_of(b).into(),
        part_guid: guid_of(&b[16..]),
        first_lba: u64_at(b, 32),
        last_lba: u64_at(b, 40),
        flags: u64_at(b, 48),
        name: String::from_utf16_lossy(&name),
    }
}
/// the table a header locates, if intact
pub fn table(d: &State, h: &Hdr, bs: u64) -> Option<BTreeMap<u32, Partition>> {
    if h.psize != 128 || h.np as u64 > 200_000 {
        return None;
    }
    if h.pstart as u128 * bs as u128 > u64::MAX as u128 {
        return None;
    }
    let b = if h.np == 0 { vec![] } else { d.try_get(h.pstart as u128 * bs as u128, h.np as usize * 128)? };
    if crc32(&b) != h.pcrc {
        return None;
    }
    let mut m = BTreeMap::new();
    for i in 0..h.np as usize {
        let e = &b[i * 128..i * 128 + 128];
        if e.iter().any(|x| *x != 0) {
            m.insert(i as u32 + 1, entry_of(e));
        }
    }
    Some(m)
}

pub fn used(p: &Partition) -> bool {
    p.part_type_guid.guid != Uuid::nil()
}

/// maximal runs of usable blocks that belong to no partition in use, as (first, length)
pub fn free(first: u64, last: u64, parts: &BTreeMap<u32, Partition>) -> Vec<(u64, u64)> {
    // edges of all spans cut the line into pieces that are free or taken as a whole
    let spans: Vec<(u128, u128)> = parts
        .values()
        .filter(|p| used(p))
        .map(|p| (p.first_lba.min(p.last_lba) as u128, p.first_lba.max(p.last_lba) as u128))
        .collect();
    let lo = (first as u128).max(1);
    let hi = last as u128;
    if lo > hi {
        return vec![];
    }
    let mut cuts = vec![lo, hi + 1];
    for (a, b) in &spans {
        for c in [*a, *b + 1] {
            if c > lo && c <= hi {
                cuts.push(c);
            }
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    // most cuts are span ends: how many spans cover each piece
    let mut starts: Vec<u128> = spans.iter().map(|s| s.0).collect();
    let mut ends: Vec<u128> = spans.iter().map(|s| s.1 + 1).collect();
    starts.sort_unstable();
    ends.sort_unstable();
    let mut v: Vec<(u128, u128)> = vec![];
    for w in cuts.windows(2) {
        let open = starts.partition_point(|x| *x <= w[0]) - ends.partition_point(|x| *x <= w[0]);
        if open == 0 {
            match v.last_mut() {
                Some(l) if l.1 == w[0] => l.1 = w[1],
                _ => v.push((w[0], w[1])),
            }
        }
    }
    v.into_iter().map(|(a, b)| (a as u64, (b - a) as u64)).collect()
}

pub fn first_fit(free: &[(u64, u64)], blocks: u128, align: u64) -> Option<u64> {
    let al = align.max(1) as u128;
    for (s, l) in free {
        let a = (*s as u128 + al - 1) / al * al;
        if a + blocks <= *s as u128 + *l as u128 {
            return Some(a as u64);
        }
    }
    None
}

pub fn alignment(parts: &BTreeMap<u32, Partition>) -> u64 {
    if parts.is_empty() {
        return 0;
    }
    let mut a = 2048;
    while parts.values().any(|p| used(p) && p.first_lba % a != 0) {
        a /= 2;
    }
    a
}

/// blocks of a table
pub fn table_blocks(np: u32, psize: u32, bs: u64) -> u128 {
    (np as u128 * psize as u128 + bs as u128 - 1) / bs as u128
}

/// requested geometry
#[derive(Clone, Debug)]
pub struct Geo {
    pub primary: bool,
    pub guid: Option<Uuid>,
    pub plba: u64,
    pub blba: u64,
    pub first: u64,
    pub last: u64,
    pub np: u32,
    pub psize: u32,
}
impl Geo {
    /// (first usable, last usable, table start) if the layout is possible
    pub fn build(&self, bs: u64) -> Option<(u64, u64, u64)> {
        let t = table_blocks(self.np, self.psize, bs) as i128;
        if self.plba == 0 || self.blba < self.plba {
            return None;
        }
        let first = (self.first as i128).max(self.plba as i128 + 1 + t);
        let max = self.blba as i128 - t - 1;
        if max < 0 || first > u64::MAX as i128 {
            return None;
        }
        let last = if self.last == 0 { max } else { max.min(self.last as i128) };
        if first > last {
            return None;
        }
        let start = if self.primary { self.plba + 1 } else { last as u64 + 1 };
        Some((first as u64, last as u64, start))
    }
    pub fn from_header(h: &Header) -> Geo {
        let primary = h.current_lba < h.backup_lba;
        Geo {
            primary,
            guid: Some(h.disk_guid),
            plba: h.current_lba.min(h.backup_lba),
            blba: h.current_lba.max(h.backup_lba),
            first: h.first_usable,
            last: 0,
            np: h.num_parts,
            psize: h.part_size,
        }
    }
}
