//! Histories of operations on a disk, with the expected effect of each.
use crate::dev::{Dev, Mode, Op, State};
use crate::gen::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::Ctx;
use gpt::header::{Header, HeaderError};
use gpt::partition::Partition;
use gpt::{GptDisk, GptError};
use std::collections::BTreeMap;
use uuid::Uuid;

pub type Disk = GptDisk<Dev>;

pub struct Snap {
    pub dev: State,
    pub parts: BTreeMap<u32, Partition>,
    pub ph: Option<Header>,
    pub bh: Option<Header>,
    pub guid: Uuid,
}

pub fn snap(d: &Disk) -> Snap {
    Snap {
        dev: d.device_ref().snap(),
        parts: d.partitions().clone(),
        ph: d.primary_header().ok().cloned(),
        bh: d.backup_header().ok().cloned(),
        guid: *d.guid(),
    }
}

impl Snap {
    pub fn eff(&self) -> Header {
        self.ph.clone().or(self.bh.clone()).expect("a header")
    }
    pub fn same_mem(&self, o: &Snap) -> bool {
        self.parts == o.parts && self.ph == o.ph && self.bh == o.bh && self.guid == o.guid
    }
}

fn lowest_free(m: &BTreeMap<u32, Partition>, np: u32) -> Option<u32> {
    if m.is_empty() {
        return Some(1);
    }
    (1..=np).find(|i| m.get(i).map_or(true, |p| !used(p)))
}

/// the headers after the table got `np` slots
fn grown(s: &Snap, np: u32, c: Cfg, bs: u64) -> Option<(u64, u64, u64)> {
    let last = last_lba(s.dev.len, bs)?;
    let mut g = Geo::from_header(&s.eff());
    g.np = np.max(128);
    g.blba = last;
    g.primary = true;
    let _ = c;
    g.build(bs)
}

pub struct Sess {
    pub disk: Disk,
    pub bs: u64,
    pub cfg: Cfg,
    /// created, or opened from headers at block 1 and the last block naming each other
    pub consistent: bool,
}

fn name_of(e: &GptError) -> String {
    let s = format!("{e:?}");
    s.chars().take(60).collect()
}

pub fn brief(m: &BTreeMap<u32, Partition>) -> String {
    let v: Vec<_> = m.iter().take(14).map(|(k, p)| (*k, p.first_lba, p.last_lba, used(p))).collect();
    format!("{} entries {:?}", m.len(), v)
}

/// what the oracle says about opening
pub enum Open {
    Fails(Option<HErr>),
    Opens { h1: Result<Hdr, HErr>, h2: Result<Hdr, HErr>, eff: Hdr, table: BTreeMap<u32, Partition> },
}
pub fn open_oracle(st: &State, c: Cfg, bs: u64) -> Open {
    let h1 = header_at(st, 1, bs);
    let h2 = backup_header(st, bs);
    if c.only_valid {
        if let Err(e) = h1 {
            return Open::Fails(Some(e));
        }
        if let Err(e) = h2 {
            return Open::Fails(Some(e));
        }
    }
    let eff = match (&h1, &h2) {
        (Ok(h), _) => h.clone(),
        (_, Ok(h)) => h.clone(),
        (Err(e), _) => return Open::Fails(Some(*e)),
    };
    match table(st, &eff, bs) {
        Some(t) => Open::Opens { h1, h2, eff, table: t },
        None => Open::Fails(None),
    }
}
pub fn herr_matches(e: &HeaderError, x: HErr) -> bool {
    match x {
        HErr::Unreadable => matches!(e, HeaderError::Io(_)),
        HErr::Signature => matches!(e, HeaderError::InvalidGptSignature),
        HErr::Checksum => matches!(e, HeaderError::InvalidCRC32Checksum),
        HErr::Place => matches!(e, HeaderError::WrongLba),
        HErr::Small => matches!(e, HeaderError::ToSmallForBackup),
    }
}

pub fn check_open(ctx: &mut Ctx, st: &State, c: Cfg, bs: u64, res: &Result<Disk, GptError>) {
    let exp = open_oracle(st, c, bs);
    match (exp, res) {
        (Open::Fails(e), Ok(_)) => {
            let p: &[&str] = if e.is_none() { &["C04", "C11"] } else { &["C04", "C11"] };
            ctx.fail(p, || format!("opening succeeded although it has to fail ({e:?}) with {c:?}"));
        }
        (Open::Fails(Some(x)), Err(e)) => {
            let ok = match e {
                GptError::Header(h) => herr_matches(h, x),
                _ => false,
            };
            ctx.check(&["C11"], ok, || format!("opening failed with {e:?} instead of the error of the header that decides: {x:?}"));
        }
        (Open::Fails(None), Err(_)) => {}
        (Open::Opens { .. }, Err(e)) => {
            ctx.fail(&["C04", "C11"], || format!("opening an intact disk failed with {e:?}, configuration {c:?}"));
        }
        (Open::Opens { h1, h2, eff, table }, Ok(d)) => {
            let p = d.primary_header();
            let b = d.backup_header();
            for (w, got, want) in [("primary", p, h1), ("backup", b, h2)] {
                match (got, want) {
                    (Ok(g), Ok(w2)) => ctx.check(&["C04", "C11"], Hdr::of(g) == w2 && g.signature == "EFI PART", || {
                        format!("{w} header decoded as {g:?}, stored is {w2:?}")
                    }),
                    (Err(e), Err(x)) => ctx.check(&["C11"], herr_matches(&e, x), || {
                        format!("{w} header reported as {e:?}, it is {x:?}")
                    }),
                    (Ok(_), Err(x)) => ctx.fail(&["C04", "C11"], || format!("{w} header accepted although it is not valid: {x:?}")),
                    (Err(e), Ok(_)) => ctx.fail(&["C04", "C11"], || format!("valid {w} header rejected: {e:?}")),
                }
            }
            ctx.check(&["C11"], Hdr::of(d.header()) == eff, || format!("header in effect is {:?}, expected {eff:?}", d.header()));
            ctx.check(&["C11", "C01"], *d.guid() == eff.guid, || format!("guid {} instead of {}", d.guid(), eff.guid));
            ctx.check(&["C04", "C11"], *d.partitions() == table, || {
                format!("table decoded as {} instead of {}; {}", brief(d.partitions()), brief(&table), first_diff(d.partitions(), &table))
            });
        }
    }
}

pub fn first_diff(a: &BTreeMap<u32, Partition>, b: &BTreeMap<u32, Partition>) -> String {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return format!("entry {k}: {:?} against {:?}", a.get(k), b.get(k));
        }
    }
    "no difference".into()
}

/// a disk to work on, and how it came to be
pub fn start(ctx: &mut Ctx, r: &mut Rng, faulty_backup: bool) -> Option<Sess> {
    let mut c = cfg(r);
    if r.chance(1, 4) {
        // created on a blank device
        let bs = if r.chance(2, 3) { 512 } else { 4096 };
        let tb = table_blocks(128, 128, bs) as u64;
        let min = 3 + 2 * tb;
        let blocks = match r.below(6) {
            0 => r.range(0, min),
            1 => min + r.below(3),
            2 => min + r.range(1, 40),
            3 => 1 << r.range(10, 51),
            _ => min + r.range(5, 300),
        };
        let len = blocks * bs + if r.chance(1, 6) { r.below(bs) } else { 0 };
        let bg = if r.chance(1, 4) { 0 } else { 1 + r.below(200) as u8 };
        let dev = Dev::new(len, bg);
        let g = if r.coin() { Some(guid(r)) } else { None };
        ctx.say(format!("create on a device of {len} bytes, block size {bs}, {c:?}, guid {g:?}"));
        let before = dev.snap();
        dev.arm(None);
        let d2 = dev.clone();
        let res = ctx.guard(&["C05", "C09", "C19"], "create_from_device", move || config(c, bs).create_from_device(d2, g))?;
        untouched(ctx, &before, &dev, "create");
        let geo = Geo { primary: true, guid: g, plba: 1, blba: last_lba(len, bs).unwrap_or(0), first: 0, last: 0, np: 128, psize: 128 };
        let want = if last_lba(len, bs).is_some() { geo.build(bs) } else { None };
        return match (res, want) {
            (Err(_), None) => None,
            (Ok(_), None) => {
                ctx.fail(&["C05"], || "a disk was created although the table does not fit".into());
                None
            }
            (Err(e), Some(_)) => {
                ctx.fail(&["C05", "C19"], || format!("creating a disk that fits failed with {e:?}"));
                None
            }
            (Ok(d), Some((f, l, s))) => {
                let h = d.header().clone();
                ctx.check(&["C19"], h.num_parts >= 128, || format!("created with {} slots", h.num_parts));
                ctx.check(&["C05"], (h.first_usable, h.last_usable, h.part_start) == (f, l, s), || format!("created header {h:?}"));
                if let Some(g) = g {
                    ctx.check(&["C01", "C18"], *d.guid() == g && h.disk_guid == g, || format!("created with guid {} / {} instead of {g}", d.guid(), h.disk_guid));
                }
                ctx.check(&["C18"], d.partitions().is_empty(), || "created with entries".into());
                Some(Sess { disk: d, bs, cfg: c, consistent: true })
            }
        };
    }
    let lay = if r.chance(1, 3) { Lay::Foreign } else { Lay::Sane };
    let mut im = image(r, lay);
    if r.chance(1, 3) || faulty_backup {
        disturb(r, &mut im);
    }
    if r.chance(1, 2) {
        c.only_valid = false;
    }
    ctx.say(im.desc.clone());
    ctx.say(format!("open with {c:?}"));
    let dev = Dev::of(&im.st);
    let (bs, d2) = (im.bs, dev.clone());
    let res = ctx.guard(&["C09"], "open_from_device", move || config(c, bs).open_from_device(d2))?;
    untouched(ctx, &im.st, &dev, "open");
    check_open(ctx, &im.st, c, bs, &res);
    let disk = res.ok()?;
    Some(Sess { disk, bs, cfg: c, consistent: im.consistent })
}

/// another size, often close to what the tables need
fn resize(r: &mut Rng, st: &mut State, h: &Header, bs: u64) {
    let tb = table_blocks(h.num_parts, h.part_size, bs).min(1 << 40) as u64;
    let blocks = match r.below(6) {
        0 => r.below(st.len / bs + 2),
        1 => (st.len / bs).saturating_add(r.range(1, 40)),
        2 => tb * 2 + r.below(8),
        3 => h.last_usable.min(1 << 50).saturating_add(tb).saturating_add(r.below(5)),
        _ => tb + r.below(6),
    };
    st.len = blocks.saturating_mul(bs) + if r.chance(1, 4) { r.below(bs) } else { 0 };
}

/// nothing but reads reached the device
pub fn untouched(ctx: &mut Ctx, before: &State, dev: &Dev, what: &str) {
    if !ctx.wants(&["C18", "C02", "C07"]) {
        return;
    }
    let now = dev.snap();
    let w = now.log.iter().find(|o| matches!(o, Op::Write(..) | Op::Flush));
    ctx.check(&["C18"], w.is_none(), || format!("{what} wrote to the device: {w:?}"));
    let d = now.diff(before);
    ctx.check(&["C18"], d.is_empty() && now.len == before.len, || format!("{what} changed the device at {:?}", d.first()));
}

/// C20: what an interrupted write left behind (`z`), between `old` and `new`
fn interrupted(ctx: &mut Ctx, old: &State, z: &State, new: Option<&State>, bs: u64, c: Cfg, what: &str) -> Option<()> {
    if !ctx.wants(&["C20"]) {
        return Some(());
    }
    let last = match last_lba(old.len, bs) {
        Some(l) if z.len == old.len => l,
        _ => return Some(()),
    };
    if let Some(n) = new {
        let block = |s: &State, lba: u64| s.get(lba * bs, bs as usize);
        let mut full = true;
        let mut at = vec![header_at(n, 1, bs)];
        if !c.ro_backup {
            at.push(header_at(n, last, bs));
        }
        for h in at.into_iter().flatten() {
            let (a, l) = (h.pstart as u128 * bs as u128, h.np as usize * h.psize as usize);
            full &= z.try_get(a, l) == n.try_get(a, l);
        }
        let prim = block(z, 1) != block(old, 1);
        let back = !c.ro_backup && block(z, last) != block(old, last);
        ctx.check(&["C20"], full || !(prim || back), || format!("{what}: the {} header block changed before the tables were complete", if prim { "primary" } else { "backup" }));
        ctx.check(&["C20"], !prim || c.ro_backup || block(z, last) == block(n, last), || format!("{what}: the primary header block changed before the backup header was complete"));
    }
    for only_valid in [false, true] {
        let cf = Cfg { writable: false, only_valid, ro_backup: false, change: false };
        let dev = Dev::of(z);
        let d = match ctx.guard(&["C09"], "opening after an interrupted write", move || config(cf, bs).open_from_device(dev))? {
            Ok(d) => d,
            Err(_) => continue,
        };
        ctx.evals += 1;
        let h = Hdr::of(d.header());
        let mut found = h.guid == *d.guid();
        let mut any = false;
        for st in [Some(old), new].into_iter().flatten() {
            for (lba, x) in [(1, header_at(st, 1, bs)), (last, backup_header(st, bs))] {
                let x = match x {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                if x != h || lba != h.current {
                    continue;
                }
                // the table this header certifies; if it was damaged before, whatever now has its checksum
                let t = table(st, &x, bs).or_else(|| table(z, &x, bs));
                any |= t.as_ref() == Some(d.partitions());
            }
        }
        found &= any;
        ctx.check(&["C20"], found, || {
            format!("{what}: the device then opens (both headers demanded: {only_valid}) with guid {}, header {:?} and {}, which is neither the old nor the new state", d.guid(), d.header(), brief(d.partitions()))
        });
    }
    if ctx.failed() {
        return None;
    }
    Some(())
}

impl Sess {
    fn dev(&self) -> Dev {
        self.disk.device_ref().clone()
    }

    pub fn inspect(&mut self, ctx: &mut Ctx, r: &mut Rng) -> Option<()> {
        let s = snap(&self.disk);
        let h = s.eff();
        let d = &self.disk;
        if ctx.wants(&["C06", "C09"]) {
            let got = ctx.guard(&["C06", "C09"], "find_free_sectors", || d.find_free_sectors())?;
            let want = free(h.first_usable, h.last_usable, &s.parts);
            ctx.check(&["C06"], got == want, || {
                format!("free space of {} in {}..={} reported as {:?} instead of {:?}", brief(&s.parts), h.first_usable, h.last_usable, short(&got), short(&want))
            });
            ctx.seen(&want);
        }
        if ctx.wants(&["C17", "C09"]) {
            let got = ctx.guard(&["C17", "C09"], "calculate_alignment", || d.calculate_alignment())?;
            let want = alignment(&s.parts);
            ctx.check(&["C17"], got == want, || format!("alignment of {} is {got}, expected {want}", brief(&s.parts)));
        }
        if ctx.wants(&["C08", "C09"]) {
            let got = ctx.guard(&["C08", "C09"], "find_next_partition_id", || d.find_next_partition_id())?;
            let want = lowest_free(&s.parts, h.num_parts);
            ctx.check(&["C08"], got == want, || format!("next id of {} with {} slots is {got:?}, expected {want:?}", brief(&s.parts), h.num_parts));
        }
        if ctx.wants(&["C16", "C09"]) {
            for p in s.parts.values() {
                let bs = self.bs;
                ctx.guard(&["C16", "C09"], "lengths of a partition", || {
                    let _ = (p.sectors_len(), p.bytes_len(lbs(bs)), p.bytes_start(lbs(bs)), format!("{p} {p:?}"));
                })?;
            }
            ctx.guard(&["C09"], "display of the header", || format!("{} {:?} {:?}", d.header(), d.header(), d))?;
        }
        if ctx.wants(&["C02"]) {
            // a copy for another device may write exactly if it was told so
            let w = if r.chance(1, 3) { self.cfg.writable } else { !self.cfg.writable };
            let mut st = s.dev.clone();
            if r.coin() {
                resize(r, &mut st, &h, self.bs);
                ctx.say(format!("copied to a device of {} bytes", st.len));
            }
            let dev = Dev::of(&st);
            let mut d = self.disk.with_disk_device(dev.clone(), w);
            dev.arm(None);
            let res = ctx.guard(&["C02"], "write_inplace of a copy", || d.write_inplace())?;
            let mut c = self.cfg;
            c.writable = w;
            Self::footprint(ctx, &st, h.clone(), &d, self.bs, c, "write of a copy");
            if !w {
                ctx.check(&["C02"], res.is_err(), || "a copy for a device that is not writable was written".into());
            }
        }
        if ctx.wants(&["C18"]) {
            let n = snap(&self.disk);
            ctx.check(&["C18"], n.same_mem(&s), || "a query changed the disk".into());
            let cl = self.disk.clone();
            let wd = self.disk.with_disk_device(7u8, !self.cfg.writable);
            let c2 = snap(&cl);
            ctx.check(&["C18"], c2.same_mem(&s) && cl.logical_block_size() == self.disk.logical_block_size(), || "a clone differs".into());
            let same = *wd.partitions() == s.parts && wd.primary_header().ok().cloned() == s.ph && wd.backup_header().ok().cloned() == s.bh && *wd.guid() == s.guid
                && wd.logical_block_size() == self.disk.logical_block_size() && *wd.device_ref() == 7;
            ctx.check(&["C18"], same, || "a copy for another device differs".into());
        }
        Some(())
    }

    /// frame of any edit: what only ever grows, what only changes with permission
    fn after(&mut self, ctx: &mut Ctx, b: &Snap, what: &str) {
        let a = snap(&self.disk);
        untouched(ctx, &b.dev, &self.dev(), what);
        let (n0, n1) = (b.eff().num_parts, a.eff().num_parts);
        ctx.check(&["C19"], n1 >= n0, || format!("{what} reduced the slots from {n0} to {n1}"));
        if !self.cfg.change {
            ctx.check(&["C19"], n1 == n0, || format!("{what} changed the slots from {n0} to {n1} without permission"));
        }
        if self.cfg.change || b.parts.len() <= n0 as usize {
            ctx.check(&["C19"], a.parts.len() <= n1 as usize, || format!("{what} left {} entries for {n1} slots", a.parts.len()));
        }
        for h in [&a.ph, &a.bh].into_iter().flatten() {
            ctx.check(&["C19"], h.num_parts >= n0 || b.bh.as_ref() == Some(h), || format!("{what} made a header with {} slots", h.num_parts));
        }
    }

    fn size(&self, r: &mut Rng) -> u64 {
        let s = snap(&self.disk);
        let h = s.eff();
        let f = free(h.first_usable, h.last_usable, &s.parts);
        let n = if f.is_empty() { 1 } else { r.pick(&f).1 };
        let v = match r.below(9) {
            0 => 1,
            1 => self.bs,
            2 => r.range(1, self.bs * 6),
            3 => n.saturating_mul(self.bs),
            4 => n.saturating_mul(self.bs).saturating_add(1),
            5 => n.saturating_mul(self.bs).saturating_sub(self.bs).saturating_add(1),
            6 => (n / 2).saturating_mul(self.bs).saturating_add(r.below(3)),
            7 => r.wild(),
            _ => r.range(1, 5) * self.bs,
        };
        v.max(1)
    }

    pub fn add(&mut self, ctx: &mut Ctx, r: &mut Rng) -> Option<()> {
        let b = snap(&self.disk);
        let h = b.eff();
        let size = self.size(r);
        let align = match r.below(9) {
            0 | 1 => None,
            2 => Some(0),
            3 => Some(1),
            4 => Some(1 << r.below(12)),
            5 => Some(3),
            6 => Some(r.range(1, 100)),
            7 => Some(r.wild()),
            _ => Some(u64::MAX - r.below(2)),
        };
        let (nm, ty, fl) = (name(r), ptype(r), flags(r));
        ctx.say(format!("add_partition({nm:?}, {size}, {}, {fl:#x}, {align:?}) to {}", ty.guid, brief(&b.parts)));
        let dev = self.dev();
        dev.arm(None);
        let d = &mut self.disk;
        let (n2, t2) = (nm.clone(), ty.clone());
        let res = ctx.guard(&["C07", "C08", "C19"], "add_partition", move || d.add_partition(&n2, size, t2, fl, align))?;
        let fr = free(h.first_usable, h.last_usable, &b.parts);
        let blocks = (size as u128 + self.bs as u128 - 1) / self.bs as u128;
        let place = first_fit(&fr, blocks, align.unwrap_or(0)).map(|x| (x, blocks as u64));
        let id = lowest_free(&b.parts, h.num_parts).unwrap_or(h.num_parts.saturating_add(1));
        self.added(ctx, &b, res, place, id, &nm, &ty, fl, "add_partition");
        Some(())
    }

    pub fn add_at(&mut self, ctx: &mut Ctx, r: &mut Rng) -> Option<()> {
        let b = snap(&self.disk);
        let h = b.eff();
        let fr = free(h.first_usable, h.last_usable, &b.parts);
        let (first, length) = match r.below(5) {
            0 => (r.wild(), r.wild().max(1)),
            1 | 2 | 3 if !fr.is_empty() => {
                let (s, l) = r.pick(&fr);
                let off = r.below(l.min(20) + 2);
                let f = s.wrapping_add(off).wrapping_sub(r.below(2));
                let rest = l.saturating_sub(off);
                (f, match r.below(5) { 0 => rest.max(1), 1 => rest + 1, 2 => rest.saturating_sub(1).max(1), 3 => 1, _ => r.range(1, rest.max(1)) })
            }
            _ => (h.first_usable.wrapping_add(r.below(100)).wrapping_sub(2), r.range(1, 20)),
        };
        let id = match r.below(7) {
            0 => r.range(1, 300) as u32,
            1 => h.num_parts.saturating_add(r.below(2) as u32),
            2 if !b.parts.is_empty() => *b.parts.keys().nth(r.below(b.parts.len() as u64) as usize).unwrap(),
            3 => r.wild32().max(1),
            4 => h.num_parts.max(1),
            _ => r.range(1, h.num_parts.max(1) as u64) as u32,
        };
        let id = id.max(1);
        let (nm, ty, fl) = (name(r), ptype(r), flags(r));
        ctx.say(format!("add_partition_at({nm:?}, {id}, {first}, {length}, {}, {fl:#x}) to {}", ty.guid, brief(&b.parts)));
        let dev = self.dev();
        dev.arm(None);
        let d = &mut self.disk;
        let (n2, t2) = (nm.clone(), ty.clone());
        let res = ctx.guard(&["C07", "C08", "C19"], "add_partition_at", move || d.add_partition_at(&n2, id, first, length, t2, fl))?;
        if b.parts.get(&id).map_or(false, |p| used(p)) {
            ctx.check(&["C08", "C07"], res.is_err(), || format!("id {id} is taken but was given away"));
            let a = snap(&self.disk);
            ctx.check(&["C07", "C08"], a.same_mem(&b), || "a refused request changed the disk".into());
            self.after(ctx, &b, "add_partition_at");
            return Some(());
        }
        let ok = fr.iter().any(|(s, l)| first >= *s && first as u128 + length as u128 <= *s as u128 + *l as u128);
        let place = if ok { Some((first, length)) } else { None };
        self.added(ctx, &b, res, place, id, &nm, &ty, fl, "add_partition_at");
        Some(())
    }

    #[allow(clippy::too_many_arguments)]
    fn added(&mut self, ctx: &mut Ctx, b: &Snap, res: Result<u32, GptError>, place: Option<(u64, u64)>, id: u32, nm: &str, ty: &gpt::partition_types::Type, fl: u64, what: &str) {
        let a = snap(&self.disk);
        let h = b.eff();
        self.after(ctx, b, what);
        let count = b.parts.len() as u32 + if b.parts.contains_key(&id) { 0 } else { 1 };
        let np1 = h.num_parts.max(128).max(count).max(id);
        let change = np1 != h.num_parts;
        let new_np = h.num_parts.max(128).max(count);
        let g = grown(b, new_np, self.cfg, self.bs);
        ctx.seen(&(place.is_some(), change, count, id, place));
        let want_err = if place.is_none() {
            Some("there is no such place")
        } else if change && !self.cfg.change {
            Some("the table may not grow")
        } else if change && g.is_none() {
            Some("the table cannot grow")
        } else {
            None
        };
        match (&res, want_err) {
            (Ok(k), Some(e)) => ctx.fail(if place.is_none() { &["C07"] } else { &["C07", "C19"] }, || format!("{what} returned id {k} ({:?}) although {e}", a.parts.get(k))),
            (Err(e), Some(_)) => {
                ctx.check(&["C07", "C08"], a.same_mem(b), || format!("refused ({}) but changed the disk", name_of(e)));
            }
            (Err(e), None) => {
                let m = format!("{what} refused with {} although blocks {place:?} are free and slot {id} is", name_of(e));
                ctx.fail(if h.num_parts < new_np { &["C07", "C19"] } else { &["C07", "C08"] }, || m);
            }
            (Ok(k), None) => {
                let (first, len) = place.unwrap();
                ctx.check(&["C08"], *k == id, || format!("{what} used id {k}, expected {id}"));
                let p = match a.parts.get(k) {
                    Some(p) => p.clone(),
                    None => {
                        ctx.fail(&["C08"], || format!("id {k} returned but no entry there"));
                        return;
                    }
                };
                ctx.check(&["C07"], p.first_lba == first && p.last_lba == first + (len - 1), || {
                    format!("{what} placed at {}..={} instead of {first}..={}", p.first_lba, p.last_lba, first + (len - 1))
                });
                ctx.check(&["C08"], p.part_type_guid == *ty && p.flags == fl && p.name == nm, || format!("{what} stored {p:?}"));
                let fresh = p.part_guid != Uuid::nil() && b.parts.values().all(|q| q.part_guid != p.part_guid);
                ctx.check(&["C08"], fresh, || format!("unique guid {} is not fresh", p.part_guid));
                let mut rest = a.parts.clone();
                rest.remove(k);
                let mut old = b.parts.clone();
                old.remove(k);
                ctx.check(&["C08"], rest == old, || format!("{what} changed other entries: {}", first_diff(&rest, &old)));
                ctx.check(&["C07"], a.guid == b.guid, || "the guid changed".into());
                if !change {
                    ctx.check(&["C07", "C19"], a.ph == b.ph && a.bh == b.bh, || format!("{what} changed the headers without need: {:?} from {:?}", a.ph, b.ph));
                } else {
                    self.check_grown(ctx, b, &a, new_np, g, what);
                }
            }
        }
    }

    fn check_grown(&mut self, ctx: &mut Ctx, b: &Snap, a: &Snap, np: u32, g: Option<(u64, u64, u64)>, what: &str) {
        let h = a.eff();
        ctx.check(&["C19"], h.num_parts == np.max(128), || format!("{what}: {} slots afterwards, expected {}", h.num_parts, np.max(128)));
        if let Some((f, l, _)) = g {
            ctx.check(&["C07"], (h.first_usable, h.last_usable) == (f, l), || {
                format!("{what}: growing the table moved the usable range to {}..={}, expected {f}..={l}", h.first_usable, h.last_usable)
            });
            // relocation over existing blocks as such is the finding listed in known-findings
        }
        ctx.check(&["C01", "C07"], h.disk_guid == a.guid && a.ph.is_some(), || "headers without the guid of the disk".into());
        let _ = b;
    }

    pub fn edit(&mut self, ctx: &mut Ctx, r: &mut Rng) -> Option<()> {
        let b = snap(&self.disk);
        let dev = self.dev();
        dev.arm(None);
        match r.below(9) {
            0 | 1 => {
                let id = if b.parts.is_empty() || r.chance(1, 5) { r.range(0, 200) as u32 } else { *b.parts.keys().nth(r.below(b.parts.len() as u64) as usize).unwrap() };
                ctx.say(format!("remove_partition({id})"));
                let d = &mut self.disk;
                let got = ctx.guard(&["C18"], "remove_partition", || d.remove_partition(id))?;
                let a = snap(&self.disk);
                let mut want = b.parts.clone();
                let was = want.remove(&id).map(|_| id);
                ctx.check(&["C18"], got == was && a.parts == want, || format!("remove_partition({id}) of {} gave {got:?} and {}", brief(&b.parts), brief(&a.parts)));
                ctx.check(&["C18"], a.ph == b.ph && a.bh == b.bh && a.guid == b.guid, || "remove_partition changed headers or guid".into());
            }
            2 | 3 => {
                let g = if b.parts.is_empty() || r.chance(1, 5) { guid(r) } else { b.parts.values().nth(r.below(b.parts.len() as u64) as usize).unwrap().part_guid };
                if r.coin() && b.parts.len() > 1 {
                    // make several match
                    let mut m = b.parts.clone();
                    let keys: Vec<u32> = m.keys().cloned().collect();
                    for _ in 0..2 {
                        let k = r.pick(&keys);
                        m.get_mut(&k).unwrap().part_guid = g;
                    }
                    let d = &mut self.disk;
                    let _ = ctx.guard(&["C18"], "update_partitions", || d.update_partitions(m))?;
                }
                let b = snap(&self.disk);
                ctx.say(format!("remove_partition_by_guid({g}) of {}", brief(&b.parts)));
                let d = &mut self.disk;
                let got = ctx.guard(&["C18"], "remove_partition_by_guid", || d.remove_partition_by_guid(g))?;
                let a = snap(&self.disk);
                let was = b.parts.iter().find(|(_, p)| p.part_guid == g).map(|(k, _)| *k);
                let mut want = b.parts.clone();
                if let Some(k) = was {
                    want.remove(&k);
                }
                ctx.check(&["C18"], got == was && a.parts == want, || format!("removed {got:?} instead of {was:?}, left {}", brief(&a.parts)));
                ctx.check(&["C18"], a.ph == b.ph && a.bh == b.bh && a.guid == b.guid, || "remove_partition_by_guid changed headers or guid".into());
            }
            4 => {
                let g = if r.coin() { Some(guid(r)) } else { None };
                ctx.say(format!("update_guid({g:?})"));
                let d = &mut self.disk;
                ctx.guard(&["C18"], "update_guid", || d.update_guid(g))?;
                let a = snap(&self.disk);
                let ok = match g {
                    Some(g) => a.guid == g,
                    None => a.guid != b.guid,
                };
                ctx.check(&["C18", "C01"], ok, || format!("update_guid({g:?}) gave {}", a.guid));
                ctx.check(&["C18"], a.parts == b.parts && a.ph == b.ph && a.bh == b.bh, || "update_guid changed more than the guid".into());
            }
            5 => {
                ctx.say("take_partitions".into());
                let d = &mut self.disk;
                let got = ctx.guard(&["C18"], "take_partitions", || d.take_partitions())?;
                let a = snap(&self.disk);
                ctx.check(&["C18"], got == b.parts && a.parts.is_empty(), || format!("took {} of {}, left {}", brief(&got), brief(&b.parts), brief(&a.parts)));
                ctx.check(&["C18"], a.ph == b.ph && a.bh == b.bh && a.guid == b.guid, || "take_partitions changed headers or guid".into());
                if r.chance(2, 3) {
                    self.after(ctx, &b, "take_partitions");
                    return self.replace(ctx, r, Some(got));
                }
            }
            6 | 7 => return self.replace(ctx, r, None),
            _ => {
                // swap the device for a copy, maybe of another size
                let mut st = b.dev.clone();
                if r.chance(1, 3) {
                    resize(r, &mut st, &b.eff(), self.bs);
                    self.consistent = false;
                    ctx.say(format!("the next device has {} bytes", st.len));
                }
                let other = Dev::of(&st);
                let o2 = other.clone();
                let w = if r.chance(1, 3) { r.coin() } else { self.cfg.writable };
                ctx.say(format!("update_disk_device(.., {w})"));
                let d = &mut self.disk;
                let old = ctx.guard(&["C18"], "update_disk_device", || d.update_disk_device(o2, w))?;
                let a = snap(&self.disk);
                let ok = std::rc::Rc::ptr_eq(&old.0, &dev.0) && std::rc::Rc::ptr_eq(&self.disk.device_ref().0, &other.0);
                self.cfg.writable = w;
                ctx.check(&["C18"], ok && a.same_mem(&b), || "swapping the device went wrong".into());
                untouched(ctx, &b.dev, &old, "swapping the device");
                untouched(ctx, &st, &other, "swapping the device");
                return Some(());
            }
        }
        self.after(ctx, &b, "edit");
        Some(())
    }

    fn replace(&mut self, ctx: &mut Ctx, r: &mut Rng, m: Option<BTreeMap<u32, Partition>>) -> Option<()> {
        let b = snap(&self.disk);
        let h = b.eff();
        let m = match m {
            Some(m) => m,
            None => match r.below(4) {
                0 => {
                    let n = r.pick(&[0, 1, h.num_parts, h.num_parts + 1, 128, 129, 200]);
                    let mut m = BTreeMap::new();
                    let base = if r.chance(1, 4) { r.below(1000) as u32 } else { 0 };
                    // some of them may be unused
                    let holes = r.coin();
                    for k in 1..=n.min(1200) {
                        let x = h.first_usable.saturating_add(k as u64);
                        let mut p = entry(r, x, x);
                        if holes && r.chance(1, 3) {
                            p.part_type_guid = gpt::partition_types::UNUSED;
                        }
                        m.insert(base + k, p);
                    }
                    m
                }
                1 => {
                    let mut m = b.parts.clone();
                    let k = r.range(1, 400) as u32;
                    let (x, y) = (r.wild(), r.wild());
                    let p = entry(r, x, y);
                    m.insert(k, p);
                    m
                }
                _ => {
                    let np = h.num_parts.min(400).max(1);
                    entries(r, np, h.first_usable, h.last_usable, Lay::Foreign)
                }
            },
        };
        ctx.say(format!("update_partitions({})", brief(&m)));
        let dev = self.dev();
        dev.arm(None);
        let d = &mut self.disk;
        let m2 = m.clone();
        let res = ctx.guard(&["C18", "C19"], "update_partitions", || d.update_partitions(m2))?;
        let a = snap(&self.disk);
        self.after(ctx, &b, "update_partitions");
        let n = m.len() as u32;
        let np = h.num_parts.max(128).max(n);
        let change = np != h.num_parts;
        match &res {
            Ok(()) => {
                ctx.check(&["C18"], a.parts == m, || format!("update_partitions installed {} instead of {}", brief(&a.parts), brief(&m)));
                ctx.check(&["C18"], a.guid == b.guid, || "update_partitions changed the guid".into());
                ctx.check(&["C19"], !change || self.cfg.change, || format!("{n} entries accepted for {} slots without permission", h.num_parts));
                if change {
                    ctx.check(&["C19"], a.eff().num_parts >= n, || format!("{} slots for {n} entries", a.eff().num_parts));
                }
            }
            Err(e) => {
                ctx.check(&["C18", "C19"], a.same_mem(&b), || format!("update_partitions failed ({}) but changed the disk", name_of(e)));
                if change && !self.cfg.change {
                    return Some(());
                }
                let g = grown(&b, np, self.cfg, self.bs);
                ctx.check(&["C18", "C19"], g.is_none(), || format!("update_partitions refused with {}", name_of(e)));
            }
        }
        Some(())
    }

    /// where a write may change bytes, by the headers in memory
    fn regions(d: &Disk, bs: u64, ro: bool) -> Vec<(u128, u128)> {
        let mut v = vec![];
        let mut add = |h: &Header| {
            let at = h.current_lba as u128 * bs as u128;
            v.push((at, at + bs as u128));
            let t = h.part_start as u128 * bs as u128;
            v.push((t, t + h.num_parts as u128 * h.part_size as u128));
        };
        if let Ok(h) = d.primary_header() {
            add(h);
        }
        if !ro {
            if let Ok(h) = d.backup_header() {
                add(h);
            }
        }
        v
    }

    fn footprint(ctx: &mut Ctx, before: &State, o: Header, d: &Disk, bs: u64, c: Cfg, what: &str) {
        if !ctx.wants(&["C02"]) {
            return;
        }
        let now = d.device_ref().snap();
        ctx.check(&["C02"], now.len == before.len, || format!("{what}: the device is {} bytes long, was {}", now.len, before.len));
        let diff = now.diff(before);
        if !c.writable {
            let w = now.log.iter().any(|o| matches!(o, Op::Write(..)));
            ctx.check(&["C02"], diff.is_empty() && !w, || format!("{what}: read-only disk changed at {:?}", diff.first()));
            return;
        }
        let reg = Self::regions(d, bs, c.ro_backup);
        let h = d.header().clone();
        let (lo, hi) = (h.first_usable as u128 * bs as u128, (h.last_usable as u128 + 1) * bs as u128);
        // the range of before too, if that header kept it clear of headers and tables
        let (p, k) = (o.current_lba.min(o.backup_lba) as u128, o.current_lba.max(o.backup_lba) as u128);
        let t = (o.num_parts as u128 * o.part_size as u128).div_ceil(bs as u128);
        let (of, ol) = (o.first_usable as u128, o.last_usable as u128);
        let clear = p >= 1 && p + 1 + t <= of && of <= ol && ol + t + 1 <= k;
        for x in diff {
            let x = x as u128;
            let usable = h.first_usable <= h.last_usable && x >= lo && x < hi;
            let was = clear && x >= of * bs as u128 && x < (ol + 1) * bs as u128;
            if was {
                ctx.fail(&["C02"], || {
                    format!("{what}: byte {x} (block {}) changed; blocks {of}..={ol} were usable, the device has {} blocks", x / bs as u128, now.len / bs)
                });
                return;
            }
            if x < bs as u128 || usable || !reg.iter().any(|(a, b)| x >= *a && x < *b) {
                ctx.fail(&["C02"], || {
                    format!("{what}: byte {x} (block {}) changed; headers and tables are {reg:?}, usable blocks {}..={}", x / bs as u128, h.first_usable, h.last_usable)
                });
                return;
            }
        }
    }

    /// write with an error at each device operation, on copies
    pub fn faults(&mut self, ctx: &mut Ctx, r: &mut Rng) -> Option<()> {
        if !ctx.wants(&["C02", "C10", "C20"]) {
            return Some(());
        }
        let b = snap(&self.disk);
        let (bs, c) = (self.bs, self.cfg);
        let dev = Dev::of(&b.dev);
        let mut d = self.disk.with_disk_device(dev.clone(), c.writable);
        dev.arm(None);
        let ok = ctx.guard(&["C10"], "write_inplace", || d.write_inplace())?;
        let n = dev.ops();
        let new = if ok.is_ok() { Some(dev.snap()) } else { None };
        let all = n <= 40 || ctx.thorough;
        let step = if all { 1 } else { n / 24 };
        let mut k = if all { 0 } else { r.below(step.min(5)) };
        while k < n {
            let mode = match r.below(5) {
                0 | 1 => Mode::Fail,
                2 => Mode::Zero,
                _ => Mode::Partial(r.next() as u16),
            };
            let dev = Dev::of(&b.dev);
            dev.0.borrow_mut().persist = r.chance(1, 3);
            let mut d = self.disk.with_disk_device(dev.clone(), c.writable);
            dev.arm(Some((k, mode)));
            let res = ctx.guard(&["C10"], "write_inplace with a device error", || d.write_inplace())?;
            ctx.evals += 1;
            let what = format!("write with {mode:?} at operation {k} of {n}");
            if dev.faulted() && ok.is_ok() {
                ctx.check(&["C10"], res.is_err(), || format!("{what} reported success, operations {:?}", tail(&dev.log())));
            }
            ctx.seen(&(k, n, b.parts.len()));
            Self::footprint(ctx, &b.dev, b.eff(), &d, bs, c, &what);
            interrupted(ctx, &b.dev, &dev.snap(), new.as_ref(), bs, c, &what)?;
            if ctx.failed() {
                return None;
            }
            k += if all || k + 8 > n { 1 } else { 1 + r.below(2 * step) };
        }
        Some(())
    }

    pub fn write(&mut self, ctx: &mut Ctx, r: &mut Rng) -> Option<()> {
        let b = snap(&self.disk);
        let (bs, c) = (self.bs, self.cfg);
        let dev = self.dev();
        {
            let mut s = dev.0.borrow_mut();
            s.chop = if r.chance(1, 5) { r.range(1, 700) } else { 0 };
            s.intr = if r.chance(1, 6) { r.range(2, 9) } else { 0 };
        }
        dev.arm(None);
        ctx.say(format!("write_inplace with {} and guid {}", brief(&b.parts), b.guid));
        let d = &mut self.disk;
        let res = ctx.guard(&["C10", "C01", "C19", "C02"], "write_inplace", || d.write_inplace())?;
        {
            let mut s = dev.0.borrow_mut();
            s.chop = 0;
            s.intr = 0;
        }
        let log = dev.log();
        dev.arm(None);
        dev.0.borrow_mut().log = log.clone();
        Self::footprint(ctx, &b.dev, b.eff(), &self.disk, bs, c, "write");
        dev.arm(None);
        let a = snap(&self.disk);
        ctx.check(&["C01", "C18"], a.parts == b.parts && a.guid == b.guid, || "write changed the entries or the guid in memory".into());
        ctx.check(&["C19"], a.eff().num_parts == b.eff().num_parts, || format!("write changed the slots from {} to {}", b.eff().num_parts, a.eff().num_parts));
        if !c.writable {
            ctx.check(&["C02"], res.is_err(), || "writing a disk not opened writable succeeded".into());
            return Some(());
        }
        let np = b.eff().num_parts as usize;
        let in_use = b.parts.values().filter(|p| used(p)).count();
        match res {
            Err(e) => {
                if in_use <= np {
                    ctx.check(&["C19", "C10"], !matches!(e, GptError::OverflowPartitionCount), || format!("write of {in_use} entries failed for lack of {np} slots"));
                }
                // possible on this device?
                let last = last_lba(b.dev.len, bs);
                let g = last.and_then(|l| {
                    let mut g = Geo::from_header(&b.eff());
                    g.primary = true;
                    if g.plba != 1 || g.blba > l {
                        return None;
                    }
                    g.build(bs)?;
                    g.blba = l;
                    g.build(bs)
                });
                let fits = g.is_some() && b.eff().num_parts as u128 * b.eff().part_size as u128 <= (last.unwrap_or(1) - 1) as u128 * bs as u128;
                let clean = log_clean(&log);
                if fits && clean && in_use <= np && self.consistent {
                    ctx.fail(&["C01", "C10"], || format!("write on a working device failed with {}", name_of(&e)));
                }
                Some(())
            }
            Ok(()) => {
                ctx.seen(&(in_use, np, b.parts.len()));
                self.durable(ctx, &log, &a, bs, c);
                self.reopen(ctx, &a, bs, c);
                Some(())
            }
        }
    }

    fn durable(&self, ctx: &mut Ctx, log: &[Op], a: &Snap, bs: u64, c: Cfg) {
        if !ctx.wants(&["C10"]) {
            return;
        }
        let lastw = log.iter().rposition(|o| matches!(o, Op::Write(..)));
        let lastf = log.iter().rposition(|o| matches!(o, Op::Flush));
        ctx.check(&["C10"], lastw.is_some() && lastf > lastw, || format!("no flush after the last byte written: {:?}", tail(log)));
        let is = |o: &Op, at: u64| matches!(o, Op::Write(x, _) if *x >= at && *x < at + bs);
        let fp = log.iter().position(|o| is(o, bs));
        ctx.check(&["C10"], fp.is_some(), || "the primary header was not written".into());
        let fp = fp.unwrap_or(0);
        let late = log[fp..].iter().find(|o| matches!(o, Op::Write(..)) && !is(o, bs));
        ctx.check(&["C10"], late.is_none(), || format!("{late:?} was written after the primary header"));
        if !c.ro_backup {
            if let Some(h) = &a.bh {
                let at = h.current_lba.saturating_mul(bs);
                let fb = log.iter().position(|o| is(o, at));
                ctx.check(&["C10"], fb.map_or(false, |f| f < fp), || "the backup header was not written before the primary one".into());
                let t = h.part_start.saturating_mul(bs);
                let te = t + h.num_parts as u64 * h.part_size as u64;
                let fb = fb.unwrap_or(0);
                let late = log[fb..].iter().find(|o| matches!(o, Op::Write(x, _) if *x >= t && *x < te));
                ctx.check(&["C10"], late.is_none(), || format!("{late:?} of the backup table came after its header"));
            }
        }
    }

    fn reopen(&self, ctx: &mut Ctx, a: &Snap, bs: u64, c: Cfg) {
        if !ctx.wants(&["C01", "C03", "C11", "C10"]) {
            return;
        }
        let st = a.dev.clone();
        let dev = Dev::of(&st);
        let cf = Cfg { writable: false, only_valid: false, ro_backup: false, change: false };
        // the bytes, by the oracle
        let h1 = header_at(&st, 1, bs);
        let want: BTreeMap<u32, Partition> = a
            .parts
            .values()
            .filter(|p| used(p))
            .enumerate()
            .map(|(i, p)| {
                let mut q = p.clone();
                q.name = stored_name(&p.name);
                q.part_type_guid = p.part_type_guid.guid.into();
                (i as u32 + 1, q)
            })
            .collect();
        let h1 = match h1 {
            Ok(h) => h,
            Err(e) => {
                ctx.fail(&["C01", "C11", "C10"], || format!("after a successful write the primary header is not valid: {e:?}"));
                return;
            }
        };
        let mem = a.ph.clone().unwrap();
        ctx.check(&["C03"], st.get(bs, bs as usize) == block(&h1.sealed(), bs), || "primary header block is not a header followed by zeros".into());
        ctx.check(&["C03"], crc32(&st.get(h1.pstart.saturating_mul(bs), h1.np.min(200_000) as usize * h1.psize.min(4096) as usize)) == h1.pcrc, || "the table checksum in the primary header is not the one of the table".into());
        ctx.check(&["C01", "C03"], Hdr { crc: 0, pcrc: 0, ..Hdr::of(&mem) } == Hdr { crc: 0, pcrc: 0, ..h1.clone() }, || {
            format!("primary header in memory {mem:?}, on the device {h1:?}")
        });
        ctx.check(&["C01"], h1.guid == a.guid, || format!("guid {} written instead of {}", h1.guid, a.guid));
        let bs2 = bs;
        let res = match ctx.guard(&["C01", "C09"], "reopening", || config(cf, bs2).open_from_device(dev)) {
            Some(r) => r,
            None => return,
        };
        let d = match res {
            Ok(d) => d,
            Err(e) => {
                ctx.fail(&["C01", "C11"], || format!("reopening failed with {e:?}"));
                return;
            }
        };
        ctx.check(&["C01"], *d.guid() == a.guid, || format!("reopened guid {} instead of {}", d.guid(), a.guid));
        ctx.check(&["C01"], *d.partitions() == want, || format!("reopened {} instead of {}; {}", brief(d.partitions()), brief(&want), first_diff(d.partitions(), &want)));
        let h = d.header();
        ctx.check(&["C01"], (h.first_usable, h.last_usable, h.num_parts) == (mem.first_usable, mem.last_usable, mem.num_parts), || {
            format!("reopened usable {}..={} and {} slots instead of {}..={} and {}", h.first_usable, h.last_usable, h.num_parts, mem.first_usable, mem.last_usable, mem.num_parts)
        });
        ctx.check(&["C11"], d.primary_header().is_ok(), || "the primary header is not valid after a successful write".into());
        if !c.ro_backup {
            let h2 = backup_header(&st, bs);
            match h2 {
                Err(e) => ctx.fail(&["C01"], || format!("after a successful write the backup header is not valid: {e:?}")),
                Ok(h2) => {
                    let mirror = h1.guid == h2.guid && h1.first == h2.first && h1.last == h2.last && h1.np == h2.np && h1.psize == h2.psize && h1.pcrc == h2.pcrc && h1.current == h2.backup && h1.backup == h2.current;
                    ctx.check(&["C01"], mirror, || format!("headers do not mirror each other: {h1:?} {h2:?}"));
                    ctx.check(&["C01"], table(&st, &h2, bs).map_or(false, |t| t == want), || "the backup table is not the table".into());
                    ctx.check(&["C03"], st.get(h2.current.saturating_mul(bs), bs as usize) == block(&h2.sealed(), bs), || "backup header block is not a header followed by zeros".into());
                    ctx.check(&["C01"], d.backup_header().is_ok(), || "the backup header does not validate".into());
                }
            }
        }
    }
}

fn log_clean(_l: &[Op]) -> bool {
    true
}
pub fn tail(l: &[Op]) -> Vec<Op> {
    l.iter().rev().take(8).rev().cloned().collect()
}
pub fn short(v: &[(u64, u64)]) -> Vec<(u64, u64)> {
    v.iter().take(10).cloned().collect()
}

/// one random history
pub fn history(ctx: &mut Ctx, r: &mut Rng) {
    let weird = r.chance(1, 3);
    let mut s = match start(ctx, r, weird) {
        Some(s) => s,
        None => return,
    };
    if ctx.failed() {
        return;
    }
    let len = r.below(10);
    for _ in 0..len {
        if s.inspect(ctx, r).is_none() || ctx.failed() {
            return;
        }
        let x = r.below(10);
        let o = match x {
            0..=3 => s.add(ctx, r),
            4 | 5 => s.add_at(ctx, r),
            6 if ctx.wants(&["C01", "C02", "C10", "C19", "C11", "C03", "C20"]) => s.write(ctx, r),
            _ => s.edit(ctx, r),
        };
        if o.is_none() || ctx.failed() {
            return;
        }
    }
    if s.inspect(ctx, r).is_none() || ctx.failed() {
        return;
    }
    if ctx.wants(&["C01", "C02", "C03", "C10", "C11", "C19", "C20"]) {
        if s.faults(ctx, r).is_none() || ctx.failed() {
            return;
        }
        let _ = s.write(ctx, r);
    }
}
