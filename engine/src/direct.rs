//! One case per property.
use crate::dev::{Dev, Mode, Op, State};
use crate::gen::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::sess::*;
use crate::types::TYPES;
use crate::Ctx;
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderBuilder, HeaderError};
use gpt::mbr::{self, PartRecord, ProtectiveMBR};
use gpt::partition::{file_read_partitions, Partition};
use gpt::partition_types::{OperatingSystem, Type};
use gpt::GptError;

use std::convert::TryFrom;

use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use uuid::Uuid;

pub fn case(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    match ctx.prop.as_str() {
        "C03" => {
            if r.chance(1, 4) {
                history(ctx, r)
            } else if r.chance(1, 25) {
                header_file(ctx, r)
            } else {
                header_write(ctx, r)
            }
        }
        "C04" => read(ctx, r),
        "C05" => {
            if r.chance(1, 10) {
                let _ = start(ctx, r, false);
            } else {
                build(ctx, r)
            }
        }
        "C02" => {
            if r.chance(1, 60) {
                paths(ctx, r)
            } else {
                history(ctx, r)
            }
        }
        "C09" => open_anything(ctx, r),
        "C10" => {
            if r.chance(1, 12) {
                synced(ctx, r)
            } else {
                history(ctx, r)
            }
        }
        "C11" => headers(ctx, r),
        "C12" => mbr_bytes(ctx, r),
        "C13" => mbr_device(ctx, r),
        "C14" => entry_write(ctx, r),
        "C15" => types(ctx, r, case),
        "C16" => arithmetic(ctx, r),
        _ => history(ctx, r),
    }
}

fn header(r: &mut Rng) -> Header {
    Header {
        signature: "EFI PART".into(),
        revision: (r.next() as u16, r.next() as u16),
        header_size_le: r.wild32(),
        crc32: r.wild32(),
        reserved: r.wild32(),
        current_lba: r.wild(),
        backup_lba: r.wild(),
        first_usable: r.wild(),
        last_usable: r.wild(),
        disk_guid: guid(r),
        part_start: r.wild(),
        num_parts: r.wild32(),
        part_size: r.wild32(),
        crc32_parts: r.wild32(),
    }
}

fn header_write(ctx: &mut Ctx, r: &mut Rng) {
    let mut h = header(r);
    let bs = if r.coin() { 512 } else { 4096 };
    // small tables, near or far
    h.part_size = r.pick(&[128, 128, 128, 256, 1, 0, 92, 130]);
    h.num_parts = r.pick(&[0, 1, 3, 4, 16, 128, 128, 129, 700]);
    if !r.chance(1, 6) {
        h.part_start = r.below(40);
    }
    match r.below(4) {
        0 => {}
        1 => h.current_lba = 1,
        2 => h.current_lba = r.below(64),
        _ => h.current_lba = h.backup_lba.wrapping_add(r.below(3)).wrapping_sub(1),
    }
    let len = match r.below(4) {
        0 => 64 * bs,
        1 => 300 * bs + r.below(bs),
        2 => r.below(64 * bs),
        _ => u64::MAX,
    };
    let dev = Dev::new(len, 1 + r.below(250) as u8);
    let before = dev.snap();
    let primary = r.coin();
    ctx.say(format!("write {} of {h:?}, block size {bs}, device of {len} bytes", if primary { "primary" } else { "backup" }));
    let old = h.clone();
    let mut hh = h.clone();
    let mut d = dev.clone();
    let res = match ctx.guard(&["C03"], "writing a header", || if primary { hh.write_primary(&mut d, lbs(bs)) } else { hh.write_backup(&mut d, lbs(bs)) }) {
        Some(x) => x,
        None => return,
    };
    let place_ok = if primary { h.current_lba < h.backup_lba } else { h.current_lba > h.backup_lba };
    let tb = h.num_parts as usize * h.part_size as usize;
    let ts = h.part_start as u128 * bs as u128;
    let start = h.current_lba as u128 * bs as u128;
    let readable = ts <= u64::MAX as u128 && (tb == 0 || before.try_get(ts, tb).is_some());
    let possible = start <= u64::MAX as u128 && start + bs as u128 <= u64::MAX as u128;
    ctx.seen(&(place_ok, readable, possible, h.current_lba, h.part_start, h.num_parts, h.part_size));
    let now = dev.snap();
    if !place_ok {
        ctx.check(&["C03"], matches!(res, Err(HeaderError::WritingToWrongLba)), || format!("current {} and alternate {} gave {res:?}", h.current_lba, h.backup_lba));
        ctx.check(&["C03"], now.diff(&before).is_empty() && now.len == len, || "a refused header changed the device".into());
        return;
    }
    if !readable || !possible {
        ctx.check(&["C03"], res.is_err(), || format!("impossible write reported {res:?}"));
        ctx.check(&["C03"], now.diff(&before).is_empty(), || "a failed write changed the device".into());
        return;
    }
    match res {
        Err(e) => ctx.fail(&["C03"], || format!("failed with {e:?}")),
        Ok(n) => {
            let mut want = Hdr::of(&old);
            want.reserved = 0;
            want.pcrc = crc32(&before.get(ts as u64, tb));
            let mut exp = before.clone();
            exp.put(start as u64, &block(&want.sealed(), bs));
            let diff = now.diff(&exp);
            ctx.check(&["C03"], diff.is_empty(), || format!("byte {} (of the block: {}) is {:#x} instead of {:#x}", diff[0], diff[0] as i128 - start as i128, now.byte(diff[0]), exp.byte(diff[0])));
            ctx.check(&["C03"], n as u64 == bs, || format!("{n} bytes reported"));
        }
    }
}

/// header::write_header on a file
fn header_file(ctx: &mut Ctx, r: &mut Rng) {
    let bs = if r.chance(2, 3) { 512u64 } else { 4096 };
    let tb = table_blocks(128, 128, bs) as u64;
    let blocks = match r.below(4) {
        0 => r.below(6),
        1 => 2 * tb + r.below(6),
        _ => 2 * tb + 3 + r.below(60),
    };
    let len = blocks * bs + if r.chance(1, 4) { r.below(bs) } else { 0 };
    let dev = Dev::new(len, 1 + r.below(250) as u8);
    let mut st = dev.snap();
    let u = if r.coin() { Some(guid(r)) } else { None };
    let data = st.get(0, len as usize);
    let f = scratch_file(&data);
    ctx.say(format!("write_header to a file of {len} bytes, block size {bs}, guid {u:?}"));
    let f2 = f.clone();
    let res = ctx.guard(&["C03"], "write_header", move || gpt::header::write_header(&f2, u, lbs(bs)));
    let now = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    let res = match res {
        Some(x) => x,
        None => return,
    };
    ctx.seen(&(len, bs, res.is_ok()));
    let geo = Geo { primary: true, guid: u, plba: 1, blba: last_lba(len, bs).unwrap_or(0), first: 0, last: 0, np: 128, psize: 128 };
    let want = if last_lba(len, bs).is_some() { geo.build(bs) } else { None };
    match (res, want) {
        (Err(_), None) => ctx.check(&["C03"], now == data, || "a refused header changed the file".into()),
        (Ok(_), None) => ctx.fail(&["C03"], || "a header was written although the layout is impossible".into()),
        (Err(e), Some(_)) => ctx.fail(&["C03"], || format!("failed with {e:?}")),
        (Ok(g), Some((first, last, start))) => {
            if let Some(u) = u {
                ctx.check(&["C03"], g == u, || format!("guid {g} returned"));
            }
            let h = Hdr {
                sig: *b"EFI PART",
                rev: 0x0001_0000,
                size: 92,
                crc: 0,
                reserved: 0,
                current: 1,
                backup: geo.blba,
                first,
                last,
                guid: g,
                pstart: start,
                np: 128,
                psize: 128,
                pcrc: crc32(&st.get(start * bs, 128 * 128)),
            };
            st.put(bs, &block(&h.sealed(), bs));
            let exp = st.get(0, len as usize);
            let at = (0..exp.len().max(now.len())).find(|i| exp.get(*i) != now.get(*i));
            ctx.check(&["C03"], at.is_none(), || format!("byte {:?} is {:?} instead of {:?}", at, now.get(at.unwrap()), exp.get(at.unwrap())));
        }
    }
}

/// the functions that take a path agree with those that take a device
fn read_file(ctx: &mut Ctx, r: &mut Rng) {
    let lay = if r.chance(1, 3) { Lay::Foreign } else { Lay::Sane };
    let mut im = image(r, lay);
    if im.st.len > 1 << 21 {
        return;
    }
    if r.chance(2, 3) {
        disturb(r, &mut im);
    }
    if im.st.len > 1 << 21 {
        return;
    }
    let (st, bs) = (im.st, im.bs);
    let data = st.get(0, st.len as usize);
    let f = scratch_file(&data);
    ctx.say(format!("{}; from a file", im.desc));
    ctx.seen(&(st.len, im.np, case_hash(&im.desc)));
    let f1 = f.clone();
    let got = ctx.guard(&["C04", "C09"], "read_header", move || gpt::header::read_header(&f1, lbs(bs)));
    if let Some(x) = got {
        if let Ok(h) = &x {
            let (f2, h2) = (f.clone(), h.clone());
            let t = ctx.guard(&["C04", "C09"], "read_partitions", move || gpt::partition::read_partitions(&f2, &h2, lbs(bs)));
            match (t, table(&st, &Hdr::of(h), bs)) {
                (Some(Ok(m)), Some(w)) => ctx.check(&["C04"], m == w, || format!("decoded {}", first_diff(&m, &w))),
                (Some(Ok(m)), None) => ctx.fail(&["C04"], || format!("damaged table accepted: {}", brief(&m))),
                // files have no place that far
                (Some(Err(e)), Some(_)) if (h.part_start as u128) * (bs as u128) < 1 << 40 => ctx.fail(&["C04"], || format!("intact table refused: {e:?}")),
                _ => {}
            }
        }
        compare(ctx, &st, bs, x);
    }
    let c = if bs == 512 && r.coin() { Cfg { writable: false, only_valid: false, ro_backup: false, change: false } } else { cfg(r) };
    let way = r.coin();
    let f3 = f.clone();
    let res = ctx.guard(&["C04", "C09"], "opening a file", move || {
        if bs == 512 && !c.writable && !c.only_valid && !c.ro_backup && !c.change && way { gpt::disk::read_disk(&f3) } else { config(c, bs).open(&f3) }
    });
    if let Some(res) = res {
        match (open_oracle(&st, c, bs), &res) {
            (Open::Fails(e), Ok(_)) => ctx.fail(&["C04"], || format!("opening succeeded although it has to fail ({e:?})")),
            (Open::Opens { eff, .. }, Err(e)) if (eff.pstart as u128) * (bs as u128) < 1 << 40 => ctx.fail(&["C04"], || format!("opening an intact disk failed with {e:?}")),
            (Open::Opens { eff, table, .. }, Ok(d)) => {
                ctx.check(&["C04"], Hdr::of(d.header()) == eff && *d.partitions() == table, || format!("{}", first_diff(d.partitions(), &table)));
            }
            _ => {}
        }
    }
    let now = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    ctx.check(&["C04"], now == data, || "reading changed the file".into());
}

/// a table of many slots, mostly empty
fn read_large(ctx: &mut Ctx, r: &mut Rng) {
    let bs = if r.coin() { 512 } else { 4096 };
    let most = r.pick(&[5000, 20_000, 70_000]);
    let np = r.range(2000, most) as u32;
    let dev = Dev::new((2 + 100) * bs + np as u64 * 128, 0);
    let mut t = vec![0u8; np as usize * 128];
    for _ in 0..r.below(6) {
        let i = if r.coin() { r.below(np as u64) } else { np as u64 - 1 - r.below(3) } as usize;
        for x in &mut t[i * 128..i * 128 + 128] {
            *x = r.next() as u8;
        }
    }
    let right = crc32(&t);
    let mut flip = None;
    if r.chance(3, 4) {
        let at = if r.coin() { r.below(t.len() as u64) } else { t.len() as u64 - 1 - r.below(300) } as usize;
        t[at] ^= 1 << r.below(8);
        flip = Some(at);
    }
    dev.put(2 * bs, &t);
    let mut h = Hdr::of(&header(r));
    (h.pstart, h.np, h.psize, h.pcrc) = (2, np, 128, right);
    ctx.say(format!("table of {np} slots behind a right checksum, block size {bs}; then byte {flip:?} of it changed"));
    let st = dev.snap();
    let gh = to_header(&h);
    let mut dev = dev;
    dev.0.borrow_mut().limit = 1_000_000;
    let res = match ctx.guard(&["C04", "C09"], "reading a table", || file_read_partitions(&mut dev, &gh, lbs(bs))) {
        Some(x) => x,
        None => return,
    };
    let want = table(&st, &h, bs);
    ctx.seen(&(np, flip, right));
    match (res, want) {
        (Ok(m), Some(w)) => ctx.check(&["C04"], m == w, || format!("decoded {}", first_diff(&m, &w))),
        (Ok(_), None) => ctx.fail(&["C04"], || "damaged table accepted".into()),
        (Err(e), Some(_)) => ctx.fail(&["C04"], || format!("intact table refused: {e:?}")),
        (Err(_), None) => {}
    }
}

fn read(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 20) {
        return read_file(ctx, r);
    }
    if r.chance(1, 300) {
        return read_large(ctx, r);
    }
    match r.below(4) {
        0 => {
            // a table by itself
            let lay = if r.coin() { Lay::Foreign } else { Lay::Sane };
            let mut im = image(r, lay);
            let bs = im.bs;
            let flips = r.below(3);
            for _ in 0..flips {
                let at = 2 * bs + r.below(im.np as u64 * 128 + 8);
                let b = im.st.byte(at) ^ (1 << r.below(8));
                im.st.put(at, &[b]);
                im.desc += &format!("; byte {at} set to {b}");
            }
            let mut h = Hdr::parse(&im.st.get(bs, 92));
            match r.below(8) {
                0 => h.pstart = r.wild(),
                1 => h.psize = r.wild32(),
                4 => {
                    // another checksum, a tempting one
                    let t = im.st.get(2 * bs, im.np as usize * 128);
                    let used: Vec<u8> = t.chunks(128).filter(|c| c.iter().any(|b| *b != 0)).flatten().copied().collect();
                    let right = crc32(&t);
                    h.pcrc = r.pick(&[0, !0, !right, right.swap_bytes(), crc32(&used), crc32(&vec![0; t.len()]), crc32(&[]), right ^ 0x8000_0000]);
                }
                2 => h.np = h.np.wrapping_add(r.below(3) as u32).wrapping_sub(1).min(5000),
                3 => {
                    // random entries behind a right checksum
                    let n = im.np as usize * 128;
                    let mut t = vec![];
                    while t.len() < n {
                        if r.chance(1, 4) && t.len() % 128 == 0 {
                            // next to nothing in it
                            let mut e = [0u8; 128];
                            let (a, b) = (r.below(128) as usize, r.below(128) as usize);
                            match r.below(3) {
                                0 => e[a] = 1 << r.below(8),
                                1 => e[a.min(b)..=a.max(b)].fill(1 + r.below(255) as u8),
                                _ => {
                                    let f = r.pick(&[(0, 16), (16, 32), (32, 40), (40, 48), (48, 56), (56, 128), (56, 72), (72, 128), (126, 128)]);
                                    for x in &mut e[f.0..f.1] {
                                        *x = r.next() as u8;
                                    }
                                }
                            }
                            t.extend(e);
                            continue;
                        }
                        t.extend(r.bytes::<32>());
                        if r.chance(1, 20) {
                            t.extend([0u8; 128]);
                        }
                    }
                    t.truncate(n);
                    im.st.put(2 * bs, &t);
                    h.pcrc = crc32(&t);
                }
                _ => {}
            }
            if r.chance(1, 6) {
                im.st.len = r.below(im.st.len + 1);
            }
            ctx.say(format!("{}; table of {h:?}, device of {} bytes", im.desc, im.st.len));
            let gh = to_header(&h);
            let mut dev = Dev::of(&im.st);
            let res = match ctx.guard(&["C04", "C09"], "reading a table", || file_read_partitions(&mut dev, &gh, lbs(bs))) {
                Some(x) => x,
                None => return,
            };
            let want = table(&im.st, &h, bs);
            ctx.seen(&(im.st.len, h.pcrc, h.np));
            match (res, want) {
                (Ok(m), Some(w)) => ctx.check(&["C04"], m == w, || format!("decoded {}", first_diff(&m, &w))),
                (Ok(m), None) => ctx.fail(&["C04"], || format!("damaged table accepted: {}", brief(&m))),
                (Err(e), Some(_)) => ctx.fail(&["C04"], || format!("intact table refused: {e:?}")),
                (Err(_), None) => {}
            }
        }
        1 => {
            // a header by itself: every field random, maybe damaged
            let bs = if r.coin() { 512 } else { 4096 };
            let mut h = Hdr::of(&header(r));
            h.sig = *b"EFI PART";
            if !r.chance(1, 4) {
                h.current = 1;
            }
            let mut b = h.sealed();
            if r.coin() {
                for _ in 0..1 + r.below(2) {
                    b[r.below(92) as usize] ^= 1 << r.below(8);
                }
            }
            if r.chance(1, 5) {
                // another checksum, a tempting one
                let mut z = b.clone();
                let with_field = crc32(&z);
                z[16..20].fill(0);
                let right = crc32(&z);
                let n = (h.size as usize).min(92);
                let c = r.pick(&[0, !0, !right, right.swap_bytes(), with_field, crc32(&z[..n]), crc32(&z[..88]), crc32(&block(&z, bs)), right ^ 1, right.wrapping_add(1)]);
                b[16..20].copy_from_slice(&c.to_le_bytes());
            }
            if r.chance(1, 4) {
                // another signature behind a right checksum
                h.sig = r.pick(&[*b"EFI PARU", *b"efi part", *b"\0\0\0\0\0\0\0\0", *b"EFI PAR\0", *b"\xff\xfeFI PAR"]);
                b = h.sealed();
            }
            let len = match r.below(4) {
                0 => bs + r.below(100),
                _ => bs * 2 + r.below(5 * bs),
            };
            let mut dev = Dev::new(len, r.below(3) as u8);
            dev.put(bs, &b);
            ctx.say(format!("header bytes {b:?} at block 1, block size {bs}, device of {len} bytes"));
            let st = dev.snap();
            let res = match ctx.guard(&["C04", "C09"], "reading a header", || gpt::header::read_header_from_arbitrary_device(&mut dev, lbs(bs))) {
                Some(x) => x,
                None => return,
            };
            ctx.seen(&b);
            compare(ctx, &st, bs, res);
        }
        _ => {
            let lay = if r.chance(1, 3) { Lay::Foreign } else { Lay::Sane };
            let mut im = image(r, lay);
            if r.chance(3, 4) {
                disturb(r, &mut im);
            }
            let mut c = cfg(r);
            c.only_valid = r.chance(1, 5);
            ctx.say(im.desc.clone());
            ctx.say(format!("open with {c:?}"));
            let dev = Dev::of(&im.st);
            let bs = im.bs;
            let mut d2 = dev.clone();
            if let Some(x) = ctx.guard(&["C04", "C09"], "reading a header", || gpt::header::read_header_from_arbitrary_device(&mut d2, lbs(bs))) {
                compare(ctx, &im.st, bs, x);
            }
            if let Some(res) = ctx.guard(&["C04", "C09"], "opening", move || config(c, bs).open_from_device(dev)) {
                check_open(ctx, &im.st, c, bs, &res);
            }
            ctx.seen(&(im.st.len, im.np, case_hash(&im.desc)));
        }
    }
}

fn case_hash(s: &str) -> u32 {
    crc32(s.as_bytes())
}

fn compare(ctx: &mut Ctx, st: &State, bs: u64, res: Result<Header, HeaderError>) {
    match (res, header_at(st, 1, bs)) {
        (Ok(h), Ok(w)) => ctx.check(&["C04"], Hdr::of(&h) == w && h.signature == "EFI PART", || format!("decoded {h:?}, stored {w:?}")),
        (Ok(h), Err(e)) => ctx.fail(&["C04"], || format!("accepted {h:?} although {e:?}")),
        (Err(e), Ok(_)) => ctx.fail(&["C04"], || format!("intact header refused with {e:?}")),
        (Err(_), Err(_)) => {}
    }
}

pub fn to_header(h: &Hdr) -> Header {
    Header {
        signature: String::from_utf8_lossy(&h.sig).into_owned(),
        revision: ((h.rev >> 16) as u16, h.rev as u16),
        header_size_le: h.size,
        crc32: h.crc,
        reserved: h.reserved,
        current_lba: h.current,
        backup_lba: h.backup,
        first_usable: h.first,
        last_usable: h.last,
        disk_guid: h.guid,
        part_start: h.pstart,
        num_parts: h.np,
        part_size: h.psize,
        crc32_parts: h.pcrc,
    }
}

fn build(ctx: &mut Ctx, r: &mut Rng) {
    let bs = if r.coin() { 512 } else { 4096 };
    let small = r.chance(2, 3);
    let val = |r: &mut Rng| if small { r.below(400) } else { r.wild() };
    let mut from = None;
    let mut g = Geo { primary: true, guid: None, plba: 1, blba: 0, first: 0, last: 0, np: 128, psize: 128 };
    if r.coin() {
        let mut h = header(r);
        if small {
            h.current_lba = r.below(300);
            h.backup_lba = r.below(300);
            h.first_usable = r.below(100);
            h.last_usable = r.below(300);
            h.num_parts = r.below(300) as u32;
            h.part_size = 128;
        }
        if r.coin() {
            h.current_lba = 1;
        }
        g = Geo::from_header(&h);
        from = Some(h);
    }
    type Set = (u8, u64, Uuid);
    let mut sets: Vec<Set> = vec![];
    for _ in 0..r.below(7) {
        let f = r.below(7) as u8;
        sets.push((f, val(r), guid(r)));
    }
    if from.is_none() || r.coin() {
        sets.push((2, val(r), Uuid::nil()));
    }
    for (f, v, u) in &sets {
        match f {
            0 => g.primary = v % 2 == 0,
            1 => g.guid = Some(*u),
            2 => g.blba = *v,
            3 => g.first = *v,
            4 => g.last = *v,
            5 => g.np = (*v as u32).max(128),
            _ => g.psize = *v as u32,
        }
    }
    ctx.say(format!("HeaderBuilder from {from:?}, settings {sets:?} (0 primary, 1 guid, 2 backup_lba, 3 first, 4 last, 5 num_parts, 6 part_size), block size {bs}"));
    let res = ctx.guard(&["C05"], "HeaderBuilder", || {
        let mut b = match &from {
            Some(h) => HeaderBuilder::from_header(h),
            None => HeaderBuilder::new(),
        };
        for (f, v, u) in &sets {
            match f {
                0 => b.primary(v % 2 == 0),
                1 => b.disk_guid(*u),
                2 => b.backup_lba(*v),
                3 => b.first_usable(*v),
                4 => b.last_usable(*v),
                5 => b.num_parts(*v as u32),
                _ => b.part_size(*v as u32),
            };
        }
        b.build(lbs(bs))
    });
    let res = match res {
        Some(x) => x,
        None => return,
    };
    let want = g.build(bs);
    ctx.seen(&(want, g.primary, g.np, g.psize));
    match (res, want) {
        (Err(_), None) => {}
        (Ok(h), None) => ctx.fail(&["C05"], || format!("{h:?} built although the layout is impossible: {g:?}")),
        (Err(e), Some(w)) => ctx.fail(&["C05"], || format!("failed with {e:?}, possible is {w:?} for {g:?}")),
        (Ok(h), Some((f, l, s))) => {
            ctx.check(&["C05"], (h.first_usable, h.last_usable) == (f, l), || format!("usable {}..={} instead of {f}..={l}", h.first_usable, h.last_usable));
            ctx.check(&["C05"], h.part_start == s, || format!("table at {} instead of {s}", h.part_start));
            let (c, b) = if g.primary { (g.plba, g.blba) } else { (g.blba, g.plba) };
            ctx.check(&["C05"], (h.current_lba, h.backup_lba) == (c, b), || format!("located at {} / {} instead of {c} / {b}", h.current_lba, h.backup_lba));
            ctx.check(&["C05"], h.num_parts >= g.np && h.part_size == g.psize, || format!("{} slots of {}", h.num_parts, h.part_size));
            if let Some(u) = g.guid {
                ctx.check(&["C05"], h.disk_guid == u, || format!("guid {} instead of {u}", h.disk_guid));
            }
            // in order and without overlap
            let t = table_blocks(h.num_parts, h.part_size, bs);
            let (p, bk) = (g.plba as u128, g.blba as u128);
            let ok = p >= 1 && p + 1 + t <= h.first_usable as u128 && h.first_usable <= h.last_usable && h.last_usable as u128 + 1 + t <= bk;
            ctx.check(&["C05"], ok, || format!("overlapping layout {h:?}"));
            ctx.check(&["C05"], h.signature == "EFI PART" && h.header_size_le == 92 && h.revision == (1, 0) && h.reserved == 0, || format!("fixed fields {h:?}"));
        }
    }
}

fn open_anything(ctx: &mut Ctx, r: &mut Rng) {
    let st;
    let bs;
    if r.chance(1, 8) {
        // noise, tiny devices
        bs = if r.coin() { 512 } else { 4096 };
        let len = match r.below(4) {
            0 => r.below(100),
            1 => r.below(3 * bs + 2),
            2 => r.wild(),
            _ => r.below(40 * bs),
        };
        let d = Dev::new(len, r.below(4) as u8);
        st = d.snap();
        ctx.say(format!("device of {len} bytes without content"));
    } else {
        let lay = if r.chance(2, 3) { Lay::Foreign } else { Lay::Sane };
        let mut im = image(r, lay);
        disturb(r, &mut im);
        if r.coin() {
            // absurd fields in both headers
            let last = im.st.len / im.bs;
            for lba in [1, last.saturating_sub(1)] {
                let (a, b, c) = (r.wild(), r.wild(), r.wild());
                let w = r.below(5);
                let bs = im.bs;
                if (lba as u128 + 1) * bs as u128 > im.st.len as u128 {
                    continue;
                }
                reseal(&mut im.st, lba, bs, |h| match w {
                    0 => h.first = a,
                    1 => h.last = a,
                    2 => {
                        h.first = a;
                        h.last = b;
                    }
                    3 => {
                        h.pstart = a;
                        h.np = b as u32;
                    }
                    _ => {
                        h.np = a as u32;
                        h.psize = b as u32;
                        h.backup = c;
                    }
                });
                im.desc += &format!("; absurd fields ({w}: {a}, {b}, {c}) in the header at {lba}");
            }
        }
        // keep the tables within reach of the machine
        let last = (im.st.len / im.bs).saturating_sub(1);
        for lba in [1, last] {
            let b = im.st.get(lba.saturating_mul(im.bs), 92);
            let h = Hdr::parse(&b);
            let left = (im.st.len as u128).saturating_sub(h.pstart as u128 * im.bs as u128) / 128;
            if &b[..8] == b"EFI PART" && h.np > 100_000 && left > 100_000 {
                reseal(&mut im.st, lba, im.bs, |h| h.np %= 100_000);
            }
        }
        bs = im.bs;
        ctx.say(im.desc.clone());
        st = im.st;
    }
    let c = cfg(r);
    ctx.say(format!("open with {c:?}"));
    let dev = Dev::of(&st);
    dev.arm(None);
    let d2 = dev.clone();
    let res = match ctx.guard(&["C09"], "open_from_device", move || config(c, bs).open_from_device(d2)) {
        Some(x) => x,
        None => return,
    };
    let n = dev.ops();
    ctx.seen(&(res.is_ok(), n, st.len));
    if let Ok(d) = res {
        let mut s = Sess { disk: d, bs, cfg: c, consistent: false };
        if s.inspect(ctx, r).is_none() || ctx.failed() {
            return;
        }
    }
    // device errors
    for i in 0..8 {
        let k = if i < 4 { i } else { r.below(n.max(1)) };
        let dev = Dev::of(&st);
        dev.0.borrow_mut().persist = r.coin();
        dev.arm(Some((k, r.pick(&[Mode::Fail, Mode::Zero]))));
        let d2 = dev.clone();
        ctx.say(format!("device error at operation {k}"));
        let res = match ctx.guard(&["C09"], "open_from_device with a device error", move || config(c, bs).open_from_device(d2)) {
            Some(x) => x,
            None => return,
        };
        if let Ok(d) = res {
            let mut s = Sess { disk: d, bs, cfg: c, consistent: false };
            if s.inspect(ctx, r).is_none() || ctx.failed() {
                return;
            }
        }
        ctx.desc.pop();
    }
}

fn headers(ctx: &mut Ctx, r: &mut Rng) {
    // all combinations of damage
    let lay = if r.chance(1, 4) { Lay::Foreign } else { Lay::Sane };
    let mut im = image(r, lay);
    let bs = im.bs;
    let last = im.st.len / bs - 1;
    for lba in [1, last] {
        match r.below(7) {
            0 => {
                let at = lba * bs + r.below(92);
                let b = im.st.byte(at) ^ (1 << r.below(8));
                im.st.put(at, &[b]);
                im.desc += &format!("; byte {at} changed");
            }
            1 => {
                im.st.put(lba * bs, &vec![0; bs as usize]);
                im.desc += &format!("; block {lba} zeroed");
            }
            2 => {
                let v = r.pick(&[0, 2, last, last + 1, 1]);
                reseal(&mut im.st, lba, bs, |h| h.current = v);
                im.desc += &format!("; header at {lba} names {v}");
                im.consistent = false;
            }
            3 => {
                let g = guid(r);
                reseal(&mut im.st, lba, bs, |h| h.guid = g);
                im.desc += &format!("; header at {lba} has guid {g}");
                im.consistent = false;
            }
            _ => {}
        }
    }
    if r.chance(1, 3) {
        disturb(r, &mut im);
    }
    let mut c = cfg(r);
    c.writable = !r.chance(1, 10);
    ctx.say(im.desc.clone());
    ctx.say(format!("open with {c:?}"));
    let dev = Dev::of(&im.st);
    let d2 = dev.clone();
    let res = match ctx.guard(&["C11"], "opening", move || config(c, bs).open_from_device(d2)) {
        Some(x) => x,
        None => return,
    };
    check_open(ctx, &im.st, c, bs, &res);
    ctx.seen(&(case_hash(&im.desc), c.only_valid));
    if ctx.failed() {
        return;
    }
    if let Ok(d) = res {
        let mut s = Sess { disk: d, bs, cfg: c, consistent: im.consistent };
        for _ in 0..r.below(3) {
            let o = if r.coin() { s.add(ctx, r) } else { s.edit(ctx, r) };
            if o.is_none() || ctx.failed() {
                return;
            }
        }
        let _ = s.write(ctx, r);
    }
}

fn record(r: &mut Rng) -> PartRecord {
    let b: [u8; 16] = r.bytes();
    PartRecord {
        boot_indicator: b[0],
        start_head: b[1],
        start_sector: b[2],
        start_track: b[3],
        os_type: b[4],
        end_head: b[5],
        end_sector: b[6],
        end_track: b[7],
        lb_start: if r.chance(1, 4) { r.wild32() } else { r.next() as u32 },
        lb_size: if r.chance(1, 4) { r.wild32() } else { r.next() as u32 },
    }
}
fn rec_bytes(p: &PartRecord) -> Vec<u8> {
    let mut v = vec![p.boot_indicator, p.start_head, p.start_sector, p.start_track, p.os_type, p.end_head, p.end_sector, p.end_track];
    v.extend(p.lb_start.to_le_bytes());
    v.extend(p.lb_size.to_le_bytes());
    v
}
const PROT: [u8; 8] = [0, 0, 2, 0, 0xee, 0xff, 0xff, 0xff];

/// an MBR with known content, built by setters or by parsing; and its bytes
fn some_mbr(ctx: &mut Ctx, r: &mut Rng) -> Option<(ProtectiveMBR, Vec<u8>)> {
    let mut want = vec![0u8; 512];
    want[510] = 0x55;
    want[511] = 0xaa;
    let size = r.wild32();
    let how = r.below(4);
    let mut b512 = [0u8; 512];
    let m = match how {
        0 => {
            want[446..454].copy_from_slice(&PROT);
            want[454..458].copy_from_slice(&1u32.to_le_bytes());
            want[458..462].copy_from_slice(&[0xff; 4]);
            if r.coin() { ProtectiveMBR::new() } else { ProtectiveMBR::default() }
        }
        1 => {
            want[446..454].copy_from_slice(&PROT);
            want[454..458].copy_from_slice(&1u32.to_le_bytes());
            want[458..462].copy_from_slice(&size.to_le_bytes());
            ProtectiveMBR::with_lb_size(size)
        }
        _ => {
            b512 = r.bytes();
            b512[510] = 0x55;
            b512[511] = 0xaa;
            want = b512.to_vec();
            let bs = if r.coin() { 512 } else { 4096 };
            let mut buf = b512.to_vec();
            while buf.len() < bs {
                buf.push(r.next() as u8);
            }
            match ctx.guard(&["C12", "C13"], "from_bytes", || ProtectiveMBR::from_bytes(&buf, lbs(bs as u64)))? {
                Ok(m) => m,
                Err(e) => {
                    ctx.fail(&["C12"], || format!("a valid buffer was refused: {e:?}"));
                    return None;
                }
            }
        }
    };
    ctx.say(format!("MBR made by way {how} (size {size}, bytes {:?}..)", &b512[..8]));
    let mut m = m;
    for _ in 0..r.below(4) {
        match r.below(3) {
            0 => {
                let x: [u8; 440] = r.bytes();
                m.set_bootcode(x);
                want[..440].copy_from_slice(&x);
                ctx.say("set_bootcode".into());
            }
            1 => {
                let x: [u8; 4] = r.bytes();
                m.set_disk_signature(x);
                want[440..444].copy_from_slice(&x);
                ctx.say(format!("set_disk_signature {x:?}"));
            }
            _ => {
                let i = match r.below(8) {
                    0 => (1usize << (2 + r.below(62))) + r.below(4) as usize,
                    1 => r.wild() as usize,
                    _ => r.below(4) as usize,
                };
                let p = record(r);
                ctx.say(format!("set_partition({i}, {p:?})"));
                let got = ctx.guard(&["C12"], "set_partition", || m.set_partition(i, p))?;
                if i < 4 {
                    let old = want[446 + 16 * i..462 + 16 * i].to_vec();
                    ctx.check(&["C12"], got.map(|p| rec_bytes(&p)) == Some(old), || format!("set_partition({i}) returned {got:?}"));
                    want[446 + 16 * i..462 + 16 * i].copy_from_slice(&rec_bytes(&p));
                } else {
                    ctx.check(&["C12"], got.is_none(), || format!("set_partition({i}) returned {got:?}"));
                }
            }
        }
    }
    Some((m, want))
}

fn accessors(ctx: &mut Ctx, m: &ProtectiveMBR, want: &[u8]) {
    ctx.check(&["C12"], m.bootcode()[..] == want[..440], || "bootcode() differs".into());
    ctx.check(&["C12"], m.disk_signature()[..] == want[440..444], || "disk_signature() differs".into());
    let far = [8usize, 16, 255, 256, 257, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 60, (1 << 60) + 3, usize::MAX - 1];
    for i in (0..9).chain(far) {
        let p = match ctx.guard(&["C12"], "partition", || m.partition(i)) {
            Some(p) => p,
            None => return,
        };
        let w = if i < 4 { Some(want[446 + 16 * i..462 + 16 * i].to_vec()) } else { None };
        ctx.check(&["C12"], p.map(|p| rec_bytes(&p)) == w, || format!("partition({i}) is {p:?}"));
    }
    let bad = ctx.guard(&["C12"], "partition", || (4..300).chain((8..64).flat_map(|k| (0..4).map(move |i| (1usize << k) + i))).chain([usize::MAX]).find(|i| m.partition(*i).is_some()));
    if let Some(Some(i)) = bad {
        ctx.fail(&["C12"], || format!("partition({i}) exists"));
    }
}

fn mbr_bytes(ctx: &mut Ctx, r: &mut Rng) {
    match r.below(4) {
        0 => {
            let (m, want) = match some_mbr(ctx, r) {
                Some(x) => x,
                None => return,
            };
            ctx.seen(&want);
            if let Some(b) = ctx.guard(&["C12"], "to_bytes", || m.to_bytes()) {
                let at = (0..512).find(|i| b[*i] != want[*i]);
                ctx.check(&["C12"], at.is_none(), || format!("byte {:?} differs", at));
            }
            accessors(ctx, &m, &want);
        }
        1 => {
            // records
            let p = record(r);
            ctx.say(format!("{p:?}"));
            ctx.seen(&rec_bytes(&p));
            ctx.check(&["C12"], p.to_bytes()[..] == rec_bytes(&p)[..], || format!("to_bytes gave {:?}", p.to_bytes()));
            let n = match r.below(4) {
                0 => r.below(40) as usize,
                _ => 16,
            };
            let mut b = rec_bytes(&p);
            b.resize(n, 7);
            let got = ctx.guard(&["C12"], "PartRecord::from_bytes", || PartRecord::from_bytes(&b));
            match got {
                Some(Ok(q)) => ctx.check(&["C12"], n == 16 && q == p, || format!("{n} bytes parsed as {q:?}")),
                Some(Err(e)) => ctx.check(&["C12"], n != 16, || format!("16 bytes refused: {e:?}")),
                None => {}
            }
            let s = r.wild32();
            let q = PartRecord::new_protective(Some(s));
            let mut w = PROT.to_vec();
            w.extend([1, 0, 0, 0]);
            w.extend(s.to_le_bytes());
            ctx.check(&["C12"], rec_bytes(&q) == w, || format!("new_protective gave {q:?}"));
            ctx.check(&["C12"], rec_bytes(&PartRecord::zero()) == vec![0; 16], || "zero() is not".into());
        }
        _ => {
            let bs = if r.coin() { 512usize } else { 4096 };
            let n = match r.below(6) {
                0 => r.below(5000) as usize,
                1 => r.pick(&[0, 1, 511, 513, 4095, 4097, 512, 4096]),
                _ => bs,
            };
            let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if n >= 512 {
                b[510] = 0x55;
                b[511] = 0xaa;
                match r.below(6) {
                    0 => b[510] ^= 1 << r.below(8),
                    1 => b[511] ^= 1 << r.below(8),
                    2 => {
                        b[510] = 0xaa;
                        b[511] = 0x55;
                    }
                    _ => {}
                }
            }
            ctx.say(format!("buffer of {n} bytes, block size {bs}, ends {:?}", b.get(500..512)));
            ctx.seen(&b);
            let ok = n == bs && b[510] == 0x55 && b[511] == 0xaa;
            let got = match ctx.guard(&["C12"], "from_bytes", || ProtectiveMBR::from_bytes(&b, lbs(bs as u64))) {
                Some(x) => x,
                None => return,
            };
            match got {
                Ok(m) => {
                    ctx.check(&["C12"], ok, || "accepted".into());
                    if ok {
                        let x = m.to_bytes();
                        let at = (0..512).find(|i| x[*i] != b[*i]);
                        ctx.check(&["C12"], at.is_none(), || format!("parsing and serialising changes byte {at:?}"));
                        accessors(ctx, &m, &b);
                    }
                }
                Err(e) => ctx.check(&["C12"], !ok, || format!("refused: {e:?}")),
            }
        }
    }
}

fn mbr_device(ctx: &mut Ctx, r: &mut Rng) {
    let (m, bytes) = match some_mbr(ctx, r) {
        Some(x) => x,
        None => return,
    };
    let len = match r.below(6) {
        0 => r.below(600),
        1 => r.wild(),
        _ => 512 * r.range(1, 40) + r.below(2) * 77,
    };
    let dev = Dev::new(len, 1 + r.below(200) as u8);
    if r.chance(3, 4) {
        dev.put(510, &[0x55, 0xaa]);
    }
    let pos = match r.below(4) {
        0 => 0,
        1 => r.wild(),
        2 => r.below(1000),
        _ => len,
    };
    dev.0.borrow_mut().pos = pos;
    let bs = if r.coin() { 512u64 } else { 4096 };
    let op = r.below(7);
    let boot: [u8; 440] = r.bytes();
    let sig: [u8; 4] = r.bytes();
    let before = dev.snap();
    let names = ["from_disk", "overwrite_lba0", "update_conservative", "read_bootcode", "write_bootcode", "read_disk_signature", "write_disk_signature"];
    ctx.say(format!("{} on a device of {len} bytes at position {pos}", names[op as usize]));
    // (result bytes, error)
    let run = |d: &mut Dev| -> Result<Vec<u8>, String> {
        match op {
            0 => ProtectiveMBR::from_disk(d, lbs(bs)).map(|m| m.to_bytes().to_vec()).map_err(|e| format!("{e:?}")),
            1 => m.overwrite_lba0(d).map(|n| vec![(n / 256) as u8, n as u8]).map_err(|e| format!("{e:?}")),
            2 => m.update_conservative(d).map(|n| vec![(n / 256) as u8, n as u8]).map_err(|e| format!("{e:?}")),
            3 => mbr::read_bootcode(d).map(|b| b.to_vec()).map_err(|e| format!("{e:?}")),
            4 => mbr::write_bootcode(d, &boot).map(|_| vec![]).map_err(|e| format!("{e:?}")),
            5 => mbr::read_disk_signature(d).map(|b| b.to_vec()).map_err(|e| format!("{e:?}")),
            _ => mbr::write_disk_signature(d, &sig).map(|_| vec![]).map_err(|e| format!("{e:?}")),
        }
    };
    let (at, data): (u64, Vec<u8>) = match op {
        1 => (0, bytes.clone()),
        2 => (446, bytes[446..].to_vec()),
        4 => (0, boot.to_vec()),
        6 => (440, sig.to_vec()),
        _ => (0, vec![]),
    };
    let mut exp = before.clone();
    exp.put(at, &data);
    exp.len = exp.len.max(at + data.len() as u64);
    if data.is_empty() {
        exp.len = before.len;
    }
    let value: Option<Vec<u8>> = match op {
        0 => before.try_get(0, bs as usize).filter(|b| b[510] == 0x55 && b[511] == 0xaa).map(|b| b[..512].to_vec()),
        1 => Some(vec![2, 0]),
        2 => Some(vec![0, 66]),
        3 => before.try_get(0, 440),
        5 => before.try_get(440, 4),
        _ => Some(vec![]),
    };
    let mut d = dev.clone();
    {
        let mut s = dev.0.borrow_mut();
        s.chop = if r.chance(1, 4) { r.range(1, 40) } else { 0 };
        s.intr = if r.chance(1, 5) { r.range(2, 5) } else { 0 };
    }
    dev.arm(None);
    let res = match ctx.guard(&["C13"], names[op as usize], || run(&mut d)) {
        Some(x) => x,
        None => return,
    };
    let n = dev.ops();
    let now = dev.snap();
    ctx.seen(&(op, len, pos, bs));
    match (&res, &value) {
        (Ok(v), Some(w)) => {
            ctx.check(&["C13"], v == w, || format!("returned {:?} instead of {:?}", &v[..v.len().min(20)], &w[..w.len().min(20)]));
            ctx.check(&["C13"], now.pos == pos, || format!("position {} instead of {pos}", now.pos));
            let df = now.diff(&exp);
            ctx.check(&["C13"], df.is_empty() && now.len == exp.len, || format!("byte {:?} is not as expected, {} bytes", df.first(), now.len));
            if !data.is_empty() {
                let lastw = now.log.iter().rposition(|o| matches!(o, Op::Write(..)));
                let lastf = now.log.iter().rposition(|o| matches!(o, Op::Flush));
                ctx.check(&["C13"], lastf.is_some() && lastf > lastw, || format!("not flushed after the last byte: {:?}", tail(&now.log)));
            }
        }
        (Ok(_), None) => ctx.fail(&["C13"], || "success although the bytes are not there".into()),
        (Err(e), Some(_)) => ctx.fail(&["C13"], || format!("failed with {e}")),
        (Err(_), None) => {
            ctx.check(&["C13"], now.diff(&before).is_empty(), || "a failed read changed the device".into());
        }
    }
    for k in 0..n {
        let mode = match r.below(4) {
            0 => Mode::Fail,
            1 => Mode::Zero,
            _ => Mode::Partial(r.next() as u16),
        };
        let dev = Dev::of(&before);
        dev.0.borrow_mut().pos = pos;
        dev.0.borrow_mut().persist = r.chance(1, 3);
        dev.arm(Some((k, mode)));
        let mut d = dev.clone();
        let res = match ctx.guard(&["C13"], names[op as usize], || run(&mut d)) {
            Some(x) => x,
            None => return,
        };
        if dev.faulted() {
            ctx.check(&["C13"], res.is_err(), || format!("{mode:?} at operation {k} of {n} was not reported"));
        }
        let now = dev.snap();
        let bad: Option<u64> = now.diff(&before).into_iter().find(|x| *x < at || *x >= at + data.len() as u64);
        ctx.check(&["C13"], bad.is_none(), || format!("{mode:?} at operation {k} of {n}: byte {bad:?} changed"));
        if ctx.failed() {
            return;
        }
    }
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);
fn scratch_file(data: &[u8]) -> std::path::PathBuf {
    let base = std::env::var("ENGINE_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let p = std::path::Path::new(&base).join(format!("gpt-engine-{}-{}", std::process::id(), SCRATCH.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&p, data).expect("scratch file");
    p
}

/// a device that only counts what it is given
#[derive(Debug, Default)]
struct Count {
    pos: u64,
    from: u64,
    n: u64,
}
impl std::io::Read for Count {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Ok(0)
    }
}
impl std::io::Seek for Count {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        if let std::io::SeekFrom::Start(x) = p {
            self.pos = x;
        }
        Ok(self.pos)
    }
}
impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.n == 0 {
            self.from = self.pos;
        }
        self.n += b.len() as u64;
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// clearing a range longer than four gigabytes (the zeros are never touched, so they take no memory)
fn clear_much(ctx: &mut Ctx, r: &mut Rng) {
    let esize = r.pick(&[1, 2, 16, 128u32, 128, 4096, 1 << 20, u32::MAX]);
    let n = (1u64 << 32) / esize as u64 + r.range(1, 5);
    let (idx, start) = (r.below(9), r.below(9));
    let mut d = Count::default();
    ctx.say(format!("clear {n} slots of {esize} bytes from slot {idx} of the table at block {start}, block size 512"));
    let res = ctx.guard(&["C14"], "clearing slots", || Partition::write_zero_entries_to_device(&mut d, idx, n, start, LogicalBlockSize::Lb512, esize));
    if let Some(Ok(())) = res {
        ctx.check(&["C14"], d.n == n * esize as u64 && d.from == start * 512 + idx * esize as u64, || format!("{} bytes from {} were cleared", d.n, d.from));
    }
}

fn entry_write(ctx: &mut Ctx, r: &mut Rng) {
    if r.chance(1, 1000) {
        return clear_much(ctx, r);
    }
    let bs = if r.coin() { 512u64 } else { 4096 };
    let (a, b) = (r.wild(), r.wild());
    let mut p = entry(r, a, b);
    if r.chance(1, 8) {
        p = Partition::zero();
    }
    let esize = r.pick(&[128u32, 128, 128, 256, 512, 130, 92, 57, 1, 0, 4096]);
    let (idx, start) = match r.below(4) {
        0 => (r.wild(), r.wild()),
        1 => (r.below(20), r.wild()),
        2 => (r.wild(), r.below(100)),
        _ => (r.below(200), r.below(1000)),
    };
    let dev = Dev::new(r.pick(&[0, 1 << 20, u64::MAX]), 1 + r.below(200) as u8);
    let before = dev.snap();
    let at = start as u128 * bs as u128 + idx as u128 * esize as u128;
    let parts_ok = start as u128 * bs as u128 <= u64::MAX as u128 && idx as u128 * esize as u128 <= u64::MAX as u128 && at <= u64::MAX as u128;
    ctx.seen(&(idx, start, esize, bs));
    if r.chance(1, 4) {
        let n = match r.below(5) {
            0 => 0,
            1 => r.wild(),
            _ => r.below(70),
        };
        let bytes = n as u128 * esize as u128;
        if bytes <= usize::MAX as u128 && bytes > 1 << 22 {
            return; // cannot be allocated
        }
        ctx.say(format!("clear {n} entries of {esize} from slot {idx}, table at {start}, block size {bs}"));
        let mut d = dev.clone();
        let res = match ctx.guard(&["C14"], "write_zero_entries_to_device", || Partition::write_zero_entries_to_device(&mut d, idx, n, start, lbs(bs), esize)) {
            Some(x) => x,
            None => return,
        };
        let now = dev.snap();
        let ok = parts_ok && bytes <= usize::MAX as u128 && at + bytes <= u64::MAX as u128;
        match res {
            Ok(()) => {
                ctx.check(&["C14"], ok, || "succeeded although the place does not exist".into());
                if ok {
                    let mut exp = before.clone();
                    exp.put(at as u64, &vec![0; bytes as usize]);
                    let df = now.diff(&exp);
                    ctx.check(&["C14"], df.is_empty(), || format!("byte {} is {:#x}, table at {at}", df[0], now.byte(df[0])));
                }
            }
            Err(e) => {
                ctx.check(&["C14"], !ok, || format!("failed with {e:?}"));
                ctx.check(&["C14"], now.diff(&before).is_empty(), || "a failed request changed the device".into());
            }
        }
        return;
    }
    ctx.say(format!("write {p:?} as entry of {esize} to slot {idx}, table at {start}, block size {bs}"));
    let mut d = dev.clone();
    let res = match ctx.guard(&["C14"], "write_to_device", || p.write_to_device(&mut d, idx, start, lbs(bs), esize)) {
        Some(x) => x,
        None => return,
    };
    let now = dev.snap();
    let ok = parts_ok && at + esize as u128 <= u64::MAX as u128;
    match res {
        Ok(()) => {
            ctx.check(&["C14"], ok, || "succeeded although the place does not exist".into());
            if ok {
                let mut exp = before.clone();
                exp.put(at as u64, &entry_bytes(&p, esize as usize));
                let df = now.diff(&exp);
                ctx.check(&["C14"], df.is_empty(), || format!("byte {} of the entry is {:#x} instead of {:#x}", df[0] as i128 - at as i128, now.byte(df[0]), exp.byte(df[0])));
                if esize == 128 && used(&p) && idx < 200 && start < 1000 {
                    // and back
                    let t = now.get(start * bs, (idx as usize + 1) * 128);
                    let h = Hdr { np: idx as u32 + 1, psize: 128, pstart: start, pcrc: crc32(&t), ..Hdr::of(&header(r)) };
                    let st = State { len: u64::MAX, ..now };
                    let mut dv = Dev::of(&st);
                    if let Some(Ok(m)) = ctx.guard(&["C14"], "file_read_partitions", || file_read_partitions(&mut dv, &to_header(&h), lbs(bs))) {
                        let mut q = p.clone();
                        q.name = stored_name(&p.name);
                        q.part_type_guid = p.part_type_guid.guid.into();
                        ctx.check(&["C14"], m.get(&(idx as u32 + 1)) == Some(&q), || format!("read back as {:?}", m.get(&(idx as u32 + 1))));
                    }
                }
            }
        }
        Err(e) => {
            ctx.check(&["C14"], !ok, || format!("failed with {e:?}"));
            ctx.check(&["C14"], now.diff(&before).is_empty(), || "a failed request changed the device".into());
        }
    }
    if r.chance(1, 60) {
        let (i, s) = (r.below(8), r.below(5));
        let data: Vec<u8> = (0..5 * bs as usize + 1500).map(|_| r.next() as u8).collect();
        let f = scratch_file(&data);
        let res = ctx.guard(&["C14"], "Partition::write", || p.write(&f, i, s, lbs(bs)));
        let got = std::fs::read(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        let mut want = data.clone();
        let at = (s * bs + i * 128) as usize;
        want[at..at + 128].copy_from_slice(&entry_bytes(&p, 128));
        if let Some(res) = res {
            ctx.check(&["C14"], res.is_ok() && got == want, || format!("Partition::write to slot {i} at block {s} gave {res:?}"));
        }
    }
}

fn os_name(o: &OperatingSystem) -> String {
    format!("{o:?}")
}

fn types(ctx: &mut Ctx, r: &mut Rng, case: u64) {
    let n = TYPES.len() as u64;
    let spell = |r: &mut Rng, u: Uuid| -> String {
        let s = match r.below(4) {
            0 | 1 => u.as_hyphenated().to_string(),
            2 => u.as_simple().to_string(),
            _ => {
                if r.coin() {
                    u.as_braced().to_string()
                } else {
                    // the prefix is only known in lower case to the parser
                    return u.as_urn().to_string();
                }
            }
        };
        match r.below(3) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            _ => s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        }
    };
    let want = |u: Uuid| -> String {
        TYPES.iter().find(|t| Uuid::parse_str(t.1).unwrap() == u).map(|t| t.2.to_string()).unwrap_or_else(|| "None".into())
    };
    let u = if case < n {
        Uuid::parse_str(TYPES[case as usize].1).unwrap()
    } else {
        match r.below(3) {
            0 => Uuid::parse_str(r.pick(TYPES).1).unwrap(),
            1 => {
                let mut b = *Uuid::parse_str(r.pick(TYPES).1).unwrap().as_bytes();
                match r.below(4) {
                    0 => Uuid::from_bytes_le(b),
                    1 => {
                        b[r.below(16) as usize] = r.next() as u8;
                        Uuid::from_bytes(b)
                    }
                    _ => {
                        b[r.below(16) as usize] ^= 1 << r.below(8);
                        Uuid::from_bytes(b)
                    }
                }
            }
            _ => guid(r),
        }
    };
    ctx.seen(&u);
    ctx.say(format!("guid {u}"));
    if let Some(t) = ctx.guard(&["C15"], "Type::from", || Type::from(u)) {
        ctx.check(&["C15"], t.guid == u && os_name(&t.os) == want(u), || format!("{t:?} instead of {}", want(u)));
    }
    for _ in 0..3 {
        let s = spell(r, u);
        if let Some(t) = ctx.guard(&["C15"], "from_str", || Type::from_str(&s)) {
            match t {
                Ok(t) => ctx.check(&["C15"], t.guid == u && os_name(&t.os) == want(u), || format!("{s:?} parsed as {t:?} instead of {}", want(u))),
                Err(e) => ctx.fail(&["C15"], || format!("{s:?} refused: {e}")),
            }
        }
    }
    let t = if case < n { TYPES[case as usize] } else { r.pick(TYPES) };
    let s: String = match r.below(3) {
        0 => t.0.to_string(),
        1 => t.0.to_lowercase(),
        _ => t.0.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    };
    for by_name in [false, true] {
        let got = ctx.guard(&["C15"], "from_str", || if by_name { Type::from_name(&s) } else { Type::from_str(&s) });
        if let Some(x) = got {
            let w = Uuid::parse_str(t.1).unwrap();
            match x {
                Ok(x) => ctx.check(&["C15"], x.guid == w && os_name(&x.os) == t.2, || format!("{s:?} parsed as {x:?}")),
                Err(e) => ctx.fail(&["C15"], || format!("{s:?} refused: {e}")),
            }
        }
    }
    // near misses
    let mut s = if r.coin() { t.0.to_string() } else { spell(r, u) };
    match r.below(9) {
        5 => {
            // letters that only Unicode takes for the same
            let look = [('I', 'ı'), ('i', 'İ'), ('s', 'ſ'), ('S', 'ſ'), ('k', '\u{212a}'), ('K', '\u{212a}'), ('0', '０'), ('a', 'ａ'), ('A', 'Ａ'), ('1', '١'), ('-', '‐'), ('_', '＿'), ('S', 'ß')];
            let hit: Vec<_> = look.iter().filter(|l| s.contains(l.0)).collect();
            if !hit.is_empty() {
                let l = hit[r.below(hit.len() as u64) as usize];
                s = if r.coin() { s.replacen(l.0, &l.1.to_string(), 1) } else { s.replace(l.0, &l.1.to_string()) };
            }
        }
        6 => {
            let a = r.pick(&["0x", "0X", "\t", "\n", "urn:uuid:", "URN:UUID:", "uuid:", "{", "(", "\"", "'", "+", "#", "guid ", "Type::", "partition_types::", "\u{feff}"]);
            let b = r.pick(&["", "", "", "}", ")", "\"", "'", "\n", "\t", "\r\n", ";", "\0", " "]);
            s = format!("{a}{s}{b}");
        }
        7 => {
            let (a, b) = r.pick(&[('_', "-"), ('_', " "), ('_', ""), ('-', ""), ('-', "_"), ('-', ":"), ('-', " "), ('0', "O"), ('O', "0"), ('1', "l")]);
            s = if r.coin() { s.replace(a, b) } else { s.replacen(a, b, 1) };
        }
        8 => {
            // cut or doubled
            let k = r.below(s.len() as u64 + 1) as usize;
            if s.is_char_boundary(k) {
                s = match r.below(3) {
                    0 => s[..k].to_string(),
                    1 => s[k..].to_string(),
                    _ => format!("{s}{}", &s[k..]),
                };
            }
        }
        0 => {
            s.pop();
        }
        1 => s.push(r.pick(&['x', ' ', '0', '\0', '-', 'Ä'])),
        2 => s.insert(0, r.pick(&['x', ' ', '_', '{'])),
        3 => s = name(r),
        _ => {
            let k = r.below(s.len() as u64 + 1) as usize;
            if s.is_char_boundary(k) {
                s.insert(k, r.pick(&['_', 'g', '-', 'é']));
            }
        }
    }
    let is_name = TYPES.iter().any(|t| t.0.eq_ignore_ascii_case(&s));
    let as_guid = Uuid::parse_str(&s).ok();
    let by_name = r.coin();
    if let Some(x) = ctx.guard(&["C15"], "from_str", || if by_name { Type::from_name(&s) } else { Type::from_str(&s) }) {
        match (x, as_guid) {
            (Ok(x), Some(g)) => ctx.check(&["C15"], x.guid == g && os_name(&x.os) == want(g), || format!("{s:?} parsed as {x:?}")),
            (Ok(x), None) => ctx.check(&["C15"], is_name, || format!("{s:?} parsed as {x:?}")),
            (Err(e), Some(_)) => ctx.fail(&["C15"], || format!("{s:?} refused: {e}")),
            (Err(e), None) => ctx.check(&["C15"], !is_name, || format!("{s:?} refused: {e}")),
        }
    }
}

fn arithmetic(ctx: &mut Ctx, r: &mut Rng) {
    let a = r.wild();
    let b = match r.below(3) {
        0 => a.wrapping_add(r.below(5)).wrapping_sub(2),
        1 => a.wrapping_add(r.wild()),
        _ => r.wild(),
    };
    let p = match r.below(8) {
        0 => entry(r, a, b),
        1 => Partition { first_lba: a, last_lba: b, ..unused_entry(r) },
        2 => Partition { first_lba: a, last_lba: b, ..Partition::zero() },
        _ => Partition { part_type_guid: gpt::partition_types::BASIC, part_guid: Uuid::nil(), first_lba: a, last_lba: b, flags: 0, name: String::new() },
    };
    ctx.say(format!("blocks {a}..={b}, {}", if p.is_used() { "in use" } else { "unused" }));
    ctx.seen(&(a, b));
    let max = u64::MAX as u128;
    let len: Option<u128> = if b >= a { Some(b as u128 - a as u128 + 1).filter(|x| *x <= max) } else { None };
    for bs in [512u64, 4096] {
        let got = match ctx.guard(&["C16"], "lengths", || (p.sectors_len().ok(), p.bytes_len(lbs(bs)).ok(), p.bytes_start(lbs(bs)).ok())) {
            Some(x) => x,
            None => return,
        };
        let w = (
            len.map(|x| x as u64),
            len.map(|x| x * bs as u128).filter(|x| *x <= max).map(|x| x as u64),
            Some(a as u128 * bs as u128).filter(|x| *x <= max).map(|x| x as u64),
        );
        ctx.check(&["C16"], got == w, || format!("blocks {a}..={b} of {bs}: (blocks, bytes, start) = {got:?} instead of {w:?}"));
    }
    let v = match r.below(6) {
        0 => 512,
        1 => 4096,
        2 => r.below(10_000),
        3 => r.pick(&[0u64, 513, 511, 4095, 4097, 1024, 2048, 8192]),
        4 => (r.below(1 << 20) << 32) + r.pick(&[512u64, 4096]),
        _ => r.wild(),
    };
    if let Some(x) = ctx.guard(&["C16"], "block size", || LogicalBlockSize::try_from(v)) {
        let w = match v {
            512 => Some(LogicalBlockSize::Lb512),
            4096 => Some(LogicalBlockSize::Lb4096),
            _ => None,
        };
        ctx.check(&["C16"], x.as_ref().ok() == w.as_ref(), || format!("block size {v} gave {x:?}"));
    }
    for (b, n) in [(LogicalBlockSize::Lb512, 512u64), (LogicalBlockSize::Lb4096, 4096)] {
        ctx.check(&["C16"], b.as_u64() == n && b.as_usize() as u64 == n && u64::from(b) == n && usize::from(b) as u64 == n, || format!("block size {n} converted wrongly"));
        ctx.check(&["C16"], b.to_string() == n.to_string(), || format!("block size {n} displayed as {b}"));
    }
    // rounding up to blocks, seen through a created disk and through the builder
    if r.chance(1, 20) {
        let bs = if r.coin() { 512u64 } else { 4096 };
        let size = match r.below(3) {
            0 => r.range(1, 5 * bs),
            1 => bs * r.range(1, 1 << 30) + r.below(3),
            _ => (r.wild() >> 4).max(1),
        };
        let need = (size as u128 + bs as u128 - 1) / bs as u128;
        if need > (u64::MAX / 4096) as u128 - 600 {
            return;
        }
        let dev = Dev::new((need as u64 + 400) * bs, 0);
        if let Ok(mut d) = config(Cfg { writable: true, only_valid: false, ro_backup: false, change: false }, bs).create_from_device(dev, None) {
            ctx.say(format!("partition of {size} bytes, block size {bs}"));
            if let Some(Ok(id)) = ctx.guard(&["C16"], "add_partition", || d.add_partition("", size, gpt::partition_types::BASIC, 0, None)) {
                let p = &d.partitions()[&id];
                ctx.check(&["C16"], (p.last_lba - p.first_lba) as u128 + 1 == need, || format!("{size} bytes became {}..={}", p.first_lba, p.last_lba));
            }
        }
        let (np, ps) = (r.range(128, 100_000) as u32, r.wild32() % 5000);
        let t = table_blocks(np, ps, bs);
        if let Some(Ok(h)) = ctx.guard(&["C16"], "HeaderBuilder", || HeaderBuilder::new().num_parts(np).part_size(ps).backup_lba(1 << 40).build(lbs(bs))) {
            ctx.check(&["C16"], h.first_usable as u128 == 2 + t, || format!("table of {np} entries of {ps} bytes rounded to {} blocks", h.first_usable - 2));
        }
    }
}

// ---- files: sync ---------------------------------------------------------------------------

static SYNCS: AtomicU64 = AtomicU64::new(0);
/// EINTR is not among them: std retries it
static ERRNO: AtomicI32 = AtomicI32::new(5);
static SYNC_FAILS: AtomicBool = AtomicBool::new(false);
/// the file, and its content when it was last synced
static SYNCED: std::sync::Mutex<Option<(std::path::PathBuf, Vec<u8>)>> = std::sync::Mutex::new(None);

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn note_sync() -> i32 {
    SYNCS.fetch_add(1, Ordering::SeqCst);
    if let Ok(mut g) = SYNCED.lock() {
        if let Some((p, b)) = g.as_mut() {
            *b = std::fs::read(p).unwrap_or_default();
        }
    }
    if SYNC_FAILS.load(Ordering::SeqCst) {
        unsafe { *__errno_location() = ERRNO.load(Ordering::SeqCst) };
        return -1;
    }
    0
}
/// takes the place of the C library's: counts, and fails on demand
#[no_mangle]
pub extern "C" fn fsync(_fd: i32) -> i32 {
    note_sync()
}
#[no_mangle]
pub extern "C" fn fdatasync(_fd: i32) -> i32 {
    note_sync()
}

fn synced(ctx: &mut Ctx, r: &mut Rng) {
    let mut im = image(r, Lay::Sane);
    if im.st.len > 1 << 22 || !im.consistent {
        return;
    }
    im.desc.truncate(200);
    let bs = im.bs;
    let data = im.st.get(0, im.st.len as usize);
    let f = scratch_file(&data);
    let c = Cfg { writable: true, only_valid: false, ro_backup: r.chance(1, 4), change: false };
    let create = r.coin();
    let fail = r.coin();
    let errno = r.pick(&[5, 5, 5, 22, 28, 30, 38, 95, 11]);
    ERRNO.store(errno, Ordering::SeqCst);
    let how = r.below(4);
    let spare = if how == 3 { Some(scratch_file(&data)) } else { None };
    *SYNCED.lock().unwrap() = Some((spare.clone().unwrap_or(f.clone()), vec![]));
    ctx.say(format!("{}; {} from a path and written, way {how}, file sync fails: {fail} ({errno})", im.desc, if create { "created" } else { "opened" }));
    ctx.seen(&(create, fail, how, im.st.len, im.np));
    let res = ctx.guard(&["C10"], "write of a file", || {
        let d = if create { config(c, bs).create(&f) } else { config(c, bs).open(&f) };
        let d = match d {
            Ok(d) => d,
            Err(_) => return None,
        };
        SYNCS.store(0, Ordering::SeqCst);
        SYNC_FAILS.store(fail, Ordering::SeqCst);
        let res: Result<(), GptError> = match how {
            0 => d.write().map(|_| ()),
            1 => {
                let mut d = d;
                d.write_inplace()
            }
            3 => {
                // on to another file
                let mut d = d;
                let other = std::fs::OpenOptions::new().read(true).write(true).open(spare.as_ref().unwrap()).expect("scratch file");
                let _ = d.update_disk_device(other, true);
                d.write_inplace()
            }
            _ => {
                // written twice
                let mut d = d;
                let _ = d.write_inplace();
                SYNCS.store(0, Ordering::SeqCst);
                d.write_inplace()
            }
        };
        SYNC_FAILS.store(false, Ordering::SeqCst);
        Some(res)
    });
    SYNC_FAILS.store(false, Ordering::SeqCst);
    let at_sync = SYNCED.lock().unwrap().take();
    let content = at_sync.as_ref().map(|(p, _)| std::fs::read(p).unwrap_or_default());
    let _ = std::fs::remove_file(&f);
    if let Some(p) = &spare {
        let _ = std::fs::remove_file(p);
    }
    if let Some(Some(res)) = res {
        match res {
            Ok(()) => {
                ctx.check(&["C10"], SYNCS.load(Ordering::SeqCst) > 0, || "success without a file sync".into());
                ctx.check(&["C10"], !fail, || "success although the file sync failed".into());
                if SYNCS.load(Ordering::SeqCst) > 0 {
                    ctx.check(&["C10"], at_sync.map(|x| x.1) == content, || "bytes were written after the last file sync".into());
                }
            }
            Err(e) => ctx.check(&["C10"], fail || create, || format!("failed with {e:?}")),
        }
    }
}

/// disks opened or created from a path: not writable means that nothing is ever written, whatever file is behind it
fn paths(ctx: &mut Ctx, r: &mut Rng) {
    let mut im = image(r, Lay::Sane);
    if im.st.len > 1 << 21 || !im.consistent {
        return;
    }
    im.desc.truncate(200);
    let bs = im.bs;
    let data = im.st.get(0, im.st.len as usize);
    let (f, g) = (scratch_file(&data), scratch_file(&data));
    let ro = r.chance(1, 4);
    let opened_w = r.coin();
    let how = r.below(4);
    let final_w = match how {
        0 => opened_w,
        _ => r.chance(1, 3),
    };
    let c = Cfg { writable: opened_w, only_valid: false, ro_backup: ro, change: true };
    let create = r.chance(1, 3);
    let rw = |p: &std::path::Path| std::fs::OpenOptions::new().read(true).write(true).open(p).expect("scratch file");
    ctx.say(format!("{}; {} from a path, writable {opened_w}, then (way {how}) on another file, writable {final_w}; removed an entry and written", im.desc, if create { "created" } else { "opened" }));
    ctx.seen(&(create, how, opened_w, final_w, im.st.len, im.np));
    let res = ctx.guard(&["C02"], "write of a file", || {
        let d = if create { config(c, bs).create(&f) } else { config(c, bs).open(&f) };
        let mut d = d.ok()?;
        let id = d.partitions().keys().next().copied();
        if let Some(id) = id {
            d.remove_partition(id);
        }
        let (h, res) = match how {
            0 => (d.header().clone(), d.write_inplace().is_ok()),
            1 => {
                let _ = d.update_disk_device(rw(&g), final_w);
                (d.header().clone(), d.write_inplace().is_ok())
            }
            2 => {
                let d = d.with_disk_device(rw(&g), final_w);
                (d.header().clone(), d.write().is_ok())
            }
            _ => {
                let mut d = d.with_disk_device(rw(&f), !final_w);
                let _ = d.update_disk_device(rw(&g), final_w);
                (d.header().clone(), d.write().is_ok())
            }
        };
        Some((h, res))
    });
    let (a, b) = (std::fs::read(&f).unwrap_or_default(), std::fs::read(&g).unwrap_or_default());
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&g);
    let (h, res) = match res {
        Some(Some(x)) => x,
        _ => return,
    };
    ctx.check(&["C02"], final_w || !res, || "a disk that is not writable was written".into());
    let target_is_f = how == 0;
    let (written, other) = if target_is_f { (&a, &b) } else { (&b, &a) };
    ctx.check(&["C02"], *other == data, || "another file than the disk's was changed".into());
    if !final_w {
        ctx.check(&["C02"], *written == data, || "a disk that is not writable changed its file".into());
    } else {
        let t = table_blocks(h.num_parts, h.part_size, bs) as u64 * bs;
        let n = data.len() as u64;
        let last = n / bs - 1;
        let ok = |x: u64| {
            let blk = x / bs;
            blk == 1 || (x >= 2 * bs && x < 2 * bs + t) || (!ro && (blk == last || (x < last * bs && x >= (last * bs).saturating_sub(t))))
        };
        ctx.check(&["C02"], written.len() as u64 == n, || format!("the file is {} bytes long now", written.len()));
        let bad = (0..n.min(written.len() as u64)).find(|x| written[*x as usize] != data[*x as usize] && !ok(*x));
        ctx.check(&["C02"], bad.is_none(), || format!("byte {bad:?} changed"));
    }
}

// ---- the recorded finding ------------------------------------------------------------------

/// 128 partitions of one block right behind the table; the 129th makes the table grow over them
pub fn known_growth() -> Option<String> {
    let bs = 512u64;
    let dev = Dev::new(400 * bs, 0);
    let c = Cfg { writable: true, only_valid: false, ro_backup: false, change: true };
    let mut d = config(c, bs).create_from_device(dev, None).ok()?;
    for _ in 0..129 {
        d.add_partition("x", 1, gpt::partition_types::BASIC, 0, None).ok()?;
    }
    let h = d.header();
    let out: Vec<u64> = d.partitions().values().filter(|p| p.first_lba < h.first_usable).map(|p| p.first_lba).collect();
    if out.is_empty() {
        return None;
    }
    Some(format!(
        "adding the 129th one-block partition to a disk of 400 blocks grows the table to {} slots and moves the first usable block to {}, over the existing partition(s) at {:?}",
        h.num_parts, h.first_usable, out
    ))
}

