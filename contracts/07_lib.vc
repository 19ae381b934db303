=== fn GptConfig::new
tags: C19 C02
--- spec
    ensures !ret.writable, !ret.only_valid_headers, !ret.readonly_backup, !ret.change_partition_count, ret.lb_size is Lb512, //@C19 C02
=== fn <DefaultforGptConfig>::default
tags: C19 C02
--- spec
    ensures !ret.writable, !ret.only_valid_headers, !ret.readonly_backup, !ret.change_partition_count, ret.lb_size is Lb512, //@C19 C02
=== fn GptConfig::writable
tags: C02
--- spec
    ensures ret == (GptConfig { writable, ..self }), //@C02
=== fn GptConfig::logical_block_size
tags: C01
--- spec
    ensures ret == (GptConfig { lb_size, ..self }), //@C01
=== fn GptConfig::only_valid_headers
tags: C11
--- spec
    ensures ret == (GptConfig { only_valid_headers, ..self }), //@C11
=== fn GptConfig::readonly_backup
tags: C02
--- spec
    ensures ret == (GptConfig { readonly_backup, ..self }), //@C02
=== fn GptConfig::change_partition_count
tags: C19
--- spec
    ensures ret == (GptConfig { change_partition_count, ..self }), //@C19
=== fn <CloneforGptDisk<D>>::clone
tags: C18
--- spec
    ensures
        same_headers(*self, ret), //@C18
        ret.config == self.config, ret.guid == self.guid, ret.partitions@ == self.partitions@, ret.sync_all == self.sync_all, //@C18
--- closure |e| e.lossy_clone()
|e: &HeaderError| -> (o: HeaderError) ensures same_herr(o, *e)
=== fn GptDisk::primary_header
tags: C11 C18
--- spec
    ensures
        ret is Ok <==> self.primary_header is Ok, //@C11
        ret is Ok ==> *ret->Ok_0 == self.primary_header->Ok_0, //@C11
        ret is Err ==> same_herr(ret->Err_0, self.primary_header->Err_0), //@C11
--- closure |e| e.lossy_clone()
|e: &HeaderError| -> (o: HeaderError) ensures same_herr(o, *e)
=== fn GptDisk::backup_header
tags: C11 C18
--- spec
    ensures
        ret is Ok <==> self.backup_header is Ok, //@C11
        ret is Ok ==> *ret->Ok_0 == self.backup_header->Ok_0, //@C11
        ret is Err ==> same_herr(ret->Err_0, self.backup_header->Err_0), //@C11
--- closure |e| e.lossy_clone()
|e: &HeaderError| -> (o: HeaderError) ensures same_herr(o, *e)
=== fn GptDisk::try_header
tags: C11
--- spec
    ensures
        ret is Ok <==> has_header(*self), //@C11
        ret is Ok ==> *ret->Ok_0 == eff(*self), //@C11
=== fn GptDisk::header
tags: C11 C09
--- spec
    requires has_header(*self),
    ensures *ret == eff(*self), //@C11
=== fn GptDisk::partitions
tags: C18
--- spec
    ensures *ret == self.partitions, //@C18
=== fn GptDisk::guid
tags: C18
--- spec
    ensures *ret == self.guid, //@C18
=== fn GptDisk::logical_block_size
tags: C18
--- spec
    ensures *ret == self.config.lb_size, //@C18
=== fn GptDisk::update_disk_device
tags: C18 C02
--- spec
    ensures
        ret == old(self).device, final(self).device == device, //@C18
        same_state(GptDisk { config: final(self).config, ..*old(self) }, *final(self)), //@C18
        final(self).config == (GptConfig { writable, ..old(self).config }), //@C18 C02
=== fn GptDisk::with_disk_device
tags: C18 C02
--- spec
    ensures
        same_headers(*self, ret), //@C18
        ret.config == (GptConfig { writable, ..self.config }), //@C18 C02
        ret.guid == self.guid, ret.partitions@ == self.partitions@, //@C18
        ret.device == device, //@C18
--- closure |e| e.lossy_clone()
|e: &HeaderError| -> (o: HeaderError) ensures same_herr(o, *e)
=== fn GptDisk::device_ref
tags: C18
--- spec
    ensures *ret == self.device, //@C18
=== fn GptDisk::take_device
tags: C18
--- spec
    ensures ret == self.device, //@C18
=== fn GptDisk::take_partitions
tags: C18
--- spec
    ensures
        ret@ == old(self).partitions@, final(self).partitions@ == Map::<u32, partition::Partition>::empty(), //@C18
        *final(self) == (GptDisk { partitions: final(self).partitions, ..*old(self) }), //@C18
=== fn GptDisk::update_guid
tags: C18
--- spec
    ensures
        uuid is Some ==> final(self).guid == uuid->0, //@C18
        *final(self) == (GptDisk { guid: final(self).guid, ..*old(self) }), //@C18
=== fn GptDisk::remove_partition_by_guid
tags: C18
--- spec
    ensures
        *final(self) == (GptDisk { partitions: final(self).partitions, ..*old(self) }), //@C18
        ret is None ==> final(self).partitions@ == old(self).partitions@ //@C18
            && forall|k: u32| #[trigger] old(self).partitions@.dom().contains(k) ==> old(self).partitions@[k].part_guid != guid,
        ret is Some ==> old(self).partitions@.dom().contains(ret->0) && old(self).partitions@[ret->0].part_guid == guid //@C18
            && final(self).partitions@ == old(self).partitions@.remove(ret->0)
            && forall|k: u32| #[trigger] old(self).partitions@.dom().contains(k) && k < ret->0 ==> old(self).partitions@[k].part_guid != guid,
--- hint start
    broadcast use lemma_keyseq;
--- closure #0
|__p0: &(&u32, &partition::Partition)| -> (o: bool) ensures o == (__p0.1.part_guid == guid)
--- closure #1
|__p0: (&u32, &partition::Partition)| -> (o: u32) ensures o == *__p0.0
=== fn GptDisk::find_next_partition_id
tags: C08
loops: 1
--- spec
    requires has_header(*self),
    ensures
        ret is Some ==> lowest_free_id(self.partitions@, ret->0) && (ret->0 <= eff(*self).num_parts || self.partitions@.dom().len() == 0 && ret->0 == 1), //@C08
        ret is None ==> self.partitions@.dom().len() > 0 && forall|j: u32| 1 <= j <= eff(*self).num_parts ==> #[trigger] inuse(self.partitions@, j), //@C08
--- loop 0
    __vs0.len() == eff(*self).num_parts,
    forall|i: int| 0 <= i < __vs0.len() ==> #[trigger] __vs0[i] == 1 + i,
    forall|j: u32| 1 <= j <= __vit0.idx() ==> #[trigger] inuse(self.partitions@, j),
=== fn GptDisk::num_entries_with
tags: C19
--- spec
    requires self.partitions@.dom().len() <= u32::MAX,
    ensures ret == imin(entries_with(self.partitions@, id) as int, u32::MAX as int), //@C19
=== fn GptDisk::init_headers
tags: C19 C05 C07
--- spec
    requires has_header(*old(self)) ==> sig_ok(eff(*old(self))),
    ensures
        made_headers(*old(self), *final(self), num_entries, ret is Ok), //@C19 C05 C07
        ret is Err ==> ret->Err_0 is Io || ret->Err_0 is Header,
=== fn GptDisk::calculate_alignment
tags: C17 C09
loops: 2
--- spec
    ensures
        self.partitions@.dom().len() == 0 ==> ret == 0, //@C17
        self.partitions@.dom().len() > 0 ==> best_align(self.partitions@, ret as int), //@C17
--- hint start
    broadcast use lemma_keyseq;
    let ghost ks = keyseq(self.partitions@);
    let ghost m = self.partitions@;
    proof { lemma_pow_values(); }
--- loop 0
    exponent <= 11, align == pow2i(exponent as int),
    __vs0.len() == ks.len(),
    forall|i: int| 0 <= i < __vs0.len() ==> *(#[trigger] __vs0[i]) == m[ks[i]],
    forall|i: int| 0 <= i < __vit0.idx() && used(m[#[trigger] ks[i]]) ==> m[ks[i]].first_lba % align == 0,
    exponent < 11 ==> exists|i: int| 0 <= i < __vit0.idx() && used(m[#[trigger] ks[i]]) && m[ks[i]].first_lba as int % pow2i(exponent + 1) != 0,
--- hint loop 0 start
    let ghost e0 = exponent;
    let ghost a0 = align;
--- loop 1
    invariant exponent <= e0, e0 <= 11,
      exponent < e0 ==> partition.first_lba as int % pow2i(exponent + 1) != 0,
    ensures align == pow2i(exponent as int), partition.first_lba as int % align as int == 0,
    decreases exponent,
--- hint loop 1 start
    proof { lemma_pow_values(); }
--- hint after loop 1
    proof {
        lemma_pow_values();
        assert(partition.first_lba as int % align as int == 0);
        assert(partition.first_lba == m[ks[__vit0.idx() - 1]].first_lba);
        assert forall|i: int| 0 <= i < __vit0.idx() && used(m[#[trigger] ks[i]]) implies m[ks[i]].first_lba % align == 0 by {
            if i < __vit0.idx() - 1 {
                assert(m[ks[i]].first_lba % a0 == 0);
                lemma_pow_divides(exponent as int, e0 as int, m[ks[i]].first_lba as int);
            }
        }
    }
--- hint after loop 0
    proof {
        assert forall|k: u32| #[trigger] inuse(m, k) implies m[k].first_lba as int % pow2i(exponent as int) == 0 by {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(used(m[ks[i]]));
        }
        assert(all_div(m, align as int));
        if exponent < 11 {
            let i = choose|i: int| 0 <= i < ks.len() && used(m[#[trigger] ks[i]]) && m[ks[i]].first_lba as int % pow2i(exponent + 1) != 0;
            assert(inuse(m, ks[i]));
        }
        assert(best_align(m, align as int));
    }
=== fn GptDisk::find_free_sectors
tags: C06 C09
loops: 2
--- spec
    requires has_header(*self),
    ensures free_list(eff(*self), self.partitions@, ret@), //@C06
--- hint start
    broadcast use lemma_keyseq;
    let ghost ks = keyseq(self.partitions@);
    let ghost m = self.partitions@;
    let ghost h = eff(*self);
    let ghost mut uall: Seq<(u64, u64)> = Seq::empty();
    let ghost mut fpre: Seq<(u64, u64)> = Seq::empty();
--- loop 0
    __vs0.len() == ks.len(),
    forall|i: int| 0 <= i < __vs0.len() ==> *(#[trigger] __vs0[i]).0 == ks[i] && *__vs0[i].1 == m[ks[i]],
    spans_of(used@, m, ks, __vit0.idx() as int),
--- hint loop 0 start
    let ghost u0 = used@;
    proof { if !crate::vspec::used(m[ks[__vit0.idx() - 1]]) { lemma_spans_skip(u0, m, ks, __vit0.idx() - 1); } }
--- hint loop 0 end
    proof { lemma_spans_push(u0, used@, m, ks, __vit0.idx() - 1); }
--- hint after loop 0
    proof { uall = used@; lemma_spans_all(used@, m, ks); }
--- hint before loop 1
    proof { lemma_taken_perm(uall, used@, m); }
--- loop 1
    __vs1 == used@, taken_spans(used@, m), h == *header,
    forall|i: int, j: int| 0 <= i <= j < used@.len() ==> lex_le(#[trigger] used@[i], #[trigger] used@[j]),
    next >= 1, next >= h.first_usable,
    forall|j: int| 0 <= j < __vit1.idx() ==> (#[trigger] used@[j]).1 < next,
    segs_sorted(free@),
    forall|j: int| 0 <= j < free@.len() ==> (#[trigger] free@[j]).0 + free@[j].1 < next,
    forall|b: int| #[trigger] in_segs(free@, b) <==> b < next && free_in(h, m, b),
--- loop-ensures 1
    next > h.last_usable || __vit1.idx() == __vs1.len(),
    taken_spans(used@, m), segs_sorted(free@), next >= 1, next >= h.first_usable,
    forall|j: int| 0 <= j < __vit1.idx() ==> (#[trigger] used@[j]).1 < next,
    forall|j: int| 0 <= j < free@.len() ==> (#[trigger] free@[j]).0 + free@[j].1 < next,
    forall|b: int| #[trigger] in_segs(free@, b) <==> b < next && free_in(h, m, b),
--- hint loop 1 start
    let ghost f0 = free@;
    let ghost n0 = next;
--- hint before stmt next=next.max
    proof { lemma_seg_step(h, m, used@, __vit1.idx() - 1, f0, free@, n0); }
--- hint before stmt return free
    proof { lemma_seg_step(h, m, used@, __vit1.idx() - 1, f0, free@, n0); }
--- hint after loop 1
    proof { fpre = free@; }
--- hint end
    proof { if next <= h.last_usable { lemma_in_segs_push(fpre, (next, (h.last_usable - next + 1) as u64)); } }
=== fn GptDisk::remove_partition
tags: C18 C08
--- spec
    ensures
        *final(self) == (GptDisk { partitions: final(self).partitions, ..*old(self) }), //@C18
        final(self).partitions@ == old(self).partitions@.remove(id), //@C18
        ret == (if old(self).partitions@.dom().contains(id) { Some(id) } else { None }), //@C18
--- closure #0
|__w0: partition::Partition| -> (o: u32) ensures o == id
=== fn GptDisk::add_partition
tags: C07 C08 C19 C09
attr: #[verifier::rlimit(60)] #[verifier::spinoff_prover]
loops: 1
--- spec
    requires
        wf(*old(self)), size > 0,
        // fewer entries than ids (they take more than 400 GB)
        old(self).partitions@.dom().len() < u32::MAX,
    ensures
        same_dev(&final(self).device, &old(self).device), //@C18
        wf(*final(self)), //@C19
        ret is Err ==> same_state(*old(self), *final(self)), //@C07
        // first fit
        ret is Ok ==> ({ //@C07
            let p = final(self).partitions@[ret->Ok_0];
            let n = ceil_div(size as nat, dlb(*old(self))) as int;
            &&& placed(p, p.first_lba as int, n, part_type, flags, name@)
            &&& fits(eff(*old(self)), old(self).partitions@, p.first_lba as int, n, part_alignment)
            &&& forall|y: int| y < p.first_lba ==> !#[trigger] fits(eff(*old(self)), old(self).partitions@, y, n, part_alignment)
        }),
        // lowest free slot, nothing else changed, table grown only if needed and allowed
        ret is Ok ==> lowest_free_id(old(self).partitions@, ret->Ok_0), //@C08
        ret is Ok ==> added(*old(self), *final(self), ret->Ok_0, final(self).partitions@[ret->Ok_0]), //@C08 C19
        // refused only for a reason
        ret is Err && ret->Err_0 is NotEnoughSpace ==> forall|y: int| !#[trigger] fits(eff(*old(self)), old(self).partitions@, y, ceil_div(size as nat, dlb(*old(self))) as int, part_alignment), //@C07
        ret is Err && !(ret->Err_0 is NotEnoughSpace) ==> exists|id: u32| #[trigger] lowest_free_id(old(self).partitions@, id) && not_added(*old(self), *final(self), id, ret->Err_0), //@C07 C19
--- hint start
    let ghost h = eff(*self);
    let ghost m = self.partitions@;
    let ghost n = ceil_div(size as nat, dlb(*self)) as int;
--- hint after stmt let free_sections
    proof { lemma_ceil(size, dlb(*self)); assert(size_lba == n); }
--- loop 0
    *self == *old(self), free_list(h, m, __vs0),
    forall|i: int, y: int| 0 <= i < __vit0.idx() && #[trigger] in_seg(__vs0[i], y) ==> !fits(h, m, y, n, part_alignment),
--- hint loop 0 start
    let ghost ix = __vit0.idx() - 1;
    proof {
        if part_alignment is Some && part_alignment->0 > 0 {
            lemma_align(__vx0.0 as int, part_alignment->0 as int, __vx0.0 as int);
        }
    }
--- hint loop 0 next
    proof {
        assert forall|y: int| #[trigger] in_seg(__vs0[ix], y) implies !fits(h, m, y, n, part_alignment) by {
            if fits(h, m, y, n, part_alignment) {
                if part_alignment is Some && part_alignment->0 > 0 {
                    lemma_align(__vs0[ix].0 as int, part_alignment->0 as int, y);
                }
                lemma_seg_room(h, m, __vs0, ix, y, n);
            }
        }
    }
--- hint before stmt let starting_lba=
    proof {
        let x = starting_lba + alignment_offset_lba;
        assert forall|b: int| x <= b < x + n implies #[trigger] free_in(h, m, b) by { assert(in_seg(__vs0[ix], b)); assert(in_segs(__vs0, b)); }
        assert(fits(h, m, x as int, n, part_alignment));
        assert forall|y: int| y < x implies !#[trigger] fits(h, m, y, n, part_alignment) by {
            if fits(h, m, y, n, part_alignment) {
                assert(free_in(h, m, y));
                assert(in_segs(__vs0, y));
                let j = choose|j: int| 0 <= j < __vs0.len() && in_seg(#[trigger] __vs0[j], y);
                if j > ix { assert(__vs0[ix].0 + __vs0[ix].1 < __vs0[j].0); }
                if j == ix && part_alignment is Some && part_alignment->0 > 0 {
                    lemma_align(__vs0[ix].0 as int, part_alignment->0 as int, y);
                }
            }
        }
    }
--- closure #0
|| -> (o: u32) requires eff(*self).num_parts < u32::MAX, has_header(*self) ensures o == eff(*self).num_parts + 1
--- hint before stmt let partition_id
    proof {
        if forall|j: u32| 1 <= j <= h.num_parts ==> #[trigger] inuse(m, j) { lemma_ids_len(m, h.num_parts); }
    }
--- hint before stmt let num_entries=
    proof {
        if partition_id > h.num_parts && m.dom().len() > 0 {
            assert(!inuse(m, partition_id)) by { if inuse(m, partition_id) { lemma_ids_len(m, partition_id); } }
        }
        assert(lowest_free_id(m, partition_id));
    }
--- hint before stmt Err(GptError::NotEnoughSpace)
    proof {
        assert forall|y: int| !#[trigger] fits(h, m, y, n, part_alignment) by {
            if fits(h, m, y, n, part_alignment) {
                assert(free_in(h, m, y));
                assert(in_segs(free_sections@, y));
            }
        }
    }
=== fn GptDisk::add_partition_at
tags: C07 C08 C19 C09
attr: #[verifier::rlimit(60)] #[verifier::spinoff_prover]
loops: 1
--- spec
    requires
        wf(*old(self)), length_lba > 0, id > 0,
        old(self).partitions@.dom().len() < u32::MAX,
    ensures
        same_dev(&final(self).device, &old(self).device), //@C18
        wf(*final(self)), //@C19
        ret is Err ==> same_state(*old(self), *final(self)), //@C07
        ret is Ok ==> ret->Ok_0 == id && !inuse(old(self).partitions@, id), //@C08
        // exactly the requested blocks
        ret is Ok ==> all_free(eff(*old(self)), old(self).partitions@, first_lba as int, length_lba as int) //@C07
            && placed(final(self).partitions@[id], first_lba as int, length_lba as int, part_type, flags, name@),
        ret is Ok ==> added(*old(self), *final(self), id, final(self).partitions@[id]), //@C08 C19
        // refused only for a reason
        ret is Err ==> (ret->Err_0 is PartitionIdAlreadyUsed <==> inuse(old(self).partitions@, id)), //@C08
        ret is Err && ret->Err_0 is NotEnoughSpace ==> !all_free(eff(*old(self)), old(self).partitions@, first_lba as int, length_lba as int), //@C07
        ret is Err && !(ret->Err_0 is NotEnoughSpace) && !(ret->Err_0 is PartitionIdAlreadyUsed) ==> not_added(*old(self), *final(self), id, ret->Err_0), //@C07 C19
--- hint start
    let ghost h = eff(*self);
    let ghost m = self.partitions@;
    let ghost mut fsegs: Seq<(u64, u64)> = Seq::empty();
--- hint before loop 0
    proof { assert(!inuse(m, id)); }
--- loop 0
    *self == *old(self), free_list(h, m, __vs0),
    forall|i: int| 0 <= i < __vit0.idx() ==> !(in_seg(#[trigger] __vs0[i], first_lba as int) && first_lba + length_lba <= __vs0[i].0 + __vs0[i].1),
--- hint loop 0 start
    let ghost ix = __vit0.idx() - 1;
--- hint before stmt let num_entries=
    proof {
        assert forall|b: int| first_lba <= b < first_lba + length_lba implies #[trigger] free_in(h, m, b) by { assert(in_seg(__vs0[ix], b)); assert(in_segs(__vs0, b)); }
    }
--- hint after loop 0
    proof {
        if all_free(h, m, first_lba as int, length_lba as int) {
            assert(free_in(h, m, first_lba as int));
            assert(in_segs(__vs0, first_lba as int));
            let i = choose|i: int| 0 <= i < __vs0.len() && in_seg(#[trigger] __vs0[i], first_lba as int);
            lemma_seg_room(h, m, __vs0, i, first_lba as int, length_lba as int);
        }
    }
=== fn GptDisk::update_partitions
tags: C18 C19
--- spec
    requires wf(*old(self)), !pp@.dom().contains(0),
    ensures
        same_dev(&final(self).device, &old(self).device), //@C18
        wf(*final(self)), //@C19
        ret is Err ==> same_state(*old(self), *final(self)), //@C18
        ret is Ok ==> final(self).partitions == pp //@C18
            && made_headers(*old(self), GptDisk { partitions: old(self).partitions, ..*final(self) }, pp@.dom().len() as u32, true),
        ret is Ok ==> eff(*final(self)).num_parts >= pp@.dom().len() && eff(*final(self)).num_parts >= eff(*old(self)).num_parts, //@C19
        // without permission the number of entries stays
        ret is Ok && !old(self).config.change_partition_count ==> eff(*final(self)).num_parts == eff(*old(self)).num_parts, //@C19
        ret is Err && ret->Err_0 is PartitionCountWouldChange ==> !old(self).config.change_partition_count //@C19
            && (pp@.dom().len() > eff(*old(self)).num_parts || eff(*old(self)).num_parts < 128),
--- hint start
    proof { lemma_dom_u32(pp@); }
=== fn GptConfig::open_from_device
tags: C11 C04 C09 C18 C01 C20
--- spec
    ensures
        ret is Ok ==> opened(self, device, ret->Ok_0) && ret->Ok_0.sync_all is None, //@C11 C04 C18 C01
        ret is Ok ==> certified(self, device.bytes(), ret->Ok_0), //@C20
        // no hidden device error on a device that works
        ret is Ok && device.reliable() && device.bytes().len() <= u64::MAX ==> ret->Ok_0.device.errors() == device.errors(), //@C01 C11
        // opens exactly if the device allows it
        device.reliable() && device.bytes().len() <= u64::MAX ==> (ret is Ok <==> open_ok(self, device.bytes())), //@C11 C04 C01
        // the error of the primary header is reported
        device.reliable() && device.bytes().len() <= u64::MAX && lbs(self.lb_size) + 92 <= device.bytes().len() //@C11
            && !prim_ok(device.bytes(), lbs(self.lb_size)) && (self.only_valid_headers || !back_ok(device.bytes(), lbs(self.lb_size)))
            ==> ret is Err && ret->Err_0 is Header && hdr_verdict(prim_seg(device.bytes(), lbs(self.lb_size)), 1, ret->Err_0->Header_0),
--- hint before stmt let disk=
    proof {
        assert forall|k: u32| #[trigger] table@.dom().contains(k) implies 1 <= k <= header.num_parts by {}
        lemma_dom_table(table@, header.num_parts);
    }
=== fn GptConfig::create_from_device
tags: C05 C19 C18 C09
--- spec
    ensures
        ret is Ok ==> created(self, device, ret->Ok_0) && ret->Ok_0.sync_all is None, //@C05 C19 C18
        ret is Ok ==> (guid is Some ==> ret->Ok_0.guid == guid->0) && (guid is None ==> from_rng(ret->Ok_0.guid)), //@C05
        device.reliable() && device.bytes().len() <= u64::MAX && device.bytes().len() >= 3 * lbs(self.lb_size) //@C05
            ==> (ret is Ok <==> spec_build_ok(hb_new(if guid is Some { guid->0 } else { arbitrary() }, last_lba(device.bytes(), lbs(self.lb_size)) as u64), lbs(self.lb_size))),
=== fn GptConfig::open
tags: C10 C11
--- spec
    ensures ret is Ok ==> wf(ret->Ok_0) && ret->Ok_0.config == self && ret->Ok_0.sync_all is Some && ret->Ok_0.sync_all->0.durable(), //@C10 C11
=== fn GptConfig::create
tags: C10
--- spec
    ensures ret is Ok ==> wf(ret->Ok_0) && ret->Ok_0.config == self && ret->Ok_0.sync_all is Some && ret->Ok_0.sync_all->0.durable(), //@C10
=== fn file_sync_all
tags: C10
--- spec
    ensures
        final(device).bytes() == old(device).bytes(), final(device).wlog() == old(device).wlog(), //@C10
        final(device).flushed() == old(device).flushed(), final(device).reliable() == old(device).reliable(),
        final(device).errors() == old(device).errors() + (if ret is Ok { 0nat } else { 1nat }), //@C10
        ret is Ok ==> final(device).synced(), //@C10
=== fn GptDisk::write_inplace
tags: C02 C10 C01 C03 C11 C19 C20
attr: #[verifier::rlimit(200)] #[verifier::spinoff_prover]
loops: 1
--- spec
    requires wf(*old(self)),
    ensures
        // nothing but the headers and checksums in memory changes
        final(self).config == old(self).config, final(self).guid == old(self).guid, final(self).partitions == old(self).partitions, //@C01 C18
        final(self).sync_all == old(self).sync_all, //@C10
        wf(*final(self)), //@C19
        // refused
        !old(self).config.writable ==> ret is Err && ret->Err_0 is ReadOnly && same_state(*old(self), *final(self)) //@C02
            && same_dev(&final(self).device, &old(self).device),
        // whatever happens, only the headers and tables change
        same_dev(&final(self).device, &old(self).device) || plan_ok(*old(self), old(self).device.bytes()) && old(self).config.writable //@C02 C20
            && wr_state(foot(*old(self), old(self).device.bytes()), old(self).device, final(self).device),
        final(self).device.bytes().len() == old(self).device.bytes().len(), //@C02 C20
        // block 0, the usable range and the length stay
        spares(eff(*final(self)).first_usable as int, eff(*final(self)).last_usable as int, dlb(*old(self)), old(self).device.bytes(), final(self).device.bytes()), //@C02
        // success means that everything was accepted, in order, and flushed
        ret is Ok ==> final(self).device.errors() == old(self).device.errors(), //@C10
        ret is Ok ==> final(self).device.flushed(), //@C10
        ret is Ok && old(self).sync_all is Some && old(self).sync_all->0.durable() ==> final(self).device.synced(), //@C10
        ret is Ok ==> then_primary(foot(*old(self), old(self).device.bytes()), old(self).device.wlog(), final(self).device.wlog()), //@C10
        ret is Ok ==> written(*old(self), *final(self)), //@C01 C03 C11 C20
        // an error has a cause
        ret is Err ==> final(self).device.errors() > old(self).device.errors() || !old(self).config.writable //@C10 C19
            || !plan_ok(*old(self), old(self).device.bytes()),
        ret is Err ==> !(ret->Err_0 is OverflowPartitionCount), //@C19
        final(self).device.errors() >= old(self).device.errors(),
        old(self).device.reliable() && old(self).device.bytes().len() <= u64::MAX && old(self).sync_all is None ==> final(self).device.errors() == old(self).device.errors(), //@C10
--- hint start
    hide(b_first); hide(b_last); hide(layout_ok); hide(table_blocks); hide(last_lba);
    hide(frame); hide(all_table); hide(tab_done); hide(full_table); hide(used_prefix); hide(log_ok); hide(spliced); hide(spares);
    hide(only_changed); hide(hdr_on); hide(zeros); hide(entry_bytes); hide(then_backup); hide(then_primary); hide(in_foot); hide(hdr_block); hide(hdr_bytes); hide(seg); hide(written); hide(st_back); hide(st_done); hide(st_tab); hide(wr_state); hide(tab_state); hide(wrote_at); hide(wrote_header); hide(phase); hide(tabs_full); hide(back_full);
    broadcast use {lemma_keyseq, lemma_entry_len, lemma_zeros_len};
    let ghost g0 = *self;
    let ghost d0 = self.device;
    let ghost b0 = self.device.bytes();
    let ghost lb = dlb(*self);
    let ghost at1 = 2 * lb as int;
    let ghost m = self.partitions@;
    let ghost ks = keyseq(m);
    let ghost f = foot(g0, b0);
    let ghost ph = plan_ph(g0, b0);
    let ghost bh = plan_bh(g0, b0);
    let ghost nn = eff(g0).num_parts as int;
    let ghost at2 = f.bt as int;
    let ghost uu = used_list(m);
    let ghost t = full_table(uu, nn as nat);
    let ghost mut bhw: crate::header::Header = arbitrary();
    proof {
        lemma_num_size(eff(g0).num_parts, eff(g0).part_size);
        lemma_last_lba(b0, lb);
        if plan_ok(g0, b0) { lemma_plan(g0, b0); lemma_spares(g0); }
        lemma_spares_same(d0, ph.first_usable as int, ph.last_usable as int, lb);
        lemma_spares_same(d0, eff(g0).first_usable as int, eff(g0).last_usable as int, lb);
    }
--- hint before stmt if table_len>(bak-1)
    proof { assert((bak - 1) * lb <= bak * lb && (bak - 1) * lb >= 0) by (nonlinear_arith) requires bak >= 1, lb >= 0; }
--- hint before stmt let primary_header=self.primary_header.insert_ok
    proof {
        assert(plan_ok(g0, b0));
        assert(hdr_eq(primary_header, ph));
    }
--- hint before loop 0
    proof {
        assert(backup_header is Some == f.both);
        assert(hdr_eq(*primary_header, ph));
        assert(f.both ==> hdr_eq(*backup_header->0, bh));
        assert(f.bt == bh.part_start * lb);
        lemma_tab_start(f, d0, self.device, m, ks, at1, at2);
    }
--- loop 0
    self.config == g0.config, self.guid == g0.guid, self.partitions == g0.partitions, self.sync_all == g0.sync_all,
    self.device.errors() == d0.errors(), tab_state(f, d0, self.device), self.device.bytes().len() == b0.len(),
    __vs0.len() == ks.len(),
    forall|i: int| 0 <= i < __vs0.len() ==> *(#[trigger] __vs0[i]).0 == ks[i] && *__vs0[i].1 == m[ks[i]],
    __vn0 == used_prefix(m, ks, __vit0.idx() as int).len(),
    next_partition_index == __vn0,
    tab_done(self.device.bytes(), at1, used_prefix(m, ks, __vit0.idx() as int)),
    f.both ==> tab_done(self.device.bytes(), at2, used_prefix(m, ks, __vit0.idx() as int)),
--- hint loop 0 start
    let ghost ix = __vit0.idx() - 1;
    let ghost u = used_prefix(m, ks, ix);
    let ghost p = m[ks[ix]];
    let ghost d1 = self.device;
    proof {
        lemma_used_step(m, ks, ix);
        lemma_table_write(f, d0, d1, at1 + 128 * u.len(), entry_bytes(p, 128));
        if f.both { lemma_table_write(f, d0, d1, at2 + 128 * u.len(), entry_bytes(p, 128)); }
    }
--- hint before stmt if let Some(backup_header)=&backup_header{if
    let ghost d2 = self.device;
    proof {
        lemma_tab_push(d1.bytes(), at1, u, p);
        if f.both {
            lemma_tab_keep(d1.bytes(), at2, u, at1 + 128 * u.len(), entry_bytes(p, 128));
            lemma_table_write(f, d0, d2, at2 + 128 * u.len(), entry_bytes(p, 128));
        }
    }
--- hint loop 0 end
    proof {
        if f.both {
            lemma_tab_push(d2.bytes(), at2, u, p);
            lemma_tab_keep(d2.bytes(), at1, u.push(p), at2 + 128 * u.len(), entry_bytes(p, 128));
        }
    }
--- hint before stmt partition::Partition::write_zero_entries_to_device
    let ghost dz0 = self.device;
    let ghost un = uu.len() as int;
    let ghost zz = zeros((128 * (nn - un)) as nat);
    proof {
        lemma_used_len(m, ks, ks.len() as int);
        lemma_both_full(f, dz0, uu, nn as nat);
        lemma_table_write(f, d0, dz0, at1 + 128 * un, zz);
    }
--- hint before stmt if let Some(backup_header)=&backup_header{partition
    let ghost dz1 = self.device;
    proof { if f.both { lemma_table_write(f, d0, dz1, at2 + 128 * un, zz); } }
--- hint before stmt if let Some(backup_header)=backup_header
    let ghost dz2 = self.device;
    let ghost ph1 = *primary_header;
    proof {
        assert(planned(ph1, ph));
        lemma_st_tab(g0, dz2);
        if f.both {
            assert(planned(*backup_header->0, bh));
            lemma_st_back(g0, dz2, *backup_header->0);
        } else {
            lemma_st_skip(g0, dz2, bhw);
        }
    }
--- hint after stmt backup_header.write_backup
    proof { bhw = *backup_header; }
--- hint before stmt primary_header.write_primary
    let ghost dz3 = self.device;
    proof {
        assert(st_back(g0, dz3, bhw));
        lemma_st_primary(g0, dz3, ph1, bhw);
    }
--- hint after stmt primary_header.write_primary
    let ghost dz4 = self.device;
    let ghost ph2 = *primary_header;
    proof {
        assert(st_done(g0, dz4, ph2, bhw));
        lemma_wr_keep(f, d0, dz4);
    }
--- hint end
    proof { lemma_st_done(g0, dz4, *self, ph2, bhw); }
=== fn GptDisk::write
tags: C02 C10 C01
--- spec
    requires wf(self),
    ensures
        ret is Ok ==> self.config.writable && plan_ok(self, self.device.bytes()), //@C02
        ret is Ok ==> wr_state(foot(self, self.device.bytes()), self.device, ret->Ok_0), //@C02
        ret is Ok ==> spares(plan_ph(self, self.device.bytes()).first_usable as int, plan_ph(self, self.device.bytes()).last_usable as int, dlb(self), self.device.bytes(), ret->Ok_0.bytes()), //@C02
        ret is Ok ==> ret->Ok_0.errors() == self.device.errors() && ret->Ok_0.flushed(), //@C10
        ret is Ok && self.sync_all is Some && self.sync_all->0.durable() ==> ret->Ok_0.synced(), //@C10
        ret is Ok ==> then_primary(foot(self, self.device.bytes()), self.device.wlog(), ret->Ok_0.wlog()), //@C10
        // the device is the one the disk was written to
        ret is Ok ==> exists|z: GptDisk<D>| #[trigger] written(self, z) && z.device == ret->Ok_0, //@C01 C03 C11
--- hint end
    proof { assert(written(self, __self)); }
=== fn GptDisk::device_mut
tags: C18
--- spec
    ensures
        *ret == old(self).device, *final(ret) == final(self).device, //@C18
        *final(self) == (GptDisk { device: *final(ret), ..*old(self) }), //@C18
=== fn <From<io::Error>forGptError>::from
tags: C10 C11
--- spec
    ensures ret is Io, ret->Io_0 == e, //@C10 C11
=== fn <From<HeaderError>forGptError>::from
tags: C10 C11
--- spec
    ensures ret is Header, ret->Header_0 == e, //@C10 C11
