=== fn mbr::<DefaultforProtectiveMBR>::default
tags: C12
--- spec
    ensures mbr_new(ret, 0xFFFF_FFFF), //@C12
--- hint end
    proof { assert(__vtail.bootcode@ =~= zeros(440)); assert(__vtail.disk_signature@ =~= zeros(4)); assert(MBR_SIGNATURE@ =~= sig55aa());
        assert(__vtail.partitions@ =~= seq![rec_protective(0xFFFF_FFFF), rec_zero(), rec_zero(), rec_zero()]); }
=== fn mbr::ProtectiveMBR::new
tags: C12
--- spec
    ensures mbr_new(ret, 0xFFFF_FFFF), //@C12
=== fn mbr::ProtectiveMBR::with_lb_size
tags: C12
--- spec
    ensures mbr_new(ret, lb_size), //@C12
--- hint end
    proof { assert(__vtail.bootcode@ =~= zeros(440)); assert(__vtail.disk_signature@ =~= zeros(4)); assert(MBR_SIGNATURE@ =~= sig55aa());
        assert(__vtail.partitions@ =~= seq![rec_protective(lb_size), rec_zero(), rec_zero(), rec_zero()]); }
=== fn mbr::ProtectiveMBR::from_bytes
tags: C12 C13
loops: 1
--- spec
    ensures
        ret is Ok <==> mbr_valid(buf@, lbs(sector_size)), //@C12
        ret is Ok ==> mbr_is(ret->Ok_0, buf@), //@C12 C13
        ret is Err ==> (if buf@.len() != lbs(sector_size) { ret->Err_0 is InvalidMBRLength } else { ret->Err_0 is InvalidMBRSignature }), //@C12
--- loop 0
    __vl0 == 4, bytes.data() == buf@, bytes.bpos() == 446 + 16 * __vk0, buf@.len() >= 512,
    pmbr.bootcode@ == buf@.subrange(0, 440), pmbr.disk_signature@ == buf@.subrange(440, 444), pmbr.unknown == d16(buf@, 444),
    forall|i: int| 0 <= i < __vk0 ==> rec_is(#[trigger] pmbr.partitions@[i], buf@.subrange(446 + 16 * i, 462 + 16 * i)),
--- hint after stmt pmbr.signature.copy_from_slice
    proof {
        assert(MBR_SIGNATURE@ =~= sig55aa());
        assert(pmbr.signature@ == buf@.subrange(510, 512));
        if pmbr.signature@ == sig55aa() { assert(pmbr.signature@ =~= MBR_SIGNATURE@); assert(pmbr.signature == MBR_SIGNATURE); }
    }
--- hint before stmt Ok(pmbr)
    assert(pmbr.signature@ == MBR_SIGNATURE@);
=== fn mbr::ProtectiveMBR::from_disk
tags: C13 C12
--- spec
    ensures
        same_dev(final(device), old(device)), //@C13
        ret is Ok ==> final(device).errors() == old(device).errors() && final(device).pos() == old(device).pos() //@C13
            && lbs(sector_size) <= old(device).bytes().len() && mbr_is(ret->Ok_0, old(device).bytes().take(lbs(sector_size) as int)),
        ret is Ok ==> mbr_valid(old(device).bytes().take(lbs(sector_size) as int), lbs(sector_size)), //@C12 C13
        ret is Err ==> final(device).errors() > old(device).errors() || final(device).pos() == old(device).pos() && lbs(sector_size) <= old(device).bytes().len() //@C13
            && !mbr_valid(old(device).bytes().take(lbs(sector_size) as int), lbs(sector_size)) && ret->Err_0 is InvalidMBRSignature,
        old(device).reliable() && lbs(sector_size) <= old(device).bytes().len() ==> final(device).errors() == old(device).errors(), //@C13
=== fn mbr::ProtectiveMBR::to_bytes
tags: C12 C13
loops: 1
--- spec
    ensures ret@ == mbr_bytes(*self), //@C12 C13
--- hint start
    broadcast use lemma_spliced_prefix;
--- hint before loop 0
    proof { lemma_recs_step(self.partitions@, 0); assert(bytes.data().take(446) =~= self.bootcode@ + self.disk_signature@ + le16(self.unknown)); }
--- loop 0
    __vs0.len() == 4, forall|i: int| 0 <= i < 4 ==> *(#[trigger] __vs0[i]) == self.partitions@[i],
    bytes.data().len() == 512, bytes.bpos() == 446 + 16 * __vit0.idx(),
    bytes.data().take(bytes.bpos() as int) == self.bootcode@ + self.disk_signature@ + le16(self.unknown) + recs(self.partitions@, __vit0.idx() as int),
--- hint loop 0 start
    proof { lemma_recs_step(self.partitions@, __vit0.idx() - 1); }
    let ghost t0 = bytes.data().take(bytes.bpos() as int);
--- hint loop 0 end
    proof {
        let h = self.bootcode@ + self.disk_signature@ + le16(self.unknown);
        assert(h + (recs(self.partitions@, __vit0.idx() - 1) + rec_bytes(*p)) =~= h + recs(self.partitions@, __vit0.idx() - 1) + rec_bytes(*p));
    }
--- hint after stmt bytes.write(self.signature)
    proof { assert(bytes.data() =~= bytes.data().take(512)); }
=== fn mbr::ProtectiveMBR::bootcode
tags: C12
--- spec
    ensures *ret == self.bootcode, //@C12
=== fn mbr::ProtectiveMBR::set_bootcode
tags: C12
--- spec
    ensures *final(self) == (ProtectiveMBR { bootcode, ..*old(self) }), *ret == *final(self), //@C12
=== fn mbr::ProtectiveMBR::disk_signature
tags: C12
--- spec
    ensures *ret == self.disk_signature, //@C12
=== fn mbr::ProtectiveMBR::set_disk_signature
tags: C12
--- spec
    ensures *final(self) == (ProtectiveMBR { disk_signature: sig, ..*old(self) }), *ret == *final(self), //@C12
=== fn mbr::ProtectiveMBR::partition
tags: C12
--- spec
    ensures ret == (if partition_index < 4 { Some(self.partitions@[partition_index as int]) } else { None }), //@C12
=== fn mbr::ProtectiveMBR::set_partition
tags: C12
--- spec
    ensures
        ret == (if partition_index < 4 { Some(old(self).partitions@[partition_index as int]) } else { None }), //@C12
        *final(self) == (ProtectiveMBR { partitions: final(self).partitions, ..*old(self) }), //@C12
        final(self).partitions@ == (if partition_index < 4 { old(self).partitions@.update(partition_index as int, partition) } else { old(self).partitions@ }), //@C12
=== fn mbr::ProtectiveMBR::overwrite_lba0
tags: C13
--- spec
    ensures
        mbr_write(old(device), final(device), 0, mbr_bytes(*self), ret is Ok), //@C13
        ret is Ok ==> ret->Ok_0 == 512, //@C13
--- hint start
    proof { lemma_recs_len(self.partitions@, 4); }
=== fn mbr::ProtectiveMBR::update_conservative
tags: C13
loops: 1
--- spec
    ensures
        mbr_write(old(device), final(device), 446, recs(self.partitions@, 4) + self.signature@, ret is Ok), //@C13
        ret is Ok ==> ret->Ok_0 == 66, //@C13
--- hint start
    let ghost b0 = device.bytes();
    let ghost e0 = device.errors();
    let ghost r0 = device.reliable();
    proof { lemma_recs_step(self.partitions@, 0); lemma_recs_len(self.partitions@, 4); }
--- loop 0
    __vs0.len() == 4, forall|i: int| 0 <= i < 4 ==> *(#[trigger] __vs0[i]) == self.partitions@[i],
    device.errors() == e0, device.reliable() == r0, device.pos() == 446 + 16 * __vit0.idx(),
    device.bytes() == spliced(b0, 446, recs(self.partitions@, __vit0.idx() as int)),
--- hint loop 0 start
    let ghost b1 = device.bytes();
    proof {
        let i = __vit0.idx() - 1;
        lemma_recs_step(self.partitions@, i);
        lemma_spliced_cat(b0, 446, recs(self.partitions@, i), rec_bytes(self.partitions@[i]));
        lemma_spliced_only(b0, 446, recs(self.partitions@, i), 66);
    }
--- hint before stmt device.write_all(&self.signature)
    proof {
        lemma_recs_len(self.partitions@, 4);
        lemma_spliced_cat(b0, 446, recs(self.partitions@, 4), self.signature@);
        lemma_spliced_only(b0, 446, recs(self.partitions@, 4), 66);
    }
=== fn mbr::PartRecord::new_protective
tags: C12
--- spec
    ensures ret == rec_protective(if lb_size is Some { lb_size->0 } else { 0xFFFF_FFFF }), //@C12
=== fn mbr::PartRecord::zero
tags: C12
--- spec
    ensures ret == rec_zero(), //@C12
=== fn mbr::PartRecord::from_bytes
tags: C12
--- spec
    ensures
        ret is Ok <==> buf@.len() == 16, //@C12
        ret is Ok ==> rec_is(ret->Ok_0, buf@), //@C12
        ret is Err ==> ret->Err_0 is InvalidPartitionLength, //@C12
=== fn mbr::PartRecord::to_bytes
tags: C12 C13
--- spec
    ensures ret@ == rec_bytes(*self), //@C12 C13
--- hint start
    broadcast use lemma_spliced_prefix;
--- hint end
    proof {
        let h = seq![self.boot_indicator, self.start_head, self.start_sector, self.start_track, self.os_type, self.end_head, self.end_sector, self.end_track];
        assert(bytes.data() =~= bytes.data().take(16));
        assert(bytes.data() =~= rec_bytes(*self));
    }
=== fn mbr::read_bootcode
tags: C13
--- spec
    ensures mbr_read(old(device), final(device), 0, 440, ret is Ok, ret->Ok_0@), //@C13
=== fn mbr::write_bootcode
tags: C13
--- spec
    ensures mbr_write(old(device), final(device), 0, bootcode@, ret is Ok), //@C13
=== fn mbr::read_disk_signature
tags: C13
--- spec
    ensures mbr_read(old(device), final(device), 440, 4, ret is Ok, ret->Ok_0@), //@C13
=== fn mbr::write_disk_signature
tags: C13
--- spec
    ensures mbr_write(old(device), final(device), 440, sig@, ret is Ok), //@C13
=== fn mbr::<From<io::Error>forMBRError>::from
tags: C12 C13
--- spec
    ensures ret is Io, ret->Io_0 == e, //@C12 C13
