=== fn partition::CRC_32
tags: C04
--- spec
    ensures CRC_32.alg() == 1
=== fn partition::Partition::zero
tags: C14
--- spec
    ensures !used(ret), ret.first_lba == 0, ret.last_lba == 0, ret.flags == 0, is_nil(ret.part_guid), //@C14
--- hint end
    proof { reveal(crate::partition_types::k_UNUSED); assert([0u8, 0, 0, 0, 0, 0, 0, 0]@ =~= zeros(8)); }
=== fn partition::Partition::as_bytes
tags: C14 C03
loops: 1
--- spec
    ensures
        ret is Ok, //@C14
        ret->Ok_0@ == entry_bytes(*self, entry_size as nat), //@C14
--- hint start
    broadcast use {lemma_cat_assoc, lemma_cat_empty};
--- hint before loop 0
    proof { assert(buf@ == entry_head(*self)); assert(name_bytes(Seq::<u16>::empty()) =~= Seq::<u8>::empty()); assert(utf16(self.name@).take(0) =~= Seq::<u16>::empty()); }
--- loop 0
    __vs0 == take_up_to(utf16(self.name@), 36),
    buf@ == entry_head(*self) + name_bytes(__vs0.take(__vit0.idx() as int)),
--- hint loop 0 end
    proof {
        let i = __vit0.idx() as int;
        assert(__vs0.take(i).drop_last() =~= __vs0.take(i - 1));
        assert(buf@ =~= entry_head(*self) + name_bytes(__vs0.take(i)));
    }
--- hint after loop 0
    proof {
        assert(__vs0.take(__vs0.len() as int) =~= __vs0);
        assert(buf@ == entry_raw(*self));
    }
--- hint after stmt buf.resize
    assert(buf@ =~= entry_bytes(*self, entry_size as nat));
=== fn partition::Partition::write
tags: C14
--- spec
    ensures ret is Ok ==> true,
=== fn partition::Partition::write_to_device
tags: C14 C02 C10
--- spec
    ensures
        wrote_at(old(device), final(device), start_lba * lbs(lb_size) + partition_index * bytes_per_partition, entry_bytes(*self, bytes_per_partition as nat), ret), //@C14 C02 C10
--- hint start
    proof { lemma_mul_nonneg(start_lba as int, lbs(lb_size) as int); lemma_mul_nonneg(partition_index as int, bytes_per_partition as int); }
=== fn partition::Partition::write_zero_entries_to_device
tags: C14 C02 C10
--- spec
    requires bytes_per_partition * number_entries <= isize::MAX,
    ensures
        wrote_at(old(device), final(device), start_lba * lbs(lb_size) + starting_partition_index * bytes_per_partition, zeros((bytes_per_partition * number_entries) as nat), ret), //@C14 C02 C10
--- hint start
    proof { lemma_mul_nonneg(start_lba as int, lbs(lb_size) as int); lemma_mul_nonneg(starting_partition_index as int, bytes_per_partition as int); lemma_mul_nonneg(bytes_per_partition as int, number_entries as int); }
--- closure |x| usize::try_from(x).ok()
|x: u64| -> (o: Option<usize>) ensures o == Some(x as usize)
=== fn partition::Partition::bytes_len
tags: C16 C09
--- spec
    ensures
        ret is Ok <==> self.first_lba <= self.last_lba && (self.last_lba - self.first_lba + 1) * lbs(lb_size) <= u64::MAX, //@C16
        ret is Ok ==> ret->Ok_0 == (self.last_lba - self.first_lba + 1) * lbs(lb_size), //@C16
--- hint start
    proof { if self.first_lba <= self.last_lba { lemma_mul_grows(self.last_lba - self.first_lba + 1, lbs(lb_size) as int); } }
=== fn partition::Partition::bytes_start
tags: C16 C09
--- spec
    ensures
        ret is Ok <==> self.first_lba * lbs(lb_size) <= u64::MAX, //@C16
        ret is Ok ==> ret->Ok_0 == self.first_lba * lbs(lb_size), //@C16
=== fn partition::Partition::is_used
tags: C06 C08 C09
--- spec
    ensures ret == used(*self), //@C06 C08
--- hint start
    broadcast use axiom_arr8;
    proof { reveal(crate::partition_types::k_UNUSED); assert([0u8, 0, 0, 0, 0, 0, 0, 0]@ =~= zeros(8)); }
=== fn partition::Partition::sectors_len
tags: C16 C09
--- spec
    ensures
        ret is Ok <==> self.first_lba <= self.last_lba && self.last_lba - self.first_lba + 1 <= u64::MAX, //@C16
        ret is Ok ==> ret->Ok_0 == self.last_lba - self.first_lba + 1, //@C16
=== fn partition::read_partitions
tags: C04
=== fn partition::file_read_partitions
tags: C04 C09 C20
attr: #[verifier::rlimit(80)] #[verifier::spinoff_prover]
loops: 2
--- spec
    ensures
        read_table(old(file), final(file), *header, lbs(lb_size), ret), //@C04 C09
        ret is Ok ==> read_table(old(file), final(file), *header, lbs(lb_size), ret), //@C20
--- hint start
    broadcast use axiom_arr8;
    proof { lemma_num_size(header.num_parts, header.part_size); lemma_mul_nonneg(header.part_start as int, lbs(lb_size) as int); }
    let ghost f0 = *file;
    let ghost all = f0.bytes();
    let ghost tab = all.subrange(header.part_start * lbs(lb_size), all.len() as int);
--- hint before loop 0
    proof { assert(empty_bytes@ =~= zeros(128)); }
--- loop 0
    same_dev(file, &f0),
    file.errors() == f0.errors(),
    file.pos() == pstart + 128 * __vit0.idx(),
    __vs0.len() == header.num_parts,
    forall|i: int| 0 <= i < __vs0.len() ==> #[trigger] __vs0[i] == i,
    empty_parts <= __vit0.idx(),
    pstart + 128 * __vit0.idx() <= all.len() || __vit0.idx() == 0,
    decodes(parts@, tab, __vit0.idx() as int),
--- hint before stmt if bytes.eq
    proof {
        assert(bytes@ =~= slot(tab, i as int));
        if bytes@ == zeros(128) { assert(bytes@ =~= empty_bytes@); assert(bytes == empty_bytes); }
    }
--- hint after stmt let mut reader
    assert(reader.data() == bytes@);
--- hint before stmt empty_parts+=1
    proof {
        assert(bytes@ == zeros(128));
        assert(slot(tab, i as int) == zeros(128));
        let n = __vit0.idx() as int;
        assert(n == i + 1);
        assert forall|k: u32| #[trigger] parts@.dom().contains(k) <==> 1 <= k <= n && slot(tab, k - 1) != zeros(128) by {
            if k == i + 1 { assert(k - 1 == i); }
        }
    }
--- hint after stmt parts.insert
    proof {
        assert(bytes@ != zeros(128));
        let n = __vit0.idx() as int;
        assert(n == i + 1);
        assert(entry_is(p, slot(tab, i as int)));
    }
--- hint before stmt let comp_crc
    proof {
        let t = table_of(*header, all, lbs(lb_size));
        assert(table@ =~= t);
        assert forall|k: int| 0 <= k < header.num_parts implies #[trigger] slot(t, k) == slot(tab, k) by { assert(slot(t, k) =~= slot(tab, k)); }
    }
--- loop 1
    reader.data() == bytes@, reader.bpos() == 56 + 2 * __vk1,
    forall|j: int| 0 <= j < __vk1 ==> #[trigger] name_bytes@[j] == unit(bytes@, j),
    zero_pos <= 36, zero_pos < __vk1 || zero_pos == 36,
    zero_pos < 36 ==> unit(bytes@, zero_pos as int) == 0,
    forall|j: int| 0 <= j < imin(zero_pos as int, __vk1 as int) ==> #[trigger] unit(bytes@, j) != 0,
--- hint after loop 1
    proof {
        lemma_nul_pos(bytes@, 0, zero_pos as int);
        assert(name_bytes@.take(zero_pos as int) =~= name_units(bytes@));
    }
