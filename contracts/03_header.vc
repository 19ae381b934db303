=== fn header::CRC_32
tags: C03 C04
--- spec
    ensures CRC_32.alg() == 1
=== fn header::HeaderError::lossy_clone
tags: C11
--- spec
    ensures
        self is Io <==> ret is Io, //@C11
        self is InvalidGptSignature <==> ret is InvalidGptSignature, //@C11
        self is InvalidCRC32Checksum <==> ret is InvalidCRC32Checksum, //@C11
        self is MissingBackupLba <==> ret is MissingBackupLba, //@C11
        self is BackupLbaToEarly <==> ret is BackupLbaToEarly, //@C11
        self is WritingToWrongLba <==> ret is WritingToWrongLba, //@C11
        self is Overflow <==> ret is Overflow, //@C11
        self is ToSmallForBackup <==> ret is ToSmallForBackup, //@C11
        self is WrongLba <==> ret is WrongLba, //@C11
=== fn header::Header::write_primary
tags: C03 C02 C10
--- spec
    requires
        old(self).signature@ == "EFI PART"@, //@C03
        table_len(*old(self)) <= isize::MAX,
    ensures
        // refused unless it lies before its alternate
        old(self).current_lba >= old(self).backup_lba ==> ret is Err && same_dev(final(file), old(file)) && final(file).errors() == old(file).errors(), //@C03 C02
        wrote_header(*old(self), *final(self), old(file), final(file), lbs(lb_size), ret), //@C03 C02 C10
        ret is Err ==> final(file).errors() > old(file).errors() || old(self).current_lba >= old(self).backup_lba || old(self).current_lba * lbs(lb_size) > u64::MAX || table_at(*old(self), lbs(lb_size)) > u64::MAX, //@C10
=== fn header::Header::write_backup
tags: C03 C02 C10
--- spec
    requires
        old(self).signature@ == "EFI PART"@, //@C03
        table_len(*old(self)) <= isize::MAX,
    ensures
        old(self).current_lba <= old(self).backup_lba ==> ret is Err && same_dev(final(file), old(file)) && final(file).errors() == old(file).errors(), //@C03 C02
        wrote_header(*old(self), *final(self), old(file), final(file), lbs(lb_size), ret), //@C03 C02 C10
        ret is Err ==> final(file).errors() > old(file).errors() || old(self).current_lba <= old(self).backup_lba || old(self).current_lba * lbs(lb_size) > u64::MAX || table_at(*old(self), lbs(lb_size)) > u64::MAX, //@C10
=== fn header::Header::file_write_header
tags: C03 C02 C10
--- spec
    requires
        lba == old(self).current_lba,
        old(self).signature@ == "EFI PART"@, //@C03
        table_len(*old(self)) <= isize::MAX,
    ensures
        wrote_header(*old(self), *final(self), old(file), final(file), lbs(lb_size), ret), //@C03 C02 C10
        ret is Err ==> final(file).errors() > old(file).errors() || old(self).current_lba * lbs(lb_size) > u64::MAX || table_at(*old(self), lbs(lb_size)) > u64::MAX, //@C10
--- hint start
    broadcast use lemma_efi_bytes;
    let ghost h0 = *self;
--- hint after stmt let(checksum_pos,mut header_bytes)
    proof { lemma_hdr_bytes(h0, 0, parts_checksum); }
--- hint after stmt header_bytes.write_le_u32(checksum)
    proof {
        lemma_hdr_bytes(h0, checksum, parts_checksum);
        assert(header_bytes.data() == hdr_bytes(h0, checksum, parts_checksum));
        assert(checksum == crate::vcrc::crc32(hdr_bytes(h0, 0, parts_checksum)));
    }
--- hint after stmt file.write_all(&bytes)
    proof {
        assert(bytes@.take(92) =~= header_bytes.data());
        assert forall|i: int| 92 <= i < bytes@.len() implies bytes@[i] == 0 by {}
        lemma_hdr_block(h0, checksum, parts_checksum, lbs(lb_size), bytes@);
    }
=== fn header::Header::num_parts_would_change
tags: C19 C07
--- spec
    ensures ret == (partitions_len > self.num_parts || self.num_parts < 128), //@C19 C07
=== fn header::Header::to_bytes
tags: C03
--- spec
    requires str_bytes(self.signature@).len() == 8,
    ensures
        ret.0 == 16, //@C03
        ret.1.data() == hdr_bytes(*self, 0, partitions_checksum), //@C03
        ret.1.bpos() <= 92, //@C03
--- hint start
    broadcast use lemma_spliced_prefix;
--- hint end
    proof {
        lemma_hdr_bytes(*self, 0, partitions_checksum);
        assert(bytes.data() =~= bytes.data().take(92));
        assert(Seq::<u8>::empty() + str_bytes(self.signature@) =~= str_bytes(self.signature@));
        assert([0u8; 92]@.take(0) =~= Seq::<u8>::empty());
    }
=== fn header::parse_uuid
tags: C04
--- spec
    requires old(rdr).bpos() <= old(rdr).data().len(),
    ensures
        ret is Ok <==> old(rdr).bpos() + 16 <= old(rdr).data().len(), //@C04
        ret is Ok ==> took(old(rdr), final(rdr), 16) && ret->Ok_0 == guid_decode(old(rdr).data(), old(rdr).bpos() as int), //@C04 C09
        ret is Err ==> took(old(rdr), final(rdr), 0),
--- hint start
    broadcast use axiom_arr8;
=== fn header::read_header
tags: C04
=== fn header::read_header_from_arbitrary_device
tags: C04 C09
--- spec
    ensures read_hdr(old(device), final(device), lbs(sector_size) as int, 1, ret), //@C04 C09
=== fn header::read_primary_header
tags: C04 C09 C20
--- spec
    ensures
        read_hdr(old(file), final(file), lbs(sector_size) as int, 1, ret), //@C04 C09 C11
        ret is Ok ==> read_hdr(old(file), final(file), lbs(sector_size) as int, 1, ret), //@C20
=== fn header::read_backup_header
tags: C04 C09 C20
--- spec
    ensures
        same_dev(final(file), old(file)), //@C18 C04
        ret is Ok ==> old(file).bytes().len() >= 3 * lbs(sector_size) //@C04 C20
            && read_hdr(old(file), final(file), last_lba(old(file).bytes(), lbs(sector_size)) * lbs(sector_size), last_lba(old(file).bytes(), lbs(sector_size)) as u64, ret),
        // rejected only for a reason
        ret is Err ==> final(file).errors() > old(file).errors() || old(file).bytes().len() < 3 * lbs(sector_size) //@C04
            || !hdr_valid(seg(old(file).bytes(), last_lba(old(file).bytes(), lbs(sector_size)) * lbs(sector_size), 92), last_lba(old(file).bytes(), lbs(sector_size)) as u64),
        ret is Err && final(file).errors() == old(file).errors() && old(file).bytes().len() >= 3 * lbs(sector_size) //@C04 C11
            ==> hdr_verdict(seg(old(file).bytes(), last_lba(old(file).bytes(), lbs(sector_size)) * lbs(sector_size), 92), last_lba(old(file).bytes(), lbs(sector_size)) as u64, ret->Err_0),
        final(file).errors() >= old(file).errors(),
        old(file).reliable() && old(file).bytes().len() <= u64::MAX ==> final(file).errors() == old(file).errors(),
--- hint start
    proof { lemma_last_lba(file.bytes(), lbs(sector_size)); }
=== fn header::file_read_header
tags: C04 C09 C20
--- spec
    ensures
        read_hdr(old(file), final(file), offset as int, lba, ret), //@C04 C09
        ret is Ok ==> read_hdr(old(file), final(file), offset as int, lba, ret), //@C20
--- hint start
    broadcast use {lemma_lossy_efi, axiom_arr8};
    let ghost p0 = file.pos();
--- hint after stmt bytes.write_u32(0)
    proof {
        let b = seg(file.bytes(), offset as int, 92);
        lemma_be_zero();
        assert(b.subrange(0, 8) =~= b.take(8));
    }
=== fn header::find_backup_lba
tags: C04 C09 C05
--- spec
    ensures
        same_dev(final(f), old(f)), //@C18 C04
        ret is Ok ==> old(f).bytes().len() >= 3 * lbs(sector_size) && ret->Ok_0 == last_lba(old(f).bytes(), lbs(sector_size)) //@C04 C05
            && final(f).pos() == old(f).pos() && final(f).errors() == old(f).errors() && 2 <= ret->Ok_0 && old(f).bytes().len() <= u64::MAX,
        ret is Err ==> final(f).errors() > old(f).errors() || old(f).bytes().len() < 3 * lbs(sector_size), //@C04
        final(f).errors() >= old(f).errors(),
        old(f).reliable() && old(f).bytes().len() <= u64::MAX ==> final(f).errors() == old(f).errors(),
--- hint start
    proof { lemma_last_lba(f.bytes(), lbs(sector_size)); }
=== fn header::calculate_crc32
tags: C03 C04
--- spec
    ensures ret == crate::vcrc::crc32(b@), //@C03 C04
--- hint end
    assert(Seq::<u8>::empty() + b@ =~= b@);
=== fn header::partentry_checksum
tags: C03
--- spec
    requires table_len(*hdr) <= isize::MAX,
    ensures
        same_dev(final(file), old(file)), //@C02
        final(file).errors() >= old(file).errors(),
        ret is Ok ==> final(file).errors() == old(file).errors() && table_in(*hdr, old(file).bytes(), lbs(lb_size)) //@C03 C10
            && ret->Ok_0 == crate::vcrc::crc32(table_of(*hdr, old(file).bytes(), lbs(lb_size))),
        ret is Err ==> final(file).errors() > old(file).errors() || hdr.part_start * lbs(lb_size) > u64::MAX,
        old(file).reliable() && table_in(*hdr, old(file).bytes(), lbs(lb_size)) ==> final(file).errors() == old(file).errors(),
--- hint start
    proof { lemma_num_size(hdr.num_parts, hdr.part_size); }
--- hint end
    proof { assert(buf@ =~= table_of(*hdr, old(file).bytes(), lbs(lb_size))); }
=== fn header::write_header
tags: C03
=== fn header::<From<Error>forHeaderError>::from
tags: C10 C04
--- spec
    ensures ret is Io, ret->Io_0 == e, //@C10 C04
