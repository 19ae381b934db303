=== fn header::builder::HeaderBuilder::new
tags: C05
--- spec
    ensures
        ret.primary, ret.primary_lba == 1, ret.backup_lba == 0, ret.first_usable == 0, ret.last_usable == 0, //@C05
        ret.num_parts == 128, ret.part_size == 128, //@C05 C19
=== fn header::builder::<DefaultforHeaderBuilder>::default
tags: C05
--- spec
    ensures
        ret.primary, ret.primary_lba == 1, ret.backup_lba == 0, ret.first_usable == 0, ret.last_usable == 0, //@C05
        ret.num_parts == 128, ret.part_size == 128, //@C05
=== fn header::builder::HeaderBuilder::from_header
tags: C05
--- spec
    ensures ret == spec_from_header(*header), //@C05 C01 C11
=== fn header::builder::HeaderBuilder::from_maybe_header
tags: C05
--- spec
    ensures
        header is Ok ==> ret == spec_from_header(*header->Ok_0), //@C05 C07 C19
        header is Err ==> ret.primary && ret.primary_lba == 1 && ret.backup_lba == 0 && ret.first_usable == 0 && ret.last_usable == 0 //@C05 C19
            && ret.num_parts == 128 && ret.part_size == 128,
--- closure |_| Self::new()
|__e: HeaderError| -> (b: Self) ensures b.primary, b.primary_lba == 1, b.backup_lba == 0, b.first_usable == 0, b.last_usable == 0, b.num_parts == 128, b.part_size == 128
=== fn header::builder::HeaderBuilder::primary
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { primary, ..*old(self) }), *final(self) == *final(ret), //@C05
=== fn header::builder::HeaderBuilder::disk_guid
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { disk_guid, ..*old(self) }), *final(self) == *final(ret), //@C05
=== fn header::builder::HeaderBuilder::backup_lba
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { backup_lba, ..*old(self) }), *final(self) == *final(ret), //@C05
=== fn header::builder::HeaderBuilder::first_usable
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { first_usable, ..*old(self) }), *final(self) == *final(ret), //@C05
=== fn header::builder::HeaderBuilder::last_usable
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { last_usable, ..*old(self) }), *final(self) == *final(ret), //@C05
=== fn header::builder::HeaderBuilder::num_parts
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { num_parts: if num_parts < 128 { 128 } else { num_parts }, ..*old(self) }), *final(self) == *final(ret), //@C05 C19
=== fn header::builder::HeaderBuilder::part_size
tags: C05
--- spec
    ensures *ret == (HeaderBuilder { part_size, ..*old(self) }), *final(self) == *final(ret), //@C05
=== fn header::builder::HeaderBuilder::build
tags: C05
--- spec
    ensures
        *final(self) == *old(self), //@C05
        ret is Ok <==> spec_build_ok(*old(self), lbs(lb_size)), //@C05
        ret is Ok ==> hdr_eq(ret->Ok_0, spec_build(*old(self), lbs(lb_size))), //@C05
        // the layout, in order and without overlap
        ret is Ok ==> layout_ok(ret->Ok_0, lbs(lb_size)), //@C05
--- hint start
    proof { lemma_num_size(self.num_parts, self.part_size); lemma_table_blocks(self.num_parts, self.part_size, lbs(lb_size)); }
--- hint after stmt let part_array_lbs
    assert(part_array_lbs == table_blocks(self.num_parts, self.part_size, lbs(lb_size)));
=== fn header::builder::u64_div_ceil
tags: C05
--- spec
    requires rhs > 0, lhs + rhs - 1 <= u64::MAX,
    ensures ret == ceil_div(lhs as nat, rhs as nat), //@C05
--- hint start
    proof { lemma_ceil_forms(lhs as nat, rhs as nat); }
