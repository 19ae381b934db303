=== fn partition_types::Type::from_name
tags: C15
--- spec
    ensures crate::vtypes::parsed(name@, ret), //@C15
=== fn partition_types::<FromStrforType>::from_str
tags: C15
--- spec
    ensures crate::vtypes::parsed(s@, ret), //@C15
--- hint start
    proof {
        lemma_texts(); lemma_guids_distinct(); reveal(spec_named); lemma_not_named(crate::vstr::upper(s@)); crate::vtypes::lemma_upper(s@);
    }
=== fn partition_types::<From<Uuid>forType>::from
tags: C15
--- hint start
    proof { reveal(spec_os); }
=== fn macros::<ResultInsert<T>forResult<T,E>>::insert_ok
tags: C01 C11
--- spec
    ensures *ret == value, *final(self) == Ok::<T, E>(*final(ret)), //@C01 C11
=== fn partition_types::<DefaultforType>::default
tags: C15
--- spec
    ensures is_nil(ret.guid), ret.os is None, //@C15
--- hint start
    proof { reveal(k_UNUSED); assert([0u8, 0, 0, 0, 0, 0, 0, 0]@ =~= zeros(8)); }
