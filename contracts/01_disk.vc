=== fn disk::LogicalBlockSize::as_usize
tags: C16
--- spec
    ensures ret == lbs(*self), //@C16
=== fn disk::LogicalBlockSize::as_u64
tags: C16
--- spec
    ensures ret == lbs(*self), //@C16
=== fn disk::<From<LogicalBlockSize>foru64>::from
tags: C16
=== fn disk::<From<LogicalBlockSize>forusize>::from
tags: C16
=== fn disk::<TryFrom<u64>forLogicalBlockSize>::try_from
tags: C16
--- spec
    ensures
        ret is Ok <==> (v == 512 || v == 4096), //@C16
        ret is Ok ==> lbs(ret->Ok_0) == v, //@C16
=== fn disk::read_disk
tags: C11
--- spec
    ensures ret is Ok ==> wf(ret->Ok_0) && ret->Ok_0.config == (GptConfig { lb_size: crate::disk::LogicalBlockSize::Lb512, writable: false, only_valid_headers: false, readonly_backup: false, change_partition_count: false }), //@C11
