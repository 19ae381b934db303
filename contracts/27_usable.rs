// ---------------------------------------------------------------------------
// C02: the usable range of before a write is spared as well.
// ---------------------------------------------------------------------------
pub mod vusable {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vdisk::*;
    use crate::vwrite::*;
    use crate::vio::{Dev, same_dev};
    use crate::GptDisk;

    /// what write_inplace ensures about the device, in any outcome
    pub open spec fn write_frame<D: Dev>(a: GptDisk<D>, d: D) -> bool {
        same_dev(&d, &a.device) || plan_ok(a, a.device.bytes()) && wr_state(foot(a, a.device.bytes()), a.device, d)
    }
    /// a range within a spared one is spared
    pub proof fn lemma_within(f: int, l: int, f2: int, l2: int, lb: nat, a: Seq<u8>, z: Seq<u8>)
        requires spares(f, l, lb, a, z), f <= f2, l2 <= l,
        ensures spares(f2, l2, lb, a, z),
    {
        assert(f * lb <= f2 * lb) by (nonlinear_arith) requires f <= f2, lb >= 0;
        assert((l2 + 1) * lb <= (l + 1) * lb) by (nonlinear_arith) requires l2 <= l, lb >= 0;
    }
    /// if the header in memory kept its usable range clear of headers and tables, a write (whatever its
    /// outcome) changes no byte of that range, nor of block 0, even if the device has another size now
    pub proof fn lemma_old_usable<D: Dev>(g: GptDisk<D>, d: D)
        requires wf(g), layout_ok(eff(g), dlb(g)), write_frame(g, d),
        ensures spares(eff(g).first_usable as int, eff(g).last_usable as int, dlb(g), g.device.bytes(), d.bytes()), //@C02
    {
        let (h, lb, b) = (eff(g), dlb(g), g.device.bytes());
        lemma_spares_same(g.device, h.first_usable as int, h.last_usable as int, lb);
        if !same_dev(&d, &g.device) {
            let ph = plan_ph(g, b);
            lemma_spares(g);
            lemma_last_lba(b, lb);
            lemma_table_blocks(h.num_parts, h.part_size, lb);
            assert(ph.first_usable <= h.first_usable && h.last_usable <= ph.last_usable);
            lemma_within(ph.first_usable as int, ph.last_usable as int, h.first_usable as int, h.last_usable as int, lb, b, d.bytes());
        }
    }
}
