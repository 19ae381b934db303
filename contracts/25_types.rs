// ---------------------------------------------------------------------------
// C15: partition types as text.
// ---------------------------------------------------------------------------
pub mod vtypes {
    use vstd::prelude::*;
    use crate::vuuid::{Uuid, uuid_text};
    use crate::vstr::upper;
    use crate::partition_types::{Type, spec_os, spec_named};
    use crate::vspec::axiom_arr8;

    pub open spec fn is_hex(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
    pub open spec fn hexv(c: char) -> int {
        if '0' <= c <= '9' { c as u32 - 48 } else if 'a' <= c <= 'f' { c as u32 - 87 } else { c as u32 - 55 }
    }
    pub open spec fn h2(s: Seq<char>, i: int) -> bool { is_hex(s[i]) && is_hex(s[i + 1]) }
    pub open spec fn b2(s: Seq<char>, i: int) -> int { hexv(s[i]) * 16 + hexv(s[i + 1]) }
    /// xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx
    #[verifier::opaque]
    pub open spec fn hyph(s: Seq<char>) -> bool {
        &&& s.len() == 36 && s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-'
        &&& h2(s, 0) && h2(s, 2) && h2(s, 4) && h2(s, 6) && h2(s, 9) && h2(s, 11) && h2(s, 14) && h2(s, 16)
        &&& h2(s, 19) && h2(s, 21) && h2(s, 24) && h2(s, 26) && h2(s, 28) && h2(s, 30) && h2(s, 32) && h2(s, 34)
    }
    /// the GUID such a text denotes
    #[verifier::opaque]
    pub open spec fn hyph_is(s: Seq<char>, u: Uuid) -> bool {
        &&& u.d1 == ((b2(s, 0) * 256 + b2(s, 2)) * 256 + b2(s, 4)) * 256 + b2(s, 6)
        &&& u.d2 == b2(s, 9) * 256 + b2(s, 11)
        &&& u.d3 == b2(s, 14) * 256 + b2(s, 16)
        &&& u.d4@.len() == 8
        &&& u.d4@[0] == b2(s, 19) && u.d4@[1] == b2(s, 21) && u.d4@[2] == b2(s, 24) && u.d4@[3] == b2(s, 26)
        &&& u.d4@[4] == b2(s, 28) && u.d4@[5] == b2(s, 30) && u.d4@[6] == b2(s, 32) && u.d4@[7] == b2(s, 34)
    }
    /// the uuid crate reads the hyphenated form, digits in any case (proved of its source: deps/uuid.rs.in)
    pub axiom fn axiom_uuid_text(s: Seq<char>)
        requires hyph(s),
        ensures uuid_text(s) is Some, hyph_is(s, uuid_text(s)->0);
    pub proof fn lemma_hyph_unique(s: Seq<char>, a: Uuid, b: Uuid)
        requires hyph_is(s, a), hyph_is(s, b),
        ensures a == b,
    {
        reveal(hyph_is);
        broadcast use axiom_arr8;
        assert(a.d4@ =~= b.d4@);
    }
    pub proof fn lemma_up2(s: Seq<char>, i: int)
        requires 0 <= i, i + 1 < s.len(), h2(upper(s), i),
        ensures h2(s, i), b2(s, i) == b2(upper(s), i),
    { reveal(upper); }
    /// what the upper-case form denotes, the text itself denotes
    pub proof fn lemma_upper(s: Seq<char>)
        ensures
            upper(s).len() == s.len(),
            hyph(upper(s)) ==> uuid_text(s) is Some && forall|u: Uuid| #[trigger] hyph_is(upper(s), u) ==> uuid_text(s) == Some(u),
    {
        reveal(hyph); reveal(hyph_is); reveal(upper);
        if hyph(upper(s)) {
            lemma_up2(s, 0); lemma_up2(s, 2); lemma_up2(s, 4); lemma_up2(s, 6); lemma_up2(s, 9); lemma_up2(s, 11); lemma_up2(s, 14); lemma_up2(s, 16);
            lemma_up2(s, 19); lemma_up2(s, 21); lemma_up2(s, 24); lemma_up2(s, 26); lemma_up2(s, 28); lemma_up2(s, 30); lemma_up2(s, 32); lemma_up2(s, 34);
            assert(upper(s)[8] == '-' && upper(s)[13] == '-' && upper(s)[18] == '-' && upper(s)[23] == '-');
            assert(s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-');
            axiom_uuid_text(s);
            assert forall|u: Uuid| #[trigger] hyph_is(upper(s), u) implies uuid_text(s) == Some(u) by {
                assert(hyph_is(s, u));
                lemma_hyph_unique(s, u, uuid_text(s)->0);
            }
        }
    }
    /// the published name in any letter case, or any spelling of a GUID; everything else is an error
    pub open spec fn parsed(s: Seq<char>, r: Result<Type, String>) -> bool {
        match spec_named(upper(s)) {
            Some(t) => r is Ok && r->Ok_0 == t,
            None => match uuid_text(s) {
                Some(u) => r is Ok && r->Ok_0 == (Type { guid: u, os: spec_os(u) }),
                None => r is Err,
            },
        }
    }
}
