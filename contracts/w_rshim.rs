// the ways of writing, and what they add to the text read so far
/// write!(f, "token")
pub fn w_lit(f: &mut String, s: &str) -> (r: WR) ensures final(f)@ == old(f)@ + s@,
    forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, push_t(P, s@)),
//@if C01
    is_cmt(s@) ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
//@fi
//@if C02
    forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, push_c(P, s@)) && final(f)@[0] == old(f)@[0],
//@fi
{
    proof { assert forall|P: Acc| #[trigger] R(f@, P) implies R(f@ + s@, push_t(P, s@)) by { lem_R_t(f@, s@, P); }
//@if C01
        assert forall|P: Acc| is_cmt(s@) && #[trigger] RC(f@, P) implies RC(f@ + s@, P) && (f@ + s@)[0] == f@[0] by { lem_RC_app(f@, s@); lem_R_c(f@.skip(1), s@, P); }
//@fi
//@if C02
        assert forall|P: Acc| #[trigger] RC(f@, P) implies RC(f@ + s@, push_c(P, s@)) && (f@ + s@)[0] == f@[0] by { lem_RC_app(f@, s@); lem_R_c(f@.skip(1), s@, P); }
//@fi
    }
    raw_str(f, s)
}
/// write!(f, " ") and the like
pub fn w_ws(f: &mut String, s: &str) -> (r: WR) requires is_ws(s@) ensures final(f)@ == old(f)@ + s@,
    forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, P),
    forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
{
    proof {
        assert forall|P: Acc| #[trigger] R(f@, P) implies R(f@ + s@, P) by { lem_R_ws(f@, s@, P); }
        assert forall|P: Acc| #[trigger] RC(f@, P) implies RC(f@ + s@, P) && (f@ + s@)[0] == f@[0] by { lem_RC_app(f@, s@); lem_R_ws(f@.skip(1), s@, P); }
    }
    raw_str(f, s)
}
/// write!(f, "{}", x)
pub fn w_disp<T: Disp + ?Sized>(f: &mut String, x: &T) -> (r: WR) ensures final(f)@ == old(f)@ + x.d(),
    forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, push_t(P, x.d())),
    forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, push_o(P, x.d())),
    forall|P: Acc, Q: Acc| #[trigger] R(old(f)@, P) && #[trigger] R(x.d(), Q) ==> R(final(f)@, cat(P, Q)),
    is_ws(x.d()) ==> forall|P: Acc| #[trigger] R(old(f)@, P) ==> R(final(f)@, P),
    is_ws(x.d()) ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
//@if C01
    is_cmt(x.d()) ==> forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, P) && final(f)@[0] == old(f)@[0],
//@fi
//@if C02
    forall|P: Acc| #[trigger] RC(old(f)@, P) ==> RC(final(f)@, push_c(P, x.d())) && final(f)@[0] == old(f)@[0],
//@fi
{
    proof {
        let s = x.d();
        assert forall|P: Acc| #[trigger] R(f@, P) implies R(f@ + s, push_t(P, s)) && R(f@ + s, push_o(P, s)) by { lem_R_t(f@, s, P); lem_R_o(f@, s, P, s); }
        assert forall|P: Acc, Q: Acc| #[trigger] R(f@, P) && #[trigger] R(s, Q) implies R(f@ + s, cat(P, Q)) by { lem_R_cat(f@, s, P, Q); }
        assert forall|P: Acc| is_ws(s) && #[trigger] R(f@, P) implies R(f@ + s, P) by { lem_R_ws(f@, s, P); }
        assert forall|P: Acc| is_ws(s) && #[trigger] RC(f@, P) implies RC(f@ + s, P) && (f@ + s)[0] == f@[0] by { lem_RC_app(f@, s); lem_R_ws(f@.skip(1), s, P); }
//@if C01
        assert forall|P: Acc| is_cmt(s) && #[trigger] RC(f@, P) implies RC(f@ + s, P) && (f@ + s)[0] == f@[0] by { lem_RC_app(f@, s); lem_R_c(f@.skip(1), s, P); }
//@fi
//@if C02
        assert forall|P: Acc| #[trigger] RC(f@, P) implies RC(f@ + s, push_c(P, s)) && (f@ + s)[0] == f@[0] by { lem_RC_app(f@, s); lem_R_c(f@.skip(1), s, P); }
//@fi
    }
    raw_disp(f, x)
}
