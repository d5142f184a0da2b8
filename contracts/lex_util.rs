//@include lex_spec.rs
//@methods is_ascii_digit=c_digit is_ascii_alphabetic=c_alpha is_ascii_alphanumeric=c_alnum is_ascii_hexdigit=c_hex insert=v_insert insert_str=v_insert_str chars=s_chars clone=v_clone
//@typemap String::from => string_from

//@fn src/parser/lexer_util.rs seek_end_by_predicate | params=chars,start,f
    requires old(chars).ok(), forall|c: char, b: bool| #[trigger] f.requires((c, b)),
    ensures final(chars).ok(), final(chars).src() == old(chars).src(), old(chars).pos() <= final(chars).pos(),
        r.2@ == old(chars).src().subrange(old(chars).pos(), final(chars).pos()),
        r.1 == (final(chars).pos() < old(chars).src().len()),
        r.0 == (if old(chars).pos() == old(chars).src().len() { start as int } else { final(chars).pos() }),
        forall|k: int| old(chars).pos() <= k < final(chars).pos() ==> f.ensures((#[trigger] old(chars).src()[k], esc(old(chars).src(), old(chars).pos(), k)), false),
        r.1 ==> f.ensures((old(chars).src()[final(chars).pos()], esc(old(chars).src(), old(chars).pos(), final(chars).pos())), true),
//@loop 0
    invariant chars.ok(), old(chars).ok(), forall|c: char, b: bool| #[trigger] f.requires((c, b)),
        chars.src() == old(chars).src(), old(chars).pos() <= chars.pos(),
        result@ == old(chars).src().subrange(old(chars).pos(), chars.pos()),
        escaped == esc(old(chars).src(), old(chars).pos(), chars.pos()),
        old(chars).pos() < chars.src().len(),
        chars.pos() > old(chars).pos() ==> end == chars.pos() - 1,
        forall|k: int| old(chars).pos() <= k < chars.pos() ==> f.ensures((#[trigger] old(chars).src()[k], esc(old(chars).src(), old(chars).pos(), k)), false),
    decreases chars.src().len() - chars.pos(),
//@loopbegin 0
    proof { if chars.pos() < chars.src().len() { assert(chars.src().subrange(old(chars).pos(), chars.pos() + 1) =~= chars.src().subrange(old(chars).pos(), chars.pos()).push(chars.src()[chars.pos()])); } }
//@end
//@text ADV
        final(chars).ok(), final(chars).src() == old(chars).src(), old(chars).pos() <= final(chars).pos(),
//@endtext
//@fn src/parser/lexer_util.rs get_shebang_ends | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        ({ let q = run_end(old(chars).src(), old(chars).pos(), LINE()); r.0 == q && r.1 == (if q < old(chars).src().len() { q + 1 } else { q }) && r.1 == final(chars).pos()
            && q >= start && r.2@ == old(chars).src().subrange(old(chars).pos(), q) }),
//@pre
    broadcast use g_lex; let ghost s = chars.src(); let ghost p = chars.pos(); proof { run_of(s, p, LINE()); }
//@end
//@fn src/parser/lexer_util.rs get_integer_end | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        run(old(chars).src(), old(chars).pos(), final(chars).pos(), DIGIT()), r.0 == final(chars).pos(), r.1 == (final(chars).pos() > old(chars).pos()),
        r.2@ == old(chars).src().subrange(old(chars).pos(), final(chars).pos()),
//@end
//@fn src/parser/lexer_util.rs get_hex_integer_end | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        run(old(chars).src(), old(chars).pos(), final(chars).pos(), HEX()), r.0 == final(chars).pos(), r.1 == (final(chars).pos() > old(chars).pos()),
        r.2@ == old(chars).src().subrange(old(chars).pos(), final(chars).pos()),
//@end
//@fn src/parser/lexer_util.rs get_float_end | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos() || old(chars).pos() < old(chars).src().len(),
    ensures
//@use ADV
        match num_end(old(chars).src(), old(chars).pos()) {
            Some(e) => r.1 && r.0 == e && final(chars).pos() == e && r.2@ =~= old(chars).src().subrange(old(chars).pos(), e),
            None => !r.1 },
//@pre
    broadcast use g_lex; let ghost s = chars.src(); let ghost p = chars.pos(); proof { run_of(s, p, DIGDOT()); }
//@end
//@fn src/parser/lexer_util.rs get_variable_end | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos(), start < old(chars).src().len(), cls(WORD(), old(chars).src()[start as int]),
    ensures
//@use ADV
        run(old(chars).src(), old(chars).pos(), final(chars).pos(), WORD()), r.0 == final(chars).pos(), r.1,
        r.2@ == old(chars).src().subrange(old(chars).pos(), final(chars).pos()),
//@end
//@fn src/parser/lexer_util.rs get_string_ends | params=chars,prefix,start closures
    requires old(chars).ok(), start <= MAXLEN(),
    ensures
//@use ADV
        r.2 ==> sclose(old(chars).src(), old(chars).pos(), prefix, final(chars).pos() - 1) && r.1 == final(chars).pos() && r.0 == r.1 - 1 && r.3@ == old(chars).src().subrange(old(chars).pos(), final(chars).pos() - 1),
        !r.2 ==> sopen(old(chars).src(), old(chars).pos(), prefix),
//@end
//@fn src/parser/lexer_util.rs get_oneline_comment_ends | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        r.2, ({ let q = run_end(old(chars).src(), old(chars).pos(), LINE()); r.0 == q && r.1 == (if q < old(chars).src().len() { q + 1 } else { q }) && r.1 == final(chars).pos()
            && q >= start && q <= old(chars).src().len() && r.3@ == old(chars).src().subrange(old(chars).pos(), q) }),
//@pre
    broadcast use g_lex; let ghost s = chars.src(); let ghost p = chars.pos(); proof { run_of(s, p, LINE()); }
//@end
//@fn src/parser/lexer_util.rs get_multiline_string_level | params=chars,start closures
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        run(old(chars).src(), old(chars).pos(), final(chars).pos(), 5), r == final(chars).pos() - old(chars).pos(),
//@end
//@fn src/parser/lexer_util.rs get_multiline_string_ends | params=chars,level,start
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        r.2 ==> r.1 == final(chars).pos() && lclose(old(chars).src(), old(chars).pos(), level as int, final(chars).pos() - level - 2) && r.0 == r.1 - level - 2
            && r.3@ == old(chars).src().subrange(old(chars).pos(), final(chars).pos() - level - 2),
        !r.2 ==> unclosed(old(chars).src(), old(chars).pos(), level as int),
//@pre
    broadcast use g_lex;
//@loop 0
    invariant chars.ok(), old(chars).ok(), chars.src() == old(chars).src(), old(chars).pos() <= chars.pos(), start == old(chars).pos(), end <= chars.src().len(),
        chars.pos() > old(chars).pos() ==> end < chars.src().len(),
        result@ == old(chars).src().subrange(old(chars).pos(), chars.pos()),
        forall|d: int| old(chars).pos() <= d < chars.pos() ==> !#[trigger] close_at(chars.src(), d, level as int),
    decreases chars.src().len() - chars.pos(),
//@loopbegin 0
    broadcast use g_lex;
    let ghost s = chars.src(); let ghost p = chars.pos();
//@end
//@fn src/parser/lexer_util.rs get_comment_start_ends_and_type | params=chars,start
    requires old(chars).ok(), start == old(chars).pos(),
    ensures
//@use ADV
        r.4 ==> r.2 == final(chars).pos() && comment_from(old(chars).src(), old(chars).pos(), final(chars).pos(), inc(r.3), r.5@),
        !r.4 ==> match lopen(old(chars).src(), old(chars).pos()) { Some(n) => unclosed(old(chars).src(), old(chars).pos() + n + 2, n), None => false },
//@pre
    broadcast use g_lex; let ghost s = chars.src(); let ghost p = chars.pos(); proof { reveal_strlit("["); run_of(s, p, LINE()); if p < s.len() { run_of(s, p + 1, 5); } }
//@end
