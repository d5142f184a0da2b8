pub open spec fn word(s: Seq<char>, l: int, e: int) -> bool { run(s, l, e, WORD()) && l < e && !sp_digit(s[l]) }
/// the end of the numeral that starts at l, if it is well formed
pub open spec fn numeral(s: Seq<char>, l: int) -> Option<int> {
    if s[l] == '0' && l + 1 < s.len() && s[l + 1] == 'x' { let e = run_end(s, l + 2, HEX()); if e > l + 2 { Some(e) } else { None } }
    else if sp_digit(s[l]) || (s[l] == '.' && l + 1 < s.len() && sp_digit(s[l + 1])) { num_end(s, l + 1) }
    else { None }
}
pub open spec fn num_start(s: Seq<char>, l: int) -> bool { sp_digit(s[l]) || (s[l] == '.' && l + 1 < s.len() && sp_digit(s[l + 1])) }
