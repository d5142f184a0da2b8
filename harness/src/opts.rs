//! Table of every documented option (name, field, type), written out independently of Config::set.
use luafmt::config::*;

#[macro_export]
macro_rules! for_each_option {
    ($m:ident) => {
        $m!(replace_zero_spaces_with_hint, bool);
        $m!(hint_after_multiline_comment, String);
        $m!(hint_after_multiline_comment_text, String);
        $m!(hint_before_comment, String);
        $m!(hint_before_multiline_comment_text, String);
        $m!(hint_before_oneline_comment_text, String);
        $m!(hint_table_constructor, String);
        $m!(remove_comments, bool);
        $m!(remove_single_newlines, bool);
        $m!(remove_all_newlines, bool);
        $m!(remove_spaces_between_tokens, bool);
        $m!(write_newline_at_eof, bool);
        $m!(write_newline_at_multiline_table, bool);
        $m!(write_newline_at_explist_multiline_table, bool);
        $m!(indentation_string, String);
        $m!(indent_var_suffix, bool);
        $m!(indent_one_line_var_suffix, bool);
        $m!(indent_exp_list, bool);
        $m!(indent_one_line_exp_list, bool);
        $m!(newline_format_first_oneline_comment, usize);
        $m!(newline_format_first_multiline_comment, usize);
        $m!(newline_format_oneline_comment, usize);
        $m!(newline_format_multiline_comment, usize);
        $m!(newline_format_statement, usize);
        $m!(newline_format_do_end, usize);
        $m!(newline_format_for, usize);
        $m!(newline_format_function, usize);
        $m!(newline_format_if, usize);
        $m!(newline_format_repeat_until, usize);
        $m!(newline_format_table_constructor, usize);
        $m!(newline_format_table_field, usize);
        $m!(newline_format_while, usize);
        $m!(newline_format_binary_op, usize);
        $m!(newline_format_var_suffix, usize);
        $m!(newline_format_exp_list, usize);
        $m!(newline_format_exp_list_first, usize);
        $m!(field_separator, String);
        $m!(write_trailing_field_separator, bool);
        $m!(convert_charstring_to_normalstring, bool);
        $m!(max_width, usize);
        $m!(force_single_line_binary_op, bool);
        $m!(force_single_line_table, bool);
        $m!(force_single_line_iv_table_field, bool);
        $m!(force_single_line_kv_table_field, bool);
        $m!(force_single_line_if, bool);
        $m!(force_single_line_top_level_function, bool);
        $m!(force_single_line_scoped_function, bool);
        $m!(force_single_line_var_suffix, bool);
        $m!(force_single_line_exp_list, bool);
    };
}

pub trait FromStr2: Sized {
    fn ok(s: &str) -> Option<Self>;
}
impl FromStr2 for bool {
    fn ok(s: &str) -> Option<bool> {
        match s {
            "true" => Some(true),
            "false" => Some(false),
            _ => None,
        }
    }
}
impl FromStr2 for usize {
    fn ok(s: &str) -> Option<usize> {
        let t = s.strip_prefix('+').unwrap_or(s);
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut v: usize = 0;
        for b in t.bytes() {
            v = v.checked_mul(10)?.checked_add((b - b'0') as usize)?;
        }
        Some(v)
    }
}
impl FromStr2 for String {
    fn ok(s: &str) -> Option<String> {
        Some(s.to_string())
    }
}

/// Reference semantics of setting one option (independent of Config::set).
pub fn ref_set(cfg: &mut Config, name: &str, value: &str) {
    macro_rules! one {
        ($f:ident, $t:ty) => {
            if name == stringify!($f) {
                if let Some(v) = <$t as FromStr2>::ok(value) {
                    cfg.fmt.$f = Some(v);
                }
                return;
            }
        };
    }
    for_each_option!(one);
    if name == "line_range" {
        let parts: Vec<&str> = value.split(':').collect();
        if parts.len() == 2 && parts.iter().all(|p| !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit())) {
            if let (Some(a), Some(b)) = (usize::ok(parts[0]), usize::ok(parts[1])) {
                cfg.line_range = Some((a, b));
            }
        }
    }
}

pub fn names() -> Vec<(&'static str, &'static str)> {
    let mut v = Vec::new();
    macro_rules! one {
        ($f:ident, $t:ty) => {
            v.push((stringify!($f), stringify!($t)));
        };
    }
    for_each_option!(one);
    v
}
