// C08, C10, C11, C12: files, configuration files and the program around the formatter
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::collections::HashMap;
verus! {
//@modules crate parser fmt std file_util fs io formatter util reconstruction config lua_ast luafmt
//@methods starts_with=sw
//@typemap io::Result<Vec<PathBuf>> => Result<Vec<PathBuf>, Error>
//@typemap io::Result<Option<PathBuf>> => Result<Option<PathBuf>, Error>
//@typemap Path => PathBuf
//@typemap Path::new => PathBuf::new
//@include std_shim.rs
//@include fs_shim.rs

// ---- C11
pub open spec fn picked(e: PV, ext: Seq<char>, prefix: Seq<char>) -> bool {
    is_file_(e) && ext_(e) == Some(ext) && (name_(e) matches Some(n) && !pfx(prefix, n))
}
/// the files selected by a path argument (None: reported as unresolved)
pub open spec fn sel(p: PV, rec: bool, ext: Seq<char>, prefix: Seq<char>) -> Option<Multiset<PV>>
    decreases depth(p), 1int, 0int
{
    if is_dir_(p) {
        match items_(p) { Some(it) => sel_items(p, it, it.len() as int, rec, ext, prefix), None => None }
    } else if is_file_(p) { Some(Multiset::empty().insert(p)) } else { None }
}
pub open spec fn sel_items(p: PV, it: Seq<Option<PV>>, k: int, rec: bool, ext: Seq<char>, prefix: Seq<char>) -> Option<Multiset<PV>>
    decreases depth(p), 0int, k
{
    if k <= 0 || k > it.len() { Some(Multiset::empty()) } else {
        match (sel_items(p, it, k - 1, rec, ext, prefix), it[k - 1]) {
            (Some(m), Some(e)) =>
                if is_dir_(e) && rec {
                    if depth(e) < depth(p) { match sel(e, true, ext, prefix) { Some(x) => Some(m.add(x)), None => None } } else { None }
                } else if picked(e, ext, prefix) { Some(m.insert(e)) } else { Some(m) },
            _ => None,
        }
    }
}
pub broadcast proof fn sel_none(p: PV, it: Seq<Option<PV>>, k: int, n: int, rec: bool, ext: Seq<char>, prefix: Seq<char>)
    requires 0 <= k <= n <= it.len(), sel_items(p, it, k, rec, ext, prefix) is None,
    ensures #![trigger sel_items(p, it, k, rec, ext, prefix), sel_items(p, it, n, rec, ext, prefix)] sel_items(p, it, n, rec, ext, prefix) is None
    decreases n - k
{ if k < n { sel_none(p, it, k, n - 1, rec, ext, prefix); } }
pub open spec fn ms(v: Seq<PathBuf>) -> Multiset<PV> { v.map_values(|x: PathBuf| x.v()).to_multiset() }
pub broadcast proof fn ms_push(v: Seq<PathBuf>, x: PathBuf)
    ensures #[trigger] ms(v.push(x)) == ms(v).insert(x.v())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(v.push(x).map_values(|x: PathBuf| x.v()) =~= v.map_values(|x: PathBuf| x.v()).push(x.v()));
}
pub broadcast proof fn ms_add(v: Seq<PathBuf>, w: Seq<PathBuf>)
    ensures #[trigger] ms(v + w) == ms(v).add(ms(w))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert((v + w).map_values(|x: PathBuf| x.v()) =~= v.map_values(|x: PathBuf| x.v()) + w.map_values(|x: PathBuf| x.v()));
    vstd::seq_lib::lemma_multiset_commutative(v.map_values(|x: PathBuf| x.v()), w.map_values(|x: PathBuf| x.v()));
}
pub broadcast proof fn ms_empty(v: Seq<PathBuf>)
    requires v.len() == 0
    ensures #[trigger] ms(v) == Multiset::<PV>::empty()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(v.map_values(|x: PathBuf| x.v()) =~= Seq::<PV>::empty());
    assert(ms(v) =~= Multiset::<PV>::empty());
}
#[verifier::external_body] pub fn app_vec(v: &mut Vec<PathBuf>, w: Vec<PathBuf>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }

//@fn src/file_util.rs get_path_files | props=C11 params=path,recursive,ext,filter_prefix fns=read_dir:fs_read_dir optcomb attr="#[verifier::spinoff_prover]"
    ensures
        match sel(path.v(), recursive, ext@, filter_prefix@) { Some(m) => r matches Ok(v) && ms(v@) == m, None => r is Err },
    decreases depth(path.v())
//@pre
    broadcast use ms_push, ms_add, ms_empty, sel_none;
//@loop 0
    invariant
        it__1.dir() == path.v(), items_(path.v()) == Some(it__1.all()), 0 <= it__1.k() <= it__1.all().len(),
        is_dir_(path.v()),
        sel_items(path.v(), it__1.all(), it__1.k(), recursive, ext@, filter_prefix@) == Some(ms(paths@)),
    ensures it__1.k() == it__1.all().len(),
    decreases it__1.all().len() - it__1.k()
//@loopbegin 0
    broadcast use ms_push, ms_add, ms_empty, sel_none;
    let ghost k0 = it__1.k();
    let ghost s1 = sel_items(path.v(), it__1.all(), k0 + 1, recursive, ext@, filter_prefix@);
    let ghost s9 = sel_items(path.v(), it__1.all(), it__1.all().len() as int, recursive, ext@, filter_prefix@);
    assert(sel(path.v(), recursive, ext@, filter_prefix@) == s9);
    assert(s1 is None && k0 < it__1.all().len() ==> s9 is None);
    assert(k0 < it__1.all().len() && it__1.all()[k0] is None ==> s1 is None);
//@end

// ---- C12
pub open spec fn cfg_name(c: PV, prefix: Seq<char>, ext: Seq<char>) -> bool {
    is_file_(c) && ext_(c) == Some(ext) && (name_(c) matches Some(n) && pfx(prefix, n))
}
pub open spec fn has(it: Seq<Option<PV>>, c: PV) -> bool { it.contains(Some(c)) }
pub open spec fn unreadable(q: PV) -> bool { match items_(q) { Some(it) => it.contains(None::<PV>), None => true } }
pub open spec fn cfg_in(q: PV, c: PV, prefix: Seq<char>, ext: Seq<char>) -> bool {
    is_dir_(q) && (items_(q) matches Some(it) && has(it, c)) && cfg_name(c, prefix, ext)
}
pub open spec fn no_cfg(q: PV, prefix: Seq<char>, ext: Seq<char>) -> bool { forall|c: PV| !#[trigger] cfg_in(q, c, prefix, ext) }
/// r is the configuration file of the nearest directory above p
pub open spec fn nearest(p: PV, r: Option<PV>, prefix: Seq<char>, ext: Seq<char>) -> bool
    decreases plen(p)
{
    match parent_(p) {
        None => r is None,
        Some(q) => (r matches Some(c) && cfg_in(q, c, prefix, ext))
            || ((no_cfg(q, prefix, ext) || (is_dir_(q) && unreadable(q))) && plen(q) < plen(p) && nearest(q, r, prefix, ext)),
    }
}
//@fn src/file_util.rs test_file_in_dir | props=C12 params=path,file_prefix,file_ext fns=read_dir:fs_read_dir optcomb
    ensures
        r matches Ok(Some(c)) ==> cfg_in(path.v(), c.v(), file_prefix@, file_ext@),
        r matches Ok(None) ==> no_cfg(path.v(), file_prefix@, file_ext@),
        r is Err ==> is_dir_(path.v()) && unreadable(path.v()),
//@loop 0
    invariant
        it__1.dir() == path.v(), items_(path.v()) == Some(it__1.all()), 0 <= it__1.k() <= it__1.all().len(),
        is_dir_(path.v()),
        forall|i: int| 0 <= i < it__1.k() ==> (#[trigger] it__1.all()[i] matches Some(c) && !cfg_name(c, file_prefix@, file_ext@)),
    ensures it__1.k() == it__1.all().len(),
    decreases it__1.all().len() - it__1.k()
//@loopbegin 0
    proof { if it__1.k() < it__1.all().len() { let _ = it__1.all()[it__1.k()]; assert(it__1.all().contains(it__1.all()[it__1.k()])); } }
//@end
pub open spec fn vopt(o: Option<PathBuf>) -> Option<PV> { match o { Some(x) => Some(x.v()), None => None } }
//@fn src/file_util.rs get_file_config | props=C12 params=file_path,prefix fns=canonicalize:fs_canon
    ensures
        match canon_(file_path.v()) { Some(p) => nearest(p, vopt(r), prefix@, "lua"@), None => r is None },
//@loop 0
    invariant
        canon_(file_path.v()) is Some,
        forall|x: Option<PV>| nearest(cur_file_path.v(), x, prefix@, "lua"@) ==> #[trigger] nearest(canon_(file_path.v())->Some_0, x, prefix@, "lua"@),
    ensures parent_(cur_file_path.v()) is None,
    decreases plen(cur_file_path.v())
//@end

// ---- configuration
//@typemap Str<'static> => &'static str
//@type src/config.rs FormatOpts
//@type src/config.rs Config
//@type src/config.rs State
//@type src/parser/common.rs Loc
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Cell<T> { x: core::cell::Cell<T> }
//@type src/parser/lua_ast.rs TableConstructorOpts
//@type src/parser/lua_ast.rs FieldsOpts
//@type src/parser/lua_ast.rs Node
//@enum Node src/parser/lua_ast.rs Node
//@const src/lib.rs CFG_PREFIX
pub struct CfgV { pub id: int }
/// a configuration up to the texts of its options
pub uninterp spec fn cv(c: Config) -> CfgV;
/// Config::set; C07 says what it does
pub uninterp spec fn set_v(c: CfgV, name: Seq<char>, value: Seq<char>) -> CfgV;
pub uninterp spec fn parse_v(s: Seq<char>) -> Option<Node>;
pub struct PErr {}
#[verifier::external_body] pub fn parse_lua(s: &str) -> (r: Result<Node, PErr>)
    ensures match parse_v(s@) { Some(t) => r matches Ok(n) && n == t, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn opaque_string() -> String { String::new() }
impl Config {
    #[verifier::external_body] pub fn set(&mut self, name: &str, value: &str) ensures cv(*final(self)) == set_v(cv(*old(self)), name@, value@) { unimplemented!() }
    #[verifier::external_body] pub fn cl(&self) -> (r: Config) ensures cv(r) == cv(*self) { unimplemented!() }
}
impl Clone for Config {
    #[verifier::external_body] fn clone(&self) -> (r: Config) ensures cv(r) == cv(*self) { unimplemented!() }
}
pub struct VIt<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VIt<'a, T> {
    pub fn nxt(&mut self) -> (r: Option<&'a T>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v,
            match r { Some(x) => old(self).i < old(self).v@.len() && final(self).i == old(self).i + 1 && *x == old(self).v@[old(self).i as int],
                      None => old(self).i == old(self).v@.len() && final(self).i == old(self).i },
    { if self.i < self.v.len() { let x = &self.v[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
pub trait VIter<T> { spec fn vv(&self) -> Seq<T>; fn v_iter(&self) -> (r: VIt<'_, T>) ensures r.v@ == self.vv(), r.i == 0; }
impl<T> VIter<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: VIt<'_, T>) { VIt { v: self, i: 0 } } }
pub trait IntoIt { type O; spec fn same(self, o: Self::O) -> bool; fn to_it(self) -> (r: Self::O) ensures self.same(r); }
impl IntoIt for ReadDir { type O = ReadDir; open spec fn same(self, o: ReadDir) -> bool { o == self } fn to_it(self) -> (r: ReadDir) { self } }
impl<'a, T> IntoIt for &'a Vec<T> { type O = VIt<'a, T>; open spec fn same(self, o: VIt<'a, T>) -> bool { o.v == self && o.i == 0 } fn to_it(self) -> (r: VIt<'a, T>) { VIt { v: self, i: 0 } } }
impl<'a, T> IntoIt for VIt<'a, T> { type O = VIt<'a, T>; open spec fn same(self, o: VIt<'a, T>) -> bool { o == self } fn to_it(self) -> (r: VIt<'a, T>) { self } }
pub fn into_it<I: IntoIt>(x: I) -> (r: I::O) ensures x.same(r) { x.to_it() }

// ---- C08
/// the assignment of a literal to a name at the head of an assignment statement
pub open spec fn lit_of(var: Node, e: Node) -> Option<(Seq<char>, Seq<char>)> {
    match (var, e) {
        (Node::Name(_, n), Node::Numeral(_, v)) => Some((n@, v@)),
        (Node::Name(_, n), Node::NormalStringLiteral(_, v)) => Some((n@, v@)),
        (Node::Name(_, n), Node::CharStringLiteral(_, v)) => Some((n@, v@)),
        (Node::Name(_, n), Node::True(_)) => Some((n@, "true"@)),
        (Node::Name(_, n), Node::False(_)) => Some((n@, "false"@)),
        _ => None,
    }
}
pub open spec fn load_v(c: CfgV, n: Node) -> CfgV
    decreases n, 0int
{
    match n {
        Node::VarsExprs(_, _, a, b) => match (*a, *b) {
            (Node::VarList(_, vs), Node::ExpList(_, es)) =>
                if vs@.len() > 0 && es@.len() > 0 {
                    match lit_of(vs@[0].1, es@[0].1) { Some((name, v)) => set_v(c, name, v), None => c }
                } else { c },
            _ => c,
        },
        Node::StatementList(_, s) => load_l(c, s, s@.len() as int),
        Node::StatsRetStat(_, _, s, _) => load_v(c, *s),
        _ => c,
    }
}
pub open spec fn load_l(c: CfgV, s: Vec<(Loc, Node)>, k: int) -> CfgV
    decreases s, k
{
    if k <= 0 || k > s@.len() { c } else { load_v(load_l(c, s, k - 1), s@[k - 1].1) }
}
pub open spec fn load_tree(c: CfgV, n: Node) -> CfgV {
    match n { Node::Chunk(_, x, _) => load_v(c, *x), Node::SheBangChunk(_, _, _, x, _) => load_v(c, *x), _ => c }
}
pub open spec fn loaded(p: PV, c: CfgV, d: CfgV) -> bool {
    text_(p) matches Some(t) && (parse_v(t) matches Some(n) && d == load_tree(c, n))
}
//@fn src/config.rs Config::load_options_from_config | props=C08 params=node enum=Node methods=iter:v_iter,next:nxt
    ensures cv(*final(self)) == load_v(cv(*old(self)), *node),
    decreases *node
//@loop 0
    invariant
        *node is StatementList, node->StatementList_1 == *stts, it__1.v == stts, it__1.i <= stts@.len(),
        cv(*self) == load_l(cv(*old(self)), *stts, it__1.i as int),
    ensures it__1.i == it__1.v@.len(),
    decreases it__1.v@.len() - it__1.i
//@end
//@fn src/config.rs Config::reload_format_from_file | props=C08 params=file_path enum=Node methods=clone:cl fns=read_to_string:fs_read stdout
    ensures
        r matches Ok(c) ==> loaded(file_path.v(), cv(*self), cv(c)),
        (text_(file_path.v()) is None || parse_v(text_(file_path.v())->Some_0) is None) ==> r is Err,
//@end

// ---- C12, C10
pub trait OV { spec fn same_v(&self, o: &Self) -> bool; }
impl OV for usize { open spec fn same_v(&self, o: &Self) -> bool { *self == *o } }
impl OV for bool { open spec fn same_v(&self, o: &Self) -> bool { *self == *o } }
impl OV for String { open spec fn same_v(&self, o: &Self) -> bool { self@ == o@ } }
pub open spec fn same_o<T: OV>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) { (Some(x), Some(y)) => x.same_v(&y), (None, None) => true, _ => false }
}
pub open spec fn fopt_none(f: FormatOpts) -> bool {
    //@fields src/config.rs FormatOpts | &&& f.$F is None
}
impl VEq for FormatOpts {
    open spec fn veqs(&self, o: &Self) -> bool {
        //@fields src/config.rs FormatOpts | &&& same_o::<$T>(self.$F, o.$F)
    }
}
//@fn src/config.rs FormatOpts::default | props=C12,C07
    ensures fopt_none(r),
//@end
//@fn src/config.rs Config::default | props=C12,C07
    ensures fopt_none(r.fmt), r.line_range is None,
//@end
//@fn src/config.rs Config::has_empty_format | props=C12
    ensures r == fopt_none(self.fmt),
//@end
//@fn src/config.rs State::default | props=C10
    ensures r.pos_range is None, r.comment_pos_range is None, r.indent_level == 0, r.function_nested_level == 0,
        r.block_nested_level == 0, r.stack_indent@.len() == 0, r.comment_offset == 0,
//@end
// the steps of formatting a text; what they do is the subject of C01-C06, C09 and C13-C16
pub uninterp spec fn lr2pr(t: Seq<char>, lr: Option<(usize, usize)>) -> Option<(usize, usize)>;
pub uninterp spec fn indexed(t: Seq<char>, s: State, s2: State) -> bool;
pub uninterp spec fn recon(n: Node, c: Config, s: State, n2: Node, s2: State) -> bool;
pub uninterp spec fn wrote_tree(n: Node, c: Config, t: Seq<char>, s: State, out: Seq<char>) -> bool;
#[verifier::external_body] pub fn line_range_to_pos_range(t: &str, lr: Option<(usize, usize)>) -> (r: Option<(usize, usize)>) ensures r == lr2pr(t@, lr) { unimplemented!() }
#[verifier::external_body] pub fn update_indexes(t: &str, s: &mut State) ensures indexed(t@, *old(s), *final(s)) { unimplemented!() }
#[verifier::external_body] pub fn reconstruct_node_tree(n: &mut Node, c: &Config, s: &mut State) ensures recon(*old(n), *c, *old(s), *final(n), *final(s)) { unimplemented!() }
pub struct FErr {}
impl Node {
    #[verifier::external_body] pub fn configured_write(&self, f: &mut String, c: &Config, buf: &str, s: &mut State) -> (r: Result<(), FErr>)
        requires old(f)@.len() == 0
        ensures r is Ok ==> wrote_tree(*self, *c, buf@, *old(s), final(f)@) { unimplemented!() }
}
pub open spec fn start_state(s: State, pr: Option<(usize, usize)>) -> bool {
    s.pos_range == pr && s.comment_pos_range is None && s.indent_level == 0 && s.function_nested_level == 0
    && s.block_nested_level == 0 && s.stack_indent@.len() == 0 && s.comment_offset == 0
}
/// out is what the writers produce for the tree of t, reconstructed under c, from the start state
pub open spec fn formatted(t: Seq<char>, c: Config, out: Seq<char>) -> bool {
    exists|n: Node, s0: State, s1: State, n2: Node, s2: State|
        #![trigger indexed(t, s0, s1), recon(n, c, s1, n2, s2), wrote_tree(n2, c, t, s2, out)]
        parse_v(t) == Some(n) && start_state(s0, lr2pr(t, c.line_range)) && indexed(t, s0, s1) && recon(n, c, s1, n2, s2) && wrote_tree(n2, c, t, s2, out)
}
//@type src/formatter.rs FormatterError
//@enum FormatterError src/formatter.rs FormatterError
//@fn src/formatter.rs process_buffer_with_config | props=C10,C12 params=content,cfg,verbose enum=FormatterError stdout
    ensures
        r matches Ok(out) ==> formatted(content@, *cfg, out@),
        parse_v(content@) is None ==> r is Err,
//@end
/// the formatted text of the file p under the options c
pub open spec fn processed(p: PV, c: Config, out: Seq<char>) -> bool {
    is_file_(p) && (text_(p) matches Some(t) &&
        if fopt_none(c.fmt) {
            exists|q: PV, d: Config| canon_(p) is Some && #[trigger] nearest(canon_(p)->Some_0, Some(q), ".luafmt"@, "lua"@)
                && loaded(q, cv(c), cv(d)) && #[trigger] formatted(t, d, out)
        } else { formatted(t, c, out) })
}
//@fn src/formatter.rs process_file | props=C10,C12 params=file_path,cfg,verbose enum=FormatterError stdout fns=read_to_string:fs_read
    ensures
        r matches Ok(out) ==> processed(file_path.v(), *cfg, out@),
        (!is_file_(file_path.v()) || text_(file_path.v()) is None) ==> r is Err,
//@end

pub uninterp spec fn may_write(p: PV, s: Seq<char>) -> bool;
pub uninterp spec fn wrote(p: PV, s: Seq<char>) -> bool;
pub uninterp spec fn write_failed(p: PV, s: Seq<char>) -> bool;
pub uninterp spec fn printed(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn fs_write(p: &PathBuf, s: String) -> (r: Result<(), Error>)
    requires may_write(p.v(), s@)
    ensures r is Ok ==> wrote(p.v(), s@), r is Err ==> write_failed(p.v(), s@) { unimplemented!() }
#[verifier::external_body] pub fn sh_print(s: &String) ensures printed(s@) { unimplemented!() }
//@type src/main.rs ProgramOpts
//@fn src/main.rs ProgramOpts::default | props=C10
    ensures !r.inplace, !r.recursive, !r.verbose,
//@end
/// the file was given its formatted text (in place or on the output), or its formatting failed
pub open spec fn done(p: PV, c: Config, o: ProgramOpts) -> bool {
    exists|f: &PathBuf, r: Result<String, FormatterError>| f.v() == p && #[trigger] call_ensures(process_file, (f, &c, o.verbose), r)
        && (r matches Ok(out) ==> if o.inplace { wrote(p, out@) || write_failed(p, out@) } else { printed(out@) })
}
pub open spec fn permitted(p: PV, c: Config, o: ProgramOpts) -> bool {
    forall|out: Seq<char>| o.inplace && #[trigger] processed(p, c, out) ==> may_write(p, out)
}
//@fn src/main.rs process_file_path | props=C10 params=file_path,config,program_opts stdout fns=write:fs_write
    requires permitted(file_path.v(), *config, *program_opts),
    ensures done(file_path.v(), *config, *program_opts),
//@end

// ---- the command line
/// the groups of the first match of a regular expression in a text
pub uninterp spec fn re_of(pat: Seq<char>, t: Seq<char>) -> Option<Seq<Seq<char>>>;
#[verifier::external_body] pub struct Regex { x: u8 }
#[verifier::external_body] pub struct Caps { x: u8 }
#[verifier::external_body] pub struct Cap { x: u8 }
#[derive(Debug)] pub struct RegexErr {}
pub open spec fn re_cfg() -> Seq<char> { r"^--([a-zA-Z_0-9]+)=(.*)$"@ }
pub open spec fn re_prog() -> Seq<char> { r"^[-]{1,2}([a-z]+)$"@ }
pub open spec fn re_n(p: Seq<char>) -> int { if p == re_cfg() { 3 } else { 2 } }
pub open spec fn cap_is(p: Seq<char>, t: Seq<char>, r: Option<Cap>) -> bool {
    match re_of(p, t) { Some(g) => r matches Some(c) && c.g() == g && g.len() == re_n(p), None => r is None }
}
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<Regex, RegexErr>)
        ensures (p@ == re_cfg() || p@ == re_prog()) ==> r is Ok, r matches Ok(x) ==> x.pat() == p@ { unimplemented!() }
    #[verifier::external_body] pub fn captures_iter(&self, s: &str) -> (r: Caps)
        ensures r.pat() == self.pat(), r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn captures(&self, s: &str) -> (r: Option<Cap>) ensures cap_is(self.pat(), s@, r) { unimplemented!() }
}
impl Caps {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Cap>) ensures cap_is(old(self).pat(), old(self).text(), r) { unimplemented!() }
}
impl Cap {
    pub uninterp spec fn g(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn at__(&self, i: usize) -> (r: &str) requires i < self.g().len() ensures r@ == self.g()[i as int] { unimplemented!() }
}
pub struct PO { pub inplace: bool, pub recursive: bool, pub verbose: bool }
pub open spec fn pov(o: ProgramOpts) -> PO { PO { inplace: o.inplace, recursive: o.recursive, verbose: o.verbose } }
pub open spec fn opt_cfg(c: CfgV, o: Seq<char>) -> CfgV {
    match re_of(re_cfg(), o) { Some(g) => set_v(c, g[1], g[2]), None => c }
}
pub open spec fn opt_po(p: PO, o: Seq<char>) -> PO {
    match re_of(re_cfg(), o) {
        Some(g) => p,
        None => match re_of(re_prog(), o) {
            Some(g) =>
                if g[1] == "i"@ || g[1] == "inplace"@ { PO { inplace: true, ..p } }
                else if g[1] == "r"@ || g[1] == "recursive"@ { PO { recursive: true, ..p } }
                else if g[1] == "v"@ || g[1] == "verbose"@ { PO { verbose: true, ..p } }
                else { p },
            None => p,
        },
    }
}
pub uninterp spec fn cfg0() -> CfgV;
#[verifier::external_body] pub proof fn ax_cfg0(c: Config) requires fopt_none(c.fmt), c.line_range is None ensures cv(c) == cfg0() {}
pub open spec fn opts_cfg(v: Seq<String>, k: int) -> CfgV decreases k { if k <= 0 { cfg0() } else { opt_cfg(opts_cfg(v, k - 1), v[k - 1]@) } }
pub open spec fn opts_po(v: Seq<String>, k: int) -> PO decreases k {
    if k <= 0 { PO { inplace: false, recursive: false, verbose: false } } else { opt_po(opts_po(v, k - 1), v[k - 1]@) }
}
//@fn src/main.rs parse_options | props=C07,C10 params=options index=lit methods=iter:v_iter
    ensures cv(r.0) == opts_cfg(options@, options@.len() as int), pov(r.1) == opts_po(options@, options@.len() as int),
//@loop 0
    invariant
        it__1.v@ == options@, it__1.i <= options@.len(),
        cv(config) == opts_cfg(options@, it__1.i as int), pov(program_opts) == opts_po(options@, it__1.i as int),
    ensures it__1.i == options@.len(),
    decreases options@.len() - it__1.i
//@pre
    proof { assert forall|c: Config| fopt_none(c.fmt) && c.line_range is None implies #[trigger] cv(c) == cfg0() by { ax_cfg0(c); } }
//@end

pub uninterp spec fn argv_opts() -> Seq<String>;
pub uninterp spec fn argv_srcs() -> Seq<String>;
#[verifier::external_body] pub fn get_options_and_filenames() -> (r: (Vec<String>, Vec<String>)) ensures r.0@ == argv_opts(), r.1@ == argv_srcs() { unimplemented!() }
pub uninterp spec fn stdin_text() -> Seq<char>;
pub struct Stdin {}
#[verifier::external_body] pub fn stdin() -> Stdin { unimplemented!() }
#[derive(Debug)] pub struct IoErr {}
impl Stdin {
    #[verifier::external_body] pub fn read_to_string(&self, s: &mut String) -> (r: Result<usize, IoErr>)
        ensures r is Ok, old(s)@.len() == 0 ==> final(s)@ == stdin_text() { unimplemented!() }
}
pub open spec fn the_po() -> PO { opts_po(argv_opts(), argv_opts().len() as int) }
pub open spec fn the_cfg() -> CfgV { opts_cfg(argv_opts(), argv_opts().len() as int) }
/// p is among the files selected by the i-th path argument
pub open spec fn arg_file(i: int, p: PV) -> bool {
    0 <= i < argv_srcs().len() && (sel(path_of(argv_srcs()[i]@), the_po().recursive, "lua"@, ".luafmt"@) matches Some(m) && m.count(p) > 0)
}
pub open spec fn handled(i: int, p: PV) -> bool {
    exists|c: Config, o: ProgramOpts| cv(c) == the_cfg() && pov(o) == the_po() && #[trigger] done(p, c, o)
}
pub broadcast proof fn ms_in(v: Seq<PathBuf>, p: PV)
    ensures #![trigger ms(v).count(p)] ms(v).count(p) > 0 <==> exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).v() == p
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let w = v.map_values(|x: PathBuf| x.v());
    if ms(v).count(p) > 0 { assert(w.contains(p)); let j = choose|j: int| 0 <= j < w.len() && w[j] == p; assert(v[j].v() == p); }
    if exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).v() == p {
        let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).v() == p;
        assert(w[j] == p); assert(w.contains(p));
    }
}
//@fn src/main.rs main | props=C10,C11,C12 as=prog_main stdout
    requires
        // what in-place mode permits: the files selected by a path argument, each with its own formatted text
        forall|i: int, c: Config, o: ProgramOpts, p: PV, out: Seq<char>|
            #![trigger arg_file(i, p), cv(c), pov(o), processed(p, c, out)]
            arg_file(i, p) && cv(c) == the_cfg() && pov(o) == the_po() && o.inplace && processed(p, c, out) ==> may_write(p, out),
    ensures
        // every selected file is dealt with, whatever happens to the others
        forall|i: int, p: PV| #[trigger] arg_file(i, p) ==> handled(i, p),
        argv_srcs().len() == 0 ==> exists|r: Result<String, FormatterError>, s: String, c: Config, v: bool|
            s@ == stdin_text() && cv(c) == the_cfg() && #[trigger] call_ensures(process_buffer_with_config, (&s, &c, v), r) && (r matches Ok(out) ==> printed(out@)),
//@loop 1
    invariant
        it__1.v == rel_paths, it__1.i <= rel_paths@.len(), rel_paths@ == argv_srcs(), cv(config) == the_cfg(), pov(program_opts) == the_po(),
        forall|i: int, c: Config, o: ProgramOpts, p: PV, out: Seq<char>|
            #![trigger arg_file(i, p), cv(c), pov(o), processed(p, c, out)]
            arg_file(i, p) && cv(c) == the_cfg() && pov(o) == the_po() && o.inplace && processed(p, c, out) ==> may_write(p, out),
        forall|i: int, p: PV| i < it__1.i && #[trigger] arg_file(i, p) ==> handled(i, p),
    ensures it__1.i == rel_paths@.len(),
    decreases rel_paths@.len() - it__1.i
//@loopbegin 1
    broadcast use ms_in;
//@loop 0
    invariant
        it__2.v == file_paths, it__2.i <= file_paths@.len(), cv(config) == the_cfg(), pov(program_opts) == the_po(),
        forall|i: int, c: Config, o: ProgramOpts, p: PV, out: Seq<char>|
            #![trigger arg_file(i, p), cv(c), pov(o), processed(p, c, out)]
            arg_file(i, p) && cv(c) == the_cfg() && pov(o) == the_po() && o.inplace && processed(p, c, out) ==> may_write(p, out),
        1 <= it__1.i <= argv_srcs().len(),
        sel(path_of(argv_srcs()[it__1.i - 1]@), the_po().recursive, "lua"@, ".luafmt"@) == Some(ms(file_paths@)),
        forall|j: int| 0 <= j < it__2.i ==> handled(it__1.i - 1, (#[trigger] file_paths@[j]).v()),
    ensures it__2.i == file_paths@.len(),
    decreases file_paths@.len() - it__2.i
//@loopbegin 0
    broadcast use ms_in;
    proof { if it__2.i < file_paths@.len() { let _ = file_paths@[it__2.i as int]; assert(arg_file(it__1.i - 1, file_paths@[it__2.i as int].v())); } }
//@end
fn main() {}
}
