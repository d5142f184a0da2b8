// ---- trusted model of the file system: what std::path and std::fs report about a path
pub struct PV { pub id: int }
pub uninterp spec fn is_dir_(p: PV) -> bool;
pub uninterp spec fn is_file_(p: PV) -> bool;
/// extension / file name of a path, when it has one that is UTF-8
pub uninterp spec fn ext_(p: PV) -> Option<Seq<char>>;
pub uninterp spec fn name_(p: PV) -> Option<Seq<char>>;
pub uninterp spec fn parent_(p: PV) -> Option<PV>;
pub uninterp spec fn canon_(p: PV) -> Option<PV>;
/// the entries of a directory, None for one that cannot be read
pub uninterp spec fn items_(p: PV) -> Option<Seq<Option<PV>>>;
pub uninterp spec fn text_(p: PV) -> Option<Seq<char>>;
pub uninterp spec fn plen(p: PV) -> nat;
pub uninterp spec fn depth(p: PV) -> nat;
pub uninterp spec fn path_of(s: Seq<char>) -> PV;

pub enum ErrorKind { Other, NotFound }
pub struct Error {}
impl Error { #[verifier::external_body] pub fn new(k: ErrorKind, s: &str) -> Error { unimplemented!() } }

#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct OsStr { x: u8 }
impl OsStr {
    pub uninterp spec fn txt(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>)
        ensures match self.txt() { Some(s) => r matches Some(t) && t@ == s, None => r is None } { unimplemented!() }
}
pub open spec fn os_txt(o: Option<&OsStr>) -> Option<Seq<char>> { match o { Some(x) => x.txt(), None => None } }
impl PathBuf {
    pub uninterp spec fn v(&self) -> PV;
    #[verifier::external_body] pub fn new(s: &String) -> (r: PathBuf) ensures r.v() == path_of(s@) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == is_dir_(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == is_file_(self.v()) { unimplemented!() }
    // calls about which nothing is assumed
    #[verifier::external_body] pub fn join(&self, s: &str) -> (r: PathBuf) { unimplemented!() }
    #[verifier::external_body] pub fn with_extension(&self, s: &str) -> (r: PathBuf) { unimplemented!() }
    #[verifier::external_body] pub fn with_file_name(&self, s: &str) -> (r: PathBuf) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_symlink(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn has_root(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with(&self, s: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn sw(&self, s: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<PathBuf, Error>)
        ensures match canon_(self.v()) { Some(s) => r matches Ok(d) && d.v() == s, None => r is Err } { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures os_txt(r) == ext_(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures os_txt(r) == name_(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>)
        ensures match parent_(self.v()) { Some(q) => r matches Some(x) && x.v() == q && plen(q) < plen(self.v()), None => r is None } { unimplemented!() }
}
#[verifier::external_body] pub struct ReadDir { x: u8 }
#[verifier::external_body] pub struct DirEntry { x: u8 }
impl DirEntry {
    pub uninterp spec fn v(&self) -> PV;
    #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r.v() == self.v() { unimplemented!() }
}
impl ReadDir {
    pub uninterp spec fn all(&self) -> Seq<Option<PV>>;
    pub uninterp spec fn dir(&self) -> PV;
    pub uninterp spec fn k(&self) -> int;
    #[verifier::external_body] pub fn nxt(&mut self) -> (r: Option<Result<DirEntry, Error>>)
        ensures final(self).all() == old(self).all(), final(self).dir() == old(self).dir(),
            match r {
                Some(e) => 0 <= old(self).k() < old(self).all().len() && final(self).k() == old(self).k() + 1 &&
                    (match old(self).all()[old(self).k()] {
                        Some(p) => (e matches Ok(d) && d.v() == p && depth(p) < depth(old(self).dir())),
                        None => e is Err }),
                None => old(self).k() == old(self).all().len() && final(self).k() == old(self).k(),
            } { unimplemented!() }
}

#[verifier::external_body] pub fn fs_read_dir(p: &PathBuf) -> (r: Result<ReadDir, Error>)
    ensures match items_(p.v()) { Some(s) => r matches Ok(d) && d.all() == s && d.dir() == p.v() && d.k() == 0, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn fs_canon(p: &PathBuf) -> (r: Result<PathBuf, Error>)
    ensures match canon_(p.v()) { Some(s) => r matches Ok(d) && d.v() == s, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn fs_read(p: &PathBuf) -> (r: Result<String, Error>)
    ensures match text_(p.v()) { Some(s) => r matches Ok(d) && d@ == s, None => r is Err } { unimplemented!() }
pub open spec fn pfx(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub trait Sw { fn sw(&self, p: &str) -> (r: bool) ensures r == pfx(p@, self.swv()); spec fn swv(&self) -> Seq<char>; }
impl Sw for str {
    open spec fn swv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn sw(&self, p: &str) -> (r: bool) { unimplemented!() }
}
impl Sw for String {
    open spec fn swv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn sw(&self, p: &str) -> (r: bool) { unimplemented!() }
}
pub trait VEq { spec fn veqs(&self, o: &Self) -> bool; }
#[verifier::external_body] pub fn veq<T: VEq>(a: &T, b: &T) -> (r: bool) ensures r == a.veqs(b) { unimplemented!() }
impl VEq for Option<&str> {
    open spec fn veqs(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } }
}
