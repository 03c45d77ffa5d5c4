import z3
from mirsym import *
from mirspec import *
import mircontracts as mc

ENTRIES = ["resolve::is_contained"]
BOUND = "every sequence of 1 to 4 components from an 18-value vocabulary, two image directories"
NATIVE = "resolve() itself (async, outside the symbolic subset): escaping identifiers are refused before any file is opened, plain ones open exactly the joined path"


def contained(ex, r, s):
    s = s.t
    if r.branch(s == strval("")): return False
    if r.branch(z3.Contains(s, strval("\0"))): return False
    if r.branch(z3.PrefixOf(strval("/"), s)): return False
    for esc in (s == strval(".."), z3.PrefixOf(strval("../"), s), z3.SuffixOf(strval("/.."), s), z3.Contains(s, strval("/../"))):
        if r.branch(esc): return False
    if r.branch(s == strval(".")) or r.branch(z3.PrefixOf(strval("./"), s)): return ANY
    return True


def args(ex, root): yield "", [Str(z3.String("ident"))], State(), []


TARGETS = [dict(name="contained", entry=r"::is_contained$", args=args, spec=contained,
                what="for every identifier: accepted exactly when it is not empty, not absolute, and has no NUL and no parent component (a leading '.' is left open)")]


GLOMMIO = """use std::cell::RefCell;
use std::path::{Path, PathBuf};
thread_local! { pub static OPENED: RefCell<Vec<PathBuf>> = RefCell::new(Vec::new()); }
#[derive(Debug)]
pub enum GlommioError<T> { IoError(std::io::Error), Other(T) }
impl<T> From<std::io::Error> for GlommioError<T> { fn from(e: std::io::Error) -> Self { GlommioError::IoError(e) } }
pub type Result<T, V> = std::result::Result<T, GlommioError<V>>;
pub mod io {
    use super::*;
    pub struct ImmutableFile;
    pub struct ImmutableFileBuilder<P: AsRef<Path>>(P);
    impl<P: AsRef<Path>> ImmutableFileBuilder<P> {
        pub fn new(p: P) -> Self { ImmutableFileBuilder(p) }
        pub async fn build_existing(self) -> Result<ImmutableFile, ()> {
            OPENED.with(|o| o.borrow_mut().push(self.0.as_ref().to_path_buf()));
            Ok(ImmutableFile)
        }
    }
}
"""


def native(work, repo, props, env):
    """command that runs the real src/resolve.rs against a recording stand-in for glommio"""
    d = work / "resolve"
    (d / "src").mkdir(parents=True, exist_ok=True)
    (d / "glommio/src").mkdir(parents=True, exist_ok=True)
    (d / "glommio/Cargo.toml").write_text('[package]\nname = "glommio"\nversion = "0.1.0"\nedition = "2021"\n')
    (d / "glommio/src/lib.rs").write_text(GLOMMIO)
    (d / "Cargo.toml").write_text('[package]\nname = "resolve-check"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nglommio = { path = "glommio" }\n[workspace]\n')
    (d / "src/lib.rs").write_text((props / "resolve_check.rs").read_text().replace("@REPO@", str(repo)))
    env["RUSTFLAGS"] = "-Awarnings"
    env["CARGO_TARGET_DIR"] = str(work / "rtarget")
    return ["cargo", "test", "--offline", "--release", "--lib", "--manifest-path", str(d / "Cargo.toml"), "--", "--nocapture"], d
