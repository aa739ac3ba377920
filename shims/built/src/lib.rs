//! Stand-in for the `built` build-dependency (build metadata only, no behaviour): avoids compiling libgit2.
use std::{env, fs::File, io, io::Write, path::Path};
pub fn write_built_file() -> io::Result<()> {
    let out = env::var("OUT_DIR").unwrap();
    let mut f = File::create(Path::new(&out).join("built.rs"))?;
    writeln!(f, "pub const GIT_VERSION: Option<&str> = None;")?;
    for c in ["TARGET", "PROFILE", "FEATURES_STR", "BUILT_TIME_UTC", "RUSTC_VERSION"] {
        writeln!(f, "pub const {}: &str = \"\";", c)?;
    }
    Ok(())
}
