//! Building programs around the code under test.
use std::path::Path;
use std::process::{Command, Stdio};

pub fn cargo(root: &Path, manifest: &Path, target: &Path, extra: &[&str]) -> Result<(), String> {
    let o = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--manifest-path"])
        .arg(manifest)
        .arg("--target-dir")
        .arg(target)
        .args(extra)
        .current_dir(root)
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_INCREMENTAL", "0")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cargo: {e}"))?;
    if o.status.success() {
        Ok(())
    } else {
        Err(String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

pub fn die(what: &str) -> ! {
    println!("HARNESS ERROR: {what}");
    std::process::exit(2)
}
