mod commands;
mod fresh;
mod measure;
mod output;
fn main() {
    if std::env::args().nth(1).as_deref() == Some("JOB") { return measure::job(std::env::args().skip(2)); }
    vkit::run(&[("C16", commands::c16), ("C17", fresh::c17), ("C18", output::c18), ("C21", measure::c21)]);
}
/// directory for the files of this run
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::var_os("VERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|| std::env::temp_dir().join(format!("ocp-{}", std::process::id())));
    std::fs::create_dir_all(&d).unwrap();
    d.canonicalize().unwrap()
}
