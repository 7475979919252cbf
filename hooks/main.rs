// Executable contracts of the crofiler binary
#[allow(dead_code)]
mod vkit { include!(concat!(env!("CROFILER_VERIF"), "/../harness/vkit/src/lib.rs")); }
mod show { include!(concat!(env!("CROFILER_VERIF"), "/show.rs")); }
mod c24 { include!(concat!(env!("CROFILER_VERIF"), "/c24.rs")); }
mod c26 { include!(concat!(env!("CROFILER_VERIF"), "/c26.rs")); }
mod c27 { include!(concat!(env!("CROFILER_VERIF"), "/c27.rs")); }
mod c25 { include!(concat!(env!("CROFILER_VERIF"), "/c25.rs")); }
pub fn run() -> bool {
    if std::env::var_os("CROFILER_ORACLE").is_none() { return false; }
    vkit::run(&[("C07", show::c07), ("C08", show::c08), ("C09", show::c09), ("C10", show::c10), ("C13", show::c13), ("C14", show::c14), ("C15", show::c15), ("C24", c24::c24), ("C25", c25::c25), ("C26", c26::c26), ("C27", c27::c27)]);
    true
}
