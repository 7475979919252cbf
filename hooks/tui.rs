// Executable contracts of the text user interface: access to the processing thread and to the screen
pub use super::processing::{ActivityInfo, ProcessingThread};
/// the interface as it starts, before a trace is loaded
pub fn start() -> cursive::CursiveRunnable {
    init::setup_cursive(State {
        processing_thread: ProcessingThread::start(),
        global_percent_norm: None,
        profile_stack: Vec::new(),
        showing_full_build: false,
        layers_below_profile: 0,
        no_escape: false,
        display_config: Default::default(),
    })
}
pub fn load(cursive: &mut Cursive, path: &std::path::Path) { trace::load::show_loader(cursive, path) }
pub fn measure(cursive: &mut Cursive, clang: std::process::Command, path: Box<std::path::Path>) { trace::measure::start_measure(cursive, clang, path) }
/// the table of a build, on this screen
pub fn show_build(screen: Box<dyn cursive::backend::Backend>, profile: cmakeperf::output::BuildProfile) {
    use clap::Parser;
    let mut screen = Some(screen);
    let mut cursive = cursive::CursiveRunnable::new::<std::io::Error, _>(move || Ok(screen.take().expect("one screen")));
    cursive.set_user_data(State {
        processing_thread: ProcessingThread::start(),
        global_percent_norm: None,
        profile_stack: Vec::new(),
        showing_full_build: false,
        layers_below_profile: 0,
        no_escape: false,
        display_config: Default::default(),
    });
    build::verif::display_profile(&mut cursive, CliArgs::parse_from(["crofiler"]), cmakeperf::commands::CompilationDatabase::new(), "clang++", profile)
}
