// Executable contracts of the stdio display
/// shown activity with its profiling numbers
pub fn activity(id: &ActivityId, arg: &ActivityArgument, cols: u16, duration: Duration, norm: Duration) -> String {
    let mut o = Vec::new();
    display_activity(&mut o, id, arg, cols, duration, norm).unwrap();
    String::from_utf8(o).unwrap()
}
/// profiling numbers
pub fn info(duration: Duration, norm: Duration) -> String {
    let mut o = Vec::new();
    display_profile_info(&mut o, duration, norm).unwrap();
    String::from_utf8(o).unwrap()
}
