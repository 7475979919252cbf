// Executable contracts of the display code: access from /verif/hooks/oracle
use super::display::{self as d, DisplayConfig};
use clang_time_trace::{ActivityArgument, ActivityId, ClangTrace, InternedPath};

fn config(cols: Option<u16>) -> DisplayConfig {
    match cols {
        Some(max_cols) => DisplayConfig::SingleLine { max_cols },
        None => DisplayConfig::MultiLine { tot_cols: 80, header_cols: 3, trailer_cols: 5 },
    }
}
/// shown text
pub fn string(s: &str, cols: Option<u16>) -> String {
    let mut o = Vec::new();
    d::display_string(&mut o, s, config(cols)).unwrap();
    String::from_utf8(o).unwrap()
}
/// shown path
pub fn path(p: &InternedPath, cols: Option<u16>) -> String { d::path::display_path(p, config(cols)).into() }
/// shown path, given by its components
pub fn parts<'a>(p: impl DoubleEndedIterator<Item = &'a str> + Clone, cols: u16) -> String { d::path::truncate_path_iter(p, cols).into() }
/// shown activity
pub fn desc(id: &ActivityId, arg: &ActivityArgument, cols: Option<u16>) -> Result<(String, bool), (String, u16)> {
    let mut o = Vec::new();
    let r = d::activity::display_activity_desc(&mut o, id, arg, config(cols));
    let o = String::from_utf8(o).unwrap();
    match r {
        Ok(b) => Ok((o, b)),
        Err(d::activity::ActivityDescError::NotEnoughCols(c)) => Err((o, c)),
        Err(e) => panic!("{e}"),
    }
}
/// shown duration
pub fn duration(x: f64) -> String {
    let mut o = Vec::new();
    d::duration::display_duration(&mut o, x).unwrap();
    String::from_utf8(o).unwrap()
}
/// shown metadata
pub fn metadata(t: &ClangTrace, cols: u16) -> String { d::metadata::metadata(t, cols) }
