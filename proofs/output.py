"""C18: unit profiles (cmakeperf/src/output.rs)."""
from vx.unit import Unit
from vx.kani import KUnit
from . import commands
OUT = "cmakeperf/src/output.rs"

def kani_wall_time():
    u = KUnit("wall_time")
    u.trust("Kani's model of std: f32 operations are IEEE 754 as CBMC encodes them")
    u.raw(r"""use std::time::Duration;
type BoxPath = ();
// C18: what a recorded time reads back as
fn time_ok(s: Option<f32>, r: &Option<Result<Duration, f32>>) -> bool {
    match (s, r) {
        (None, None) => true,
        // not a duration: exactly what is not a number from 0 to 2^64; handed back as it is
        (Some(s), Some(Err(e))) => !(s >= 0.0 && s <= 18446744073709551616.0) && e.to_bits() == s.to_bits(),
        (Some(s), Some(Ok(d))) => {
            if !(s >= 0.0 && s <= 18446744073709551616.0) { return false; }
            let ns = (s as f64 - s.trunc() as f64) * 1e9;
            let got = d.subsec_nanos() as f64;
            d.as_secs() == s as u64 && got - ns < 64.0 && ns - got < 64.0
        }
        _ => false,
    }
}""")
    u.item(OUT, "struct", "UnitProfile", rewrites=[("Box<Path>", "BoxPath", "the path is not looked at")])
    u.fn(OUT, "wall_time", impl="UnitProfile", contract="#[kani::ensures(|r| time_ok(self.wall_time_secs, r))]")
    u.harness("UnitProfile::wall_time", """let p = UnitProfile { rel_path: (), max_rss: kani::any(), wall_time_secs: kani::any() };
        let r = p.wall_time(); kani::cover!(r.is_none()); kani::cover!(matches!(r, Some(Err(_)))); kani::cover!(matches!(r, Some(Ok(_))));""", "wall_time_meets_its_contract")
    return u

def make_output():
    u = Unit("unit_profiles")
    u.trust("std paths and io errors, as far as used: a path is its text", commands.MODEL + commands.IO)
    for r in commands.RULES: u.rule(*r)
    u.trust("the time in seconds as f32 is a function of the Duration (std)", r"""
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Duration {}
uninterp spec fn secs(d: Duration) -> f32;
impl Duration { #[verifier::external_body] fn as_secs_f32(&self) -> (r: f32) ensures r == secs(*self) { unimplemented!() } }
""")
    u.item(OUT, "struct", "UnitProfile")
    u.raw("ghost struct Prof { path: Seq<char>, rss: u64, time: Option<f32> }\nimpl UnitProfile { spec fn view(&self) -> Prof { Prof { path: self.rel_path@, rss: self.max_rss, time: self.wall_time_secs } } }")
    u.fn(OUT, "new", impl="UnitProfile", sig="fn new(rel_path: BoxPath, max_rss_bytes: u64, wall_time: Option<Duration>) -> (r: Self)",
         rewrites=[("$i_a.into()", "$i_a", "conversion to an owned path"), ("$i_o.map(|$i_a| $f)", "(match $i_o { Some($i_a) => Some($f), None => None })", "Option::map spelled out")],
         contract="ensures r@ == (Prof { path: rel_path@, rss: max_rss_bytes, time: match wall_time { Some(d) => Some(secs(d)), None => None::<f32> } }),")
    u.fn(OUT, "rel_path", impl="UnitProfile", ret="r", contract="ensures r@ == self@.path,")
    u.fn(OUT, "max_rss_bytes", impl="UnitProfile", ret="r", contract="ensures r == self@.rss,")
    u.trust("the csv crate: opening a file and reading its records, each a unit profile or an error, are functions of the file as it is during the call", r"""
pub type BuildProfile = Vec<UnitProfile>;
pub ghost enum Failed { Io(Failure), Csv(int) }
#[verifier::external_body] pub struct CsvError {}
pub enum CsvKind<'a> { Io(&'a IoError), Other }
impl CsvError { pub uninterp spec fn view(&self) -> Failed;
    #[verifier::external_body] pub fn kind<'a>(&'a self) -> (r: CsvKind<'a>) ensures match self@ { Failed::Io(f) => r matches CsvKind::Io(e) && e@ == f, Failed::Csv(_) => r is Other } { unimplemented!() } }
uninterp spec fn opened(p: Seq<char>) -> Option<Failed>;
// what reading the headers fails with, if it does; the records that follow them (without headers there are none, and no error)
ghost struct Content { head: Option<Failed>, recs: Seq<Result<Prof, Failed>> }
uninterp spec fn content(p: Seq<char>) -> Content;
#[verifier::external_body] pub struct Reader {}
spec fn rec(r: Result<UnitProfile, CsvError>) -> Result<Prof, Failed> { match r { Ok(p) => Ok(p@), Err(e) => Err(e@) } }
spec fn recs(s: Seq<Result<UnitProfile, CsvError>>) -> Seq<Result<Prof, Failed>> { s.map_values(|r: Result<UnitProfile, CsvError>| rec(r)) }
impl Reader {
    uninterp spec fn view(&self) -> Content;
    #[verifier::external_body] fn headers(&mut self) -> (r: Result<(), CsvError>) ensures final(self)@ == old(self)@, match old(self)@.head { None => r is Ok, Some(f) => r matches Err(e) && e@ == f } { unimplemented!() }
    #[verifier::external_body] fn from_path(p: &Path) -> (r: Result<Self, CsvError>) ensures match opened(p@) { None => r matches Ok(x) && x@ == content(p@), Some(f) => r matches Err(e) && e@ == f } { unimplemented!() }
    #[verifier::external_body] fn deserialize(self) -> (r: Vec<Result<UnitProfile, CsvError>>) ensures recs(r@) == self@.recs { unimplemented!() }
}
""")
    u.item(OUT, "enum", "ProfileLoadError", rewrites=[("csv::Error", "CsvError", "")])
    u.raw(r"""
// ---- C18: a profile is read completely, in order, or not at all ----
spec fn good(s: Seq<Result<Prof, Failed>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
spec fn read(r: Result<BuildProfile, ProfileLoadError>, c: Content) -> bool {
    let s = c.recs;
    if let Some(f) = c.head { r matches Err(ProfileLoadError::ParseError(e)) && e@ == f } else { match r {
        Ok(v) => good(s) && v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ok::<Prof, Failed>(v@[i]@),
        Err(ProfileLoadError::ParseError(e)) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<Prof, Failed>(e@) && good(s.take(i)),
        Err(ProfileLoadError::FileNotFound) => false,
    } }
}
""")
    u.fn(OUT, "from_csv_reader", sig="fn from_csv_reader(mut reader: Reader) -> (r: Result<BuildProfile, ProfileLoadError>)",
         rewrites=[("reader.headers()?;", "match reader.headers() { Ok(_) => {}, Err(vx_e) => return Err(ProfileLoadError::ParseError(vx_e)) }", "? with the derived conversion"), ("let mut result = Vec::new();", "let mut result: BuildProfile = Vec::new();", "type given"), ("result.push(unit?);", "match unit { Ok(vx_p) => result.push(vx_p), Err(vx_e) => return Err(ProfileLoadError::ParseError(vx_e)) }", "? with the derived conversion"),
                   ("for $i_u in reader.deserialize() {", "let vx_all = reader.deserialize(); let ghost s = recs(vx_all@); for $i_u in vx_all {", "subexpression named")],
         contract="ensures read(r, reader@),",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_all@, result@.len() == it.index@, 0 <= it.index@ <= s.len(), forall|i: int| 0 <= i < it.index@ ==> #[trigger] s[i] == Ok::<Prof, Failed>(result@[i]@),",
            start="proof { let k = it.index@ as int; assert(s[k] == rec(unit)); assert(good(s.take(k))); }")])
    u.fn(OUT, "load", sig="fn load(path: &Path) -> (r: Result<BuildProfile, ProfileLoadError>)",
         rewrites=[("csv::Reader::from_path(path.as_ref())", "Reader::from_path(path)", "trusted library"), ("csv::ErrorKind::Io($i_e)", "CsvKind::Io($i_e)", ""),
                   ("$i_o => $i_o?,", "Ok(vx_r) => vx_r, Err(vx_e) => return Err(ProfileLoadError::ParseError(vx_e)),", "? with the derived conversion")],
         contract="""ensures match opened(path@) {
            None => read(r, content(path@)),
            Some(f) => if f matches Failed::Io(k) && kind_of(k) == ErrorKind::NotFound { r matches Err(ProfileLoadError::FileNotFound) } else { r matches Err(ProfileLoadError::ParseError(e)) && e@ == f } },""")
    return u
