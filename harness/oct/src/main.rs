mod args;
mod load;
mod table;
mod tree;
fn main() {
    vkit::run(&[("C01", tree::c01), ("C02", tree::c02), ("C03", tree::c03), ("C11", load::c11), ("C12", args::c12)]);
}
