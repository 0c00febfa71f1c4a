mod deflate;
mod lz;

fn main() {
    wit_common::main_with(&[("C21", lz::c21), ("C22", deflate::c22)]);
}
