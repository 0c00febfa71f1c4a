mod disks;
mod ewf;
mod extmap;
mod files;
mod qcow;
mod udif;
mod vhdx;
mod volumes;

fn main() {
    wit_common::main_with(&[("C23", volumes::c23), ("C24", volumes::c24), ("C25", files::c25), ("C26", disks::c26), ("C27", vhdx::c27), ("C28", qcow::c28), ("C29", udif::c29), ("C30", ewf::c30), ("C31", extmap::c31)]);
}
