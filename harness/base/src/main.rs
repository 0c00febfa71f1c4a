mod checksums;
mod codec_tables;
mod dates;
mod encodings;
mod format;
mod hashes;
mod sigscan;
mod streams;
mod types;

fn main() {
    wit_common::main_with(&[
        ("C01", checksums::c01),
        ("C02", checksums::c02),
        ("C03", hashes::c03),
        ("C04", hashes::c04),
        ("C05", dates::c05),
        ("C06", dates::c06),
        ("C07", encodings::c07),
        ("C08", encodings::c08),
        ("C09", encodings::c09),
        ("C10", encodings::c10),
        ("C11", types::c11),
        ("C12", types::c12),
        ("C13", types::c13),
        ("C14", types::c14),
        ("C15", streams::c15),
        ("C16", format::c16),
        ("C18", sigscan::c18),
        ("C19", sigscan::c19),
    ]);
}
