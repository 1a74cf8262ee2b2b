//! vpx: mechanical extraction of functions of /repo into Verus text.
//!
//! usage: vpx <repo> <template.vt> <prelude.rs> <out.rs> <report.json>
//!
//! A template is Verus text with directives (lines starting with `//@`); see DESIGN.md.
mod ast;
mod iter;
mod template;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vpx repo template prelude out report");
        std::process::exit(2);
    }
    match template::run(&a[1], &a[2], &a[3], &a[4], &a[5]) {
        Ok(()) => {}
        Err(e) => {
            // the anchor is lost, or the code uses a construct the extraction does not know
            eprintln!("LOST: {}", e);
            std::process::exit(3);
        }
    }
}
