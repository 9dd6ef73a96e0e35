//! Mechanical extraction of functions/structs/traits from /repo/src into a Verus file.
//!
//! usage: extract <repo/src> <template> <out.rs> [KEY=VALUE ...]
//!
//! The template is Verus text with `//@` directives; every directive is replaced by the code
//! found in the *current* source tree, transformed by the fixed rewrite rules in `xform.rs`.
//! exit 0 ok, exit 3 a directive could not be satisfied (lost anchor / unsupported construct).
mod iter;
mod source;
mod template;
mod xform;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: extract SRC TEMPLATE OUT [K=V..]");
        std::process::exit(2);
    }
    let vars: Vec<(String, String)> = args[4..]
        .iter()
        .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
        .collect();
    let src = match source::Source::load(std::path::Path::new(&args[1])) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("STRUCTURAL: {e}");
            std::process::exit(3);
        }
    };
    match template::expand(&src, std::path::Path::new(&args[2]), &vars) {
        Ok((text, report)) => {
            std::fs::write(&args[3], text).unwrap();
            std::fs::write(format!("{}.report", &args[3]), report).unwrap();
        }
        Err(e) => {
            eprintln!("STRUCTURAL: {e}");
            std::process::exit(3);
        }
    }
}
