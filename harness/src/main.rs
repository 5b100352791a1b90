#![allow(dead_code)]
mod dict;
mod fw;
mod gfloat;
mod gint;
mod gdoc;
mod glue;
mod glit;
mod glong;
mod gtree;
mod layout;
mod mgr;
mod rint;
mod rlex;
mod rparse;
mod rpath;
mod run;
mod sim;
mod spell;
mod val;
mod world;

macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] mod $m;)*
        pub fn props() -> Vec<fw::Prop> {
            vec![$(#[cfg(feature = $f)] $m::prop()),*]
        }
    };
}

props! {
    "c01" p_json,
    "c02" p_tojson,
    "c03" p_todjs,
    "c04" p_literal,
    "c05" p_lang,
    "c06" p_robust,
    "c07" p_token,
    "c08" p_module,
    "c09" p_path,
    "c10" p_app,
    "c11" p_int,
    "c12" p_uint,
    "c13" p_float,
    "c14" p_any,
    "c15" p_handles,
    "c16" p_leak,
    "c17" p_range,
    "c18" p_bits,
    "c19" p_flex,
    "c20" p_arena,
    "c21" p_string,
}

#[global_allocator]
static A: fw::CountingAlloc = fw::CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = run::main(&args[1..]);
    std::process::exit(code);
}
