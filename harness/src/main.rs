mod sym;
macro_rules! mods {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        fn find(n: &str) -> Option<extern "C" fn()> {
            $(#[cfg(feature = $f)]
            for (k, f) in $m::H {
                if *k == n { return Some(*f); }
            })*
            let _ = n;
            None
        }
    };
}
mods!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c28" c28, "c29" c29, "c30" c30, "c31" c31, "c32" c32, "c35" c35, "c41" c41, "c36" c36, "c40" c40);
extern "C" {
    fn rt_load(p: *const std::os::raw::c_char) -> *const std::os::raw::c_char;
    fn rt_done() -> i32;
}
fn main() {
    let a = std::env::args().nth(1).expect("replay file");
    let c = std::ffi::CString::new(a).unwrap();
    let f = unsafe { std::ffi::CStr::from_ptr(rt_load(c.as_ptr())) }.to_str().unwrap();
    match find(f) {
        Some(h) => h(),
        None => {
            eprintln!("no harness {}", f);
            std::process::exit(4);
        }
    }
    std::process::exit(unsafe { rt_done() });
}
