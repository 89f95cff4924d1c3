use crate::report::Prop;

macro_rules! properties {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        pub fn all() -> &'static [Prop] {
            static ALL: &[Prop] = &[$($m::PROP),*];
            ALL
        }
    };
}

properties! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24 }

/// Writes a scratch file; failure is trouble of the sandbox, not of the code under test.
pub fn write_scratch(f: &std::path::Path, data: &[u8]) {
    if let Err(e) = std::fs::write(f, data) {
        std::panic::panic_any(crate::report::Infra(format!("scratch file: {e}")));
    }
}
