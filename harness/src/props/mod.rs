macro_rules! props {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(feature = "native")]
        pub fn list() -> Vec<(&'static str, extern "C-unwind" fn())> {
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = Vec::new();
            $(#[cfg(feature = $f)] v.extend($m::list()); #[cfg(feature = $f)] v.extend($m::deep_list());)*
            v
        }
    };
}
props!("c01" c01, "c02" c02, "c09" c09, "c03" c03, "c22" c22, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c21" c21);
