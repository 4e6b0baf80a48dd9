/// Declares symbolic harnesses: exported entry points for the executor, a table for the replay binary.
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $(#[cfg_attr(not(feature = "native"), no_mangle)]
        #[allow(unused_must_use)]
        pub extern "C-unwind" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub fn list() -> Vec<(&'static str, extern "C-unwind" fn())> {
            vec![$((stringify!($name), $name as extern "C-unwind" fn())),*]
        }
    };
}
/// The same, only compiled for the thorough tier.
macro_rules! deep {
    ($($name:ident $body:block)*) => {
        $(#[cfg(feature = "deep")]
        #[cfg_attr(not(feature = "native"), no_mangle)]
        #[allow(unused_must_use)]
        pub extern "C-unwind" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub fn deep_list() -> Vec<(&'static str, extern "C-unwind" fn())> {
            vec![$(#[cfg(feature = "deep")] (stringify!($name), $name as extern "C-unwind" fn())),*]
        }
    };
}
