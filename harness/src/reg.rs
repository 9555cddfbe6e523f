/// Entry points: symbolic ones for the executor, the same ones by name for the replayer.
macro_rules! entries {
    ($($n:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $n() { $f() })*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $f as fn())),*];
    };
}
