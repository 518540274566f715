macro_rules! harnesses {
    ($($m:ident: $($f:ident),* $(,)?;)*) => {
        $($( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*)*
        static TABLE: &[(&str, extern "C" fn())] = &[ $($( (stringify!($f), $f), )*)* ];
    };
}
