/// Declares the harnesses of a module: `fn name [unwind] { body }`.  Each one ends in a reachability goal, so
/// that a harness no execution of which completes is reported as vacuous instead of passing.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() {
                { $body };
                $crate::reach!("end of harness");
            }
        )*
        pub const ALL: &[(&str, fn())] = &[ $( $(#[$m])* (concat!(module_path!(), "::", stringify!($name)), $name as fn()) ),* ];
    };
}
/// Reachability goal: some execution gets here.
#[macro_export]
macro_rules! reach {
    ($label:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $label);
        #[cfg(not(kani))]
        println!("REACHED {}", $label);
    }};
    ($cond:expr, $label:literal) => {{
        #[cfg(kani)]
        kani::cover!($cond, $label);
        #[cfg(not(kani))]
        if $cond {
            println!("REACHED {}", $label);
        }
    }};
}
