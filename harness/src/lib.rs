#![allow(clippy::all)]
pub mod ent;
pub mod store;
pub mod sx;
pub mod world;
pub mod scen;
pub mod round;
pub mod api;
#[cfg(not(feature = "unicache"))]
pub mod step;
#[cfg(not(feature = "unicache"))]
pub mod timer;
pub mod fwd;
pub mod ble;
#[cfg(not(feature = "unicache"))]
pub mod storage;
#[cfg(feature = "unicache")]
pub mod uni;
#[cfg(feature = "disk")]
pub mod wire;
#[cfg(feature = "toml")]
pub mod tomlcfg;

#[macro_export]
macro_rules! harness {
    ($($name:ident => $f:expr;)*) => {
        $( #[no_mangle] pub extern "C" fn $name() { ($f)() } )*
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}

pub fn all_entries() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = vec![];
    v.extend_from_slice(scen::ENTRIES);
    v.extend_from_slice(round::ENTRIES);
    v.extend_from_slice(api::ENTRIES);
    #[cfg(not(feature = "unicache"))]
    v.extend_from_slice(step::ENTRIES);
    #[cfg(not(feature = "unicache"))]
    v.extend_from_slice(timer::ENTRIES);
    v.extend_from_slice(fwd::ENTRIES);
    v.extend_from_slice(ble::ENTRIES);
    #[cfg(not(feature = "unicache"))]
    v.extend_from_slice(storage::ENTRIES);
    #[cfg(feature = "unicache")]
    v.extend_from_slice(uni::ENTRIES);
    #[cfg(feature = "disk")]
    v.extend_from_slice(wire::ENTRIES);
    #[cfg(feature = "toml")]
    v.extend_from_slice(tomlcfg::ENTRIES);
    v
}
