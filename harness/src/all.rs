// Shared between the symbolic build (harness crate, v_* left undefined and
// interpreted by the engine) and the native replay build (replay crate, which
// defines the same v_* symbols on top of a recorded input list).
#[macro_use]
#[allow(dead_code)]
#[path = "api.rs"]
pub mod api;
#[cfg(feature = "c01")]
#[path = "c01.rs"]
pub mod c01;
#[cfg(feature = "c02")]
#[path = "c02.rs"]
pub mod c02;
#[cfg(feature = "c03")]
#[path = "c03.rs"]
pub mod c03;
#[cfg(feature = "c04")]
#[path = "c04.rs"]
pub mod c04;
#[cfg(feature = "c05")]
#[path = "c05.rs"]
pub mod c05;
#[cfg(feature = "c06")]
#[path = "c06.rs"]
pub mod c06;
#[cfg(feature = "c07")]
#[path = "c07.rs"]
pub mod c07;
#[cfg(feature = "c08")]
#[path = "c08.rs"]
pub mod c08;
#[cfg(feature = "c09")]
#[path = "c09.rs"]
pub mod c09;
#[cfg(feature = "c10")]
#[path = "c10.rs"]
pub mod c10;
#[cfg(feature = "c11")]
#[path = "c11.rs"]
pub mod c11;
#[cfg(feature = "c12")]
#[path = "c12.rs"]
pub mod c12;
#[cfg(feature = "c13")]
#[path = "c13.rs"]
pub mod c13;
#[cfg(feature = "c14")]
#[path = "c14.rs"]
pub mod c14;
#[cfg(feature = "c15")]
#[path = "c15.rs"]
pub mod c15;
#[cfg(feature = "c17")]
#[path = "c17.rs"]
pub mod c17;

#[allow(dead_code)]
pub fn tables() -> Vec<&'static [(&'static str, extern "C" fn())]> {
    #[allow(unused_mut)]
    let mut v: Vec<&'static [(&'static str, extern "C" fn())]> = Vec::new();
    #[cfg(feature = "c01")]
    v.push(c01::TABLE);
    #[cfg(feature = "c02")]
    v.push(c02::TABLE);
    #[cfg(feature = "c03")]
    v.push(c03::TABLE);
    #[cfg(feature = "c04")]
    v.push(c04::TABLE);
    #[cfg(feature = "c05")]
    v.push(c05::TABLE);
    #[cfg(feature = "c06")]
    v.push(c06::TABLE);
    #[cfg(feature = "c07")]
    v.push(c07::TABLE);
    #[cfg(feature = "c08")]
    v.push(c08::TABLE);
    #[cfg(feature = "c09")]
    v.push(c09::TABLE);
    #[cfg(feature = "c10")]
    v.push(c10::TABLE);
    #[cfg(feature = "c11")]
    v.push(c11::TABLE);
    #[cfg(feature = "c12")]
    v.push(c12::TABLE);
    #[cfg(feature = "c13")]
    v.push(c13::TABLE);
    #[cfg(feature = "c14")]
    v.push(c14::TABLE);
    #[cfg(feature = "c15")]
    v.push(c15::TABLE);
    #[cfg(feature = "c17")]
    v.push(c17::TABLE);
    v
}
