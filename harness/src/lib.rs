#[path = "all.rs"]
mod all;
#[macro_use]
pub mod api {
    pub use crate::all::api::*;
}
