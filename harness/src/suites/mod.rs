#[cfg(feature = "vecs")]
pub mod vecs;
#[cfg(feature = "strings")]
pub mod strings;
#[cfg(feature = "handles")]
pub mod handles;
#[cfg(feature = "mt")]
pub mod mt;
#[cfg(feature = "scopes")]
pub mod scopes;
#[cfg(feature = "boxes")]
pub mod boxes;
#[cfg(feature = "cmp")]
pub mod cmp;
#[cfg(feature = "sends")]
pub mod sends;
