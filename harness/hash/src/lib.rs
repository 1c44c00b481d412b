pub mod iterlaw;
pub mod key;
pub mod mapm;
pub mod setm;
pub mod tabm;
pub use key::*;
