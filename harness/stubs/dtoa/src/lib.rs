//! Stand-in for the crate of this name: shortest digits that read back as the
//! same number.
#[derive(Default)]
pub struct Buffer(String);

impl Buffer {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn format(&mut self, f: f64) -> &str {
        self.0 = format!("{f:?}");
        &self.0
    }
}
