//! Never consulted by the harness.
pub struct BaseDirs;
impl BaseDirs {
    pub fn new() -> Option<Self> {
        None
    }
    pub fn data_dir(&self) -> &std::path::Path {
        std::path::Path::new(".")
    }
}
