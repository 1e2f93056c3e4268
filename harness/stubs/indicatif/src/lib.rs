pub struct ProgressBar;
pub struct ProgressStyle;
