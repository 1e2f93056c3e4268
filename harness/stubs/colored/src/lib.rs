//! Without colours.
pub trait Colorize: Sized + Into<String> {
    fn bright_cyan(self) -> String {
        self.into()
    }
    fn bright_blue(self) -> String {
        self.into()
    }
    fn bright_green(self) -> String {
        self.into()
    }
    fn bright_red(self) -> String {
        self.into()
    }
    fn bright_yellow(self) -> String {
        self.into()
    }
    fn bold(self) -> String {
        self.into()
    }
}
impl Colorize for &str {}
impl Colorize for String {}
