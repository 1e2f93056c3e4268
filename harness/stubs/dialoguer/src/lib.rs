//! Answers come from a script installed in this thread.
use std::cell::RefCell;
use std::marker::PhantomData;
use std::str::FromStr;
pub enum Q<'a> {
    /// answered with the position of the item
    Select(&'a str, &'a [String]),
    Input(&'a str),
    Password(&'a str),
    /// answered with "y" or anything else
    Confirm(&'a str),
}
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
/// None: the user is gone
pub type Script = Box<dyn FnMut(Q) -> Option<String>>;
thread_local! {
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
}
pub fn script(s: Option<Script>) {
    SCRIPT.with(|x| *x.borrow_mut() = s)
}
fn ask(q: Q) -> Result<String> {
    SCRIPT.with(|x| x.borrow_mut().as_mut().and_then(|s| s(q))).ok_or(Error("end of input".into()))
}
pub mod theme {
    #[derive(Default)]
    pub struct ColorfulTheme;
}
pub struct Select(String, Vec<String>);
impl Select {
    pub fn with_theme(_: &theme::ColorfulTheme) -> Self {
        Self(String::new(), vec![])
    }
    pub fn with_prompt(mut self, p: impl Into<String>) -> Self {
        self.0 = p.into();
        self
    }
    pub fn items<T: ToString>(mut self, i: &[T]) -> Self {
        self.1.extend(i.iter().map(|x| x.to_string()));
        self
    }
    pub fn item(mut self, i: impl ToString) -> Self {
        self.1.push(i.to_string());
        self
    }
    pub fn default(self, _: usize) -> Self {
        self
    }
    pub fn interact(self) -> Result<usize> {
        let n: usize = ask(Q::Select(&self.0, &self.1))?.parse().map_err(|_| Error("no such item".into()))?;
        if n < self.1.len() { Ok(n) } else { Err(Error("no such item".into())) }
    }
}
pub struct Input<T>(String, PhantomData<T>);
impl<T: FromStr> Input<T> {
    pub fn with_theme(_: &theme::ColorfulTheme) -> Self {
        Self(String::new(), PhantomData)
    }
    pub fn with_prompt(mut self, p: impl Into<String>) -> Self {
        self.0 = p.into();
        self
    }
    pub fn default(self, _: T) -> Self {
        self
    }
    pub fn interact_text(self) -> Result<T> {
        // what does not parse is asked again, until the user gives up
        ask(Q::Input(&self.0))?.parse().map_err(|_| Error("not a value".into()))
    }
    pub fn interact(self) -> Result<T> {
        self.interact_text()
    }
}
pub struct Confirm(String);
impl Confirm {
    pub fn with_theme(_: &theme::ColorfulTheme) -> Self {
        Self(String::new())
    }
    pub fn with_prompt(mut self, p: impl Into<String>) -> Self {
        self.0 = p.into();
        self
    }
    pub fn default(self, _: bool) -> Self {
        self
    }
    pub fn interact(self) -> Result<bool> {
        Ok(ask(Q::Confirm(&self.0))? == "y")
    }
}
pub struct Password(String);
impl Password {
    pub fn with_theme(_: &theme::ColorfulTheme) -> Self {
        Self(String::new())
    }
    pub fn with_prompt(mut self, p: impl Into<String>) -> Self {
        self.0 = p.into();
        self
    }
    pub fn interact(self) -> Result<String> {
        ask(Q::Password(&self.0))
    }
}
